"""Contracts of what reads and writes text."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract
from .spec import u_, v_, w_, t_, k_, i_
from .mutators import Mutator, WARN
from .copies import EdgesRemoved, r_

x_ = z3.Const('x', V)
j_, h_ = z3.Ints('j h')
strlen = ufn('strlen', V, I)
_rstrip = ufn('str.rstrip', V, V, I)
_starts = ufn('str.startswith', V, V, B)
_escape = ufn('re.escape', V, I)
_fits = ufn('indented_by', V, V, B)            # a line is some indentations and then text
_depth = ufn('indentations', V, V, I)          # how many
_match, _indent, _content = ufn('match', V, V, I), ufn('match_indent', V, V, I), ufn('match_name', V, V, I)
_str, _number = ufn('str', V, I), ufn('number_of', V, I)
_lead = ufn('leading_blanks', V, I)
LINE = (r'^(?P<indent>(?:', r')*)(?P<name>\S.*)')
LEAD = r'^[ \t]+'
FOUR = ' ' * 4


def literal(ex, t):
	from pyvc.builtins_ import const_str
	return const_str(ex, t)


def argument(args, kw, i, name, node):
	if len(args) > i:
		return args[i].t
	if name in kw:
		return kw[name].t
	raise Unsupported('regular expression', node)


def re_escape(ex, st, f, args, kw, node):
	return [(st, T(V.s(_escape(argument(args, kw, 0, 'pattern', node)))))]


def re_match(ex, st, f, args, kw, node):
	p, x = argument(args, kw, 0, 'pattern', node), argument(args, kw, 1, 'string', node)
	# literal + re.escape(unit) + literal
	parts = text_parts(p)
	if len(parts) != 3 or (parts[0], parts[2]) != LINE or not (z3.is_app(parts[1]) and parts[1].decl().eq(V.s) and z3.is_app(parts[1].arg(0)) and parts[1].arg(0).decl().eq(_escape)):
		raise Unsupported('regular expression', node)
	b = parts[1]
	ex.trusted.add('the regular expression for a line matches exactly some repetitions of the indentation followed by text that is not blank')
	u = b.arg(0).arg(0)
	out = []
	for s, ok in ex.branch(st, _fits(u, x)):
		if ok:
			s = s.fork().assume(truth_o(_match(u, x)))
			out.append((s, T(V.o(_match(u, x)))))
		else:
			out.append((s, T(NONE)))
	return out


def re_group(ex, st, f, args, kw, node):
	m = f.self_val.t
	m = m.arg(0) if z3.is_app(m) and m.decl().eq(V.o) else m
	if not (z3.is_app(m) and m.decl().eq(_match)) or len(args) != 1:
		raise Unsupported('group', node)
	u, x = m.arg(0), m.arg(1)
	name = literal(ex, args[0].t)
	if name == 'indent':
		r = V.s(_indent(u, x))
		return [(st.fork().assume(And(_depth(u, x) >= 0, Implies(strlen(u) > 0, ufn('floordiv', I, I, I)(strlen(r), strlen(u)) == _depth(u, x)))), T(r))]
	if name == 'name':
		return [(st, T(V.s(_content(u, x))))]
	raise Unsupported('group', node)


def re_findall(ex, st, f, args, kw, node):
	p, x = argument(args, kw, 0, 'pattern', node), argument(args, kw, 1, 'string', node)
	if literal(ex, p) != LEAD:
		raise Unsupported('regular expression', node)
	ex.trusted.add('the regular expression for leading blanks finds them exactly if the line starts with a blank or a tab')
	s = st.fork()
	l = If(Or(_starts(x, lit('\t')), _starts(x, lit(' '))), lapp(lnil, V.s(_lead(x))), lnil)
	c = Fresh.const('found', L)
	s.assume(And(c == l, strlen(V.s(_lead(x))) > 0, _lead(x) != 0))
	return [(s, ex.new_list(s, c))]


class Outline:
	"""the meaning of indented lines"""
	def line(self, a_lines, i):
		return V.s(_rstrip(lat(a_lines, i), lit('\n')))

	def sym(self):
		# the indentation in effect, the level, and whether there was a line with text, before a line
		return ufn('indentation_before', V, L, I, V), ufn('level_before', V, L, I, I), ufn('text_before', V, L, I, B)

	def at(self, ind, ls, i):
		"""of line i: its text, whether it is blank, the indentation, the level"""
		cur, pl, started = self.sym()
		x = self.line(ls, i)
		c = cur(ind, ls, i + 1)
		u = If(V.is_none(c), lit(FOUR), c)
		return x, V.sv(x) == 0, u, pl(ind, ls, i + 1)

	def outline_defs(self, ind, ls):
		cur, pl, started = self.sym()
		step = j_ == i_ + 1
		x = self.line(ls, i_)
		blank = V.sv(x) == 0
		c0, c1 = cur(ind, ls, i_), cur(ind, ls, j_)
		u = If(V.is_none(c1), lit(FOUR), c1)
		inside = And(0 <= i_, i_ < llen(ls))
		P = lambda f: (f(ind, ls, i_), f(ind, ls, j_))
		return [cur(ind, ls, 0) == ind, pl(ind, ls, 0) == 0, Not(started(ind, ls, 0)),
			FA([i_, j_], Implies(And(step, inside), c1 == If(And(V.is_none(c0), Or(_starts(x, lit('\t')), _starts(x, lit(' ')))), V.s(_lead(x)), c0)), [P(cur)]),
			FA([i_, j_], Implies(And(step, inside), pl(ind, ls, j_) == If(blank, pl(ind, ls, i_), _depth(u, x))), [P(pl)]),
			FA([i_, j_], Implies(And(step, inside), started(ind, ls, j_) == Or(started(ind, ls, i_), Not(blank))), [P(started)])]

	def wrong(self, ind, ls, i):
		"""line i is not indented by the indentation, or too deep"""
		cur, pl, started = self.sym()
		x, blank, u, level = self.at(ind, ls, i)
		return And(Not(blank), Or(Not(_fits(u, x)), level > If(started(ind, ls, i), pl(ind, ls, i) + 1, 0)))

	def parent(self, ind, ls, i, p):
		"""p is the nearest line before line i that is one level less deep"""
		cur, pl, started = self.sym()
		x, blank, u, level = self.at(ind, ls, i)
		n = V.iv(p)
		# level_before(j + 1) is the level of line j
		_, blank_n, _, level_n = self.at(ind, ls, n)
		blank_j = V.sv(self.line(ls, h_ - 1)) == 0
		return If(level == 0, V.is_none(p), And(V.is_i(p), 0 <= n, n < i, Not(blank_n), level_n == level - 1,
			FA([h_], Implies(And(n < h_ - 1, h_ - 1 < i, Not(blank_j)), pl(ind, ls, h_) > level - 1), [pl(ind, ls, h_)])))


class ParseIndentations(Outline, Contract):
	key = 'abstract.parse_indentations_function.parse_indentations'

	def cases(self, ex):
		return ['given', 'none']

	def make_args(self, ex, st, case):
		ls = z3.Const('lines', V)
		st.assume(And(ex.tagf(st, ls, 'list'), V.rv(ls) >= 0, V.rv(ls) < ex.comp(st, 'next')))
		st.types[ls] = 'list'
		d = {'lines': T(ls), 'indent': T(NONE)}
		if case == 'given':
			x = z3.Const('indent', V)
			st.assume(V.is_s(x))
			st.types[x] = 's'
			d['indent'] = T(x)
		return d

	def requires(self, H, a, ex):
		ls, ind = H.lst(a['lines']), a['indent']
		return [('the lines are text', FA([x_], Implies(lmem(ls, x_), V.is_s(x_)), [lmem(ls, x_)])), ('the indentation is text or None', Or(V.is_none(ind), And(V.is_s(ind), strlen(ind) > 0)))]

	def lemmas(self, H, a, ex):
		return self.outline_defs(a['indent'], H.lst(a['lines'])) + [strlen(lit(FOUR)) == 4]

	def raises(self, H, a, ex):
		ls = H.lst(a['lines'])
		return [('ValueError', EX([i_], And(0 <= i_, i_ < llen(ls), self.wrong(a['indent'], ls, i_)), [lat(ls, i_)]))]

	def parsed(self, H, a, R, n):
		ls, ind = H.lst(a['lines']), a['indent']
		y = lat(R, i_)
		x, blank, u, level = self.at(ind, ls, i_)
		inside = And(0 <= i_, i_ < n)
		return [('one for every line', llen(R) == n), ('with its number', FA([i_], Implies(inside, And(V.is_t4(y), V.a4(y) == V.i(i_))), [y])),
			('with its level', FA([i_], Implies(inside, V.b4(y) == V.i(level)), [y])),
			('with its text', FA([i_], Implies(inside, V.c4(y) == If(blank, lit(''), V.s(_content(u, x)))), [y])),
			('below the nearest line before it that is one level less deep', FA([i_], Implies(inside, self.parent(ind, ls, i_, V.d4(y))), [y])),
			('no line is wrong', FA([i_], Implies(inside, Not(self.wrong(ind, ls, i_))), [lat(ls, i_)]))]

	def invariants(self, lc):
		H0, a, ex = lc.root['H0'], lc.root['args'], lc.ex
		ls, ind = H0.lst(a['lines']), a['indent']
		cur, pl, started = self.sym()
		out = []
		for m in lc.mod_lists:
			l = lambda st, m=m: lc.lst(st, m)
			e = lambda st, m=m: lat(l(st, m), j_)
			n = lambda st, m=m: V.iv(e(st, m))
			out.append((f'{m}: as long as the last line is deep', lambda st, k, vis, l=l: llen(l(st)) == If(started(ind, ls, k), pl(ind, ls, k) + 1, 0)))
			out.append((f'{m}: the last line of every level', lambda st, k, vis, l=l, e=e, n=n: FA([j_], Implies(And(0 <= j_, j_ < llen(l(st))), And(V.is_i(e(st)), 0 <= n(st), n(st) < k, V.sv(self.line(ls, n(st))) != 0, pl(ind, ls, n(st) + 1) == j_)), [e(st)])))
			out.append((f'{m}: what came later is deeper', lambda st, k, vis, l=l, e=e, n=n: FA([j_, h_], Implies(And(0 <= j_, j_ < llen(l(st)), n(st) < h_ - 1, h_ - 1 < k, V.sv(self.line(ls, h_ - 1)) != 0), pl(ind, ls, h_) > j_), [(e(st), pl(ind, ls, h_))])))
		for m, v in lc.entry.env.items():
			if m in lc.mods.names and isinstance(v, T):
				out.append((f'{m}: the indentation', lambda st, k, vis, m=m: st.env[m].t == cur(ind, ls, k)))
				out.append((f'{m}: nothing or text', lambda st, k, vis, m=m: Or(V.is_none(st.env[m].t), V.is_s(st.env[m].t))))
				out.append((f'{m}: not negative', lambda st, k, vis, m=m: And(V.is_i(st.env[m].t), V.iv(st.env[m].t) >= 0)))
				out.append((f'{m}: the level', lambda st, k, vis, m=m: st.env[m].t == V.i(pl(ind, ls, k))))
		out.append(('the level is a level', lambda st, k, vis: And(pl(ind, ls, k) >= 0, Implies(Not(started(ind, ls, k)), pl(ind, ls, k) == 0))))
		out.append(('the indentation is text', lambda st, k, vis: Or(V.is_none(cur(ind, ls, k)), And(V.is_s(cur(ind, ls, k)), strlen(cur(ind, ls, k)) > 0))))
		for i, (name, _) in enumerate(self.parsed(H0, a, lnil, z3.IntVal(0))):
			out.append((f'so far: {name}', lambda st, k, vis, i=i: self.parsed(H0, a, st.ylist, k)[i][1] if st.ylist is not None else None))
		return out

	def result_tag(self):
		return 'list'

	def make_result(self, ex, st, old_next):
		from pyvc.contract import ListResult
		return ListResult.make_result(self, ex, st, old_next)

	def ensures(self, H0, H1, a, res, ex):
		return [('a new list', And(V.is_r(res), H1.cls(res) == LIST, V.rv(res) >= H0.next))] + self.parsed(H0, a, H1.lst(res), llen(H0.lst(a['lines'])))


class FromIndentedText(Outline, Mutator, Contract):
	key = 'BasicGraph.from_indented_text'
	cost = 2

	def cases(self, ex):
		return ['given', 'none']

	def applies(self, ex, st, env):
		return False

	def make_args(self, ex, st, case):
		d = {'cls': MCls(ex.p.classes['Graph']), 'root': T(z3.Const('root', V))}
		return {**d, **ParseIndentations.make_args(self, ex, st, case)}

	requires = ParseIndentations.requires
	raises = ParseIndentations.raises

	def lemmas(self, H, a, ex):
		ex.trusted.add('str of different integers is different, and not the word root')
		n = _str(V.i(i_))
		return ParseIndentations.lemmas(self, H, a, ex) + [FA([i_], And(_number(V.s(n)) == i_, V.s(n) != lit('root')), [n])]

	def modifies(self, H, a, ex):
		return [WARN]

	def raise_modifies(self, H, a, ex):
		return [WARN]

	def result_tag(self):
		return 'Graph'

	def nodes(self, H, a, g, k):
		nd = self.s.nd(H, g)
		name = V.s(_str(V.i(i_)))
		return [('the root and one node for every line', FA([k_], ddom(nd, k_) == Or(k_ == lit('root'), And(V.is_s(k_), k_ == V.s(_str(V.i(_number(k_)))), 0 <= _number(k_), _number(k_) < k)), [ddom(nd, k_)])),
			('in order', And(llen(dkeys(nd)) == k + 1, lat(dkeys(nd), 0) == lit('root'), FA([i_], Implies(And(0 <= i_, i_ < k), lat(dkeys(nd), i_ + 1) == name), [name]))),
			('the root has its label', H.f('_label', dget(nd, lit('root'))) == a['root'])]

	def edges(self, H, g, k, above):
		"""above(i, p): the node with the name p is above line i"""
		s = self.s
		there = ddom(s.Od(H, u_), t_)
		c = _number(V.b3(t_))
		return FA([u_, t_], Implies(s.innode(H, g, u_), there == And(V.is_t3(t_), V.is_none(V.c3(t_)), V.a3(t_) == s.raw(H, u_), V.is_s(V.b3(t_)), V.b3(t_) == V.s(_str(V.i(c))), 0 <= c, c < k, above(c, V.a3(t_)))), [there])

	def invariants(self, lc):
		H0, a, s, ex = lc.root['H0'], lc.root['args'], self.s, lc.ex
		graphs = [v.t for v in lc.entry.env.values() if isinstance(v, T) and ex.static_tag(lc.entry, v.t) == 'Graph']
		if len(graphs) != 1 or lc.iter is None:
			return []
		g, R = graphs[0], lc.iter
		n0 = lc.root['next0']
		out = []
		for comp in [*EdgesRemoved.COMPS, 'f:_label', 'f:_value', 'f:_style']:
			out.append((f'{comp} of what is older stays', lambda st, k, vis, comp=comp: FA([r_], Implies(r_ < n0, z3.Select(ex.comp(st, comp), r_) == z3.Select(H0.c(comp), r_)), [z3.Select(ex.comp(st, comp), r_)])))
		for i, (name, _) in enumerate(self.whole(H0, g)):
			out.append((f'the invariant: {name}', lambda st, k, vis, i=i: self.whole(ex.view(st), g)[i][1]))
		out += [(n, lambda st, k, vis, i=i: s.newer(ex.view(st), g, n0)[i][1]) for i, (n, _) in enumerate(s.newer(H0, g, n0))]
		for i, (name, _) in enumerate(self.nodes(H0, a, g, z3.IntVal(0))):
			out.append((f'so far: {name}', lambda st, k, vis, i=i: self.nodes(ex.view(st), a, g, k)[i][1]))
		above = lambda i, p: p == If(V.is_none(V.d4(lat(R, i))), lit('root'), V.s(_str(V.d4(lat(R, i)))))
		out.append(('so far: every line below its parent', lambda st, k, vis: self.edges(ex.view(st), g, k, above)))
		def edge(st, k, vis):
			H = ex.view(st)
			p = If(V.is_none(V.d4(lat(R, i_))), lit('root'), V.s(_str(V.d4(lat(R, i_)))))
			name = V.s(_str(V.i(i_)))
			return FA([i_], Implies(And(0 <= i_, i_ < k), And(ddom(s.nd(H, g), p), ddom(s.Od(H, dget(s.nd(H, g), p)), V.t3(p, name, NONE)))), [name])
		out.append(('so far: an edge to every line', edge))
		out.append(('the settings', lambda st, k, vis: And(ex.view(st).f('_is_strict', g) == TRUE, ex.view(st).f('_style_overwrite_allowed', g) == FALSE)))
		return out

	def ensures(self, H0, H1, a, res, ex):
		s = self.s
		ls, ind = H0.lst(a['lines']), a['indent']
		n = llen(ls)
		above = lambda i, p: self.parent(ind, ls, i, If(p == lit('root'), NONE, V.i(_number(p))))
		there = ddom(s.Od(H1, u_), t_)
		c = _number(V.b3(t_))
		name = V.s(_str(V.i(i_)))
		x = dget(s.nd(H1, res), k_)
		return [('a new graph', V.rv(res) >= H0.next)] + self.nodes(H1, a, res, n) + [
			('every edge goes from the nearest line that is one level less deep, or the root, to a line', FA([u_, t_], Implies(And(s.innode(H1, res, u_), there),
				And(V.is_t3(t_), V.is_none(V.c3(t_)), V.a3(t_) == s.raw(H1, u_), V.is_s(V.b3(t_)), V.b3(t_) == V.s(_str(V.i(c))), 0 <= c, c < n, above(c, V.a3(t_)))), [there])),
			('every line has such an edge', FA([i_], Implies(And(0 <= i_, i_ < n), And(ddom(s.nd(H1, res), name), EX([k_, t_], And(ddom(s.nd(H1, res), k_), ddom(s.Od(H1, x), t_), V.b3(t_) == name), [ddom(s.Od(H1, x), t_)]))), [name]))] + self.keeps(H1, res)
