"""Contracts of what makes whole graphs: random graphs."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract
from .spec import u_, v_, w_, t_, k_, i_
from .mutators import Mutator, WARN
from .copies import EdgesRemoved, r_

x_ = z3.Const('x', V)
j_ = z3.Int('j')
R = z3.RealSort()
_draw = ufn('draw', V, I, R)          # the number that is drawn nth after the generator was in this state
_seeded = ufn('seeded', V, V)
_str = ufn('str', V, I)
_unstr = ufn('number_of', V, I)
_rows = ufn('rows', I, I, I)
ORIGIN, COUNT = ('random', z3.IntVal(0)), ('random', z3.IntVal(1))


def generator(ex, st):
	a = ex.comp(st, 'random')
	return z3.Select(a, 0), V.iv(z3.Select(a, 1))


def uniform(ex, st, f, args, kw, node):
	ex.trusted.add('random.uniform(0, 1) returns the next number of a sequence that depends on the seed only, at least 0 and below 1')
	if kw or len(args) != 2 or not all(isinstance(x, T) for x in args) or not (args[0].t.eq(V.i(z3.IntVal(0))) and args[1].t.eq(V.i(z3.IntVal(1)))):
		raise Unsupported('random.uniform of something else than 0 and 1', node)
	s = st.fork()
	o, n = generator(ex, s)
	x = _draw(o, n)
	s.assume(And(x >= 0, x < 1))
	ex.setcomp(s, 'random', z3.IntVal(1), V.i(n + 1))
	return [(s, T(V.f(x)))]


def seed(ex, st, f, args, kw, node):
	ex.trusted.add('random.seed(x) puts the generator in a state that depends on x only')
	if kw or len(args) != 1:
		raise Unsupported('random.seed', node)
	s = st.fork()
	ex.setcomp(s, 'random', z3.IntVal(0), _seeded(ex.toV(s, args[0], node)))
	ex.setcomp(s, 'random', z3.IntVal(1), V.i(0))
	return [(s, T(NONE))]


class Random(Mutator, Contract):
	key = 'GraphWithoutDisplay.random'

	def cases(self, ex):
		return ['float', 'int']

	def applies(self, ex, st, env):
		return False

	def make_args(self, ex, st, case):
		d = {'cls': MCls(ex.p.classes['Graph'])}
		for n in ('num_nodes', 'strict', 'cycle', 'start_index', 'connection_probability', 'ordering', 'seed'):
			d[n] = T(z3.Const(n, V))
		for n in ('num_nodes', 'start_index'):
			st.assume(V.is_i(d[n].t))
			st.types[d[n].t] = 'i'
		p = d['connection_probability'].t
		st.assume(V.is_f(p) if case == 'float' else V.is_i(p))
		st.types[p] = 'f' if case == 'float' else 'i'
		return d

	def requires(self, H, a, ex):
		b = lambda n: V.is_b(a[n])
		return [('flags', And(b('strict'), b('cycle'), b('ordering'))), ('the generator has a state', V.is_i(z3.Select(H.c('random'), 1))), ('the seed', Not(V.is_r(a['seed'])))]

	def name(self, a, i):
		return V.s(_str(V.i(i + V.iv(a['start_index']))))

	def ix(self, a, x):
		return _unstr(x) - V.iv(a['start_index'])

	def n(self, a):
		return V.iv(a['num_nodes'])

	def p(self, a):
		p = a['connection_probability']
		return If(V.is_f(p), V.fv(p), z3.ToReal(V.iv(p)))

	def lemmas(self, H, a, ex):
		ex.trusted.add('str of different integers is different')
		n = self.n(a)
		return [FA([i_], _unstr(V.s(_str(V.i(i_)))) == i_, [_str(V.i(i_))]), FA([k_, i_], And(_draw(k_, i_) >= 0, _draw(k_, i_) < 1), [_draw(k_, i_)]), _rows(n, 0) == 0, FA([i_, j_], Implies(And(i_ >= 0, j_ == i_ + 1), _rows(n, j_) == _rows(n, i_) + n), [(_rows(n, i_), _rows(n, j_))])]

	def modifies(self, H, a, ex):
		return [WARN, ORIGIN, COUNT]

	def result_tag(self):
		return 'Graph'

	def start(self, H0, a):
		"""the state of the generator and the number that was drawn before the first pair"""
		given = Not(V.is_none(a['seed']))
		o, n = z3.Select(H0.c('random'), 0), V.iv(z3.Select(H0.c('random'), 1))
		return If(given, _seeded(a['seed']), o), If(given, 0, n)

	def nodes(self, H, a, g, k):
		nd = self.s.nd(H, g)
		return [('as many nodes', llen(dkeys(nd)) == If(k >= 0, k, 0)), ('the names, in order', FA([i_], Implies(And(0 <= i_, i_ < k), lat(dkeys(nd), i_) == self.name(a, i_)), [lat(dkeys(nd), i_)])),
			('exactly the names', FA([k_], ddom(nd, k_) == And(V.is_s(k_), k_ == self.name(a, self.ix(a, k_)), 0 <= self.ix(a, k_), self.ix(a, k_) < k), [ddom(nd, k_)]))]

	def edges(self, H0, H, a, g, done):
		s = self.s
		o, c = self.start(H0, a)
		i, j = self.ix(a, V.a3(t_)), self.ix(a, V.b3(t_))
		nd = s.nd(H, g)
		shape = And(V.is_t3(t_), V.is_none(V.c3(t_)), V.a3(t_) == s.raw(H, u_), ddom(nd, V.b3(t_)))
		drawn = _draw(o, c + _rows(self.n(a), i) + j) < self.p(a)
		return [('an edge for every pair that was drawn', FA([u_, t_], Implies(s.innode(H, g, u_), ddom(s.Od(H, u_), t_) == And(shape, done(i, j), Or(a['cycle'] == TRUE, i < j), drawn)), [ddom(s.Od(H, u_), t_)]))]

	def invariants(self, lc):
		H0, a, s, ex = lc.root['H0'], lc.root['args'], self.s, lc.ex
		graphs = [v.t for v in lc.entry.env.values() if isinstance(v, T) and ex.static_tag(lc.entry, v.t) == 'Graph']
		if len(graphs) != 1:
			return []
		g = graphs[0]
		out = []
		for i, (name, _) in enumerate(self.whole(H0, g)):
			out.append((f'the invariant: {name}', lambda st, k, vis, i=i: self.whole(ex.view(st), g)[i][1]))
		n0 = lc.root['next0']
		for comp in EdgesRemoved.COMPS:
			out.append((f'{comp} of what is older stays', lambda st, k, vis, comp=comp: FA([r_], Implies(r_ < n0, z3.Select(ex.comp(st, comp), r_) == z3.Select(H0.c(comp), r_)), [z3.Select(ex.comp(st, comp), r_)])))
		out += [(n, lambda st, k, vis, i=i: s.newer(ex.view(st), g, n0)[i][1]) for i, (n, _) in enumerate(s.newer(H0, g, n0))]
		for i, (name, _) in enumerate(self.nodes(H0, a, g, z3.IntVal(0))):
			out.append((f'so far: {name}', lambda st, k, vis, i=i: self.nodes(ex.view(st), a, g, k)[i][1]))
			out.append((name, lambda st, k, vis, i=i: self.nodes(ex.view(st), a, g, self.n(a))[i][1]))
		o, c = self.start(H0, a)
		n = self.n(a)
		def drawn(st, x):
			go, gn = generator(ex, st)
			return And(go == o, gn == x)
		E = lambda st, done: self.edges(H0, ex.view(st), a, g, done)[0][1]
		out.append(('no edges', lambda st, k, vis: FA([u_], Implies(s.innode(ex.view(st), g, u_), And(s.Od(ex.view(st), u_) == dnil, s.Id(ex.view(st), u_) == dnil)), [ddom(s.nd(ex.view(st), g), s.raw(ex.view(st), u_))])))
		out.append(('edges of the rows that are complete', lambda st, k, vis: E(st, lambda i, j: i < k)))
		out.append(('numbers drawn for the rows that are complete', lambda st, k, vis: drawn(st, c + _rows(n, k))))
		for m, v in lc.entry.env.items():
			if isinstance(v, T) and z3.is_app(v.t) and v.t.decl().eq(lat) and m not in lc.mods.names:
				row = V.iv(v.t) - V.iv(a['start_index'])
				out.append((f'edges of the rows before {m}, and of this row so far', lambda st, k, vis, row=row: E(st, lambda i, j: Or(i < row, And(i == row, j < k)))))
				out.append((f'numbers drawn for the rows before {m}, and for this row so far', lambda st, k, vis, row=row: drawn(st, c + _rows(n, row) + k)))
		out.append(('the settings', lambda st, k, vis: And(*[ex.view(st).f(f, g) == v for f, v in self.settings(a)])))
		return out

	def settings(self, a):
		return [('_is_strict', a['strict']), ('_ordering', a['ordering']), ('_style_overwrite_allowed', FALSE)]

	def ensures(self, H0, H1, a, res, ex):
		o, c = self.start(H0, a)
		i, j = self.ix(a, V.a3(t_)), self.ix(a, V.b3(t_))
		s = self.s
		n = self.n(a)
		two = And(s.innode(H1, res, u_), V.is_t3(t_), V.is_none(V.c3(t_)), V.a3(t_) == s.raw(H1, u_), ddom(s.nd(H1, res), V.b3(t_)), Or(a['cycle'] == TRUE, i < j))
		there = ddom(s.Od(H1, u_), t_)
		return [('a new graph', V.rv(res) >= H0.next), ('strictness and ordering', And(*[H1.f(f, res) == v for f, v in self.settings(a)]))] + self.nodes(H1, a, res, n) + \
			self.edges(H0, H1, a, res, lambda i, j: z3.BoolVal(True)) + [
			('with probability one all pairs are connected', Implies(self.p(a) >= 1, FA([u_, t_], Implies(two, there), [there]))),
			('with probability zero none', Implies(self.p(a) <= 0, FA([u_, t_], Implies(s.innode(H1, res, u_), Not(there)), [there])))] + self.keeps(H1, res)
