"""Contracts of what follows the links between objects of the user: objects that tell their children and parents."""
from types import SimpleNamespace
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract
from .spec import u_, v_, w_, t_, k_, i_
from .relatives import Distances, lit_bool, x_, y_
from .mutators import Mutator, WARN
from .copies import EdgesRemoved, r_

UNIVERSE = z3.Const('objects', L)      # the objects that can be reached: finitely many
_kids, _pars = ufn('children_of', V, L), ufn('parents_of', V, L)
_hash, _unhash = ufn('hash_of', V, I), ufn('object_of', I, V)
OBJECTS = ('the objects of the user: __children__ and __parents__ return the same objects every time and change nothing, finitely many objects can be reached, '
	'and they are equal only to themselves')


def links(f):
	def call(ex, st, m, args, kw, node):
		ex.trusted.add(OBJECTS)
		if args or kw:
			raise Unsupported('links with arguments', node)
		s = st.fork()
		return [(s, ex.new_list(s, f(m.self_val.t)))]
	return call


def object_hash(ex, st, m, args, kw, node):
	ex.trusted.add('the hash of an object of the user is a number that stays the same')
	return [(st, T(V.i(_hash(m.self_val.t))))]


class Linked:
	"""functions of one object"""
	def obj(self, ex, st):
		ex.opaque_eq = 'identity'
		o = z3.Const('obj', V)
		st.assume(V.is_o(o))
		st.types[o] = 'o'
		return T(o)

	def world(self, a):
		out = [('the object', lmem(UNIVERSE, a['obj'])), ('objects', FA([x_], Implies(lmem(UNIVERSE, x_), V.is_o(x_)), [lmem(UNIVERSE, x_)]))]
		for n, f in (('children', _kids), ('parents', _pars)):
			out.append((f'{n} are objects', FA([x_, y_], Implies(And(lmem(UNIVERSE, x_), lmem(f(x_), y_)), lmem(UNIVERSE, y_)), [lmem(f(x_), y_)])))
		return out

	def way(self, forward):
		f, k = (_kids, 'down') if forward else (_pars, 'up')
		step = lambda x, y: lmem(f(x), y)
		tc = ufn(f'linked_{k}', V, V, B)
		return step, tc, ufn(f'links_{k}', V, V, I), ufn(f'on_links_{k}', V, V, I, V), ufn(f'asked_links_{k}', V, V, I, B)


class Levels(Linked, Distances, Contract):
	"""get_descendants, get_ancestors"""
	cost = 3

	def cases(self, ex):
		return ['list', 'list within', 'distances', 'distances within']

	def limit(self, a):
		return a[self.limit_name]

	def applies(self, ex, st, env):
		return isinstance(env['distance'], T) and z3.simplify(env['distance'].t).eq(FALSE) and isinstance(env['obj'], T) and ex.static_tag(st, env['obj'].t) == 'o'

	def make_args(self, ex, st, case):
		d = {'obj': self.obj(ex, st), 'distance': T(TRUE if case.startswith('distances') else FALSE), self.limit_name: T(NONE)}
		if case.endswith('within'):
			n = z3.Const(self.limit_name, V)
			st.assume(V.is_i(n))
			st.types[n] = 'i'
			d[self.limit_name] = T(n)
		return d

	def requires(self, H, a, ex):
		return self.world(a) + [('the limit is a number or None', Or(V.is_none(self.limit(a)), V.is_i(self.limit(a))))]

	def dist(self, H, g, n):
		step, tc, d, on, asked = self.way(self.forward)
		r = SimpleNamespace(node=lambda x: And(V.is_o(x), lmem(UNIVERSE, x)))
		return r, step, lambda y: tc(n, y), lambda y: d(n, y), lambda y, k: on(n, y, k), lambda y, k: asked(n, y, k)

	def wanted(self, reach, n):
		return lambda y: And(reach(y), y != n)

	def within(self, a, y):
		m = self.limit(a)
		d = self.dist(None, None, a['obj'])[3]
		return Or(V.is_none(m), d(y) <= V.iv(m))

	def lemmas(self, H, a, ex):
		n = a['obj']
		r, step, reach, d, on, asked = self.dist(H, None, n)
		return self.dist_defs(H, None, n) + [
			FA([y_], Implies(step(n, y_), reach(y_)), [step(n, y_)]),
			FA([x_, y_], Implies(And(reach(x_), step(x_, y_)), reach(y_)), [(reach(x_), step(x_, y_))]),
			FA([y_], Implies(reach(y_), lmem(UNIVERSE, y_)), [reach(y_)])]

	def result_tag(self):
		return None

	def make_result(self, ex, st, old_next):
		from pyvc.contract import ListResult
		return ListResult.make_result(self, ex, st, old_next)

	def invariants(self, lc):
		a = lc.root['args']
		n = a['obj']
		r, step, reach, d, on, asked = self.dist(None, None, n)
		out = self.dist_pool(lc, None, n)
		for m in lc.mod_lists:
			out.append((f'{m}: objects', lambda st, k, vis, m=m: FA([x_], Implies(lmem(lc.lst(st, m), x_), lmem(UNIVERSE, x_)), [lmem(lc.lst(st, m), x_)])))
		for D in lc.dicts:
			out.append((f'{D}: not beyond the limit', lambda st, k, vis, D=D: Or(V.is_none(self.limit(a)), llen(dkeys(lc.dct(st, D))) == 0, llen(dkeys(lc.dct(st, D))) <= V.iv(self.limit(a)))))
		return out

	def ensures(self, H0, H1, a, res, ex):
		n = a['obj']
		r, step, reach, d, on, asked = self.dist(H0, None, n)
		want = self.wanted(reach, n)
		within = lambda y: self.within(a, y)
		if lit_bool(a, 'distance'):
			D = H1.dct(res)
			lev = lambda k: H1.lst(dget(D, k))
			return [('a new dictionary', And(V.is_r(res), H1.cls(res) == DICT, V.rv(res) >= H0.next)),
				('keys are distances from one without gaps', FA([k_], ddom(D, k_) == And(V.is_i(k_), 1 <= V.iv(k_), V.iv(k_) <= llen(dkeys(D))), [ddom(D, k_)])),
				('lists without duplicates and not empty', FA([k_], Implies(ddom(D, k_), And(V.is_r(dget(D, k_)), H1.cls(dget(D, k_)) == LIST, V.rv(dget(D, k_)) >= H0.next, nodup(lev(k_)), llen(lev(k_)) > 0)), [ddom(D, k_)])),
				('only relatives within the limit, at their distance', FA([k_, y_], Implies(And(ddom(D, k_), lmem(lev(k_), y_)), And(want(y_), within(y_), d(y_) == V.iv(k_))), [lmem(lev(k_), y_)])),
				('every relative within the limit at its distance', FA([y_], Implies(And(want(y_), within(y_)), And(ddom(D, V.i(d(y_))), lmem(lev(V.i(d(y_))), y_))), [reach(y_)]))]
		R = H1.lst(res)
		return [('a new list', And(V.is_r(res), H1.cls(res) == LIST, V.rv(res) >= H0.next)), ('exactly the relatives within the limit', FA([y_], lmem(R, y_) == And(want(y_), within(y_)), [lmem(R, y_), reach(y_)])), ('no duplicates', nodup(R))]

	def variant(self, ex, head, st, node):
		again = z3.BoolVal(False)
		for s2, f in ex.cond(node.test, st.fork()):
			again = Or(again, And(*s2.pc[len(st.pc):], f))
		for m, k in ex.list_vars(head):
			if k == 'list' and isinstance(st.env.get(m), T):
				l0, l1 = ex.lst(head, head.env[m].t), ex.lst(st, st.env[m].t)
				if ex.valid(head, And(nodup(l0), FA([x_], Implies(lmem(l0, x_), lmem(UNIVERSE, x_)), [lmem(l0, x_)]))) and ex.valid(st, Implies(again, llen(l1) > llen(l0))):
					return Implies(again, llen(l1) > llen(l0))
		return None


class ObjectDescendants(Levels):
	key = 'abstract.get_descendants.get_descendants'
	limit_name = 'max_depth'
	forward = True


class ObjectAncestors(Levels):
	key = 'abstract.get_ancestors.get_ancestors'
	limit_name = 'max_height'
	forward = False


class FromObject(Linked, Mutator, Contract):
	key = 'BasicGraph.from_object'
	cost = 3

	def make_args(self, ex, st, case):
		d = {'cls': MCls(ex.p.classes['Graph']), 'obj': self.obj(ex, st)}
		for n in ('strict', 'max_depth', 'max_height'):
			d[n] = T(z3.Const(n, V))
		return d

	def applies(self, ex, st, env):
		return False

	def requires(self, H, a, ex):
		ex.trusted.add('different objects of the user have different hashes')
		return self.world(a) + [(f'{n} is a number or None', Or(V.is_none(a[n]), V.is_i(a[n]))) for n in ('max_depth', 'max_height')] + [('strictness is true or false', V.is_b(a['strict']))]

	def lemmas(self, H, a, ex):
		# the objects have different hashes
		out = [FA([x_], Implies(lmem(UNIVERSE, x_), _unhash(_hash(x_)) == x_), [_hash(x_)])]
		for up in (False, True):
			tc = self.way(not up)[1]
			out.append(FA([y_], Implies(tc(a['obj'], y_), lmem(UNIVERSE, y_)), [tc(a['obj'], y_)]))
		return out

	def result_tag(self):
		return 'Graph'

	def modifies(self, H, a, ex):
		return [WARN]

	def found(self, a, x, up):
		step, tc, d, _, _ = self.way(not up)
		m = a['max_height' if up else 'max_depth']
		return Or(x == a['obj'], And(tc(a['obj'], x), Or(V.is_none(m), d(a['obj'], x) <= V.iv(m))))

	def link(self, a, p, c, up):
		"""the links that are looked for: among the descendants by their parents, among the ancestors by their children"""
		return And(self.found(a, p, up), self.found(a, c, up), lmem(_kids(p), c) if up else lmem(_pars(c), p))

	def nodes(self, H, g, found):
		nd = self.s.nd(H, g)
		x = _unhash(V.iv(k_))
		n = dget(nd, k_)
		return [('a node for every object', FA([k_], ddom(nd, k_) == And(V.is_i(k_), _hash(x) == V.iv(k_), lmem(UNIVERSE, x), found(x)), [ddom(nd, k_)])),
			('with its text', FA([k_], Implies(ddom(nd, k_), H.f('_label', n) == V.s(ufn('str', V, I)(x))), [ddom(nd, k_)]))]

	def edges(self, H, g, done):
		s = self.s
		there = ddom(s.Od(H, u_), t_)
		p, c = _unhash(V.iv(V.a3(t_))), _unhash(V.iv(V.b3(t_)))
		shape = And(V.is_t3(t_), V.is_none(V.c3(t_)), V.a3(t_) == s.raw(H, u_), ddom(s.nd(H, g), V.b3(t_)))
		return FA([u_, t_], Implies(s.innode(H, g, u_), there == And(shape, done(p, c))), [there])

	def invariants(self, lc):
		H0, a, s, ex = lc.root['H0'], lc.root['args'], self.s, lc.ex
		graphs = [v.t for v in lc.entry.env.values() if isinstance(v, T) and ex.static_tag(lc.entry, v.t) == 'Graph']
		if len(graphs) != 1 or lc.iter is None:
			return []
		g = graphs[0]
		E = ex.view(lc.entry)
		n0 = lc.root['next0']
		out = []
		for comp in [*EdgesRemoved.COMPS, 'f:_label', 'f:_value', 'f:_style']:
			out.append((f'{comp} of what is older stays', lambda st, k, vis, comp=comp: FA([r_], Implies(r_ < n0, z3.Select(ex.comp(st, comp), r_) == z3.Select(H0.c(comp), r_)), [z3.Select(ex.comp(st, comp), r_)])))
		for i, (name, _) in enumerate(self.whole(H0, g)):
			out.append((f'the invariant: {name}', lambda st, k, vis, i=i: self.whole(ex.view(st), g)[i][1]))
		out += [(n, lambda st, k, vis, i=i: s.newer(ex.view(st), g, n0)[i][1]) for i, (n, _) in enumerate(s.newer(H0, g, n0))]
		anyone = lambda x: Or(self.found(a, x, False), self.found(a, x, True))
		for i, (name, _) in enumerate(self.nodes(H0, g, anyone)):
			out.append((name, lambda st, k, vis, i=i: self.nodes(ex.view(st), g, anyone)[i][1]))
			if i == 0:
				out.append((f'so far: {name}', lambda st, k, vis, i=i: self.nodes(ex.view(st), g, lambda x: Or(x == a['obj'], lmem(vis, x)))[i][1]))
		out.append(('no edges', lambda st, k, vis: FA([u_], Implies(s.innode(ex.view(st), g, u_), And(s.Od(ex.view(st), u_) == dnil, s.Id(ex.view(st), u_) == dnil)), [ddom(s.nd(ex.view(st), g), s.raw(ex.view(st), u_))])))
		seen = lambda p, c, up, vis: And(self.link(a, p, c, up), lmem(vis, p if up else c))
		for up in (False, True):
			w = 'ancestors' if up else 'descendants'
			links = z3.is_app(lc.iter) and any(lc.iter.decl().eq(f) for f in (_kids, _pars))
			if not links:
				out.append((f'the links of {w} so far', lambda st, k, vis, up=up: self.edges(ex.view(st), g, lambda p, c: seen(p, c, up, vis))))
				out.append((f'all other links, and the links of {w} so far', lambda st, k, vis, up=up: self.edges(ex.view(st), g, lambda p, c: Or(self.link(a, p, c, not up), seen(p, c, up, vis)))))
			if links and lc.iter.decl().eq(_kids if up else _pars):
				x = lc.iter.arg(0)
				def more(st, k, vis, up=up, x=x):
					H = ex.view(st)
					there, was = ddom(s.Od(H, u_), t_), ddom(s.Od(E, u_), t_)
					p, c = _unhash(V.iv(V.a3(t_))), _unhash(V.iv(V.b3(t_)))
					shape = And(V.is_t3(t_), V.is_none(V.c3(t_)), V.a3(t_) == s.raw(H, u_), ddom(s.nd(H, g), V.b3(t_)))
					one, other = (p, c) if up else (c, p)
					return FA([u_, t_], Implies(s.innode(H, g, u_), there == Or(was, And(shape, one == x, self.found(a, other, up), lmem(vis, other)))), [there, was])
				out.append((f'the links among {w} that this object tells so far', more))
		out.append(('the nodes stay', lambda st, k, vis: s.nd(ex.view(st), g) == s.nd(E, g)))
		out.append(('the settings', lambda st, k, vis: And(ex.view(st).f('_is_strict', g) == a['strict'], ex.view(st).f('_style_overwrite_allowed', g) == FALSE)))
		return out

	def ensures(self, H0, H1, a, res, ex):
		anyone = lambda x: Or(self.found(a, x, False), self.found(a, x, True))
		return [('a new graph', V.rv(res) >= H0.next), ('strictness', H1.f('_is_strict', res) == a['strict'])] + self.nodes(H1, res, anyone) + [
			('an edge for every link', self.edges(H1, res, lambda p, c: Or(self.link(a, p, c, False), self.link(a, p, c, True))))] + self.keeps(H1, res)
