"""Contracts of similarity: equal content, whatever the identity of the objects."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract
from .spec import u_, v_, w_, t_, k_, i_
from .queries import OnGraph, OnNode
from .relatives import Wrapper

n_, m_ = z3.Consts('n m', V)
veq = ufn('veq', V, V, B)
params_eq = ufn('content_eq', D, D, B)
style_text = ufn('style_text', V, I)


def same_keys(d, e):
	k = z3.Const('k_same', V)
	return FA([k], ddom(d, k) == ddom(e, k), [ddom(d, k), ddom(e, k)])


def as_many(d, e):
	"""valid: dictionaries with the same keys have as many, and if one has all keys of the other and as many, the keys are the same"""
	k = z3.Const('k_many', V)
	n, m = llen(dkeys(d)), llen(dkeys(e))
	within = FA([k], Implies(ddom(d, k), ddom(e, k)), [ddom(d, k)])
	return And(Implies(same_keys(d, e), n == m), Implies(And(n == m, within), same_keys(d, e)))


def visited(d, k, f):
	"""f holds of the first k keys"""
	key = lat(dkeys(d), i_)
	return FA([i_], Implies(And(0 <= i_, i_ < k), f(key)), [key])


class Similar(OnGraph):
	"""the vocabulary: objects similar to each other, in one heap"""
	def __init__(self, suite):
		super().__init__(suite)

	def text(self, H, x):
		st = H.f('_style', x)
		return If(V.is_none(st), NONE, V.s(style_text(st)))

	def obj(self, H, x, y):
		"""value, style and parameters"""
		p = lambda z: H.dct(H.f('_parameters', z))
		return And(veq(H.f('_value', x), H.f('_value', y)), self.text(H, x) == self.text(H, y), params_eq(p(x), p(y)))

	def edge(self, H, x, y):
		return And(self.obj(H, x, y), self.s.edge_id(H, x) == self.s.edge_id(H, y))

	def edges(self, H, d, e):
		return And(same_keys(d, e), FA([t_], Implies(ddom(d, t_), self.edge(H, dget(d, t_), dget(e, t_))), [ddom(d, t_)]))

	def node(self, H, x, y):
		s = self.s
		return And(s.raw(H, x) == s.raw(H, y), self.obj(H, x, y), self.edges(H, s.Od(H, x), s.Od(H, y)), self.edges(H, s.Id(H, x), s.Id(H, y)))

	def graph(self, H, g, h):
		s = self.s
		d, e = s.nd(H, g), s.nd(H, h)
		flag = lambda f: veq(H.f(f, g), H.f(f, h))
		return And(same_keys(d, e), FA([k_], Implies(ddom(d, k_), self.node(H, dget(d, k_), dget(e, k_))), [ddom(d, k_)]), flag('_is_strict'), flag('_ordering'))

	def object_arg(self, ex, st, name, tag):
		x = z3.Const(name, V)
		st.assume(ex.tagf(st, x, tag))
		st.types[x] = tag
		return T(x)


class EdgeSimilar(Similar, Contract):
	key = 'Edge.is_similar_to'
	allocates = False

	def make_args(self, ex, st, case):
		return {'self': self.object_arg(ex, st, 'e', 'Edge'), 'other': self.object_arg(ex, st, 'f', 'Edge')}

	def ok(self, H, e):
		s = self.s
		return And(s.isedge(H, e), s.raw_ok(s.raw(H, e)), self.s.has_content(H, e, 'EdgeStyle'), *[And(s.isnode(H, H.f(f, e)), s.name_ok(s.raw(H, H.f(f, e)))) for f in ('_start', '_end')])

	def requires(self, H, a, ex):
		return [('an edge of a graph', self.ok(H, a['self'])), ('another edge of a graph', self.ok(H, a['other']))]

	def result_tag(self):
		return 'b'

	def ensures(self, H0, H1, a, res, ex):
		return [('equal ends, id, value, style and parameters', res == V.b(self.edge(H0, a['self'], a['other'])))]


class NodeSimilar(Similar, Contract):
	key = 'Node.is_similar_to'
	allocates = False

	def make_args(self, ex, st, case):
		return {'self': self.object_arg(ex, st, 'n', 'Node'), 'other': self.object_arg(ex, st, 'm', 'Node')}

	def requires(self, H, a, ex):
		out = []
		for x, which in ((a['self'], 'the node'), (a['other'], 'the other node')):
			g = H.f('_graph', x)
			out += [(f'{which}: {n}', f) for n, f in self.base(H, g) + self.s.contents(H, g) + [('it is in its graph', And(self.s.isnode(H, x), self.s.innode(H, g, x)))]]
		return out

	def result_tag(self):
		return 'b'

	def dicts(self, H, a):
		s = self.s
		return [(s.Od(H, a['self']), s.Od(H, a['other'])), (s.Id(H, a['self']), s.Id(H, a['other']))]

	def lemmas(self, H, a, ex):
		return [as_many(d, e) for d, e in self.dicts(H, a)]

	def invariants(self, lc):
		H0, a = lc.root['H0'], lc.root['args']
		out = []
		for i, (d, e) in enumerate(self.dicts(H0, a)):
			out.append((f'what was visited is similar ({i})', lambda st, k, vis, d=d, e=e: visited(d, k, lambda t: And(ddom(e, t), self.edge(H0, dget(d, t), dget(e, t))))))
			out.append((f'all were similar ({i})', lambda st, k, vis, d=d, e=e: self.edges(H0, d, e)))
		return out

	def ensures(self, H0, H1, a, res, ex):
		return [('equal name, value, style, parameters and edges', res == V.b(self.node(H0, a['self'], a['other'])))]


class GraphSimilar(Similar, Contract):
	key = 'BasicGraph.is_similar_to'
	allocates = False

	def make_args(self, ex, st, case):
		return {'self': self.object_arg(ex, st, 'g', 'Graph'), 'other': self.object_arg(ex, st, 'h', 'Graph')}

	def requires(self, H, a, ex):
		return [(f'{which}: {n}', f) for x, which in ((a['self'], 'the graph'), (a['other'], 'the other graph')) for n, f in self.base(H, x) + self.s.contents(H, x)]

	def result_tag(self):
		return 'b'

	def lemmas(self, H, a, ex):
		return [as_many(self.s.nd(H, a['self']), self.s.nd(H, a['other']))]

	def invariants(self, lc):
		H0, a = lc.root['H0'], lc.root['args']
		d, e = [self.s.nd(H0, x) for x in (a['self'], a['other'])]
		return [('what was visited is similar', lambda st, k, vis: visited(d, k, lambda t: And(ddom(e, t), self.node(H0, dget(d, t), dget(e, t)))))]

	def ensures(self, H0, H1, a, res, ex):
		g, h = a['self'], a['other']
		x, y = z3.Consts('x_sym y_sym', V)
		d, e = z3.Consts('d_sym e_sym', D)
		symmetric = And(FA([x, y], veq(x, y) == veq(y, x), [veq(x, y)]), FA([d, e], params_eq(d, e) == params_eq(e, d), [params_eq(d, e)]))
		reflexive = And(FA([x], veq(x, x), [veq(x, x)]), FA([d], params_eq(d, d), [params_eq(d, d)]))
		return [('equal names, nodes, edges and settings', res == V.b(self.graph(H0, g, h))),
			('symmetric, if == of the values is', Implies(symmetric, self.graph(H0, g, h) == self.graph(H0, h, g))),
			('a graph is similar to itself, if the values are equal to themselves', Implies(And(reflexive, g == h), res == TRUE))]
