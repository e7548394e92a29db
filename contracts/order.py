"""Contracts of what tells nodes and edges apart and orders them."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract
from .spec import u_, v_, w_, t_, k_, i_
from .queries import OnGraph, OnNode
from .relatives import Wrapper
from .mutators import Mutator


class OfNodes(Wrapper, OnNode, Contract):
	"""a method of a node that takes another node"""
	def make_args(self, ex, st, case):
		return {'self': self.node_self(ex, st), 'other': T(z3.Const('other', V))}

	def ok(self, H, n):
		s = self.s
		return And(s.isnode(H, n), V.is_i(H.f('_index', n)), s.name_ok(s.raw(H, n)))

	def index(self, H, n):
		return V.iv(H.f('_index', n))


class NodeEq(OfNodes):
	key = 'Node.__eq__'
	equal = True

	def is_other(self, H, a):
		return self.s.isnode(H, a['other'])

	def requires(self, H, a, ex):
		return [('a node', self.ok(H, a['self'])), ('the other object exists', self.s.stored(H, a['other'])), ('a node has an index and a name', Implies(self.is_other(H, a), self.ok(H, a['other'])))]

	def raises(self, H, a, ex):
		return [('TypeError', Not(self.is_other(H, a)))]

	def ensures(self, H0, H1, a, res, ex):
		n, m, s = a['self'], a['other'], self.s
		same = And(H0.f('_index', n) == H0.f('_index', m), s.raw(H0, n) == s.raw(H0, m))
		g = z3.Const('any_graph', V)
		return [('exactly if index and name are equal', res == V.b(same if self.equal else Not(same))),
			('registered nodes of one graph: exactly if they are the same node', Implies(And(s.innode(H0, g, n), s.innode(H0, g, m)), res == V.b((n == m) == self.equal)))]


class NodeNe(NodeEq):
	key = 'Node.__ne__'
	equal = False


class NodeLt(OfNodes):
	key = 'Node.__lt__'

	def requires(self, H, a, ex):
		n, m = a['self'], a['other']
		return [('two nodes', And(self.ok(H, n), self.ok(H, m))), ('nodes with one index are the same node', Implies(self.index(H, n) == self.index(H, m), n == m))]

	def than(self, i, j):
		return i < j

	def ensures(self, H0, H1, a, res, ex):
		return [('as their indices', res == V.b(self.than(self.index(H0, a['self']), self.index(H0, a['other']))))]


class NodeGt(NodeLt):
	key = 'Node.__gt__'

	def than(self, i, j):
		return i > j


class NodeLe(NodeLt):
	key = 'Node.__le__'

	def than(self, i, j):
		return i <= j


class NodeGe(NodeLt):
	key = 'Node.__ge__'

	def than(self, i, j):
		return i >= j


class NodeHash(Wrapper, OnNode, Contract):
	key = 'Node.__hash__'

	def make_args(self, ex, st, case):
		return {'self': self.node_self(ex, st)}

	def requires(self, H, a, ex):
		return [('a node', And(self.s.isnode(H, a['self']), self.s.name_ok(self.s.raw(H, a['self']))))]

	def ensures(self, H0, H1, a, res, ex):
		return [('the hash of the name', res == V.i(ufn('hash', V, I)(self.s.raw(H0, a['self']))))]


class EdgeEq(Wrapper, OnGraph, Contract):
	key = 'GraphObj.__eq__'
	equal = True

	def make_args(self, ex, st, case):
		e = z3.Const('e', V)
		st.assume(ex.tagf(st, e, 'Edge'))
		st.types[e] = 'Edge'
		return {'self': T(e), 'other': T(z3.Const('other', V))}

	def ok(self, H, e):
		s = self.s
		return And(s.isedge(H, e), s.isgraph(H, H.f('_graph', e)), s.raw_ok(s.raw(H, e)), *[And(s.isnode(H, H.f(f, e)), s.name_ok(s.raw(H, H.f(f, e)))) for f in ('_start', '_end')])

	def is_other(self, H, a):
		return self.s.isedge(H, a['other'])

	def requires(self, H, a, ex):
		return [('an edge of a graph', self.ok(H, a['self'])), ('the other object exists', self.s.stored(H, a['other'])), ('an edge is one of a graph', Implies(self.is_other(H, a), self.ok(H, a['other'])))]

	def raises(self, H, a, ex):
		other = self.is_other(H, a)
		return [('TypeError', Not(other)), ('ValueError', And(other, H.f('_graph', a['self']) != H.f('_graph', a['other'])))]

	def ensures(self, H0, H1, a, res, ex):
		e, f, s = a['self'], a['other'], self.s
		same = s.edge_id(H0, e) == s.edge_id(H0, f)
		g = H0.f('_graph', e)
		recorded = lambda x: And(s.innode(H0, g, H0.f('_start', x)), ddom(s.Od(H0, H0.f('_start', x)), s.edge_id(H0, x)), dget(s.Od(H0, H0.f('_start', x)), s.edge_id(H0, x)) == x)
		return [('exactly if the ids are equal', res == V.b(same if self.equal else Not(same))),
			('recorded edges of one graph: exactly if they are the same edge', Implies(And(recorded(e), recorded(f)), res == V.b((e == f) == self.equal)))]


class EdgeNe(EdgeEq):
	key = 'GraphObj.__ne__'
	equal = False


class GenerateNodeIndex(Mutator, Contract):
	key = 'BasicGraph.generate_node_index'

	def make_args(self, ex, st, case):
		return {'self': self.graph_arg(ex, st)}

	def requires(self, H, a, ex):
		return [('the graph', self.s.isgraph(H, a['self'])), ('the counter is a number', V.is_i(H.f('_node_counter', a['self'])))]

	def modifies(self, H, a, ex):
		return [('f:_node_counter', V.rv(a['self']))]

	def result_tag(self):
		return 'i'

	def ensures(self, H0, H1, a, res, ex):
		c = lambda H: H.f('_node_counter', a['self'])
		return [('the counter, which grows', And(res == c(H0), c(H1) == V.i(V.iv(c(H0)) + 1)))]


class ChildRank(Wrapper, OnNode, Contract):
	key = 'Node.get_child_rank'

	def make_args(self, ex, st, case):
		p = z3.Const('p', V)
		st.assume(ex.tagf(st, p, 'Node'))
		st.types[p] = 'Node'
		return {'self': self.node_self(ex, st), 'parent': T(p)}

	def requires(self, H, a, ex):
		s, n, p = self.s, a['self'], a['parent']
		g = H.f('_graph', n)
		return self.base_node(H, n) + s.ordered(H, g) + [('the parent is a node of the graph', And(s.isnode(H, p), s.innode(H, g, p)))]

	def lemmas(self, H, a, ex):
		return self.s.rel(H, H.f('_graph', a['self'])).defs()

	def raises(self, H, a, ex):
		r = self.s.rel(H, H.f('_graph', a['self']))
		return [('ValueError', Not(r.ch(a['parent'], a['self'])))]

	def ensures(self, H0, H1, a, res, ex):
		s, n = self.s, a['self']
		es = dvals(s.Od(H0, a['parent']))
		ix = lambda x: V.iv(H0.f('_index', x))
		l, m = z3.Consts('l_rank m_rank', L)
		j = z3.Int('j_rank')
		k = V.iv(res)
		children = And(llen(m) == llen(es), FA([i_], Implies(And(0 <= i_, i_ < llen(m)), lat(m, i_) == H0.f('_end', lat(es, i_))), [lat(m, i_)]))
		order = FA([i_, j], Implies(And(0 <= i_, i_ < j, j < llen(l)), ix(lat(l, i_)) <= ix(lat(l, j))), [(lat(l, i_), lat(l, j))])
		first = FA([i_], Implies(And(0 <= i_, i_ < k), ix(lat(l, i_)) < ix(n)), [lat(l, i_)])
		return [('the first position in the children, ordered by index', And(V.is_i(res), EX([l, m], And(lperm(l, m), children, order, 0 <= k, k < llen(l), lat(l, k) == n, first), [lperm(l, m)])))]
