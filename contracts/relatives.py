"""Contracts of siblings, distances, loops, roots, leaves, and of the lists of nodes and edges."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract
from .spec import u_, v_, w_, t_, k_, i_
from .queries import OnGraph, OnNode, set_pool

x_, y_, e_ = z3.Consts('x y e', V)


def lit_bool(a, name):
	"""the truth of an argument that is a literal, or None"""
	v = a.get(name)
	v = getattr(v, 't', v)
	if z3.is_expr(v):
		v = z3.simplify(v)
		if v.eq(TRUE):
			return True
		if v.eq(FALSE):
			return False
	return None


class Wrapper:
	"""verified on its own, and executed in place where it is called"""
	def applies(self, ex, st, env):
		return False


class GraphQuery(Wrapper, OnGraph, Contract):
	has_node = True

	def make_args(self, ex, st, case):
		d = {'self': self.graph_arg(ex, st)}
		if self.has_node:
			d['node'] = T(z3.Const('node', V))
		return d

	def requires(self, H, a, ex):
		out = self.base(H, a['self'])
		if self.has_node:
			out.append(('the node is a name or a node of the graph', self.node_ok(H, a['self'], a['node'])))
		return out

	def raises(self, H, a, ex):
		return [('KeyError', self.missing(H, a['self'], a['node']))] if self.has_node else []

	def lemmas(self, H, a, ex):
		return self.s.rel(H, self.graph(H, a)).tc_defs()

	def graph(self, H, a):
		return a['self']

	def the_node(self, H, a):
		return self.sel(H, a['self'], a['node'])

	def islist(self, H0, H1, res):
		return And(V.is_r(res), H1.cls(res) == LIST, V.rv(res) >= H0.next)


class NodeQuery(GraphQuery, OnNode):
	has_node = False

	def make_args(self, ex, st, case):
		return {'self': self.node_self(ex, st)}

	def requires(self, H, a, ex):
		return self.base_node(H, a['self'])

	def graph(self, H, a):
		return self.graph_of(H, a['self'])

	def the_node(self, H, a):
		return a['self']


def truthy(H, t):
	c = H.cls(t)
	return If(V.is_none(t), False, If(V.is_b(t), V.bv(t), If(V.is_i(t), V.iv(t) != 0, If(V.is_s(t), V.sv(t) != 0,
		If(V.is_f(t), V.fv(t) != 0, If(V.is_o(t), truth_o(V.ov(t)), If(V.is_r(t),
			If(c == LIST, llen(H.lst(t)) > 0, If(Or(c == DICT, c == SET), llen(dkeys(H.dct(t))) > 0, True)), True)))))))


# ---------------------------------------------------------------------- edges of a node
class EdgeList:
	def ensures(self, H0, H1, a, res, ex):
		s, n = self.s, self.the_node(H0, a)
		R = H1.lst(res)
		es = self.listed(H0, n)
		return [('a new list', self.islist(H0, H1, res)), ('exactly the edges, in order', R == es if es is not None else FA([e_], lmem(R, e_) == self.has(H0, n, e_), [lmem(R, e_)])),
			('no duplicates', nodup(R))]


class GetOutwardEdges(EdgeList, GraphQuery):
	key = 'BasicGraph.get_outward_edges'

	def listed(self, H, n):
		return dvals(self.s.Od(H, n))


class GetInwardEdges(EdgeList, GraphQuery):
	key = 'BasicGraph.get_inward_edges'

	def listed(self, H, n):
		return dvals(self.s.Id(H, n))


class EdgesPool:
	def invariants(self, lc):
		return set_pool(lc)


class NodeEdges(EdgesPool, NodeQuery):
	key = 'Node.edges'

	def ensures(self, H0, H1, a, res, ex):
		n, R = self.the_node(H0, a), H1.lst(res)
		o, i = dvals(self.s.Od(H0, n)), dvals(self.s.Id(H0, n))
		return [('a new list', self.islist(H0, H1, res)), ('exactly the outward and inward edges', FA([e_], lmem(R, e_) == Or(lmem(o, e_), lmem(i, e_)), [lmem(R, e_), lmem(o, e_), lmem(i, e_)])),
			('no duplicates', nodup(R))]


class GetEdges(GraphQuery):
	key = 'BasicGraph.get_edges'

	def ensures(self, H0, H1, a, res, ex):
		n, R = self.the_node(H0, a), H1.lst(res)
		return [('a new list', self.islist(H0, H1, res)), ('the outward edges and then the inward edges', R == lcat(dvals(self.s.Od(H0, n)), dvals(self.s.Id(H0, n))))]


# ---------------------------------------------------------------------- counts
class Count(GraphQuery):
	"""a number of relatives"""
	def ensures(self, H0, H1, a, res, ex):
		return [('the number', res == V.i(self.number(H0, self.the_node(H0, a))))]


class Has(GraphQuery):
	def ensures(self, H0, H1, a, res, ex):
		return [('true exactly if there is one', truthy(H1, res) == (self.number(H0, self.the_node(H0, a)) > 0))]


class OutNumber:
	def number(self, H, n):
		return llen(dvals(self.s.Od(H, n)))


class InNumber:
	def number(self, H, n):
		return llen(dvals(self.s.Id(H, n)))


class NumParents(InNumber, Count):
	key = 'BasicGraph.num_parents'


class NumChildren(OutNumber, Count):
	key = 'BasicGraph.num_children'


class HasParents(InNumber, Has):
	key = 'BasicGraph.has_parents'


class HasChildren(OutNumber, Has):
	key = 'BasicGraph.has_children'


class NodeHasParents(InNumber, NodeQuery, Has):
	key = 'Node.has_parents'


class NodeHasChildren(OutNumber, NodeQuery, Has):
	key = 'Node.has_children'


class NodeNumOutwardEdges(OutNumber, NodeQuery, Count):
	key = 'Node.num_outward_edges'


# ---------------------------------------------------------------------- siblings, spouses
class Sharing:
	"""nodes other than n that share a parent (or a child) with it"""
	def sym(self, H, g, n):
		r = self.s.rel(H, g)
		k = 'sib' if self.down else 'spouse'
		f, w = z3.Function(f'{k}#{r.n}', V, V, V, B), z3.Function(f'{k}_via#{r.n}', V, V, V, V)
		return r, lambda x: f(g, n, x), lambda x: w(g, n, x)

	def steps(self, r):
		"""up(x, p): p is a parent of x (for siblings) or a child of x (for spouses); down the other way"""
		if self.down:
			return lambda x, p: r.ch(p, x)
		return lambda x, p: r.ch(x, p)

	def share_defs(self, H, g, n):
		r, sib, via = self.sym(H, g, n)
		up = self.steps(r)
		return [FA([x_], Implies(sib(x_), And(up(n, via(x_)), up(x_, via(x_)), x_ != n, r.node(x_))), [sib(x_)]),
			FA([x_, y_], Implies(And(up(n, y_), up(x_, y_), x_ != n), sib(x_)), [(up(n, y_), up(x_, y_))])]

	def lemmas(self, H, a, ex):
		g = self.graph(H, a)
		return self.s.rel(H, g).defs() + self.share_defs(H, g, self.the_node(H, a))

	def invariants(self, lc):
		H0, a = lc.root['H0'], lc.root['args']
		g, n = self.graph(H0, a), self.the_node(H0, a)
		r, sib, via = self.sym(H0, g, n)
		up = self.steps(r)
		out = set_pool(lc)
		vis_of = lambda vis, x: lmem(vis, x)
		for m in lc.mod_lists:
			lm = lambda st, z, m=m: lmem(lc.lst(st, m), z)
			out += [
				(f'{m}: only what shares', lambda st, k, vis, lm=lm: FA([x_], Implies(lm(st, x_), sib(x_)), [lm(st, x_)])),
			]
			if lc.iter is not None:
				out += [
					(f'{m}: all around what was visited', lambda st, k, vis, lm=lm: FA([x_, y_], Implies(And(lmem(vis, y_), up(x_, y_), x_ != n), lm(st, x_)), [(lmem(vis, y_), up(x_, y_))])),
					(f'{m}: visited but the node', lambda st, k, vis, lm=lm: FA([x_], Implies(And(lmem(vis, x_), x_ != n), lm(st, x_)), [lmem(vis, x_)])),
				]
		raw = lambda x: self.s.raw(H0, x)
		for m in lc.mod_dicts:
			d = lambda st, m=m: lc.dct(st, m)
			old = lc.dct(lc.entry, m)
			out += [
				(f'{m}: by name, only what shares', lambda st, k, vis, d=d: FA([k_], Implies(ddom(d(st), k_), And(sib(dget(d(st), k_)), raw(dget(d(st), k_)) == k_)), [ddom(d(st), k_)])),
				(f'{m} keeps its keys', lambda st, k, vis, d=d, old=old: FA([k_], Implies(ddom(old, k_), And(ddom(d(st), k_), dget(d(st), k_) == dget(old, k_))), [ddom(old, k_)])),
			]
			if lc.iter is not None:
				out += [
					(f'{m}: all around what was visited', lambda st, k, vis, d=d: FA([x_, y_], Implies(And(lmem(vis, y_), up(x_, y_), x_ != n), ddom(d(st), raw(x_))), [(lmem(vis, y_), up(x_, y_))])),
					(f'{m}: visited but the node', lambda st, k, vis, d=d: FA([x_], Implies(And(lmem(vis, x_), x_ != n), ddom(d(st), raw(x_))), [lmem(vis, x_)])),
				]
		return out

	def ensures(self, H0, H1, a, res, ex):
		r, sib, via = self.sym(H0, self.graph(H0, a), self.the_node(H0, a))
		R = H1.lst(res)
		return [('a new list', self.islist(H0, H1, res)), ('exactly the others that share one', FA([x_], lmem(R, x_) == sib(x_), [lmem(R, x_), sib(x_)])), ('no duplicates', nodup(R))]


class GetSiblings(Sharing, GraphQuery):
	key = 'BasicGraph.get_siblings'
	down = True


class GetSpouses(Sharing, GraphQuery):
	key = 'BasicGraph.get_spouses'
	down = False


class NodeSiblings(Sharing, NodeQuery):
	key = 'Node.siblings'
	down = True


class NodeCoParents(Sharing, NodeQuery):
	key = 'Node.co_parents'
	down = False


# ---------------------------------------------------------------------- membership, lists of nodes and edges
class Contains(GraphQuery):
	key = 'BasicGraph.__contains__'
	has_node = False

	def make_args(self, ex, st, case):
		return {'self': self.graph_arg(ex, st), 'item': T(z3.Const('item', V))}

	def requires(self, H, a, ex):
		x = a['item']
		return self.base(H, a['self']) + [('a name or a node', Or(self.s.name_ok(x), And(self.s.isnode(H, x), self.s.name_ok(self.s.raw(H, x)))))]

	def ensures(self, H0, H1, a, res, ex):
		g, x = a['self'], a['item']
		return [('registered', res == V.b(If(V.is_r(x), self.s.innode(H0, g, x), ddom(self.s.nd(H0, g), x))))]


class GetNodeName(GraphQuery):
	key = 'BasicGraph.get_node_name'

	def ensures(self, H0, H1, a, res, ex):
		return [('the name', res == self.s.raw(H0, self.the_node(H0, a)))]


class Nodes(GraphQuery):
	key = 'BasicGraph.nodes'
	has_node = False

	def ensures(self, H0, H1, a, res, ex):
		return [('a new list', self.islist(H0, H1, res)), ('the nodes in order', H1.lst(res) == dvals(self.s.nd(H0, a['self']))), ('no duplicates', nodup(H1.lst(res)))]


class Edges(GraphQuery):
	key = 'BasicGraph.edges'
	has_node = False

	def edge_of(self, H, g, e):
		s = self.s
		u = H.f('_start', e)
		return And(V.is_r(e), V.is_r(u), s.innode(H, g, u), ddom(s.Od(H, u), s.edge_id(H, e)), dget(s.Od(H, u), s.edge_id(H, e)) == e)

	def invariants(self, lc):
		H0, a = lc.root['H0'], lc.root['args']
		g, s = a['self'], self.s
		out = set_pool(lc)
		start, end = lambda e: H0.f('_start', e), lambda e: H0.f('_end', e)
		for m in lc.mod_lists:
			lm = lambda st, z, m=m: lmem(lc.lst(st, m), z)
			out.append((f'{m}: edges of the graph', lambda st, k, vis, lm=lm: FA([e_], Implies(lm(st, e_), self.edge_of(H0, g, e_)), [lm(st, e_)])))
			if lc.iter is not None:
				out.append((f'{m}: all from what was visited', lambda st, k, vis, lm=lm: FA([x_, t_], Implies(And(lmem(vis, x_), ddom(s.Od(H0, x_), t_)), lm(st, dget(s.Od(H0, x_), t_))),
					[(lmem(vis, x_), ddom(s.Od(H0, x_), t_))])))
		for m in lc.mod_dicts:
			d = lambda st, m=m: lc.dct(st, m)
			old = lc.dct(lc.entry, m)
			out += [
				(f'{m}: edges by id', lambda st, k, vis, d=d: FA([t_], Implies(ddom(d(st), t_), And(self.edge_of(H0, g, dget(d(st), t_)), s.edge_id(H0, dget(d(st), t_)) == t_)), [ddom(d(st), t_)])),
				(f'{m} keeps its keys', lambda st, k, vis, d=d, old=old: FA([k_], Implies(ddom(old, k_), ddom(d(st), k_)), [ddom(old, k_)])),
			]
			if lc.iter is not None:
				out += [
					(f'{m}: all from what was visited', lambda st, k, vis, d=d: FA([x_, t_], Implies(And(lmem(vis, x_), ddom(s.Od(H0, x_), t_)), ddom(d(st), t_)), [(lmem(vis, x_), ddom(s.Od(H0, x_), t_))])),
					(f'{m}: all visited', lambda st, k, vis, d=d: FA([e_], Implies(lmem(vis, e_), ddom(d(st), s.edge_id(H0, e_))), [lmem(vis, e_)])),
				]
		return out

	def ensures(self, H0, H1, a, res, ex):
		R = H1.lst(res)
		return [('a new list', self.islist(H0, H1, res)), ('only edges of the graph', FA([e_], Implies(lmem(R, e_), self.edge_of(H0, a['self'], e_)), [lmem(R, e_)])),
			('all edges of the graph', FA([e_], Implies(self.edge_of(H0, a['self'], e_), lmem(R, e_)), [lmem(R, e_)])),
			('no duplicates', nodup(R))]


class EdgesDict(Edges):
	key = 'BasicGraph.edges_dict'

	def ensures(self, H0, H1, a, res, ex):
		R, g, s = H1.dct(res), a['self'], self.s
		return [('a new dictionary', And(V.is_r(res), H1.cls(res) == DICT, V.rv(res) >= H0.next)),
			('edges of the graph by id', FA([t_], Implies(ddom(R, t_), And(self.edge_of(H0, g, dget(R, t_)), s.edge_id(H0, dget(R, t_)) == t_)), [ddom(R, t_)])),
			('all edges of the graph', FA([e_], Implies(self.edge_of(H0, g, e_), ddom(R, s.edge_id(H0, e_))), [ddom(R, s.edge_id(H0, e_))]))]


# ---------------------------------------------------------------------- roots and leaves
class Filtered(GraphQuery):
	"""the nodes with a property, in order"""
	has_node = False

	def invariants(self, lc):
		return set_pool(lc)

	def ensures(self, H0, H1, a, res, ex):
		R = H1.lst(res)
		g = a['self']
		r = self.s.rel(H0, g)
		ns = dvals(self.s.nd(H0, g))
		return [('a new list', self.islist(H0, H1, res)), ('only such nodes', FA([x_], Implies(lmem(R, x_), And(lmem(ns, x_), self.want(H0, r, x_))), [lmem(R, x_)])),
			('all such nodes', FA([x_], Implies(And(lmem(ns, x_), self.want(H0, r, x_)), lmem(R, x_)), [lmem(ns, x_)])),
			('no duplicates', nodup(R))]


class AbsoluteRoots(Filtered):
	key = 'BasicGraph.absolute_roots'

	def want(self, H, r, x):
		return llen(dvals(self.s.Id(H, x))) == 0


class Leaves(Filtered):
	key = 'BasicGraph.leaves'

	def want(self, H, r, x):
		return llen(dvals(self.s.Od(H, x))) == 0


class Roots(GraphQuery):
	key = 'BasicGraph.roots'
	has_node = False

	def invariants(self, lc):
		H0, a = lc.root['H0'], lc.root['args']
		g = a['self']
		r = self.s.rel(H0, g)
		ns = dvals(self.s.nd(H0, g))
		nodes = [n for n, v in lc.entry.env.items() if isinstance(v, T) and lc.ex.static_tag(lc.entry, v.t) == 'Node']
		out = set_pool(lc)
		for m in lc.mod_lists:
			lm = lambda st, z, m=m: lmem(lc.lst(st, m), z)
			old = lc.lst(lc.entry, m)
			out += [
				(f'{m}: nodes', lambda st, k, vis, lm=lm: FA([x_], Implies(lm(st, x_), lmem(ns, x_)), [lm(st, x_)])),
				(f'{m} takes nothing', lambda st, k, vis, lm=lm, old=old: FA([x_], Implies(lm(st, x_), lmem(old, x_)), [lm(st, x_)])),
				(f'{m}: reaches every other node', lambda st, k, vis, lm=lm: FA([x_], Implies(And(lmem(ns, x_), Not(lm(st, x_))), EX([y_], And(lm(st, y_), r.tc(y_, x_)), [(lm(st, y_), r.tc(y_, x_))])), [lmem(ns, x_)])),
			]
			out += [(f'{m} has {n}', lambda st, k, vis, lm=lm, n=n: lm(st, st.env[n].t)) for n in nodes if n not in lc.mods.names]
			if lc.iter is not None:
				out += [
					(f'{m} has nothing that was visited', lambda st, k, vis, lm=lm: FA([x_], Implies(lmem(vis, x_), Not(lm(st, x_))), [lmem(vis, x_), lm(st, x_)])),
					(f'{m} has nothing below what was visited', lambda st, k, vis, lm=lm: FA([x_, y_], Implies(And(lmem(vis, x_), lm(st, x_), r.tc(x_, y_), x_ != y_), Not(lm(st, y_))), [(lmem(vis, x_), r.tc(x_, y_))])),
				]
		return out

	def ensures(self, H0, H1, a, res, ex):
		R = H1.lst(res)
		g = a['self']
		r = self.s.rel(H0, g)
		ns = dvals(self.s.nd(H0, g))
		return [('a new list', self.islist(H0, H1, res)), ('only nodes', FA([x_], Implies(lmem(R, x_), lmem(ns, x_)), [lmem(R, x_)])), ('no duplicates', nodup(R)),
			('every node is a root or below one', FA([x_], Implies(lmem(ns, x_), Or(lmem(R, x_), EX([y_], And(lmem(R, y_), r.tc(y_, x_)), [(lmem(R, y_), r.tc(y_, x_))]))), [lmem(ns, x_)])),
			('no root is below another', FA([x_, y_], Implies(And(lmem(R, x_), lmem(R, y_), x_ != y_), Not(r.tc(x_, y_))), [r.tc(x_, y_)]))]


class LoopNodes(Filtered):
	key = 'BasicGraph.loop_nodes'

	def want(self, H, r, x):
		return r.tc(x, x)


class IsNodeInLoop(GraphQuery):
	key = 'BasicGraph.is_node_in_loop'

	def ensures(self, H0, H1, a, res, ex):
		n = self.the_node(H0, a)
		return [('reaches itself', res == V.b(self.s.rel(H0, self.graph(H0, a)).tc(n, n)))]


class NodeIsInLoop(NodeQuery):
	key = 'Node.is_in_loop'
	ensures = IsNodeInLoop.ensures


class SameLoop(GraphQuery):
	key = 'BasicGraph.are_nodes_in_same_loop'

	def make_args(self, ex, st, case):
		return {'self': self.graph_arg(ex, st), 'node1': T(z3.Const('node1', V)), 'node2': T(z3.Const('node2', V))}

	def requires(self, H, a, ex):
		return self.base(H, a['self']) + [(f'{n} is a name or a node of the graph', self.node_ok(H, a['self'], a[n])) for n in ('node1', 'node2')]

	def raises(self, H, a, ex):
		return [('KeyError', Or(self.missing(H, a['self'], a['node1']), self.missing(H, a['self'], a['node2'])))]

	def ensures(self, H0, H1, a, res, ex):
		r = self.s.rel(H0, a['self'])
		x, y = [self.sel(H0, a['self'], a[n]) for n in ('node1', 'node2')]
		return [('each reaches the other', res == V.b(And(r.tc(x, y), r.tc(y, x))))]


class NodeInLoopWith(NodeQuery):
	key = 'Node.is_in_loop_with'

	def make_args(self, ex, st, case):
		return {'self': self.node_self(ex, st), 'other': T(z3.Const('other', V))}

	def requires(self, H, a, ex):
		return self.base_node(H, a['self']) + [('other is a name or a node of the graph', self.node_ok(H, self.graph(H, a), a['other']))]

	def raises(self, H, a, ex):
		return [('KeyError', self.missing(H, self.graph(H, a), a['other']))]

	def ensures(self, H0, H1, a, res, ex):
		g = self.graph(H0, a)
		r = self.s.rel(H0, g)
		x, y = a['self'], self.sel(H0, g, a['other'])
		return [('each reaches the other', res == V.b(And(r.tc(x, y), r.tc(y, x))))]


class EdgeIsInLoop(GraphQuery):
	key = 'Edge.is_in_loop'
	has_node = False

	def make_args(self, ex, st, case):
		e = z3.Const('e', V)
		st.assume(ex.tagf(st, e, 'Edge'))
		st.types[e] = 'Edge'
		return {'self': T(e)}

	def graph(self, H, a):
		return H.f('_graph', a['self'])

	def requires(self, H, a, ex):
		e, g = a['self'], self.graph(H, a)
		return self.base(H, g) + [('an edge of the graph', And(self.s.isedge(H, e), V.is_r(H.f('_start', e)), V.is_r(H.f('_end', e)), Edges.edge_of(self, H, g, e)))]

	def ensures(self, H0, H1, a, res, ex):
		r = self.s.rel(H0, self.graph(H0, a))
		x, y = H0.f('_start', a['self']), H0.f('_end', a['self'])
		return [('its ends reach each other', res == V.b(And(r.tc(x, y), r.tc(y, x))))]


# ---------------------------------------------------------------------- distances
class Distances:
	"""relatives by the length of a shortest path"""
	forward = True

	def dist(self, H, g, n):
		"""step, reach and the distance from n, with what defines them"""
		r = self.s.rel(H, g)
		if self.forward:
			step, reach = (lambda x, y: r.ch(x, y)), (lambda y: r.tc(n, y))
		else:
			step, reach = (lambda x, y: r.ch(y, x)), (lambda y: r.tc(y, n))
		k = 'down' if self.forward else 'up'
		fd, fa, fb = z3.Function(f'dist_{k}#{r.n}', V, V, V, I), z3.Function(f'on_path_{k}#{r.n}', V, V, V, I, V), z3.Function(f'asked_{k}#{r.n}', V, V, V, I, B)
		return r, step, reach, lambda y: fd(g, n, y), lambda y, k: fa(g, n, y, k), lambda y, k: fb(g, n, y, k)

	def dist_defs(self, H, g, n):
		r, step, reach, d, on, asked = self.dist(H, g, n)
		return [
			# the distance is that of a shortest path of at least one edge
			FA([y_], Implies(reach(y_), And(d(y_) >= 1, (d(y_) == 1) == step(n, y_))), [reach(y_), d(y_)]),
			FA([x_, y_], Implies(And(reach(x_), step(x_, y_)), d(y_) <= d(x_) + 1), [(reach(x_), step(x_, y_))]),
			# a shortest path has a node at every distance up to its length, and does not come back to where it started
			FA([y_, i_], And(asked(y_, i_), Implies(And(reach(y_), 1 <= i_, i_ <= d(y_)),
				And(reach(on(y_, i_)), d(on(y_, i_)) == i_, Implies(y_ != n, on(y_, i_) != n)))), [asked(y_, i_)]),
			# the node before the last
			FA([y_], Implies(And(reach(y_), d(y_) > 1), And(asked(y_, d(y_) - 1), step(on(y_, d(y_) - 1), y_))), [d(y_)]),
		]

	def wanted(self, reach, n):
		return (lambda y: And(reach(y), y != n)) if self.forward else reach

	def dist_pool(self, lc, g, n):
		H0 = lc.root['H0']
		r, step, reach, d, on, asked = self.dist(H0, g, n)
		want = self.wanted(reach, n)
		L = lambda st, m: lc.lst(st, m)
		out = set_pool(lc)
		isl = lambda st, v: And(V.is_r(v), lc.ex.sel(lc.ex.comp(st, 'cls'), V.rv(v)) == LIST, V.rv(v) >= 0, V.rv(v) < lc.ex.comp(st, 'next'))
		lev = lambda st, D, k: lc.ex.sel(lc.ex.comp(st, 'L'), V.rv(dget(D, k)))
		size = lambda st, D: llen(dkeys(D))
		for D in lc.dicts:
			dd = lambda st, D=D: lc.dct(st, D)
			if D in lc.mod_dicts or lc.mods.comps & {'L', 'D'}:
				out += [
					(f'{D}: keys from one', lambda st, k, vis, dd=dd: FA([k_], ddom(dd(st), k_) == And(V.is_i(k_), 1 <= V.iv(k_), V.iv(k_) <= size(st, dd(st))), [ddom(dd(st), k_)])),
					(f'{D}: new lists', lambda st, k, vis, dd=dd: FA([k_], Implies(ddom(dd(st), k_), And(isl(st, dget(dd(st), k_)), V.rv(dget(dd(st), k_)) >= lc.ex.root_next())), [ddom(dd(st), k_)])),
					(f'{D}: only relatives at the distance', lambda st, k, vis, dd=dd: FA([k_, y_], Implies(And(ddom(dd(st), k_), lmem(lev(st, dd(st), k_), y_)), And(want(y_), d(y_) == V.iv(k_))), [(ddom(dd(st), k_), lmem(lev(st, dd(st), k_), y_))])),
					(f'{D}: all relatives at the distance', lambda st, k, vis, dd=dd: FA([y_], Implies(And(want(y_), d(y_) <= size(st, dd(st))), And(ddom(dd(st), V.i(d(y_))), lmem(lev(st, dd(st), V.i(d(y_))), y_))), [d(y_)])),
					(f'{D}: no duplicates', lambda st, k, vis, dd=dd: FA([k_], Implies(ddom(dd(st), k_), And(nodup(lev(st, dd(st), k_)), llen(lev(st, dd(st), k_)) > 0)), [ddom(dd(st), k_)])),
				]
				out += [(f'{D}: not {m}', lambda st, k, vis, dd=dd, m=m: FA([k_], Implies(ddom(dd(st), k_), dget(dd(st), k_) != st.env[m].t), [ddom(dd(st), k_)])) for m in lc.lists]
		for m in lc.mod_lists:
			lm = lambda st, z, m=m: lmem(L(st, m), z)
			out.append((f'{m}: nodes', lambda st, k, vis, lm=lm: FA([x_], Implies(lm(st, x_), And(r.node(x_), self.s.isnode(H0, x_))), [lm(st, x_)])))
			out.append((f'{m}: wanted', lambda st, k, vis, lm=lm: FA([x_], Implies(lm(st, x_), want(x_)), [lm(st, x_)])))
			for D in lc.dicts:
				p = lambda st, D=D: size(st, lc.dct(st, D))
				out += [
					(f'{m}: what is in {D}', lambda st, k, vis, lm=lm, p=p: FA([x_], Implies(lm(st, x_), And(want(x_), d(x_) <= p(st))), [lm(st, x_)])),
					(f'{m}: all that is in {D}', lambda st, k, vis, lm=lm, p=p: FA([x_], Implies(And(want(x_), d(x_) <= p(st)), lm(st, x_)), [d(x_), lm(st, x_)])),
					(f'{m}: the last in {D} or the node', lambda st, k, vis, lm=lm, p=p: FA([x_], Implies(lm(st, x_), If(p(st) == 0, x_ == n, And(want(x_), d(x_) == p(st)))), [lm(st, x_)])),
					(f'{m}: all the last in {D}, or the node', lambda st, k, vis, lm=lm, p=p, m=m: Implies(llen(L(st, m)) > 0, If(p(st) == 0, lm(st, n), FA([x_], Implies(And(want(x_), d(x_) == p(st)), lm(st, x_)), [d(x_), lm(st, x_)])))),
					(f'{m}: nothing is beyond {D} when it is empty', lambda st, k, vis, lm=lm, p=p, m=m: Implies(llen(L(st, m)) == 0, FA([y_], Implies(want(y_), Or(d(y_) <= p(st), Not(asked(y_, p(st) + 1)))), [d(y_)]))),
					(f'{m}: the next after {D}', lambda st, k, vis, lm=lm, p=p: FA([x_], Implies(lm(st, x_), And(want(x_), d(x_) == p(st) + 1)), [lm(st, x_)])),
				]
				if lc.iter is not None:
					out.append((f'{m}: all steps from visited', lambda st, k, vis, lm=lm: FA([x_, y_], Implies(And(lmem(vis, x_), step(x_, y_), want(y_)), lm(st, y_)), [(lmem(vis, x_), step(x_, y_))])))
					out.append((f'{m}: visited that are wanted', lambda st, k, vis, lm=lm: FA([x_], Implies(And(lmem(vis, x_), want(x_)), lm(st, x_)), [lmem(vis, x_)])))
			for q in lc.mod_lists:
				if q == m:
					continue
				lq = lambda st, z, q=q: lmem(L(st, q), z)
				out.append((f'{m} within {q}', lambda st, k, vis, lm=lm, lq=lq: FA([x_], Implies(lm(st, x_), lq(st, x_)), [lm(st, x_)])))
				for D in lc.dicts:
					p = lambda st, D=D: size(st, lc.dct(st, D))
					out += [
						(f'{m}: what is in {D} and {q}', lambda st, k, vis, lm=lm, lq=lq, p=p: FA([x_], lm(st, x_) == Or(And(want(x_), d(x_) <= p(st)), lq(st, x_)), [lm(st, x_), lq(st, x_)])),
						(f'{m}: at least what is in {D} and {q}', lambda st, k, vis, lm=lm, lq=lq, p=p: FA([x_], Implies(And(want(x_), d(x_) <= p(st)), lm(st, x_)), [d(x_)])),
					]
		return out

	def grouped(self, H0, H1, g, n, res):
		r, step, reach, d, on, asked = self.dist(H0, g, n)
		want = self.wanted(reach, n)
		D = H1.dct(res)
		lev = lambda k: H1.lst(dget(D, k))
		return [('a new dictionary', And(V.is_r(res), H1.cls(res) == DICT, V.rv(res) >= H0.next)),
			('keys are distances from one without gaps', FA([k_], ddom(D, k_) == And(V.is_i(k_), 1 <= V.iv(k_), V.iv(k_) <= llen(dkeys(D))), [ddom(D, k_)])),
			('new lists without duplicates and not empty', FA([k_], Implies(ddom(D, k_), And(V.is_r(dget(D, k_)), H1.cls(dget(D, k_)) == LIST, V.rv(dget(D, k_)) >= H0.next, nodup(lev(k_)), llen(lev(k_)) > 0)), [ddom(D, k_)])),
			('only relatives, at their distance', FA([k_, y_], Implies(And(ddom(D, k_), lmem(lev(k_), y_)), And(want(y_), d(y_) == V.iv(k_))), [lmem(lev(k_), y_)])),
			('every relative at its distance', FA([y_], Implies(want(y_), And(ddom(D, V.i(d(y_))), lmem(lev(V.i(d(y_))), y_))), [reach(y_)]))]

	def variant(self, ex, head, st, node):
		"""the search ends: a list of nodes without duplicates, which cannot be longer than the nodes, gets longer or the loop is about to end"""
		g = self.graph(ex.rootctx['H0'], ex.rootctx['args'])
		ns = dvals(self.s.nd(ex.rootctx['H0'], g))
		again = z3.BoolVal(False)
		for s2, f in ex.cond(node.test, st.fork()):
			if not all(a.eq(b) for a, b in zip([ex.comp(s2, c) for c in ('L', 'D')], [ex.comp(st, c) for c in ('L', 'D')])):
				return None
			again = Or(again, And(*s2.pc[len(st.pc):], f))
		for m, k in ex.list_vars(head):
			if k == 'list' and isinstance(st.env.get(m), T):
				l0, l1 = ex.lst(head, head.env[m].t), ex.lst(st, st.env[m].t)
				if ex.valid(head, And(nodup(l0), FA([x_], Implies(lmem(l0, x_), lmem(ns, x_)), [lmem(l0, x_)]))) and ex.valid(st, Implies(again, llen(l1) > llen(l0))):
					return Implies(again, llen(l1) > llen(l0))
		return None


class GroupByDistance(Distances, GraphQuery):
	key = 'BasicGraph._group_by_distance'
	cost = 5

	def cases(self, ex):
		return ['down', 'up']

	def make_args(self, ex, st, case):
		g = self.graph_arg(ex, st)
		rs = z3.Const('relatives', V)
		st.assume(ex.tagf(st, rs, 'list'))
		st.types[rs] = 'list'
		f = ex.p.func('BasicGraph.get_children' if case == 'down' else 'BasicGraph.get_parents')
		return {'self': g, 'node': T(z3.Const('node', V)), 'relatives': T(rs), 'get_next': MFn(f, g)}

	def way(self, a):
		self.forward = a['get_next'].fi.name == 'get_children'
		return self

	def requires(self, H, a, ex):
		self.way(a)
		g = a['self']
		n = self.the_node(H, a)
		r, step, reach, d, on, asked = self.dist(H, g, n)
		want = self.wanted(reach, n)
		R = H.lst(a['relatives'])
		return GraphQuery.requires(self, H, a, ex) + [('a list', And(V.is_r(a['relatives']), H.cls(a['relatives']) == LIST, H.allocated(a['relatives']))),
			('the relatives are all relatives', FA([y_], lmem(R, y_) == want(y_), [lmem(R, y_), reach(y_)]))]

	def lemmas(self, H, a, ex):
		self.way(a)
		return self.s.rel(H, a['self']).tc_defs() + self.dist_defs(H, a['self'], self.the_node(H, a))

	def invariants(self, lc):
		H0, a = lc.root['H0'], lc.root['args']
		self.way(a)
		return self.dist_pool(lc, a['self'], self.the_node(H0, a))

	def ensures(self, H0, H1, a, res, ex):
		self.way(a)
		return self.grouped(H0, H1, a['self'], self.the_node(H0, a), res)


class Relatives(Distances, GraphQuery):
	"""the relatives as a list, or by their distance"""
	def cases(self, ex):
		return ['list', 'by distance']

	def make_args(self, ex, st, case):
		d = super().make_args(ex, st, case)
		d['distance'] = T(TRUE if case == 'by distance' else FALSE)
		return d

	def lemmas(self, H, a, ex):
		g, n = self.graph(H, a), self.the_node(H, a)
		return self.s.rel(H, g).tc_defs() + (self.dist_defs(H, g, n) if lit_bool(a, 'distance') else [])

	def invariants(self, lc):
		H0, a = lc.root['H0'], lc.root['args']
		return self.dist_pool(lc, self.graph(H0, a), self.the_node(H0, a)) if lit_bool(a, 'distance') else set_pool(lc)

	def ensures(self, H0, H1, a, res, ex):
		g, n = self.graph(H0, a), self.the_node(H0, a)
		if lit_bool(a, 'distance'):
			return self.grouped(H0, H1, g, n, res)
		r, step, reach, d, on, asked = self.dist(H0, g, n)
		want = self.wanted(reach, n)
		R = H1.lst(res)
		return [('a new list', self.islist(H0, H1, res)), ('exactly the relatives', FA([y_], lmem(R, y_) == want(y_), [lmem(R, y_), reach(y_)])), ('no duplicates', nodup(R))]


class GetAncestors(Relatives):
	key = 'BasicGraph.get_ancestors'
	forward = False
	cost = 5


class GetDescendants(Relatives):
	key = 'BasicGraph.get_descendants'
	cost = 5


class NodeRelatives(Relatives, NodeQuery):
	def cases(self, ex):
		return ['']

	def make_args(self, ex, st, case):
		return NodeQuery.make_args(self, ex, st, case)

	def invariants(self, lc):
		return set_pool(lc)


class NodeAncestors(NodeRelatives):
	key = 'Node.ancestors'
	forward = False


class NodeDescendants(NodeRelatives):
	key = 'Node.descendants'


class NumDescendants(NodeRelatives):
	key = 'Node.num_descendants'

	def ensures(self, H0, H1, a, res, ex):
		n = self.the_node(H0, a)
		r = self.s.rel(H0, self.graph(H0, a))
		# the number of entries of a list that has every descendant once
		l = z3.Const('descendants', L)
		return [('the number', EX([l], And(nodup(l), res == V.i(llen(l)), FA([y_], lmem(l, y_) == And(r.tc(n, y_), y_ != n))), [llen(l)]))]


class NodeListOf(NodeQuery):
	def ensures(self, H0, H1, a, res, ex):
		n, R = self.the_node(H0, a), H1.lst(res)
		es = dvals(self.s.Od(H0, n) if self.down else self.s.Id(H0, n))
		far = '_end' if self.down else '_start'
		return [('a new list', self.islist(H0, H1, res)), ('as many as edges', llen(R) == llen(es)),
			('the other end of each edge, in order', FA([i_], Implies(And(0 <= i_, i_ < llen(R)), lat(R, i_) == H0.f(far, lat(es, i_))), [lat(R, i_)]))]


class NodeChildren(NodeListOf):
	key = 'Node.children'
	down = True


class NodeParents(NodeListOf):
	key = 'Node.parents'
	down = False



class NumSiblings(Sharing, GraphQuery):
	key = 'BasicGraph.num_siblings'
	down = True

	def ensures(self, H0, H1, a, res, ex):
		r, sib, via = self.sym(H0, self.graph(H0, a), self.the_node(H0, a))
		l = z3.Const('sharing', L)
		return [('the number', EX([l], And(nodup(l), res == V.i(llen(l)), FA([y_], lmem(l, y_) == sib(y_))), [llen(l)]))]


class NumSpouses(NumSiblings):
	key = 'BasicGraph.num_spouses'
	down = False


class HasSiblings(NumSiblings):
	key = 'BasicGraph.has_siblings'
	down = True

	def ensures(self, H0, H1, a, res, ex):
		r, sib, via = self.sym(H0, self.graph(H0, a), self.the_node(H0, a))
		l = z3.Const('sharing', L)
		return [('true exactly if there is one', EX([l], And(nodup(l), truthy(H1, res) == (llen(l) > 0), FA([y_], lmem(l, y_) == sib(y_))), [llen(l)]))]


class HasSpouses(HasSiblings):
	key = 'BasicGraph.has_spouses'
	down = False


class EdgeIds(NodeQuery):
	def ensures(self, H0, H1, a, res, ex):
		return [('a new list', self.islist(H0, H1, res)), ('the ids in order', H1.lst(res) == dkeys(self.which(H0, a['self'])))]


class OutwardIds(EdgeIds):
	key = 'Node.outward_edge_ids'

	def which(self, H, n):
		return self.s.Od(H, n)


class InwardIds(EdgeIds):
	key = 'Node.inward_edge_ids'

	def which(self, H, n):
		return self.s.Id(H, n)
