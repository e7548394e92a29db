"""Contracts of the queries on graphs."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract, ListResult
from .spec import u_, v_, w_, t_, k_, i_


class OnGraph:
	"""a method of a graph"""
	gclass = 'Graph'
	self_name = 'self'

	@property
	def s(self):
		return self.suite.spec

	def graph_arg(self, ex, st, name='self'):
		g = z3.Const('g', V)
		st.assume(ex.tagf(st, g, self.gclass))
		st.types[g] = self.gclass
		return T(g)

	def applies(self, ex, st, env):
		x = env.get(self.self_name)
		return isinstance(x, T)

	def settle(self, ex, st, env):
		x, old = env.get(self.self_name), self.s.old_graphs
		if isinstance(x, T) and x.t.get_id() not in old and ex.static_tag(st, x.t) in ('Graph', 'GraphWithoutDisplay', 'BasicGraph'):
			for g in old.values():
				if ex.valid(st, x.t == g):
					return {**env, self.self_name: T(g)}
		return env

	def sel(self, H, g, x):
		return nodeof(self.s.nd(H, g), x)

	def node_ok(self, H, g, x):
		return Or(self.s.name_ok(x), And(self.s.innode(H, g, x), self.s.isnode(H, x)))

	def base(self, H, g):
		return [('the graph', self.s.isgraph(H, g))] + self.s.inv(H, g)

	def missing(self, H, g, x):
		return And(self.s.name_ok(x), Not(ddom(self.s.nd(H, g), x)))


class GetNode(OnGraph, Contract):
	key = 'BasicGraph.get_node'
	allocates = False

	def make_args(self, ex, st, case):
		return {'self': self.graph_arg(ex, st), 'node': T(z3.Const('node', V))}

	def requires(self, H, a, ex):
		return self.base(H, a['self']) + [('the node is a name or a node of the graph', self.node_ok(H, a['self'], a['node']))]

	def raises(self, H, a, ex):
		return [('KeyError', self.missing(H, a['self'], a['node']))]

	def result_tag(self):
		return 'Node'

	def make_result(self, ex, st, old_next):
		return Contract.make_result(self, ex, st, old_next)

	def ensures(self, H0, H1, a, res, ex):
		g, s = a['self'], self.s
		return [('the node', And(res == self.sel(H0, g, a['node']), s.innode(H0, g, res), s.isnode(H0, res)))]


class OnNode(OnGraph):
	def node_self(self, ex, st):
		n = z3.Const('n', V)
		st.assume(ex.tagf(st, n, 'Node'))
		st.types[n] = 'Node'
		return T(n)

	def graph_of(self, H, n):
		return H.f('_graph', n)

	def base_node(self, H, n):
		g = self.graph_of(H, n)
		return self.base(H, g) + [('the node is in its graph', And(self.s.isnode(H, n), self.s.innode(H, g, n)))]


class EdgesOfNode(OnNode, ListResult):
	def make_args(self, ex, st, case):
		return {'self': self.node_self(ex, st)}

	def requires(self, H, a, ex):
		return self.base_node(H, a['self'])

	def dct(self, H, n):
		return self.s.Od(H, n)

	def invariants(self, lc):
		out = []
		for n in lc.mod_lists:
			if lc.iter is not None:
				out.append((f'{n} is what was visited', lambda st, k, vis, n=n: lc.lst(st, n) == vis))
		return out

	def ensures(self, H0, H1, a, res, ex):
		return [('exactly the edges, once each', H1.lst(res) == dvals(self.dct(H0, a['self']))),
			('no duplicates', nodup(H1.lst(res))),
			('the result is a new list', V.rv(res) >= H0.next)]


class OutwardEdges(EdgesOfNode):
	key = 'Node.outward_edges'


class InwardEdges(EdgesOfNode):
	key = 'Node.inward_edges'

	def dct(self, H, n):
		return self.s.Id(H, n)


class Neighbours(OnGraph, ListResult):
	"""get_parents, get_children"""
	def make_args(self, ex, st, case):
		return {'self': self.graph_arg(ex, st), 'node': T(z3.Const('node', V))}

	def requires(self, H, a, ex):
		return self.base(H, a['self']) + [('the node is a name or a node of the graph', self.node_ok(H, a['self'], a['node']))]

	def raises(self, H, a, ex):
		return [('KeyError', self.missing(H, a['self'], a['node']))]

	def lemmas(self, H, a, ex):
		return self.s.rel(H, a['self']).defs()

	def ensures(self, H0, H1, a, res, ex):
		g = a['self']
		n = self.sel(H0, g, a['node'])
		r = self.s.rel(H0, g)
		R = H1.lst(res)
		es = dvals(self.dct(H0, n))
		rel = (lambda x: r.ch(n, x)) if self.forward else (lambda x: r.ch(x, n))
		return [('exactly the nodes at the other end of an edge', FA([v_], lmem(R, v_) == rel(v_), [lmem(R, v_), rel(v_)])),
			('one entry per edge, in the order of the edges', And(llen(R) == llen(es), FA([i_], Implies(And(0 <= i_, i_ < llen(R)),
				lat(R, i_) == self.far(H0, lat(es, i_))), [lat(R, i_), lat(es, i_)]))),
			('the result is a new list', V.rv(res) >= H0.next)]


class GetChildren(Neighbours):
	key = 'BasicGraph.get_children'
	forward = True

	def dct(self, H, n):
		return self.s.Od(H, n)

	def far(self, H, e):
		return H.f('_end', e)


class GetParents(Neighbours):
	key = 'BasicGraph.get_parents'
	forward = False

	def dct(self, H, n):
		return self.s.Id(H, n)

	def far(self, H, e):
		return H.f('_start', e)


def set_pool(lc):
	"""what loops over lists commonly keep: they only add, and only from what they iterate over"""
	out = []
	for n in lc.mod_lists:
		if n in lc.mods.names:
			continue
		old = lc.lst(lc.entry, n)
		x = z3.Const('x_inv', V)
		out.append((f'{n} keeps its elements', lambda st, k, vis, n=n, old=old: FA([x], Implies(lmem(old, x), lmem(lc.lst(st, n), x)), [lmem(old, x), lmem(lc.lst(st, n), x)])))
		if lc.iter is not None:
			it = lc.iter
			out.append((f'{n} only takes elements of the iteration', lambda st, k, vis, n=n, old=old: FA([x], Implies(lmem(lc.lst(st, n), x), Or(lmem(old, x), lmem(vis, x))), [lmem(lc.lst(st, n), x)])))
			out.append((f'{n} has all that was visited', lambda st, k, vis, n=n: FA([x], Implies(lmem(vis, x), lmem(lc.lst(st, n), x)), [lmem(vis, x)])))
			out.append((f'{n} is what was visited', lambda st, k, vis, n=n: lc.lst(st, n) == vis))
		out.append((f'{n} has no duplicates', lambda st, k, vis, n=n: nodup(lc.lst(st, n))))
	return out


class Dfs(OnGraph, ListResult):
	"""_get_descendants, _get_ancestors: what is reachable without passing through what was travelled before"""
	def cases(self, ex):
		return ['top', 'inner']

	def make_args(self, ex, st, case):
		g = self.graph_arg(ex, st)
		nt = T(NONE)
		if case == 'inner':
			t = z3.Const('nt', V)
			st.assume(ex.tagf(st, t, 'list'))
			st.types[t] = 'list'
			nt = T(t)
		return {'self': g, 'node': T(z3.Const('node', V)), 'nodes_travelled': nt}

	def passed(self, H, a):
		"""the travelled nodes before the call: (there is a list, its content)"""
		nt = a['nodes_travelled']
		if z3.is_expr(nt) and nt.eq(NONE):
			return z3.BoolVal(False), lnil
		return V.is_r(nt), H.lst(nt)

	def applies(self, ex, st, env):
		return isinstance(env.get('nodes_travelled'), T) and isinstance(env.get('node'), T)

	def requires(self, H, a, ex):
		g, s = a['self'], self.s
		has, T0 = self.passed(H, a)
		n = self.sel(H, g, a['node'])
		nt = a['nodes_travelled']
		out = self.base(H, g) + [('the node is a name or a node of the graph', self.node_ok(H, g, a['node'])),
			('the travelled nodes are a list or None', Or(V.is_none(nt), And(V.is_r(nt), H.cls(nt) == LIST, H.allocated(nt))))]
		if not nt.eq(NONE):
			out += [('the travelled nodes are nodes of the graph', Implies(has, FA([v_], Implies(lmem(T0, v_), And(s.innode(H, g, v_), s.isnode(H, v_))), [lmem(T0, v_)]))),
				('the node was not travelled', Implies(has, Not(lmem(T0, n))))]
		return out

	def raises(self, H, a, ex):
		return [('KeyError', self.missing(H, a['self'], a['node']))]

	def lemmas(self, H, a, ex):
		return self.s.rel(H, a['self']).tc_defs()

	def modifies(self, H, a, ex):
		nt = a['nodes_travelled']
		return [] if nt.eq(NONE) else [('L', V.rv(nt))]

	def rels(self, H, a):
		"""step(x, y): the search goes from x to y; reach(y): y is reached from the node"""
		r = self.s.rel(H, a['self'])
		n = self.sel(H, a['self'], a['node'])
		if self.forward:
			return r, n, lambda x, y: r.ch(x, y), lambda y: r.tc(n, y)
		return r, n, lambda x, y: r.ch(y, x), lambda y: r.tc(y, n)

	def old(self, H0, a):
		has, T0 = self.passed(H0, a)
		return lambda x: And(has, lmem(T0, x)) if not z3.is_false(has) else z3.BoolVal(False)

	def depth_check(self, ex, st, H, a, node):
		if ex.rootctx.get('contract') is not self:
			return
		H0, a0 = ex.rootctx['H0'], ex.rootctx['args']
		old = self.old(H0, a0)
		has, T1 = self.passed(H, a)
		n0 = self.sel(H0, a0['self'], a0['node'])
		x = Fresh.const('x', V)
		ex.prove(st, And(has, lmem(T1, n0), Implies(old(x), lmem(T1, x)), a['self'] == a0['self']),
			'the recursion ends: more nodes are travelled, and no node is travelled twice', node)

	def invariants(self, lc):
		H0, a = lc.root['H0'], lc.root['args']
		r, n, step, reach = self.rels(H0, a)
		old = self.old(H0, a)
		x, y = z3.Consts('x_inv y_inv', V)
		out = set_pool(lc)
		for m in lc.mod_lists:
			lm = lambda st, z, m=m: lmem(lc.lst(st, m), z)
			out += [
				(f'{m} is reached', lambda st, k, vis, lm=lm: FA([x], Implies(lm(st, x), reach(x)), [lm(st, x)])),
				(f'{m} does not have the node', lambda st, k, vis, lm=lm: Not(lm(st, n))),
				(f'{m} has the node', lambda st, k, vis, lm=lm: lm(st, n)),
				(f'{m} is not travelled before', lambda st, k, vis, lm=lm: FA([x], Implies(lm(st, x), Not(old(x))), [lm(st, x)])),
				(f'{m} is of the graph', lambda st, k, vis, lm=lm: FA([x], Implies(lm(st, x), And(r.node(x), self.s.isnode(H0, x))), [lm(st, x)])),
			]
			if lc.iter is not None:
				out.append((f'visited in {m}', lambda st, k, vis, lm=lm: FA([x], Implies(lmem(vis, x), lm(st, x)), [lmem(vis, x)])))
		for m in lc.mod_lists:
			for q in lc.lists:
				lm = lambda st, z, m=m: lmem(lc.lst(st, m), z)
				lq = lambda st, z, q=q: lmem(lc.lst(st, q), z)
				excl = lambda z: And(z != n, Not(old(z)))
				out += [
					(f'steps from {m} are in {q}', lambda st, k, vis, lm=lm, lq=lq: FA([x, y], Implies(And(lm(st, x), step(x, y)), lq(st, y)), [(lm(st, x), step(x, y))])),
					(f'steps from new {m} are in {q}', lambda st, k, vis, lm=lm, lq=lq: FA([x, y], Implies(And(lm(st, x), excl(x), step(x, y)), lq(st, y)), [(lm(st, x), step(x, y))])),
				]
				if m != q:
					out += [
						(f'{m} within old, node, {q}', lambda st, k, vis, lm=lm, lq=lq: FA([x], Implies(lm(st, x), Or(old(x), x == n, lq(st, x))), [lm(st, x)])),
						(f'old, node, {q} within {m}', lambda st, k, vis, lm=lm, lq=lq: FA([x], Implies(Or(old(x), x == n, lq(st, x)), lm(st, x)), [lm(st, x), lq(st, x)])),
						(f'old within {m}', lambda st, k, vis, lm=lm: FA([x], Implies(old(x), lm(st, x)), [lm(st, x)] + ([] if z3.is_false(old(x)) else [lmem(self.passed(H0, a)[1], x)]))),
					]
		return out

	def ensures(self, H0, H1, a, res, ex):
		r, n, step, reach = self.rels(H0, a)
		old = self.old(H0, a)
		has, T0 = self.passed(H0, a)
		R = H1.lst(res)
		rm = lambda x: lmem(R, x)
		out = [('the result is a new list', V.rv(res) >= H0.next)]
		x, y = z3.Consts('x_e y_e', V)
		out += self.result_spec(R, n, step, reach, old)
		out.append(('no duplicates', nodup(R)))
		nt = a['nodes_travelled']
		if not nt.eq(NONE):
			T1 = H1.lst(nt)
			out += [('the travelled nodes afterwards', Implies(And(has, llen(T0) > 0), FA([x], lmem(T1, x) == Or(lmem(T0, x), x == n, rm(x)), [lmem(T1, x), lmem(T0, x), rm(x)]))),
				('the node is travelled', Implies(And(has, llen(T0) > 0), lmem(T1, n)))]
		empty = Or(Not(has), llen(T0) == 0)
		out.append(('everything reachable', Implies(empty, FA([x], rm(x) == self.all_reached(n, reach, x), [rm(x), reach(x)]))))
		return out

	def hints(self, H0, H1, a, res, ex, st):
		r, n, step, reach = self.rels(H0, a)
		R = H1.lst(res)
		return [r.induct_forward(n, lambda x: Or(x == n, lmem(R, x))) if self.forward else r.induct_backward(n, lambda x: lmem(R, x))]


class GetDescendantsDfs(Dfs):
	key = 'BasicGraph._get_descendants'
	forward = True

	def result_spec(self, R, n, step, reach, old):
		x, y = z3.Consts('x_e y_e', V)
		return [('only new reachable nodes', FA([x], Implies(lmem(R, x), And(reach(x), Not(old(x)), x != n)), [lmem(R, x)])),
			('closed', FA([x, y], Implies(And(Or(x == n, lmem(R, x)), step(x, y)), Or(old(y), y == n, lmem(R, y))), [step(x, y)]))]

	def all_reached(self, n, reach, x):
		return And(reach(x), x != n)


class GetAncestorsDfs(Dfs):
	key = 'BasicGraph._get_ancestors'
	forward = False

	def result_spec(self, R, n, step, reach, old):
		x, y = z3.Consts('x_e y_e', V)
		return [('only reachable nodes', FA([x], Implies(lmem(R, x), reach(x)), [lmem(R, x)])),
			('closed', FA([x, y], Implies(And(Or(x == n, And(lmem(R, x), Not(old(x)))), step(x, y)), lmem(R, y)), [step(x, y)]))]

	def all_reached(self, n, reach, x):
		return reach(x)
