"""Contracts of what changes a graph: each keeps the invariant, and changes exactly what it says."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract
from .spec import u_, v_, w_, t_, k_, i_
from .queries import OnGraph, OnNode, set_pool
from .relatives import truthy, Wrapper

x_, y_, e_ = z3.Consts('x y e', V)
WARN = ('warned', z3.IntVal(0))


def warned(H):
	return V.iv(z3.Select(H.c('warned'), 0))


def without(case, names=()):
	"""cases where some of the keyword arguments are not given"""
	import itertools
	out = [case]
	for n in range(1, len(names) + 1):
		out += [f'{case}; without {", ".join(x)}'.lstrip('; ') for x in itertools.combinations(names, n)]
	return out


def missing_in(case):
	return case.split('without ')[1].split(', ') if 'without ' in case else []


def present(items, case):
	return MKw({k: v for k, v in items.items() if k not in missing_in(case)})


class Mutator(OnGraph):
	"""keeps the invariant"""
	def whole(self, H, g):
		return self.s.inv(H, g) + self.s.ordered(H, g) + self.s.contents(H, g)

	def keeps(self, H1, g):
		return [(f'the invariant afterwards: {n}', f) for n, f in self.whole(H1, g)]

	def base(self, H, g):
		return super().base(H, g) + self.s.ordered(H, g) + self.s.contents(H, g)

	def style_of(self, name):
		return self.s.p.classes[name].code

	def style_ok(self, H, x, cls):
		"""None, a style, or a dictionary"""
		return Or(V.is_none(x), And(V.is_r(x), H.allocated(x), Or(H.cls(x) == self.style_of(cls), H.cls(x) == DICT)))

	def style_set(self, H0, H1, old, new, given, cls):
		"""what giving a style does"""
		return If(V.is_none(given), new == old, If(H0.cls(given) == self.style_of(cls), new == given, And(V.is_r(new), H1.cls(new) == self.style_of(cls), V.rv(new) >= H0.next)))

	def is_policy(self, x):
		return Or(x == lit('ignore'), x == lit('warn'))


class AddNode(Mutator, Contract):
	key = 'BasicGraph.add_node'
	kwargs = ('tooltip',)

	def cases(self, ex):
		return [c for x in ('name', 'node') for c in without(x, self.optional)]

	optional = rest = ('tooltip',)

	def make_args(self, ex, st, case):
		d = {'self': self.graph_arg(ex, st)}
		for n in ('name', 'label', 'value', 'style', 'if_node_exists'):
			d[n] = T(z3.Const(n, V))
		if case.startswith('node'):
			st.assume(ex.tagf(st, d['name'].t, 'Node'))
			st.types[d['name'].t] = 'Node'
		else:
			st.assume(self.s.name_ok(d['name'].t))
		d['kwargs'] = present({'tooltip': T(z3.Const('tooltip', V))}, case)
		return d

	def applies(self, ex, st, env):
		return super().applies(ex, st, env) and isinstance(env['kwargs'], MKw) and set(env['kwargs'].items) <= {'tooltip'}

	def is_name(self, a):
		return self.s.name_ok(a['name'])

	def given(self, a, n):
		return a[n]

	def removed(self, H, n):
		"""a node that is in no graph, as remove_node leaves it"""
		s = self.s
		own = H.own
		return And(s.isnode(H, n), V.is_none(H.f('_graph', n)), s.name_ok(s.raw(H, n)), V.is_i(H.f('_index', n)), V.is_b(H.f('_frozen', n)), s.isdict(H, s.O(H, n)), s.isdict(H, s.In(H, n)),
			own(s.O(H, n)) == V.t2(n, lit('_outward_edges_dict')), own(s.In(H, n)) == V.t2(n, lit('_inward_edges_dict')), s.Od(H, n) == dnil, s.Id(H, n) == dnil,
			s.has_content(H, n, 'NodeStyle'))

	def requires(self, H, a, ex):
		x = a['name']
		gx = H.f('_graph', x)
		return self.base(H, a['self']) + [
			('a name, a node of some graph, or a removed node', Or(self.s.name_ok(x), And(self.s.isnode(H, x), self.s.name_ok(self.s.raw(H, x)),
				Or(self.removed(H, x), And(V.is_r(gx), Implies(gx == a['self'], self.s.innode(H, a['self'], x))))))),
			('the setting exists', self.s.stored(H, H.f('_style_overwrite_allowed', a['self']))),
			('the policy is a string', V.is_s(self.given(a, 'if_node_exists'))),
			('the style is a style or a dictionary', self.style_ok(H, self.given(a, 'style'), 'NodeStyle'))]

	def there(self, H, a):
		return And(self.is_name(a), ddom(self.s.nd(H, a['self']), a['name']))

	def raises(self, H, a, ex):
		g, x, s = a['self'], a['name'], self.s
		n = dget(s.nd(H, g), x)
		there, ok = self.there(H, a), self.is_policy(self.given(a, 'if_node_exists'))
		cannot = Or(And(Not(V.is_none(self.given(a, 'style'))), Not(V.is_none(H.f('_style', n))), Not(truthy(H, H.f('_style_overwrite_allowed', g)))),
			And(Not(V.is_none(self.given(a, 'value'))), truthy(H, H.f('_frozen', n))))
		return [('KeyError', And(there, Not(ok))), ('RuntimeError', And(there, ok, cannot)),
			('ValueError', And(Not(self.is_name(a)), If(ddom(s.nd(H, g), s.raw(H, x)), Not(s.innode(H, g, x)), Not(V.is_none(H.f('_graph', x))))))]

	def of_node(self, H, a):
		return If(self.there(H, a), V.rv(dget(self.s.nd(H, a['self']), a['name'])), -1)

	def raise_modifies(self, H, a, ex):
		n = self.of_node(H, a)
		return [('f:_label', n), ('f:_style', n), WARN]

	def modifies(self, H, a, ex):
		g, n, x = a['self'], self.of_node(H, a), If(self.is_name(a), -1, V.rv(a['name']))
		return [('D', V.rv(H.f('_nodes_dict', g))), ('f:_node_counter', V.rv(g)), ('f:_label', n), ('f:_style', n), ('f:_value', n), ('f:_graph', x), ('f:_index', x), WARN]

	def result_tag(self):
		return 'Node'

	def ensures(self, H0, H1, a, res, ex):
		g, x, s = a['self'], a['name'], self.s
		nd0, nd1 = s.nd(H0, g), s.nd(H1, g)
		there = self.there(H0, a)
		old = dget(nd0, x)
		f0, f1 = (lambda n: H0.f(n, old)), (lambda n: H1.f(n, res))
		given = lambda n: self.given(a, n)
		new = And(self.is_name(a), Not(there))
		obj = Not(self.is_name(a))
		added = Or(new, And(obj, Not(ddom(nd0, s.raw(H0, x)))))
		counter = lambda H: H.f('_node_counter', g)
		own = H1.own
		same_fields = And(*[H1.f(f, old) == H0.f(f, old) for f in ('_label', '_value', '_style')])
		return [
			('the node dictionary is the same object', H1.f('_nodes_dict', g) == H0.f('_nodes_dict', g)),
			('a new name: one node is added at the end', Implies(new, And(nd1 == dset(nd0, x, res), *[V.rv(o) >= H0.next for o in (res, s.O(H1, res), s.In(H1, res))]))),
			('a taken name: the registered node', Implies(there, And(nd1 == nd0, res == old))),
			('a node object: that object', Implies(obj, And(res == x, nd1 == If(ddom(nd0, s.raw(H0, x)), nd0, dset(nd0, s.raw(H0, x), x))))),
			('the result is registered', And(s.innode(H1, g, res), s.isnode(H1, res), H1.f('_graph', res) == g)),
			('a new node has its name, label, value, tooltip and style', Implies(new, And(f1('_raw_id') == x, f1('_label') == given('label'), f1('_value') == given('value'),
				self.style_set(H0, H1, NONE, f1('_style'), given('style'), 'NodeStyle'), f1('_tooltip') == (self.tooltip(a))))),
			('a new node has no edges', Implies(new, And(s.Od(H1, res) == dnil, s.Id(H1, res) == dnil))),
			('an added node takes the next index', If(added, And(counter(H1) == V.i(V.iv(counter(H0)) + 1), f1('_index') == counter(H0)), counter(H1) == counter(H0))),
			('a taken name: only the label, value and style that are given change', Implies(there, And(f1('_label') == If(V.is_none(given('label')), f0('_label'), given('label')),
				f1('_value') == If(V.is_none(given('value')), f0('_value'), given('value')), self.style_set(H0, H1, f0('_style'), f1('_style'), given('style'), 'NodeStyle')))),
			('warns exactly if asked to', warned(H1) == If(And(there, given('if_node_exists') == lit('warn')), warned(H0) + 1, warned(H0))),
			('only a node object that was in no graph gets this graph', Implies(obj, H1.f('_graph', x) == g)),
		] + self.keeps(H1, g)

	def tooltip(self, a):
		t = a['kwargs'].items.get('tooltip')
		return t.t if t is not None else NONE


class GraphAddNode(AddNode):
	key = 'GraphWithoutDisplay.add_node'
	optional = ('label', 'value', 'if_node_exists', 'tooltip')
	rest = ('label', 'value', 'tooltip')

	def make_args(self, ex, st, case):
		d = super().make_args(ex, st, case)
		d['kwargs'] = present({'label': d.pop('label'), 'value': d.pop('value'), 'if_node_exists': d.pop('if_node_exists'), **d['kwargs'].items}, case)
		return d

	def applies(self, ex, st, env):
		return OnGraph.applies(self, ex, st, env) and isinstance(env['kwargs'], MKw) and set(env['kwargs'].items) <= {'tooltip', 'label', 'value', 'if_node_exists'} and all(isinstance(x, T) for x in env['kwargs'].items.values())

	def given(self, a, n):
		if n in ('name', 'style'):
			return a[n]
		v = a['kwargs'].items.get(n)
		return v.t if v is not None else lit('warn') if n == 'if_node_exists' else NONE


class Connect(Mutator, Contract):
	key = 'BasicGraph.connect'
	KW = ('tooltip',)
	ARGS = ('start', 'end', 'id', 'label', 'value', 'style', 'if_edge_exists')
	rest = ('tooltip',)

	def cases(self, ex):
		return without('', self.KW)

	def make_args(self, ex, st, case):
		d = {'self': self.graph_arg(ex, st)}
		for n in self.ARGS:
			d[n] = T(z3.Const(n, V))
		d['kwargs'] = present({x: T(z3.Const(x, V)) for x in self.KW}, case)
		return d

	def applies(self, ex, st, env):
		return super().applies(ex, st, env) and isinstance(env['kwargs'], MKw) and set(env['kwargs'].items) <= set(self.KW) and all(isinstance(x, T) for x in env['kwargs'].items.values())

	def given(self, a, n):
		return a[n]

	def extra(self, a, n):
		t = a['kwargs'].items.get(n)
		return t.t if t is not None else NONE

	def ends(self, H, a):
		return self.sel(H, a['self'], a['start']), self.sel(H, a['self'], a['end'])

	def eid(self, H, a):
		u, v = self.ends(H, a)
		return V.t3(self.s.raw(H, u), self.s.raw(H, v), self.given(a, 'id'))

	def there(self, H, a):
		return ddom(self.s.Od(H, self.ends(H, a)[0]), self.eid(H, a))

	def old(self, H, a):
		return dget(self.s.Od(H, self.ends(H, a)[0]), self.eid(H, a))

	def lost(self, H, a):
		return Or(self.missing(H, a['self'], a['start']), self.missing(H, a['self'], a['end']))

	def requires(self, H, a, ex):
		g = a['self']
		return self.base(H, g) + [
			('the ends are names or nodes of the graph', And(self.node_ok(H, g, a['start']), self.node_ok(H, g, a['end']))),
			('the id is None, a string or a number', self.s.raw_ok(self.given(a, 'id'))),
			('the setting exists', self.s.stored(H, H.f('_style_overwrite_allowed', g))),
			('the policy is a string', V.is_s(self.given(a, 'if_edge_exists'))),
			('the style is a style or a dictionary', self.style_ok(H, self.given(a, 'style'), 'EdgeStyle'))]

	def raises(self, H, a, ex):
		g, e = a['self'], self.old(H, a)
		lost, there, ok = self.lost(H, a), self.there(H, a), self.is_policy(self.given(a, 'if_edge_exists'))
		cannot = Or(And(Not(V.is_none(self.given(a, 'style'))), Not(V.is_none(H.f('_style', e))), Not(truthy(H, H.f('_style_overwrite_allowed', g)))),
			And(Not(V.is_none(self.given(a, 'value'))), truthy(H, H.f('_frozen', e))))
		return [('KeyError', lost), ('ValueError', And(Not(lost), there, Not(ok))), ('RuntimeError', And(Not(lost), there, ok, cannot))]

	def raise_modifies(self, H, a, ex):
		e = If(And(Not(self.lost(H, a)), self.there(H, a)), V.rv(self.old(H, a)), -1)
		return [('f:_label', e), ('f:_style', e), WARN]

	def modifies(self, H, a, ex):
		u, v = self.ends(H, a)
		e = If(And(Not(self.lost(H, a)), self.there(H, a)), V.rv(self.old(H, a)), -1)
		return [('D', V.rv(self.s.O(H, u))), ('D', V.rv(self.s.In(H, v))), ('f:_label', e), ('f:_style', e), ('f:_value', e), WARN]

	def result_tag(self):
		return 'Edge'

	def ensures(self, H0, H1, a, res, ex):
		g, s = a['self'], self.s
		u, v = self.ends(H0, a)
		there, old, eid = self.there(H0, a), self.old(H0, a), self.eid(H0, a)
		new = Not(there)
		f0, f1 = (lambda n: H0.f(n, old)), (lambda n: H1.f(n, res))
		given = lambda n: self.given(a, n)
		return [
			('a new edge is recorded last at both ends', Implies(new, And(s.Od(H1, u) == dset(s.Od(H0, u), eid, res), s.Id(H1, v) == dset(s.Id(H0, v), eid, res), V.rv(res) >= H0.next))),
			('an existing edge: the registered one', Implies(there, And(res == old, s.Od(H1, u) == s.Od(H0, u), s.Id(H1, v) == s.Id(H0, v)))),
			('the result is an edge from start to end with the id', And(s.isedge(H1, res), f1('_start') == u, f1('_end') == v, f1('_raw_id') == given('id'), f1('_graph') == g)),
			('the nodes are the same', s.nd(H1, g) == s.nd(H0, g)),
			('a new edge has its label, value, tooltip and style', Implies(new, And(f1('_label') == given('label'), f1('_value') == given('value'), f1('_tooltip') == self.extra(a, 'tooltip'),
				self.style_set(H0, H1, NONE, f1('_style'), given('style'), 'EdgeStyle')))),
			('an existing edge: only the label, value and style that are given change', Implies(there, And(f1('_label') == If(V.is_none(given('label')), f0('_label'), given('label')),
				f1('_value') == If(V.is_none(given('value')), f0('_value'), given('value')), self.style_set(H0, H1, f0('_style'), f1('_style'), given('style'), 'EdgeStyle')))),
			('warns exactly if asked to', warned(H1) == If(And(there, given('if_edge_exists') == lit('warn')), warned(H0) + 1, warned(H0))),
		] + self.keeps(H1, g)


class GraphConnect(Connect):
	key = 'GraphWithoutDisplay.connect'
	KW = ('tooltip', 'id', 'label', 'value', 'if_edge_exists')
	rest = ('tooltip', 'id', 'label', 'value')
	ARGS = ('start', 'end', 'style')

	def given(self, a, n):
		if n in self.ARGS:
			return a[n]
		v = a['kwargs'].items.get(n)
		return v.t if v is not None else lit('warn') if n == 'if_edge_exists' else NONE


class Removal(Mutator):
	def removed_edge(self, H1, e):
		return [('the edge has no start, end and graph', And(V.is_none(H1.f('_start', e)), V.is_none(H1.f('_end', e)), V.is_none(H1.f('_graph', e))))]


class OnEdge(Removal):
	"""an edge of a graph, or one that was removed"""
	name = 'self'

	def make_args(self, ex, st, case):
		e = z3.Const('edge', V)
		st.assume(ex.tagf(st, e, 'Edge'))
		st.types[e] = 'Edge'
		return {self.name: T(e)}

	def applies(self, ex, st, env):
		return isinstance(env.get(self.name), T)

	def there(self, H, e):
		return And(Not(V.is_none(H.f('_start', e))), Not(V.is_none(H.f('_end', e))))

	def registered(self, H, e):
		s = self.s
		g, u = H.f('_graph', e), H.f('_start', e)
		return And(s.innode(H, g, u), ddom(s.Od(H, u), s.edge_id(H, e)), dget(s.Od(H, u), s.edge_id(H, e)) == e)

	def requires(self, H, a, ex):
		e = a[self.name]
		g = H.f('_graph', e)
		return [('an edge', self.s.isedge(H, e)), ('both ends or none', Or(self.there(H, e), And(V.is_none(H.f('_start', e)), V.is_none(H.f('_end', e)))))] + [(n, Implies(self.there(H, e), f)) for n, f in self.base(H, g) + [('the edge is in its graph', self.registered(H, e))]]

	def raises(self, H, a, ex):
		return [('ValueError', Not(self.there(H, a[self.name])))]

	def ensures(self, H0, H1, a, res, ex):
		e, s = a[self.name], self.s
		g, u, v, eid = H0.f('_graph', e), H0.f('_start', e), H0.f('_end', e), s.edge_id(H0, e)
		return [('the edge is removed from its start', s.Od(H1, u) == ddel(s.Od(H0, u), eid)), ('the edge is removed from its end', s.Id(H1, v) == ddel(s.Id(H0, v), eid)),
			('the edge has no graph', V.is_none(H1.f('_graph', e)))] + self.keeps(H1, g)

	def dicts(self, H, a):
		e = a[self.name]
		there = self.there(H, e)
		return [('D', If(there, V.rv(self.s.O(H, H.f('_start', e))), -1)), ('D', If(there, V.rv(self.s.In(H, H.f('_end', e))), -1))]


class RemoveSelf(OnEdge, Contract):
	key = 'Edge.remove_self'

	def modifies(self, H, a, ex):
		e = V.rv(a[self.name])
		return self.dicts(H, a) + [('f:_start', e), ('f:_end', e), ('f:_graph', e)]

	def ensures(self, H0, H1, a, res, ex):
		return self.removed_edge(H1, a[self.name]) + super().ensures(H0, H1, a, res, ex)


class Disconnect(OnEdge, Contract):
	key = 'BasicGraph.disconnect'
	name = 'edge'

	def modifies(self, H, a, ex):
		e = V.rv(a[self.name])
		return self.dicts(H, a) + [('f:_raw_id', e), ('f:_graph', e)]


class GraphDisconnect(Disconnect):
	key = 'GraphWithoutDisplay.disconnect'

	def make_args(self, ex, st, case):
		return {'self': self.graph_arg(ex, st), **super().make_args(ex, st, case)}


r_, j_ = z3.Ints('r j')
EDGE_FIELDS = ('_start', '_end', '_graph')


class EdgesRemoved(Removal):
	"""the edges of a node are gone, everything else is as it was"""
	def touches(self, H, n, e):
		return Or(H.f('_start', e) == n, H.f('_end', e) == n)

	def left(self, H0, H1, g, gone, D0=None, D1=None):
		"""every node has exactly its edges that are not gone, in the order they had; nothing else changes"""
		s = self.s
		out = []
		for what, dct in (('outward', s.Od), ('inward', s.Id)):
			d0, d1 = dct(H0, u_), dct(H1, u_)
			out.append((f'every node keeps exactly its {what} edges that are not removed', FA([u_, t_], Implies(s.innode(H0, g, u_),
				And(ddom(d1, t_) == And(ddom(d0, t_), Not(gone(dget(d0, t_)))), Implies(ddom(d1, t_), dget(d1, t_) == dget(d0, t_)))), [ddom(d1, t_), ddom(d0, t_)])))
			out.append((f'the {what} edges keep their order', FA([u_], Implies(s.innode(H0, g, u_), lsub(dkeys(d1), dkeys(d0))), [dkeys(d1)])))
		own = V.a2(z3.Select(H0.c('own'), r_))
		out.append(('other dictionaries do not change', FA([r_], Implies(r_ < H0.next, Or(z3.Select(H1.c('D'), r_) == z3.Select(H0.c('D'), r_), And(s.innode(H0, g, own),
			Or(r_ == V.rv(s.O(H0, own)), r_ == V.rv(s.In(H0, own)))))), [z3.Select(H1.c('D'), r_)])))
		for f in EDGE_FIELDS:
			a0, a1 = H0.c('f:' + f), H1.c('f:' + f)
			out.append((f'{f} changes for removed edges only', FA([r_], Implies(r_ < H0.next, Or(z3.Select(a1, r_) == z3.Select(a0, r_), And(gone(V.r(r_)), V.is_none(z3.Select(a1, r_))))), [z3.Select(a1, r_)])))
			out.append((f'{f} of the removed edges is None', FA([e_], Implies(gone(e_), V.is_none(H1.f(f, e_))), [H1.f(f, e_)])))
		return out

	def gone(self, H, g, n):
		"""the edges of g that start or end at n"""
		s = self.s
		key = lambda e: s.edge_id(H, e)
		return lambda e: Or(And(ddom(s.Od(H, n), key(e)), dget(s.Od(H, n), key(e)) == e), And(ddom(s.Id(H, n), key(e)), dget(s.Id(H, n), key(e)) == e))

	COMPS = ['D', 'f:_start', 'f:_end', 'f:_graph']

	def modifies(self, H, a, ex):
		return list(self.COMPS)


class RemoveEdges(EdgesRemoved, OnNode, Contract):
	key = 'Node.remove_edges'
	use = ('Node.edges',)

	def make_args(self, ex, st, case):
		return {'self': self.node_self(ex, st)}

	def requires(self, H, a, ex):
		return self.base_node(H, a['self'])

	def invariants(self, lc):
		if lc.iter is None:
			return []
		H0, a, s, ex = lc.root['H0'], lc.root['args'], self.s, lc.ex
		n = a['self']
		g = H0.f('_graph', n)
		out = []
		for i, (name, _) in enumerate(self.whole(H0, g)):
			out.append((f'the invariant: {name}', lambda st, k, vis, i=i: self.whole(ex.view(st), g)[i][1]))
		out.append(('the nodes', lambda st, k, vis: s.nd(ex.view(st), g) == s.nd(H0, g)))
		for i, (name, _) in enumerate(self.left(H0, H0, g, lambda e: lmem(lnil, e))):
			out.append((f'so far: {name}', lambda st, k, vis, i=i: self.left(H0, ex.view(st), g, lambda e: lmem(vis, e))[i][1]))
		return out

	def ensures(self, H0, H1, a, res, ex):
		n = a['self']
		g = H0.f('_graph', n)
		s = self.s
		return [('the node has no edges', And(s.Od(H1, n) == dnil, s.Id(H1, n) == dnil)), ('the nodes are the same', s.nd(H1, g) == s.nd(H0, g))] + \
			self.left(H0, H1, g, self.gone(H0, g, n)) + self.keeps(H1, g)

	def hints(self, H0, H1, a, res, ex, st):
		n = a['self']
		return [empty_or_not(self.s.Od(H1, n)), empty_or_not(self.s.Id(H1, n))]


class RemoveNode(EdgesRemoved, OnGraph, Contract):
	key = 'BasicGraph.remove_node'

	def make_args(self, ex, st, case):
		return {'self': self.graph_arg(ex, st), 'node': T(z3.Const('node', V))}

	def requires(self, H, a, ex):
		return self.base(H, a['self']) + [('the node is a name or a node of the graph', self.node_ok(H, a['self'], a['node']))]

	def raises(self, H, a, ex):
		return [('KeyError', self.missing(H, a['self'], a['node']))]

	def ensures(self, H0, H1, a, res, ex):
		g, s = a['self'], self.s
		n = self.sel(H0, g, a['node'])
		out = [('exactly the node is removed from the nodes', s.nd(H1, g) == ddel(s.nd(H0, g), s.raw(H0, n))),
			('the node has no graph and no edges', And(V.is_none(H1.f('_graph', n)), s.Od(H1, n) == dnil, s.Id(H1, n) == dnil))]
		return out + self.left(H0, H1, g, self.gone(H0, g, n), n) + self.keeps(H1, g)

	def left(self, H0, H1, g, gone, n):
		s = self.s
		out = [(name, f) for name, f in super().left(H0, H1, g, gone) if not name.startswith(('other', '_graph changes'))]
		own = V.a2(z3.Select(H0.c('own'), r_))
		out.append(('other dictionaries do not change', FA([r_], Implies(r_ < H0.next, Or(z3.Select(H1.c('D'), r_) == z3.Select(H0.c('D'), r_), r_ == V.rv(H0.f('_nodes_dict', g)), And(s.innode(H0, g, own),
			Or(r_ == V.rv(s.O(H0, own)), r_ == V.rv(s.In(H0, own)))))), [z3.Select(H1.c('D'), r_)])))
		a0, a1 = H0.c('f:_graph'), H1.c('f:_graph')
		out.append(('_graph changes for the node and the removed edges only', FA([r_], Implies(r_ < H0.next, Or(z3.Select(a1, r_) == z3.Select(a0, r_), And(Or(V.r(r_) == n, gone(V.r(r_))), V.is_none(z3.Select(a1, r_))))), [z3.Select(a1, r_)])))
		return out


class Init(Mutator, Contract):
	"""a new graph is empty and has the settings that are given"""
	key = 'BasicGraph.__init__'
	ARGS = ('strict', 'ordering', 'node_label_converter', 'edge_label_converter')
	FIELDS = {'_is_strict': 'strict', '_ordering': 'ordering', '_node_label_converter': 'node_label_converter', '_edge_label_converter': 'edge_label_converter'}
	OTHER = ('_nodes_dict', '_nodes_have_graph', '_node_counter')

	def make_args(self, ex, st, case):
		return {'self': self.graph_arg(ex, st), **{n: T(z3.Const(n, V)) for n in self.ARGS}}

	def requires(self, H, a, ex):
		return [('the object', self.s.isgraph(H, a['self']))]

	def modifies(self, H, a, ex):
		return [('f:' + f, V.rv(a['self'])) for f in (*self.FIELDS, *self.OTHER)]

	def ensures(self, H0, H1, a, res, ex):
		g, s = a['self'], self.s
		return [('no nodes', s.nd(H1, g) == dnil), ('the node dictionary is new', V.rv(H1.f('_nodes_dict', g)) >= H0.next), ('the counter starts at 0', H1.f('_node_counter', g) == V.i(0)),
			('the settings', And(*[H1.f(f, g) == a[n] for f, n in self.FIELDS.items()]))] + self.keeps(H1, g)


class PlainGraphInit(Init):
	"""without an object to make the graph from"""
	key = None
	FIELDS = {**Init.FIELDS, '_direction': 'direction', '_global_node_style_overwrite': 'node_style', '_global_edge_style_overwrite': 'edge_style', '_label': 'label', '_label_location': 'label_location',
		'_label_colour': 'label_colour', '_label_url': 'label_url', '_label_background_colour': 'label_background_colour', '_tooltip': 'tooltip', '_font': 'font', '_font_size': 'font_size',
		'_colour_scheme': 'colour_scheme', '_stylist': 'stylist', '_style_overwrite_allowed': 'style_overwrite_allowed'}
	OTHER = Init.OTHER + ('_background_colour', '_kwargs', '_node_style_overwrites', '_edge_style_overwrites', '_node_colour_overwrites', '_edge_colour_overwrites')
	ARGS = tuple(FIELDS.values())

	def make_args(self, ex, st, case):
		bg = T(z3.Const('background_colour', V))
		st.assume(V.is_s(bg.t))
		return {**super().make_args(ex, st, case), 'obj': T(NONE), 'background_colour': bg}

	def ensures(self, H0, H1, a, res, ex):
		g = a['self']
		empty = lambda f: And(V.is_r(H1.f(f, g)), H1.cls(H1.f(f, g)) == DICT, H1.allocated(H1.f(f, g)), V.rv(H1.f(f, g)) >= H0.next, H1.own(H1.f(f, g)) == V.t2(g, lit(f)), H1.dct(H1.f(f, g)) == dnil)
		return super().ensures(H0, H1, a, res, ex) + [('no styles of nodes and edges', And(*[empty(f) for f in self.OTHER if f.endswith('overwrites')]))]

	def applies(self, ex, st, env):
		return super().applies(ex, st, env) and isinstance(env.get('obj'), T) and env['obj'].t.eq(NONE)


# ---------------------------------------------------------------------- labels, values and styles
class Setter(Wrapper, Mutator, Contract):
	"""changes one field of one object"""
	cls = 'Node'
	value = None

	def cases(self, ex):
		return ['Node', 'Edge'] if self.cls is None else ['']

	def make_args(self, ex, st, case):
		x = z3.Const('x', V)
		tag = self.cls or case
		st.assume(ex.tagf(st, x, tag))
		st.types[x] = tag
		return {'self': T(x), **({self.value: T(z3.Const(self.value, V))} if self.value else {})}

	def requires(self, H, a, ex):
		x = a['self']
		return [('the object', H.allocated(x)), ('frozen or not', V.is_b(H.f('_frozen', x)))]

	def modifies(self, H, a, ex):
		return [('f:' + self.field, V.rv(a['self']))]

	def new(self, a):
		return a[self.value]

	def ensures(self, H0, H1, a, res, ex):
		return [('the value is set', H1.f(self.field, a['self']) == self.new(a))]


class SetNodeLabel(Setter):
	key = 'Node.label='
	field, value = '_label', 'label'


class SetLabel(Setter):
	key = 'GraphObj.label='
	cls, field, value = None, '_label', 'label'


class SetValue(Setter):
	key = 'GraphObj.value='
	cls, field, value = None, '_value', 'value'

	def raises(self, H, a, ex):
		return [('RuntimeError', V.bv(H.f('_frozen', a['self'])))]


class Freeze(Setter):
	key = 'GraphObj.freeze'
	cls, field = None, '_frozen'

	def new(self, a):
		return TRUE


class Unfreeze(Freeze):
	key = 'GraphObj.unfreeze'

	def new(self, a):
		return FALSE


class SetStyle(Setter):
	"""a style is set once, unless the graph allows to overwrite styles"""
	key = 'Node.style='
	field, value = '_style', 'style'
	style = 'NodeStyle'

	def requires(self, H, a, ex):
		g = H.f('_graph', a['self'])
		return super().requires(H, a, ex) + [('the graph', self.s.isgraph(H, g, 'Graph')), ('the setting exists', self.s.stored(H, H.f('_style_overwrite_allowed', g))),
			('the style is a style or a dictionary', self.style_ok(H, a['style'], self.style))]

	def raises(self, H, a, ex):
		x = a['self']
		return [('RuntimeError', And(Not(V.is_none(H.f('_style', x))), Not(truthy(H, H.f('_style_overwrite_allowed', H.f('_graph', x))))))]

	def ensures(self, H0, H1, a, res, ex):
		return [('the style is set', self.style_set(H0, H1, H0.f('_style', a['self']), H1.f('_style', a['self']), a['style'], self.style))]


class SetEdgeStyle(SetStyle):
	key = 'Edge.style='
	cls, style = 'Edge', 'EdgeStyle'


class NodeConnect(OnNode, Connect):
	"""connect_to, connect_from"""
	key = 'Node.connect_to'
	KW = ('tooltip', 'style', 'id', 'label', 'value', 'if_edge_exists')
	ARGS = ('self', 'node')
	forward = True

	def cases(self, ex):
		return ['', 'without ' + ', '.join(self.KW)]

	def make_args(self, ex, st, case):
		return {'self': self.node_self(ex, st), 'node': T(z3.Const('node', V)), 'kwargs': present({x: T(z3.Const(x, V)) for x in self.KW}, case)}

	def given(self, a, n):
		v = a['kwargs'].items.get(n)
		return v.t if v is not None else lit('warn') if n == 'if_edge_exists' else NONE

	def as_graph(self, H, a):
		n, m = (a['self'], a['node']) if self.forward else (a['node'], a['self'])
		return {'self': H.f('_graph', a['self']), 'start': n, 'end': m, 'kwargs': a['kwargs']}

	def requires(self, H, a, ex):
		return super().requires(H, self.as_graph(H, a), ex) + self.base_node(H, a['self']) + [('a graph', self.s.isgraph(H, H.f('_graph', a['self']), 'Graph'))]

	def raises(self, H, a, ex):
		return super().raises(H, self.as_graph(H, a), ex)

	def modifies(self, H, a, ex):
		return super().modifies(H, self.as_graph(H, a), ex)

	def raise_modifies(self, H, a, ex):
		return super().raise_modifies(H, self.as_graph(H, a), ex)

	def ensures(self, H0, H1, a, res, ex):
		return super().ensures(H0, H1, self.as_graph(H0, a), res, ex)


class NodeConnectFrom(NodeConnect):
	key = 'Node.connect_from'
	forward = False


# ---------------------------------------------------------------------- graphs from lists
firsts = ufn('firsts', L, L, I, L)      # the names in two lists up to a position, in the order of their first appearance


def once(l, x):
	return If(lmem(l, x), l, lapp(l, x))


class FromLists(Mutator, Contract):
	key = 'BasicGraph.from_lists'

	def make_args(self, ex, st, case):
		d = {'cls': MCls(ex.p.classes['Graph'])}
		for n in ('start', 'end', 'edge'):
			x = z3.Const(n, V)
			st.assume(And(ex.tagf(st, x, 'list'), V.rv(x) < ex.comp(st, 'next'), V.rv(x) >= 0))
			st.types[x] = 'list'
			d[n] = T(x)
		d['strict'] = T(z3.Const('strict', V))
		return d

	def lists(self, H, a):
		return [H.lst(a[n]) for n in ('start', 'end', 'edge')]

	def number(self, H, a):
		n, m, l = [llen(x) for x in self.lists(H, a)]
		least = lambda x, y: If(x <= y, x, y)
		return least(least(n, m), l)

	def requires(self, H, a, ex):
		s, e, _ = self.lists(H, a)
		return [('the names are strings or numbers', And(*[FA([x_], Implies(lmem(l, x_), self.s.name_ok(x_)), [lmem(l, x_)]) for l in (s, e)]))]

	def lemmas(self, H, a, ex):
		s, e, _ = self.lists(H, a)
		return [firsts(s, e, 0) == lnil, FA([i_, j_], Implies(And(0 <= i_, i_ < self.number(H, a), j_ == i_ + 1), firsts(s, e, j_) == once(once(firsts(s, e, i_), lat(s, i_)), lat(e, i_))), [(firsts(s, e, i_), firsts(s, e, j_))])]

	def made(self, H0, H, a, g, k):
		s = self.s
		st, en, ed = self.lists(H0, a)
		nd = s.nd(H, g)
		t = V.t3(lat(st, i_), lat(en, i_), V.i(i_))
		u = dget(nd, lat(st, i_))
		j = V.iv(V.c3(t_))
		return [
			('exactly the names, in the order of their first appearance', dkeys(nd) == firsts(st, en, k)),
			('the names are nodes', FA([i_], Implies(And(0 <= i_, i_ < k), And(ddom(nd, lat(st, i_)), ddom(nd, lat(en, i_)))), [lat(st, i_)])),
			('one edge per position', FA([i_], Implies(And(0 <= i_, i_ < k), ddom(s.Od(H, u), t)), [lat(st, i_)])),
			('no other edges', FA([u_, t_], Implies(And(s.innode(H, g, u_), ddom(s.Od(H, u_), t_)), And(V.is_t3(t_), V.is_i(V.c3(t_)), 0 <= j, j < k, V.a3(t_) == lat(st, j), V.b3(t_) == lat(en, j))), [ddom(s.Od(H, u_), t_)])),
			('each with the label of its position', FA([u_, t_], Implies(And(s.innode(H, g, u_), ddom(s.Od(H, u_), t_)), H.f('_label', dget(s.Od(H, u_), t_)) == lat(ed, j)), [ddom(s.Od(H, u_), t_)])),
		]

	def result_tag(self):
		return 'Graph'

	def invariants(self, lc):
		H0, a, s, ex = lc.root['H0'], lc.root['args'], self.s, lc.ex
		graphs = [v.t for v in lc.entry.env.values() if isinstance(v, T) and ex.static_tag(lc.entry, v.t) == 'Graph']
		if len(graphs) != 1:
			return []
		g = graphs[0]
		out = []
		n0 = lc.root['next0']
		for comp in ('D', 'f:_start', 'f:_end', 'f:_graph', 'f:_label', 'f:_value', 'f:_style'):
			out.append((f'{comp} of what is older stays', lambda st, k, vis, comp=comp: FA([r_], Implies(r_ < n0, z3.Select(ex.comp(st, comp), r_) == z3.Select(H0.c(comp), r_)), [z3.Select(ex.comp(st, comp), r_)])))
		for i, (name, _) in enumerate(self.whole(H0, g)):
			out.append((f'the invariant: {name}', lambda st, k, vis, i=i: self.whole(ex.view(st), g)[i][1]))
		for i, (name, _) in enumerate(self.made(H0, H0, a, g, z3.IntVal(0))):
			out.append((f'so far: {name}', lambda st, k, vis, i=i: self.made(H0, ex.view(st), a, g, k)[i][1]))
		out.append(('strictness', lambda st, k, vis: ex.view(st).f('_is_strict', g) == a['strict']))
		out.append(('the setting', lambda st, k, vis: ex.view(st).f('_style_overwrite_allowed', g) == FALSE))
		out += [(n, lambda st, k, vis, i=i: s.newer(ex.view(st), g, n0)[i][1]) for i, (n, _) in enumerate(s.newer(H0, g, n0))]
		return out

	def modifies(self, H, a, ex):
		return [WARN]

	def ensures(self, H0, H1, a, res, ex):
		return [('a new graph', And(V.rv(res) >= H0.next, H1.f('_is_strict', res) == a['strict']))] + self.made(H0, H1, a, res, self.number(H0, a)) + self.keeps(H1, res)
