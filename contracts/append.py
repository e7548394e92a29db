"""Contracts of making and extending graphs from representations."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract
from .spec import u_, v_, w_, t_, k_, i_
from .mutators import Mutator, PlainGraphInit, WARN
from .copies import r_
from .relatives import truthy
from .represent import Rep, Represent, SETTINGS, NODE_KEYS, EDGE_KEYS, x_, y_, j_

KINDS = ('full', 'plain', 'graph')
STYLES = ('node_styles', 'edge_styles', 'node_colours')


# ---------------------------------------------------------------------- appending
class Source:
	"""the names and the rows of edges of a representation, on the heap where it is"""
	def __init__(self, K, N, E, H, kind):
		self.K, self.N, self.E, self.H, self.kind = K, N, E, H, kind

	def has(self, x, k):
		return And(lmem(self.K, x), lidx(self.K, x) < k)

	def node(self, x, key):
		if self.N is None:
			return NONE
		d = self.H.dct(dget(self.N, x))
		return If(ddom(d, lit(key)), dget(d, lit(key)), NONE)

	def dictionary(self, i):
		return lat(self.H.lst(lat(self.E, i)), 2)

	def ends(self, i):
		x = lat(self.E, i)
		return (V.a2(x), V.b2(x)) if self.kind == 'pairs' else (lat(self.H.lst(x), 0), lat(self.H.lst(x), 1))

	def edge(self, i, key):
		if self.kind == 'pairs':
			return NONE
		d = self.H.dct(self.dictionary(i))
		return If(ddom(d, lit(key)), dget(d, lit(key)), NONE)

	def id(self, i):
		return V.t3(*self.ends(i), self.edge(i, 'id'))

	def first(self, t):
		"""the first row with an id"""
		return ufn('first_row_' + '_'.join(str(self.H.c(c).get_id()) for c in 'LD'), L, V, I)(self.E, t)

	def row(self, raw, t, k):
		"""one of the first k rows says the edge t of the node with this name"""
		return And(V.is_t3(t), V.a3(t) == raw, 0 <= self.first(t), self.first(t) < k, self.id(self.first(t)) == t)

	def before(self, t, q):
		return self.first(t) < self.first(q)

	def said(self, t, key):
		return self.edge(self.first(t), key)

	def each(self, there, k):
		return FA([i_], Implies(And(0 <= i_, i_ < k), there(self.ends(i_)[0], self.id(i_))), [lat(self.E, i_)])

	def first_defs(self):
		return [FA([i_], Implies(And(0 <= i_, i_ < llen(self.E)), And(0 <= self.first(self.id(i_)), self.first(self.id(i_)) <= i_, self.id(self.first(self.id(i_))) == self.id(i_))), [lat(self.E, i_)])]


class GraphSource(Source):
	"""a graph as a source"""
	def __init__(self, rep, H, g):
		self.s, self.H, self.g = rep.s, H, g
		self.nd = rep.s.nd(H, g)
		self.K, self.N, self.E = dkeys(self.nd), self.nd, None

	def node(self, x, key):
		return self.H.f(NODE_KEYS[key], dget(self.nd, x)) if key in NODE_KEYS else NONE

	def at(self, t):
		return self.s.Od(self.H, dget(self.nd, V.a3(t)))

	def row(self, raw, t, k):
		return And(V.is_t3(t), V.a3(t) == raw, ddom(self.nd, raw), ddom(self.at(t), t))

	def before(self, t, q):
		return lidx(dkeys(self.at(t)), t) < lidx(dkeys(self.at(q)), q)

	def said(self, t, key):
		return self.H.f(EDGE_KEYS[key], dget(self.at(t), t))

	def each(self, there, k):
		s = self.s
		return FA([u_, t_], Implies(And(s.innode(self.H, self.g, u_), ddom(s.Od(self.H, u_), t_)), there(s.raw(self.H, u_), t_)), [ddom(s.Od(self.H, u_), t_)])


t0_ = z3.Const('t0', V)


def of_node(own):
	return Or(V.b2(own) == lit('_outward_edges_dict'), V.b2(own) == lit('_inward_edges_dict'))


class Append(Rep, Mutator, Contract):
	key = 'GraphWithoutDisplay.append'
	cost = 3
	appends = True
	FULL = (*SETTINGS, 'nodes', 'edges')

	def cases(self, ex):
		return list(KINDS)

	def obj_arg(self, ex, st, case):
		x = z3.Const('obj', V)
		tag = 'Graph' if case == 'graph' else 'dict'
		st.assume(ex.tagf(st, x, tag))
		st.types[x] = tag
		return T(x)

	def make_args(self, ex, st, case):
		return {'self': self.graph_arg(ex, st), 'obj': self.obj_arg(ex, st, case)}

	def kind(self, ex):
		return ex.rootctx['case']

	def applies(self, ex, st, env):
		return bool(ex.rootctx and getattr(ex.rootctx['contract'], 'appends', False) and self.kind(ex) in KINDS)

	def source(self, H, d, kind):
		get = lambda k: dget(H.dct(d), lit(k))
		if kind == 'plain':
			return Source(H.lst(get('nodes')), None, H.lst(get('edges')), H, 'pairs')
		N = H.dct(get('nodes'))
		return Source(dkeys(N), N, H.lst(get('edges')), H, 'lists')

	def has_keys(self, H, d, keys):
		return And(*[ddom(H.dct(d), lit(k)) for k in keys], FA([y_], ddom(H.dct(d), y_) == Or(*[y_ == lit(k) for k in keys]), [ddom(H.dct(d), y_)]))

	def free(self, H, x):
		"""a dictionary that is not part of a graph"""
		return And(self.s.isdict(H, x), V.is_none(H.own(x)))

	def known_keys(self, H, x, keys):
		return FA([y_], Implies(ddom(H.dct(x), y_), Or(*[y_ == lit(k) for k in keys])), [ddom(H.dct(x), y_)])

	def can(self, H, g, x, style, value):
		"""nothing forbids to set these"""
		return And(Or(V.is_none(style), V.is_none(H.f('_style', x)), truthy(H, H.f('_style_overwrite_allowed', g))), Or(V.is_none(value), Not(truthy(H, H.f('_frozen', x)))))

	def fine(self, H, g, d, kind, nd):
		"""what a representation must be, for the nodes that are there"""
		s = self.s
		if kind == 'graph':
			nds = s.nd(H, d)
			e, e2 = dget(s.Od(H, u_), t_), dget(s.Od(H, dget(nd, V.a3(t_))), t_)
			x, x2 = dget(nds, k_), dget(nd, k_)
			f = H.f
			return [('source: ' + n, y) for n, y in self.base(H, d) + [self.own_dicts(H, d), self.style_keys(*[H.dct(H.f(SETTINGS[n], d)) for n in STYLES])]] + [('another graph', d != g), ('the label', Or(V.is_none(f('_label', d)), V.is_s(f('_label', d)))),
				('nodes that can change', FA([k_], Implies(And(ddom(nds, k_), ddom(nd, k_)), self.can(H, g, x2, f('_style', x), f('_value', x))), [ddom(nds, k_)])),
				('edges that can change', FA([u_, t_], Implies(And(s.innode(H, d, u_), ddom(s.Od(H, u_), t_), ddom(nd, V.a3(t_)), ddom(s.Od(H, dget(nd, V.a3(t_))), t_)), self.can(H, g, e2, f('_style', e), f('_value', e))), [ddom(s.Od(H, u_), t_)]))]
		src = self.source(H, d, kind)
		out = [('the keys', self.has_keys(H, d, self.FULL if kind != 'plain' else ('nodes', 'edges'))), ('not part of a graph', self.free(H, d))]
		get = lambda k: dget(H.dct(d), lit(k))
		islist = lambda x: And(V.is_r(x), H.cls(x) == LIST, H.allocated(x))
		i = i_
		u, v = src.ends(i)
		known = lambda x: Or(ddom(nd, x), lmem(src.K, x))
		inside = And(0 <= i, i < llen(src.E))
		out += [('a list of edges', islist(get('edges'))), ('the names are strings or numbers', FA([k_], Implies(lmem(src.K, k_), s.name_ok(k_)), [lmem(src.K, k_)]))]
		if kind == 'plain':
			return out + [('a list of nodes', islist(get('nodes'))), ('pairs of names', FA([i], Implies(inside, And(V.is_t2(lat(src.E, i)), known(u), known(v))), [lat(src.E, i)]))]
		x, l = dget(src.N, k_), H.lst(lat(src.E, i))
		e = dget(s.Od(H, dget(nd, u)), src.id(i))
		there = And(ddom(nd, u), ddom(s.Od(H, dget(nd, u)), src.id(i)))
		j = j_
		return out + [('a dictionary of nodes', self.free(H, get('nodes'))),
			('a dictionary of each node', FA([k_], Implies(ddom(src.N, k_), And(self.free(H, x), self.known_keys(H, x, (*NODE_KEYS, 'tooltip')), self.style_ok(H, src.node(k_, 'style'), 'NodeStyle'))), [ddom(src.N, k_)])),
			('nodes that can change', FA([k_], Implies(And(ddom(src.N, k_), ddom(nd, k_)), self.can(H, g, dget(nd, k_), src.node(k_, 'style'), src.node(k_, 'value'))), [ddom(src.N, k_)])),
			('lists of two names and a dictionary', FA([i], Implies(inside, And(islist(lat(src.E, i)), llen(l) == 3, known(u), known(v), self.free(H, lat(l, 2)), self.known_keys(H, lat(l, 2), (*EDGE_KEYS, 'tooltip')),
				s.raw_ok(src.edge(i, 'id')), self.style_ok(H, src.edge(i, 'style'), 'EdgeStyle'))), [lat(src.E, i)])),
			('edges that can change', FA([i], Implies(And(inside, there), self.can(H, g, e, src.edge(i, 'style'), src.edge(i, 'value'))), [lat(src.E, i)])),
			('different edges', FA([i, j], Implies(And(0 <= i, i < j, j < llen(src.E)), src.id(i) != src.id(j)), [(lat(src.E, i), lat(src.E, j))])),
			('the label', Or(V.is_none(get('label')), V.is_s(get('label')))),
			('styles of nodes and edges', And(*[self.styles_of_others(H, g, get(k)) for k in STYLES])), self.style_keys(*[H.dct(get(k)) for k in STYLES])]

	def style_keys(self, *dicts):
		"""styles are by name or by the id of an edge"""
		return ('styles by names and ids of edges', And(*[FA([y_], Implies(ddom(d, y_), V.is_t3(y_) if edges else self.s.name_ok(y_)), [ddom(d, y_)]) for d, edges in zip(dicts, (False, True, False))]))

	def own_dicts(self, H, g):
		return ('the styles of the graph', And(*[And(self.s.isdict(H, H.f(f, g)), H.own(H.f(f, g)) == V.t2(g, lit(f))) for f in ('_node_style_overwrites', '_edge_style_overwrites', '_node_colour_overwrites', '_edge_colour_overwrites')]))

	def requires(self, H, a, ex):
		g, x = a['self'], a['obj']
		kind = self.kind(ex)
		out = self.base(H, g) + [('the setting is true or false', V.is_b(H.f('_style_overwrite_allowed', g))), self.own_dicts(H, g)]
		return out + self.fine(H, g, x, kind, self.s.nd(H, g)) + self.first_rows(H, x, kind)

	def first_rows(self, H, x, kind):
		"""(defines a ghost function)"""
		return [('the first row with an id', f) for f in self.source(H, x, kind).first_defs()] if kind != 'graph' else []

	def said_nodes(self, H0, H1, g, src, k):
		s = self.s
		nd0, nd1 = s.nd(H0, g), s.nd(H1, g)
		K0, K1 = dkeys(nd0), dkeys(nd1)
		was, there, is_ = lambda x: ddom(nd0, x), lambda x: src.has(x, k), lambda x: ddom(nd1, x)
		n1 = dget(nd1, x_)
		pos = lambda x: lidx(K1, x)
		new = lambda x: And(there(x), Not(was(x)))
		f = lambda H, n, x: H.f(n, x)
		give = lambda n: src.node(x_, n)
		set_ = lambda H0v, H1v, v: H1v == If(And(there(x_), Not(V.is_none(v))), v, H0v)
		return [('the same dictionary', H1.f('_nodes_dict', g) == H0.f('_nodes_dict', g)),
			('exactly the names of both', FA([x_], is_(x_) == Or(was(x_), there(x_)), [is_(x_), was(x_), lmem(src.K, x_)])),
			('the nodes that were there', FA([x_], Implies(was(x_), And(dget(nd1, x_) == dget(nd0, x_), pos(x_) == lidx(K0, x_))), [was(x_)])),
			('no fewer names', llen(K1) >= llen(K0)),
			('new nodes come after them', FA([x_], Implies(new(x_), And(pos(x_) >= llen(K0), V.rv(n1) >= H0.next)), [lmem(src.K, x_)])),
			('new nodes are in order', FA([x_, y_], Implies(And(new(x_), new(y_), lidx(src.K, x_) < lidx(src.K, y_)), pos(x_) < pos(y_)), [(pos(x_), pos(y_))])),
			('in an empty graph: the names in order', Implies(And(nd0 == dnil, nodup(src.K)), And(llen(K1) == k, FA([i_], Implies(And(0 <= i_, i_ < k), lat(K1, i_) == lat(src.K, i_)), [lat(K1, i_), lat(src.K, i_)])))),
			('nothing new: the nodes as they were', Implies(FA([x_], Implies(lmem(src.K, x_), was(x_)), [lmem(src.K, x_)]), nd1 == nd0)),
			('new nodes have what is given', FA([x_], Implies(new(x_), And(f(H1, '_label', n1) == give('label'), f(H1, '_value', n1) == give('value'), V.is_none(give('style')) == V.is_none(f(H1, '_style', n1)))), [lmem(src.K, x_)])),
			('the others get what is given', FA([x_], Implies(was(x_), And(set_(f(H0, '_label', n1), f(H1, '_label', n1), give('label')), set_(f(H0, '_value', n1), f(H1, '_value', n1), give('value')),
				Implies(Not(And(there(x_), Not(V.is_none(give('style'))))), f(H1, '_style', n1) == f(H0, '_style', n1)))), [was(x_)]))]

	def said_edges(self, H0, H1, g, src, k):
		s = self.s
		nd0 = s.nd(H0, g)
		d0, d1 = s.Od(H0, u_), s.Od(H1, u_)
		inn = s.innode(H1, g, u_)
		was = lambda t: And(ddom(nd0, s.raw(H1, u_)), ddom(d0, t))
		row = lambda t: src.row(s.raw(H1, u_), t, k)
		is_ = lambda t: ddom(d1, t)
		pos = lambda t: lidx(dkeys(d1), t)
		e = dget(d1, t_)
		give = lambda n: src.said(t_, n)
		f = lambda H, n: H.f(n, e)
		set_ = lambda n, v: f(H1, n) == If(And(row(t_), Not(V.is_none(v))), v, f(H0, n))
		q = z3.Const('q', V)
		return [('exactly the edges of both', FA([u_, t_], Implies(inn, is_(t_) == Or(was(t_), row(t_))), [is_(t_)])),
			('the edges of each row', src.each(lambda name, t: And(ddom(s.nd(H1, g), name), ddom(s.Od(H1, dget(s.nd(H1, g), name)), t)), k)),
			('the edges that were there', FA([u_, t_], Implies(And(inn, was(t_)), And(is_(t_), dget(d1, t_) == dget(d0, t_), pos(t_) == lidx(dkeys(d0), t_))), [ddom(d0, t_)])),
			('no fewer edges', FA([u_], Implies(And(inn, ddom(nd0, s.raw(H1, u_))), llen(dkeys(d1)) >= llen(dkeys(d0))), [dkeys(d1)])),
			('new edges come after them', FA([u_, t_], Implies(And(inn, is_(t_), Not(was(t_))), And(Implies(ddom(nd0, s.raw(H1, u_)), pos(t_) >= llen(dkeys(d0))), V.rv(e) >= H0.next)), [is_(t_)])),
			('new edges are in order', FA([u_, t_, q], Implies(And(inn, is_(t_), is_(q), Not(was(t_)), Not(was(q)), src.before(t_, q)), pos(t_) < pos(q)), [(is_(t_), is_(q))])),
			('new edges have what is given', FA([u_, t_], Implies(And(inn, is_(t_), Not(was(t_))), And(f(H1, '_label') == give('label'), f(H1, '_value') == give('value'), V.is_none(give('style')) == V.is_none(f(H1, '_style')))), [is_(t_)])),
			('the others get what is given', FA([u_, t_], Implies(And(inn, was(t_)), And(set_('_label', give('label')), set_('_value', give('value')), Implies(Not(And(row(t_), Not(V.is_none(give('style'))))), f(H1, '_style') == f(H0, '_style')))), [is_(t_)])),
			]

	FIELDS = ('_label', '_value', '_style')

	def settings(self, H0, H1, g, x, kind):
		return And(*[H1.f(SETTINGS[n], g) == (H0.f(SETTINGS[n], x) if kind == 'graph' else dget(H0.dct(x), lit(n))) for n in ('strict', 'ordering', 'label_url', 'global_node_style', 'global_edge_style')])

	def styles_of_others(self, H, g, x):
		own = H.own(x)
		return And(self.s.isdict(H, x), Not(And(V.is_t2(own), Or(V.a2(own) == g, of_node(own)))))

	def untouched(self, H0, H1, g):
		"""nothing but the nodes and edges of the graph changes"""
		r = r_
		of = lambda x: H0.f('_graph', x) == g
		own = z3.Select(H0.c('own'), r)
		D0, D1 = z3.Select(H0.c('D'), r), z3.Select(H1.c('D'), r)
		out = [('other dictionaries', FA([r], Implies(And(0 <= r, r < H0.next), Or(D1 == D0, And(V.is_t2(own), Or(V.a2(own) == g, And(of(V.a2(own)), of_node(own)))))), [D1]))]
		for f in self.FIELDS:
			x0, x1 = z3.Select(H0.c('f:' + f), r), z3.Select(H1.c('f:' + f), r)
			out.append((f'{f} of others', FA([r], Implies(And(0 <= r, r < H0.next), Or(x1 == x0, V.r(r) == g, of(V.r(r)))), [x1])))
		for f in ('_start', '_end', '_graph', '_raw_id', '_index', '_frozen', '_outward_edges_dict', '_inward_edges_dict'):
			x0, x1 = z3.Select(H0.c('f:' + f), r), z3.Select(H1.c('f:' + f), r)
			out.append((f'{f} of what is older', FA([r], Implies(And(0 <= r, r < H0.next), x1 == x0), [x1])))
		return out

	def modifies(self, H, a, ex):
		g = V.rv(a['self'])
		return ['D', *['f:' + f for f in self.FIELDS], WARN, *[('f:' + f, g) for f in ('_node_counter', '_is_strict', '_ordering', '_tooltip', '_label_url', '_global_node_style_overwrite', '_global_edge_style_overwrite', '_direction')]]

	def invariants(self, lc):
		H0, a, s, ex = lc.root['H0'], lc.root['args'], self.s, lc.ex
		g, kind = a['self'], self.kind(ex)
		src = self.represented(lc) if kind == 'graph' else self.source(H0, a['obj'], kind)
		if src is None:
			return []
		out = []
		which = 'nodes' if lc.mods.has_ref('f:_node_counter', V.rv(g)) else 'edges' if lc.mods.comps else None
		for i, (name, _) in enumerate(self.whole(H0, g)):
			out.append((f'the invariant: {name}', lambda st, k, vis, i=i: self.whole(ex.view(st), g)[i][1]))
		for i, (name, _) in enumerate(self.untouched(H0, H0, g)):
			out.append((f'not changed: {name}', lambda st, k, vis, i=i: self.untouched(H0, ex.view(st), g)[i][1]))
		for m in lc.dicts:
			out.append((f'{m} has ids', lambda st, k, vis, m=m: FA([y_], Implies(ddom(lc.dct(st, m), y_), V.is_t3(dget(lc.dct(st, m), y_))), [ddom(lc.dct(st, m), y_)])))
		if kind == 'graph':
			out.append(('the representation does not change', lambda st, k, vis: self.untouched(src.H, ex.view(st), g)[0][1]))
		if kind != 'plain':
			out.append(('different rows', lambda st, k, vis: FA([i_], Implies(And(0 <= i_, i_ < llen(src.E)), src.first(src.id(i_)) == i_), [lat(src.E, i_)])))
		zero = z3.IntVal(0)
		done = lambda k: (k, zero) if which == 'nodes' else (llen(src.K), k) if which == 'edges' else (llen(src.K), llen(src.E))
		for i, (name, _) in enumerate(self.said_nodes(H0, H0, g, src, zero)):
			out.append((f'{which}: nodes: {name}', lambda st, k, vis, i=i: self.said_nodes(H0, ex.view(st), g, src, done(k)[0])[i][1]))
		if which == 'nodes':
			def no_edges(st, k, vis):
				H = ex.view(st)
				return FA([u_], Implies(s.innode(H, g, u_), And(*[d(H, u_) == If(ddom(s.nd(H0, g), s.raw(H, u_)), d(H0, u_), dnil) for d in (s.Od, s.Id)])), [ddom(s.nd(H, g), s.raw(H, u_)), s.Od(H, u_)])
			def same(st, k, vis):
				H = ex.view(st)
				e = dget(s.Od(H0, u_), t_)
				return FA([u_, t_], Implies(And(s.innode(H0, g, u_), ddom(s.Od(H0, u_), t_)), And(*[H.f(f, e) == H0.f(f, e) for f in self.FIELDS])), [ddom(s.Od(H0, u_), t_)])
			return out + [('no edges yet', no_edges), ('the edges do not change', same)]
		for i, (name, _) in enumerate(self.said_edges(H0, H0, g, src, zero)):
			out.append((f'{which}: edges: {name}', lambda st, k, vis, i=i: self.said_edges(H0, ex.view(st), g, src, done(k)[1])[i][1]))
		return out

	def within(self, ex, s, entry, pc):
		"""inside of loops neither where the edges are in a representation nor what held in earlier loops is needed"""
		marks = ex.rootctx.setdefault('loops', {})
		if id(s) not in marks and len(marks) < 2:
			marks[id(s)] = len(entry.pc)
		first, second = min(marks.values()), max(marks.values())
		return [f for n, f in enumerate(pc) if not (mentions(f, 'edges_before') or first <= n < second and z3.is_quantifier(f))]

	def ghosts(self, ex, st, contract, args, res):
		"""the first rows with an id in a representation that was made"""
		if contract.key != Represent.key:
			return []
		H = ex.view(st)
		ex.rootctx['represented'] = (res, H)
		return self.source(H, res, 'lists').first_defs()

	def represented(self, lc):
		"""the representation of the graph that is appended, where it was made"""
		known = lc.root.get('represented')
		if known is None:
			return None
		return self.source(known[1], known[0], 'lists')

	def ensures(self, H0, H1, a, res, ex):
		g = a['self']
		kind = self.kind(ex)
		src = GraphSource(self, H0, a['obj']) if kind == 'graph' else self.source(H0, a['obj'], kind)
		given = [('the settings', self.settings(H0, H1, g, a['obj'], kind))] if kind != 'plain' else []
		return [('the graph', res == g)] + given + [('nodes: ' + n, f) for n, f in self.said_nodes(H0, H1, g, src, llen(src.K))] + [('edges: ' + n, f) for n, f in self.said_edges(H0, H1, g, src, None if src.E is None else llen(src.E))] + \
			[('not changed: ' + n, f) for n, f in self.untouched(H0, H1, g)] + self.keeps(H1, g)


# ---------------------------------------------------------------------- new graphs from representations
def nothing_of(H, new):
	"""nothing belongs to what is new"""
	own, graph = z3.Select(H.c('own'), r_), z3.Select(H.c('f:_graph'), r_)
	known = And(0 <= r_, r_ < H.next)
	return [('nothing belongs to a new graph', FA([r_], Implies(known, Not(new(graph))), [graph])),
		('no dictionary belongs to it', FA([r_], Implies(And(known, V.is_t2(own)), Not(new(V.a2(own)))), [own])),
		('no dictionary belongs to what belongs to it', FA([r_], Implies(And(known, V.is_t2(own)), Not(new(H.f('_graph', V.a2(own))))), [own]))]


class Made(Append):
	"""a new graph that is what a representation says"""
	key = None

	def ghosts_before(self, ex, st, contract, args):
		"""the first rows do not change until they are appended"""
		kind = self.kind(ex)
		if contract.key != Append.key or kind not in KINDS or kind == 'graph':
			return []
		x = ex.rootctx['args']['obj']
		then, now = self.source(ex.rootctx['H0'], x, kind), self.source(ex.view(st), args['obj'], kind)
		return [FA([t0_], now.first(t0_) == then.first(t0_), [now.first(t0_)])]

	def ghosts(self, ex, st, contract, args, res):
		return []

	def within(self, ex, s, entry, pc):
		return pc

	def wants(self, H, g, x, kind):
		return self.fine(H, g, x, kind, dnil) + self.first_rows(H, x, kind)

	def made(self, H0, H1, g, x, kind):
		s = self.s
		src = GraphSource(self, H0, x) if kind == 'graph' else self.source(H0, x, kind)
		nd = s.nd(H1, g)
		K = dkeys(nd)
		n = dget(nd, x_)
		f = H1.f
		d = s.Od(H1, u_)
		e = dget(d, t_)
		q = z3.Const('q', V)
		there = lambda t: And(s.innode(H1, g, u_), ddom(d, t))
		size = llen(src.K)
		names = [('the names in order', Implies(nodup(src.K), And(llen(K) == size, FA([i_], Implies(And(0 <= i_, i_ < size), lat(K, i_) == lat(src.K, i_)), [lat(K, i_), lat(src.K, i_)])))),
			('exactly the names', FA([x_], ddom(nd, x_) == lmem(src.K, x_), [ddom(nd, x_), lmem(src.K, x_)])),
			('with label, value and style', FA([x_], Implies(ddom(nd, x_), And(f('_label', n) == src.node(x_, 'label'), f('_value', n) == src.node(x_, 'value'), V.is_none(src.node(x_, 'style')) == V.is_none(f('_style', n)))), [ddom(nd, x_)]))]
		k = None if src.E is None else llen(src.E)
		edges = [('exactly the edges', FA([u_, t_], Implies(s.innode(H1, g, u_), ddom(d, t_) == src.row(s.raw(H1, u_), t_, k)), [ddom(d, t_)])),
			('an edge of each row', src.each(lambda name, t: And(ddom(nd, name), ddom(s.Od(H1, dget(nd, name)), t)), k)),
			('the edges in order', FA([u_, t_, q], Implies(And(there(t_), there(q), src.before(t_, q)), lidx(dkeys(d), t_) < lidx(dkeys(d), q)), [(ddom(d, t_), ddom(d, q))])),
			('edges with label, value and style', FA([u_, t_], Implies(there(t_), And(f('_label', e) == src.said(t_, 'label'), f('_value', e) == src.said(t_, 'value'), V.is_none(src.said(t_, 'style')) == V.is_none(f('_style', e)))), [ddom(d, t_)]))]
		out = names + edges
		if kind != 'plain':
			out.append(('the settings', self.settings(H0, H1, g, x, kind)))
		old = lambda c: FA([r_], Implies(And(0 <= r_, r_ < H0.next, V.r(r_) != g), z3.Select(H1.c(c), r_) == z3.Select(H0.c(c), r_)), [z3.Select(H1.c(c), r_)])
		out += [(f'{c} of what was there stays', old(c)) for c in ('D', *['f:' + f for f in (*self.FIELDS, '_start', '_end', '_graph', '_raw_id', '_index', '_frozen', '_outward_edges_dict', '_inward_edges_dict', '_nodes_dict', '_is_strict', '_ordering')])]
		return out + self.keeps(H1, g)


class FromDict(Made):
	key = 'GraphWithoutDisplay.from_dict'

	def cases(self, ex):
		return ['full', 'plain']

	def make_args(self, ex, st, case):
		return {'cls': MCls(ex.p.classes['Graph']), 'obj': self.obj_arg(ex, st, case)}

	def requires(self, H, a, ex):
		return self.wants(H, NONE, a['obj'], self.kind(ex)) + nothing_of(H, lambda x: And(V.is_r(x), V.rv(x) >= H.next))

	def modifies(self, H, a, ex):
		return ['D', *['f:' + f for f in self.FIELDS], WARN]

	def result_tag(self):
		return 'Graph'

	def invariants(self, lc):
		return []

	def ensures(self, H0, H1, a, res, ex):
		return [('a new graph', V.rv(res) >= H0.next)] + self.made(H0, H1, res, a['obj'], self.kind(ex))


class GraphInit(PlainGraphInit):
	"""a new graph, empty or from a representation"""
	key = 'GraphWithoutDisplay.__init__'
	appends = True

	def __init__(self, suite):
		super().__init__(suite)
		self.of = Made(suite)

	def cases(self, ex):
		return ['', *KINDS]

	def ghosts_before(self, ex, st, contract, args):
		return self.of.ghosts_before(ex, st, contract, args)

	def made_of(self, ex):
		"""what the graph is made of, when this is what is verified"""
		return ex.rootctx['case'] if ex.rootctx and ex.rootctx['contract'] is self else ''

	def make_args(self, ex, st, case):
		a = super().make_args(ex, st, case)
		if case:
			a['obj'] = self.of.obj_arg(ex, st, case)
		return a

	def requires(self, H, a, ex):
		kind = self.made_of(ex)
		if not kind:
			return super().requires(H, a, ex)
		return super().requires(H, a, ex) + [('another object', a['self'] != a['obj']), ('the setting is true or false', V.is_b(a['style_overwrite_allowed']))] + self.of.wants(H, a['self'], a['obj'], kind) + nothing_of(H, lambda x: x == a['self'])

	def modifies(self, H, a, ex):
		kind = self.made_of(ex)
		return super().modifies(H, a, ex) + (self.of.modifies(H, a, ex) if kind else [])

	def ensures(self, H0, H1, a, res, ex):
		kind = self.made_of(ex)
		return self.of.made(H0, H1, a['self'], a['obj'], kind) if kind else super().ensures(H0, H1, a, res, ex)
