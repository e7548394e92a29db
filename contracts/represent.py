"""Contracts of representations: dictionaries of nodes and edges that stand for a graph."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract
from .spec import u_, v_, w_, t_, k_, i_
from .mutators import Mutator, WARN
from .copies import EdgesRemoved, r_
from .relatives import truthy

x_, y_ = z3.Consts('x y', V)
j_, h_ = z3.Ints('j h')
NODE_KEYS = {'label': '_label', 'value': '_value', 'style': '_style'}
EDGE_KEYS = {'id': '_raw_id', **NODE_KEYS}
SETTINGS = {'strict': '_is_strict', 'ordering': '_ordering', 'colour_scheme': '_colour_scheme', 'label': '_label', 'label_url': '_label_url', 'node_styles': '_node_style_overwrites',
	'edge_styles': '_edge_style_overwrites', 'global_node_style': '_global_node_style_overwrite', 'global_edge_style': '_global_edge_style_overwrite', 'node_colours': '_node_colour_overwrites'}


class Rep:
	"""what a dictionary of nodes and a list of edges say"""
	def new_dict(self, H, n0, x):
		return And(V.is_r(x), H.cls(x) == DICT, V.rv(x) >= n0, H.allocated(x), V.is_none(H.own(x)))

	def says(self, Hd, H, x, o, keys, extra=()):
		"""the dictionary x has these keys, with the fields of the object o"""
		d = Hd.dct(x)
		return And(*[And(ddom(d, lit(k)), dget(d, lit(k)) == H.f(f, o)) for k, f in keys.items()], FA([y_], ddom(d, y_) == Or(*[y_ == lit(k) for k in keys]), [ddom(d, y_)]))

	def item(self, H, E, i):
		l = H.lst(lat(E, i))
		return l, V.t3(lat(l, 0), lat(l, 1), dget(H.dct(lat(l, 2)), lit('id')))

	def offset(self, H0, g):
		f = ufn(f'edges_before#{self.s.rel(H0, g).n}', V, I, I)      # for the heap at hand
		return lambda i: f(g, i)

	def row(self, H0, g, name):
		return lidx(dkeys(self.s.nd(H0, g)), name)

	def place(self, H0, g, u, t):
		s = self.s
		return self.offset(H0, g)(self.row(H0, g, s.raw(H0, u))) + lidx(dkeys(s.Od(H0, u)), t)

	def offsets(self, H0, g):
		s, off = self.s, self.offset(H0, g)
		nd = s.nd(H0, g)
		return [off(0) == 0, FA([i_, j_], Implies(And(0 <= i_, j_ == i_ + 1), off(j_) == off(i_) + llen(dkeys(s.Od(H0, dget(nd, lat(dkeys(nd), i_)))))), [(off(i_), off(j_))])]

	def nodes_said(self, H0, H, g, N, k, n0):
		nd = self.s.nd(H0, g)
		said = lambda x: self.row(H0, g, x) < k
		return [('as many names', llen(dkeys(N)) == k), ('the names in order', FA([i_], Implies(And(0 <= i_, i_ < k), lat(dkeys(N), i_) == lat(dkeys(nd), i_)), [lat(dkeys(N), i_), lat(dkeys(nd), i_)])),
			('the names', FA([k_], ddom(N, k_) == And(ddom(nd, k_), said(k_)), [ddom(N, k_)])),
			('new dictionaries', FA([k_], Implies(ddom(N, k_), self.new_dict(H, n0, dget(N, k_))), [ddom(N, k_)])),
			('with label, value and style', FA([k_], Implies(ddom(N, k_), self.says(H, H0, dget(N, k_), dget(nd, k_), NODE_KEYS)), [ddom(N, k_)]))]

	def edges_said(self, H0, H, g, E, row, col, n0):
		"""the edges of the nodes before a row, and of that row before a column"""
		s = self.s
		nd = s.nd(H0, g)
		l, t = self.item(H, E, i_)
		u = dget(nd, V.a3(t))
		inside = And(0 <= i_, i_ < llen(E))
		x = lat(E, i_)
		e = dget(s.Od(H0, u), t)
		r = self.row(H0, g, s.raw(H0, u_))
		said = Or(r < row, And(r == row, lidx(dkeys(s.Od(H0, u_)), t_) < col))
		p = self.place(H0, g, u_, t_)
		return [('as many edges', llen(E) == self.offset(H0, g)(row) + col),
			('new lists of two names and a dictionary', FA([i_], Implies(inside, And(V.is_r(x), H.cls(x) == LIST, V.rv(x) >= n0, H.allocated(x), llen(l) == 3, self.new_dict(H, n0, lat(l, 2)))), [x])),
			('edges of the graph', FA([i_], Implies(inside, And(ddom(nd, V.a3(t)), ddom(nd, V.b3(t)), ddom(s.Od(H0, u), t))), [x])),
			('in order', FA([i_], Implies(inside, self.place(H0, g, u, t) == i_), [x])),
			('with id, label, value and style', FA([i_], Implies(inside, self.says(H, H0, lat(l, 2), e, EDGE_KEYS)), [x])),
			('every edge at its place', FA([u_, t_], Implies(And(s.innode(H0, g, u_), ddom(s.Od(H0, u_), t_), said), And(0 <= p, p < llen(E), self.item(H, E, p)[1] == t_)), [ddom(s.Od(H0, u_), t_)]))]


class Represent(Rep, Mutator, Contract):
	key = 'GraphWithoutDisplay.__graph__'

	def make_args(self, ex, st, case):
		return {'self': self.graph_arg(ex, st)}

	def requires(self, H, a, ex):
		return self.base(H, a['self'])

	def lemmas(self, H, a, ex):
		return self.offsets(H, a['self'])

	def invariants(self, lc):
		H0, a, s, ex = lc.root['H0'], lc.root['args'], self.s, lc.ex
		g, n0 = a['self'], lc.root['next0']
		nodes = [v.t for n, v in lc.entry.env.items() if isinstance(v, T) and ex.static_tag(lc.entry, v.t) == 'Node' and n not in lc.mods.names]
		if len(nodes) > 1 or lc.iter is None:
			return []
		row = self.row(H0, g, s.raw(H0, nodes[0])) if nodes else None
		out = []
		for m in lc.dicts:
			for i, (name, _) in enumerate(self.nodes_said(H0, H0, g, dnil, z3.IntVal(0), n0)):
				out.append((f'{m}: {name}', lambda st, k, vis, i=i, m=m: self.nodes_said(H0, ex.view(st), g, lc.dct(st, m), k if row is None else row + 1, n0)[i][1]))
		for m in lc.lists:
			for i, (name, _) in enumerate(self.edges_said(H0, H0, g, lnil, z3.IntVal(0), z3.IntVal(0), n0)):
				out.append((f'{m}: {name}', lambda st, k, vis, i=i, m=m: self.edges_said(H0, ex.view(st), g, lc.lst(st, m), *((k, z3.IntVal(0)) if row is None else (row, k)), n0)[i][1]))
		return out

	def result_tag(self):
		return 'dict'

	def make_result(self, ex, st, old_next):
		nn = ex.comp(st, 'next')
		ref = Fresh.const('next', I)
		st.assume(And(ref >= old_next, ref < nn))
		ex.setcomp(st, 'cls', ref, z3.IntVal(DICT))
		ex.setcomp(st, 'D', ref, Fresh.const('D_res', D))
		st.types[V.r(ref)] = 'dict'
		return T(V.r(ref))

	def ensures(self, H0, H1, a, res, ex):
		g = a['self']
		d, n0 = H1.dct(res), H0.next
		N, E = dget(d, lit('nodes')), dget(d, lit('edges'))
		keys = [*SETTINGS, 'nodes', 'edges']
		return [('a new dictionary', self.new_dict(H1, n0, res)), ('its keys', FA([y_], ddom(d, y_) == Or(*[y_ == lit(k) for k in keys]), [ddom(d, y_)])),
			('its settings', And(*[dget(d, lit(k)) == H0.f(f, g) for k, f in SETTINGS.items()])),
			('a dictionary of nodes and a list of edges', And(self.new_dict(H1, n0, N), V.is_r(E), H1.cls(E) == LIST, V.rv(E) >= n0, H1.allocated(E)))] + \
			[('nodes: ' + n, f) for n, f in self.nodes_said(H0, H1, g, H1.dct(N), llen(dkeys(self.s.nd(H0, g))), n0)] + \
			[('edges: ' + n, f) for n, f in self.edges_said(H0, H1, g, H1.lst(E), llen(dkeys(self.s.nd(H0, g))), z3.IntVal(0), n0)]
