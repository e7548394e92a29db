"""What the contracts say about graphs: the invariant of the data structure, and the relations it stands for."""
import z3
from pyvc.terms import *
from pyvc.values import *

u_, v_, w_, t_, k_ = z3.Consts('u v w t k', V)
i_ = z3.Int('i')

GRAPH_COMPS = ('D', 'cls', 'f:_nodes_dict', 'f:_raw_id', 'f:_graph', 'f:_index', 'f:_outward_edges_dict', 'f:_inward_edges_dict', 'f:_start', 'f:_end')

REL_COMPS = tuple(c for c in GRAPH_COMPS if c not in ('cls', 'f:_index'))


def remembered(f):
	"""the same formulas for the same heap and object"""
	def g(self, H, x):
		s = self if isinstance(self, Spec) else self.s
		key = (f.__qualname__, x.get_id(), frozenset((c, t.get_id()) for c, t in H.comps.items()))
		known = s.memo.get(key)
		if known is None:
			known = s.memo[key] = (f(self, H, x), x, list(H.comps.values()))
		return list(known[0])
	return g


class Spec:
	"""the vocabulary, for one program"""
	def __init__(self, program):
		self.p = program
		self.NODE, self.EDGE = program.classes['Node'].code, program.classes['Edge'].code
		self.GRAPHS = [c.code for c in program.subclasses(program.classes['BasicGraph'])]
		self.rels, self.rel_heaps = {}, {}
		self.havocs = {}
		self.old_graphs = {}
		self.memo = {}

	# -- fields
	def nd(self, H, g):
		return H.dct(H.f('_nodes_dict', g))

	def raw(self, H, x):
		return H.f('_raw_id', x)

	def O(self, H, u):
		return H.f('_outward_edges_dict', u)

	def In(self, H, u):
		return H.f('_inward_edges_dict', u)

	def Od(self, H, u):
		return H.dct(self.O(H, u))

	def Id(self, H, u):
		return H.dct(self.In(H, u))

	def isnode(self, H, u):
		return And(V.is_r(u), H.cls(u) == self.NODE, H.allocated(u))

	def isedge(self, H, e):
		return And(V.is_r(e), H.cls(e) == self.EDGE, H.allocated(e))

	def isdict(self, H, d):
		return And(V.is_r(d), H.cls(d) == DICT, H.allocated(d))

	def innode(self, H, g, u):
		"""u is registered in g"""
		return And(V.is_r(u), ddom(self.nd(H, g), self.raw(H, u)), dget(self.nd(H, g), self.raw(H, u)) == u)

	def isgraph(self, H, g, cls=None):
		c = H.cls(g) == self.p.classes[cls].code if cls else Or(*[H.cls(g) == x for x in self.GRAPHS])
		return And(V.is_r(g), c, H.allocated(g))

	def edge_id(self, H, e):
		return V.t3(self.raw(H, H.f('_start', e)), self.raw(H, H.f('_end', e)), self.raw(H, e))

	def stored(self, H, x):
		"""a reference that is stored is to an object that exists"""
		return Implies(V.is_r(x), H.allocated(x))

	# -- the invariant
	def name_ok(self, k):
		return Or(V.is_s(k), V.is_i(k))

	def raw_ok(self, k):
		return Or(self.name_ok(k), V.is_none(k))

	@remembered
	def inv(self, H, g):
		if all(H.c(c).eq(H.init(c)) for c in GRAPH_COMPS):
			self.old_graphs[g.get_id()] = g
		nd = self.nd(H, g)
		own = H.own
		e = dget(self.Od(H, u_), t_)
		e2 = dget(self.Id(H, u_), t_)
		n = dget(nd, k_)
		return [
			('the node dictionary', And(self.isdict(H, H.f('_nodes_dict', g)), own(H.f('_nodes_dict', g)) == V.t2(g, lit('_nodes_dict')))),
			('every registered node has its name, belongs to the graph and owns its dictionaries', FA([k_], Implies(ddom(nd, k_), And(
				self.name_ok(k_), self.isnode(H, n), self.raw(H, n) == k_, H.f('_graph', n) == g, V.is_i(H.f('_index', n)), V.is_b(H.f('_frozen', n)),
				self.isdict(H, self.O(H, n)), self.isdict(H, self.In(H, n)),
				own(self.O(H, n)) == V.t2(n, lit('_outward_edges_dict')), own(self.In(H, n)) == V.t2(n, lit('_inward_edges_dict')),
			)), [ddom(nd, k_), dget(nd, k_)])),
			('every outward edge is recorded at both ends under its id', FA([u_, t_], Implies(And(self.innode(H, g, u_), ddom(self.Od(H, u_), t_)), And(
				self.isedge(H, e), self.raw_ok(self.raw(H, e)), V.is_b(H.f('_frozen', e)), H.f('_start', e) == u_, self.innode(H, g, H.f('_end', e)), V.is_r(H.f('_end', e)), H.f('_graph', e) == g,
				t_ == self.edge_id(H, e), ddom(self.Id(H, H.f('_end', e)), t_), dget(self.Id(H, H.f('_end', e)), t_) == e,
			)), [ddom(self.Od(H, u_), t_)])),
			('every inward edge is recorded at both ends under its id', FA([u_, t_], Implies(And(self.innode(H, g, u_), ddom(self.Id(H, u_), t_)), And(
				self.isedge(H, e2), self.raw_ok(self.raw(H, e2)), V.is_b(H.f('_frozen', e2)), H.f('_end', e2) == u_, self.innode(H, g, H.f('_start', e2)), V.is_r(H.f('_start', e2)), H.f('_graph', e2) == g,
				t_ == self.edge_id(H, e2), ddom(self.Od(H, H.f('_start', e2)), t_), dget(self.Od(H, H.f('_start', e2)), t_) == e2,
			)), [ddom(self.Id(H, u_), t_)])),
		]

	@remembered
	def ordered(self, H, g):
		"""indices: unique, and below that of the next node"""
		nd = self.nd(H, g)
		ix = lambda k: V.iv(H.f('_index', dget(nd, k)))
		k2 = z3.Const('k2', V)
		c = H.f('_node_counter', g)
		return [('the counter is a number', V.is_i(c)),
			('the next index is higher than that of every node', FA([k_], Implies(ddom(nd, k_), ix(k_) < V.iv(c)), [ddom(nd, k_)])),
			('no two nodes have the same index', FA([k_, k2], Implies(And(ddom(nd, k_), ddom(nd, k2), ix(k_) == ix(k2)), k_ == k2), [(dget(nd, k_), dget(nd, k2))]))]

	# -- what the objects need
	def has_content(self, H, x, cls):
		st, p = H.f('_style', x), H.f('_parameters', x)
		return And(Or(V.is_none(st), And(V.is_r(st), H.allocated(st), H.cls(st) == self.p.classes[cls].code)), self.isdict(H, p))

	@remembered
	def contents(self, H, g):
		s = self
		return [('the nodes have styles and parameters', FA([k_], Implies(ddom(s.nd(H, g), k_), self.has_content(H, dget(s.nd(H, g), k_), 'NodeStyle')), [ddom(s.nd(H, g), k_)])),
			('the edges have styles and parameters', FA([u_, t_], Implies(And(s.innode(H, g, u_), ddom(s.Od(H, u_), t_)), self.has_content(H, dget(s.Od(H, u_), t_), 'EdgeStyle')), [ddom(s.Od(H, u_), t_)])),
			('the inward edges too', FA([u_, t_], Implies(And(s.innode(H, g, u_), ddom(s.Id(H, u_), t_)), self.has_content(H, dget(s.Id(H, u_), t_), 'EdgeStyle')), [ddom(s.Id(H, u_), t_)]))]

	def newer(self, H, g, n):
		"""the graph's nodes, edges and dictionaries were made after the allocation pointer was n"""
		nd = self.nd(H, g)
		e = dget(self.Od(H, u_), t_)
		return [('the nodes are new', FA([k_], Implies(ddom(nd, k_), And(*[V.rv(o) >= n for o in (dget(nd, k_), self.O(H, dget(nd, k_)), self.In(H, dget(nd, k_)))])), [ddom(nd, k_)])),
			('the edges are new', FA([u_, t_], Implies(And(self.innode(H, g, u_), ddom(self.Od(H, u_), t_)), V.rv(e) >= n), [ddom(self.Od(H, u_), t_)]))]

	# -- relations of a graph, as symbols defined by the heap
	def canon(self, arr):
		"""the array without stores to objects that are new since the function under proof started"""
		while True:
			if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE and is_new_ref(arr.arg(1)):
				arr = arr.arg(0)
			elif arr.get_id() in self.havocs and self.havocs[arr.get_id()][3] and all(is_new_ref(r) for r in self.havocs[arr.get_id()][2]):
				arr = self.havocs[arr.get_id()][1]
			else:
				return arr

	def rel(self, H, g):
		# all objects of a graph that the function was given are older than what it allocates
		canon = self.canon if g.get_id() in self.old_graphs else (lambda x: x)
		comps = {c: canon(H.c(c)) for c in REL_COMPS}
		heap = tuple(x.get_id() for x in comps.values())
		n = self.rel_heaps.setdefault(heap, len(self.rel_heaps))
		r = self.rels.get((n, g.get_id()))
		if r is None:
			r = self.rels[n, g.get_id()] = Rel(self, Heap(comps, H.init), g, n)
		return r


def is_new_ref(r):
	r = z3.simplify(r)
	if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_ADD:
		cs = r.children()
		base = [c for c in cs if not z3.is_int_value(c)]
		num = [c.as_long() for c in cs if z3.is_int_value(c)]
		return len(base) == 1 and all(n >= 0 for n in num) and is_new_ref(base[0])
	return z3.is_const(r) and r.decl().kind() == z3.Z3_OP_UNINTERPRETED and (r.decl().name().startswith('next!') or r.decl().name() == 'next@0')


class Rel:
	"""child relation, reachability: symbols with their definitions"""
	def __init__(self, spec, H, g, n):
		self.s, self.H, self.g = spec, H, g
		self.keep = [H.c(c) for c in REL_COMPS]
		self.n = n
		def symbol(name, rng):
			# the graph is an argument, so that equal graphs have equal relations
			f = z3.Function(f'{name}#{n}', V, V, V, rng)
			return lambda u, v: f(self.g, u, v)
		self.ch = symbol('ch', B)
		self.wt = symbol('wt', V)
		self.tc = symbol('tc', B)      # a path of at least one edge

	def node(self, u):
		return self.s.innode(self.H, self.g, u)

	def defs(self):
		s, H, g = self.s, self.H, self.g
		Od, Id = s.Od(H, u_), s.Id(H, u_)
		end = lambda e: H.f('_end', e)
		start = lambda e: H.f('_start', e)
		wt = self.wt(u_, v_)
		return [
			# ch: there is an edge
			FA([u_, t_], Implies(And(self.node(u_), ddom(Od, t_)), self.ch(u_, end(dget(Od, t_)))), [ddom(Od, t_)]),
			FA([u_, t_], Implies(And(self.node(u_), ddom(Id, t_)), self.ch(start(dget(Id, t_)), u_)), [ddom(Id, t_)]),
			FA([u_, v_], Implies(self.ch(u_, v_), And(self.node(u_), self.node(v_), ddom(Od, wt), end(dget(Od, wt)) == v_,
				ddom(s.Id(H, v_), wt), start(dget(s.Id(H, v_), wt)) == u_)), [self.ch(u_, v_)]),
		]

	def tc_defs(self):
		return self.defs() + [
			FA([u_, v_], Implies(self.ch(u_, v_), self.tc(u_, v_)), [self.ch(u_, v_)]),
			FA([u_, v_, w_], Implies(And(self.tc(u_, v_), self.ch(v_, w_)), self.tc(u_, w_)), [(self.tc(u_, v_), self.ch(v_, w_))]),
			FA([u_, v_, w_], Implies(And(self.ch(u_, v_), self.tc(v_, w_)), self.tc(u_, w_)), [(self.ch(u_, v_), self.tc(v_, w_))]),
			FA([u_, v_, w_], Implies(And(self.tc(u_, v_), self.tc(v_, w_)), self.tc(u_, w_)), [(self.tc(u_, v_), self.tc(v_, w_))]),
			FA([u_, v_], Implies(self.tc(u_, v_), And(self.node(u_), self.node(v_))), [self.tc(u_, v_)]),
		]

	def induct_forward(self, x, P):
		"""instance of induction: a set P that contains the children of x and is closed under children contains all that x reaches"""
		a, b = Fresh.const('a', V), Fresh.const('b', V)
		base = Implies(self.ch(x, a), P(a))
		step = Implies(And(P(a), self.tc(x, a), self.ch(a, b)), P(b))
		return Implies(And(base, step), FA([v_], Implies(self.tc(x, v_), P(v_)), [self.tc(x, v_)]))

	def induct_backward(self, x, P):
		a, b = Fresh.const('a', V), Fresh.const('b', V)
		base = Implies(self.ch(a, x), P(a))
		step = Implies(And(P(a), self.tc(a, x), self.ch(b, a)), P(b))
		return Implies(And(base, step), FA([v_], Implies(self.tc(v_, x), P(v_)), [self.tc(v_, x)]))
