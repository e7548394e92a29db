"""Contracts of copies: the copy has equal content, and shares nothing with the original."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract
from .spec import u_, v_, w_, t_, k_, i_
from .queries import OnNode, set_pool
from .mutators import Mutator, EdgesRemoved, r_
from .similar import Similar, veq, params_eq, style_text

x_, y_, e_ = z3.Consts('x y e', V)
d_ = z3.Const('d', D)
_dc, _und, _dmap = ufn('copied', V, V, V), ufn('original', V, V, V), ufn('copied_dict', V, D, D)


def atom(t):
	"""the copy of a value that is not an object is the value"""
	return Or(V.is_none(t), V.is_b(t), V.is_i(t), V.is_f(t), V.is_s(t))


def dc(g1, x):
	"""the copy of x that was made when the graph g1 was made as a copy"""
	x = z3.simplify(x)
	if z3.is_app(x) and x.decl().name() in ('none', 'b', 'i', 'f', 's') and x.sort() == V and (x.num_args() == 0 or x.num_args() == 1 and x.decl().arity() == 1) and x.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
		return x
	return _dc(g1, x)


def made_later(t, yr):
	"""t mentions an object that was made after the one at yr"""
	if t.sort() == I:
		n = z3.simplify(t - yr)
		if z3.is_int_value(n) and n.as_long() > 0:
			return True
	return any(made_later(x, yr) for x in t.children())


def registered(s, H, g, e):
	u = H.f('_start', e)
	return And(s.innode(H, g, u), ddom(s.Od(H, u), s.edge_id(H, e)), dget(s.Od(H, u), s.edge_id(H, e)) == e)


def made_of(ex, st, cls, guard, g1, node):
	"""what the real __getstate__ and __setstate__ of a class put into the copy of an arbitrary object: (object, its fields by component, facts)"""
	ci = ex.p.classes[cls]
	x = Fresh.const('original_' + cls, V)
	s = st.fork()
	s.assume(guard(x))
	s.assume(ex.tagf(s, x, cls))
	s.types[x] = cls
	before = dict(s.heap)
	get, put = ci.find('methods', '__getstate__'), ci.find('methods', '__setstate__')
	if get is None or put is None:
		raise Unsupported(f'{cls} without __getstate__ and __setstate__', node)
	from pyvc.values import MFn
	from pyvc.builtins_ import literal_dict
	old_born, Fresh.log = Fresh.log, []
	ex.sinks.append([])
	try:
		rs = ex.call_fn(s, MFn(get, T(x)), [], {}, node)
		if len(rs) != 1 or not isinstance(rs[0][1], T):
			raise Unsupported('__getstate__ that branches', node)
		s1, state = rs[0]
		items = literal_dict(ex.dct(s1, state.t))
		if items is None:
			raise Unsupported('the state of an object', node)
		if not ex.only_fresh(st, s1, ex.comp(st, 'next'), set()):
			raise Unsupported('__getstate__ that changes something', node)
		s1 = s1.fork()
		y = ex.alloc(s1, ci.code)
		d1 = dnil
		for k, v in items:
			c = dc(g1, v)
			if not c.eq(v) and ex.valid(s1, ex.tagf(s1, v, 'dict')):
				s1.types[c] = 'dict'
			d1 = dset(d1, k, c)
		state1 = ex.new_dict(s1, d1)
		mark = dict(s1.heap)
		rs = ex.call_fn(s1, MFn(put, T(y)), [state1], {}, node)
		if len(rs) != 1:
			raise Unsupported('__setstate__ that branches', node)
		s2 = rs[0][0]
		if ex.sinks[-1]:
			raise Unsupported('a copy that may fail', node)
		if Fresh.log:
			raise Unsupported('the state of an object', node)
	finally:
		ex.sinks.pop()
		if old_born is not None:
			old_born.extend(Fresh.log)
		Fresh.log = old_born
	fields, yr = [], y.arg(0)
	for comp, arr in s2.heap.items():
		a = arr
		base = mark.get(comp, ex.init_comp(comp))
		if comp == 'next' or a.eq(base):
			continue
		seen = []
		while not a.eq(base):
			if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE):
				raise Unsupported('the effects of __setstate__', node)
			r, val = a.arg(1), a.arg(2)
			if not any(r.eq(q) for q in seen):
				seen.append(r)
				fields.append((comp, r, val))
			a = a.arg(0)
	here = V.r(yr)
	sub = lambda t: z3.substitute(t, (here, _dc(g1, x)), (yr, V.rv(_dc(g1, x))))
	facts = []
	for comp, r, val in fields:
		if made_later(r, yr) or made_later(val, yr):
			raise Unsupported('objects made by __setstate__', node)
		facts.append(z3.Select(ex.comp(st, comp), sub(r)) == sub(val))
	return x, facts


def deepcopy(suite):
	def model(ex, st, f, args, kw, node):
		ex.trusted.add('copy.deepcopy (and pickle) of a graph copies what __getstate__ gives of each object, each object once, and passes the copy to the __setstate__ of the new object; '
			'keys and immutable values are kept, copies of other values are equal to them, and copies of styles look the same')
		if kw or len(args) != 1 or not isinstance(args[0], T):
			raise Unsupported('deepcopy', node)
		g = args[0].t
		tag = ex.tag(st, g, node, ('Graph',))
		if tag not in ex.p.classes or ex.p.classes['BasicGraph'] not in ex.p.classes[tag].mro():
			raise Unsupported('deepcopy of something else than a graph', node)
		s = suite.spec
		H = ex.view(st)
		if not ex.quiet:
			for name, fm in [('the graph', s.isgraph(H, g))] + s.inv(H, g) + s.contents(H, g):
				ex.prove(st, fm, f'what is copied is a graph: {name}', node)
		st = st.fork()
		from pyvc.builtins_ import literal_dict, named_literal
		ci = ex.p.classes[tag]
		rs = ex.call_fn(st, MFn(ci.find('methods', '__getstate__'), T(g)), [], {}, node)
		out = []
		for st, state in rs:
			items = literal_dict(ex.dct(st, state.t))
			if items is None:
				raise Unsupported('the state of the graph', node)
			st = st.fork()
			dead = ex.ref(state.t)
			arr = ex.comp(st, 'D')
			while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE and arr.arg(1).eq(dead):
				arr = arr.arg(0)
			st.heap['D'] = arr
			ex.setcomp(st, 'D', dead, named_literal(st, items))
			next0 = ex.comp(st, 'next')
			g1 = ex.alloc(st, ci.code)
			low = ex.comp(st, 'next')
			H = ex.view(st)
			known = lambda t: And(V.is_r(t), V.rv(t) >= 0, V.rv(t) < next0)
			objects = []
			for cls, guard in (('Node', lambda x: s.innode(H, g, x)), ('Edge', lambda x: And(s.isedge(H, x), registered(s, H, g, x)))):
				x, facts = made_of(ex, st, cls, guard, g1, node)
				objects.append((x, guard(x), facts))
			nxt = Fresh.const('next', I)
			st.heap['next'] = nxt
			st.assume(nxt >= low)
			c = _dc(g1, x_)
			cls = ex.comp(st, 'cls')
			D0 = ex.comp(st, 'D')
			st.assume(FA([x_], And(Implies(atom(x_), c == x_), Implies(V.is_o(x_), V.is_o(c)), veq(x_, c), Implies(known(x_), And(V.is_r(c), _und(g1, c) == x_,
				z3.Select(cls, V.rv(c)) == z3.Select(cls, V.rv(x_)), Or(x_ == g, And(V.rv(c) >= low, V.rv(c) < nxt)),
				Implies(z3.Select(cls, V.rv(x_)) == DICT, z3.Select(D0, V.rv(c)) == _dmap(g1, z3.Select(D0, V.rv(x_)))),
				style_text(c) == style_text(x_)))), [c]))
			st.assume(_dc(g1, g) == g1)
			m = _dmap(g1, d_)
			st.assume(FA([d_], And(dkeys(m) == dkeys(d_), params_eq(d_, m)), [m]))
			st.assume(FA([d_, k_], And(ddom(m, k_) == ddom(d_, k_), Implies(ddom(d_, k_), dget(m, k_) == _dc(g1, dget(d_, k_)))), [ddom(m, k_), dget(m, k_), (m, ddom(d_, k_))]))
			for x, guard, facts in objects:
				if facts:
					b = z3.Const('x_copied', V)
					sub = lambda t: z3.substitute(t, (x, b))
					for fact in facts:
						fact = sub(fact)
						st.assume(FA([b], Implies(And(known(b), sub(guard)), fact), [fact.arg(0)]))
			copied = []
			for k, v in items:
				v1 = dc(g1, v)
				if not v1.eq(v) and ex.valid(st, ex.tagf(st, v, 'dict'), 300):
					st.types[v1] = 'dict'
				copied.append((k, v1))
			state1 = ex.new_dict(st, named_literal(st, copied))
			for s2, _ in ex.call_fn(st, MFn(ci.find('methods', '__setstate__'), T(g1)), [state1], {}, node):
				out.append((s2, T(g1)))
		return out
	return model


class UpdateEdges(OnNode, Contract):
	"""the edges that a node has learn about it"""
	key = 'Node.update_edges'
	allocates = False

	def make_args(self, ex, st, case):
		return {'self': self.node_self(ex, st)}

	def requires(self, H, a, ex):
		n, s = a['self'], self.s
		flag = lambda f: V.is_b(H.f(f, n))
		edges = lambda d: FA([t_], Implies(ddom(d, t_), s.isedge(H, dget(d, t_))), [ddom(d, t_)])
		return [('a node', s.isnode(H, n)), ('dictionaries of edges', And(s.isdict(H, s.O(H, n)), s.isdict(H, s.In(H, n)), edges(s.Od(H, n)), edges(s.Id(H, n)))),
			('flags', And(flag('_outward_edges_have_start_node'), flag('_inward_edges_have_end_node')))]

	def modifies(self, H, a, ex):
		n = V.rv(a['self'])
		return ['f:_start', 'f:_end', 'f:_graph', ('f:_outward_edges_have_start_node', n), ('f:_inward_edges_have_end_node', n)]

	def parts(self, H, a):
		n, s = a['self'], self.s
		return [('_start', s.Od(H, n), Not(V.bv(H.f('_outward_edges_have_start_node', n)))), ('_end', s.Id(H, n), Not(V.bv(H.f('_inward_edges_have_end_node', n))))]

	def changed(self, H0, H, a, ins):
		"""ins: what fields are set for what edges"""
		n = a['self']
		sel = lambda H, f: z3.Select(H.c('f:' + f), r_)
		out = [(f'{f} is set for the edges', FA([r_], sel(H, f) == If(there, n, sel(H0, f)), [sel(H, f)])) for f, there in ins]
		return out + [('the graph is set for the edges', FA([r_], sel(H, '_graph') == If(Or(*[t for _, t in ins]), H0.f('_graph', n), sel(H0, '_graph')), [sel(H, '_graph')]))]

	def invariants(self, lc):
		if lc.iter is None:
			return []
		H0, a, ex = lc.root['H0'], lc.root['args'], lc.ex
		(f0, d0, on0), (f1, d1, on1) = self.parts(H0, a)
		r = V.r(r_)
		no = z3.BoolVal(False)
		out = []
		for which, ins in (('first', lambda vis: [(f0, lmem(vis, r)), (f1, no)]), ('second', lambda vis: [(f0, And(on0, lmem(dvals(d0), r))), (f1, lmem(vis, r))])):
			for i, (name, _) in enumerate(self.changed(H0, H0, a, ins(lnil))):
				out.append((f'{which}: {name}', lambda st, k, vis, i=i, ins=ins: self.changed(H0, ex.view(st), a, ins(vis))[i][1]))
		return out

	def ensures(self, H0, H1, a, res, ex):
		n = a['self']
		ins = [(f, And(on, lmem(dvals(d), V.r(r_)))) for f, d, on in self.parts(H0, a)]
		return self.changed(H0, H1, a, ins) + [('done', And(H1.f('_outward_edges_have_start_node', n) == TRUE, H1.f('_inward_edges_have_end_node', n) == TRUE))]


SETTINGS = ('_is_strict', '_ordering', '_node_counter', '_node_label_converter', '_edge_label_converter', '_direction', '_background_colour', '_global_node_style_overwrite', '_global_edge_style_overwrite',
	'_node_style_overwrites', '_edge_style_overwrites', '_node_colour_overwrites', '_edge_colour_overwrites', '_label', '_label_location', '_label_colour', '_label_url', '_label_background_colour', '_tooltip',
	'_font', '_font_size', '_kwargs', '_colour_scheme', '_stylist', '_style_overwrite_allowed')
CONTENT = ('_raw_id', '_label', '_value', '_tooltip', '_style', '_parameters', '_frozen')


class Copying(Mutator):
	avoid = ('BasicGraph.nodes',)

	def alike(self, H0, H1, g, g1):
		"""the copy of each object has the copied content"""
		s = self.s
		c = lambda x: _dc(g1, x)
		same = lambda x, *fs: And(*[H1.f(f, c(x)) == c(H0.f(f, x)) for f in CONTENT + fs])
		n = dget(s.nd(H0, g), k_)
		e = dget(s.Od(H0, u_), t_)
		dct = lambda f, x: And(H1.f(f, c(x)) == c(H0.f(f, x)), H1.dct(H1.f(f, c(x))) == _dmap(g1, H0.dct(H0.f(f, x))))
		return [('the nodes, in order', s.nd(H1, g1) == _dmap(g1, s.nd(H0, g))),
			('every node has the content of the original', FA([k_], Implies(ddom(s.nd(H0, g), k_), same(n, '_index')), [ddom(s.nd(H0, g), k_)])),
			('every node has the edges of the original, in order', FA([u_], Implies(s.innode(H0, g, u_), And(dct('_outward_edges_dict', u_), dct('_inward_edges_dict', u_))), [H1.f('_outward_edges_dict', c(u_)), H1.f('_inward_edges_dict', c(u_))])),
			('every edge has the content of the original', FA([u_, t_], Implies(And(s.innode(H0, g, u_), ddom(s.Od(H0, u_), t_)), same(e)), [ddom(s.Od(H0, u_), t_)])),
			('every edge has the start of the original', FA([u_, t_], Implies(And(s.innode(H0, g, u_), ddom(s.Od(H0, u_), t_)), H1.f('_start', c(e)) == c(u_)), [ddom(s.Od(H0, u_), t_)])),
			('every edge has the end of the original', FA([u_, t_], Implies(And(s.innode(H0, g, u_), ddom(s.Id(H0, u_), t_)), H1.f('_end', c(dget(s.Id(H0, u_), t_))) == c(u_)), [ddom(s.Id(H0, u_), t_)]))
			]

	def copied_values(self, g1):
		"""what is known about copies of values"""
		return [('copies are the value itself or new', FA([x_], And(Implies(atom(x_), _dc(g1, x_) == x_), veq(x_, _dc(g1, x_))), [_dc(g1, x_)])),
			('copied dictionaries have the same keys and copied values', And(FA([d_], dkeys(_dmap(g1, d_)) == dkeys(d_), [_dmap(g1, d_)]),
				FA([d_, k_], And(ddom(_dmap(g1, d_), k_) == ddom(d_, k_), Implies(ddom(d_, k_), dget(_dmap(g1, d_), k_) == _dc(g1, dget(d_, k_)))), [ddom(_dmap(g1, d_), k_), dget(_dmap(g1, d_), k_), (_dmap(g1, d_), ddom(d_, k_))])))]

	def objects(self, H0, H1, g, g1):
		s = self.s
		new = lambda x: And(V.is_r(_dc(g1, x)), V.rv(_dc(g1, x)) >= H0.next, V.rv(_dc(g1, x)) < H1.next, _und(g1, _dc(g1, x)) == x, H1.cls(_dc(g1, x)) == H0.cls(x))
		n = dget(s.nd(H0, g), k_)
		e = dget(s.Od(H0, u_), t_)
		own = lambda x, *fs: And(*[Implies(V.is_r(H0.f(f, x)), V.rv(H1.f(f, _dc(g1, x))) >= H0.next) for f in fs])
		return [('the nodes of the copy are new objects', FA([k_], Implies(ddom(s.nd(H0, g), k_), And(new(n), own(n, '_style', '_parameters'), new(s.O(H0, n)), new(s.In(H0, n)))), [ddom(s.nd(H0, g), k_)])),
			('the edges of the copy are new objects', FA([u_, t_], Implies(And(s.innode(H0, g, u_), ddom(s.Od(H0, u_), t_)), And(new(e), own(e, '_style', '_parameters'))), [ddom(s.Od(H0, u_), t_)])),
			('the node dictionary is new', V.rv(H1.f('_nodes_dict', g1)) >= H0.next)]

	def settings(self, H0, H1, g, g1):
		return [('the settings', And(*[H1.f(f, g1) == _dc(g1, H0.f(f, g)) for f in SETTINGS]))]


class Copy(Copying, Similar, Contract):
	key = 'BasicGraph.copy'

	def make_args(self, ex, st, case):
		return {'self': self.graph_arg(ex, st)}

	def requires(self, H, a, ex):
		return self.base(H, a['self'])

	def result_tag(self):
		return 'Graph'

	def invariants(self, lc):
		if lc.iter is None:
			return []
		H0, a, s, ex = lc.root['H0'], lc.root['args'], self.s, lc.ex
		g = a['self']
		g1 = lc.entry.env.get('self')
		if not isinstance(g1, T):
			return []
		g1 = g1.t
		c = lambda x: _dc(g1, x)
		E = ex.view(lc.entry)
		f = lambda st, comp: ex.comp(st, 'f:' + comp)
		n0 = lc.root['next0']
		out = []
		for comp in ('_graph', '_start', '_end', '_outward_edges_have_start_node', '_inward_edges_have_end_node'):
			out.append((f'{comp} of the original stays', lambda st, k, vis, comp=comp: FA([r_], Implies(r_ < n0, z3.Select(f(st, comp), r_) == z3.Select(H0.c('f:' + comp), r_)), [z3.Select(f(st, comp), r_)])))
		n, e, e2 = dget(s.nd(H0, g), k_), dget(s.Od(H0, u_), t_), dget(s.Id(H0, u_), t_)
		at = lambda st, comp, x: z3.Select(f(st, comp), V.rv(x))
		out.append(('nodes that were visited have the graph', lambda st, k, vis: FA([k_], Implies(And(ddom(s.nd(H0, g), k_), lmem(vis, c(n))), at(st, '_graph', c(n)) == g1), [ddom(s.nd(H0, g), k_)])))
		out.append(('nodes have the graph', lambda st, k, vis: FA([k_], Implies(ddom(s.nd(H0, g), k_), at(st, '_graph', c(n)) == g1), [ddom(s.nd(H0, g), k_)])))
		out.append(('outward edges of nodes that were visited', lambda st, k, vis: FA([u_, t_], Implies(And(s.innode(H0, g, u_), ddom(s.Od(H0, u_), t_), lmem(vis, c(u_))),
			And(at(st, '_start', c(e)) == c(u_), at(st, '_graph', c(e)) == g1)), [ddom(s.Od(H0, u_), t_)])))
		out.append(('inward edges of nodes that were visited', lambda st, k, vis: FA([u_, t_], Implies(And(s.innode(H0, g, u_), ddom(s.Id(H0, u_), t_), lmem(vis, c(u_))),
			And(at(st, '_end', c(e2)) == c(u_), at(st, '_graph', c(e2)) == g1)), [ddom(s.Id(H0, u_), t_)])))
		for comp in ('_outward_edges_have_start_node', '_inward_edges_have_end_node'):
			out.append((f'nodes to be visited: {comp}', lambda st, k, vis, comp=comp: FA([k_], Implies(And(ddom(s.nd(H0, g), k_), Not(lmem(vis, c(n)))), at(st, comp, c(n)) == FALSE), [ddom(s.nd(H0, g), k_)])))
			out.append((f'flags of nodes: {comp}', lambda st, k, vis, comp=comp: FA([k_], Implies(ddom(s.nd(H0, g), k_), V.is_b(at(st, comp, c(n)))), [ddom(s.nd(H0, g), k_)])))
		return out

	def ensures(self, H0, H1, a, res, ex):
		g, s = a['self'], self.s
		reflexive = z3.BoolVal(True)
		return [('a new graph', And(V.is_r(res), V.rv(res) >= H0.next, V.rv(res) < H1.next))] + self.copied_values(res) + self.alike(H0, H1, g, res) + self.objects(H0, H1, g, res) + self.settings(H0, H1, g, res) + self.keeps(H1, res) + \
			[('the original is still a graph: ' + n, f) for n, f in self.whole(H1, g)] + [('the copy is similar to the original', self.graph(H1, g, res))]


class Filter(Copying, EdgesRemoved, Contract):
	key = 'BasicGraph.filter'

	def cases(self, ex):
		return ['nodes', 'none']

	def make_args(self, ex, st, case):
		d = {'self': self.graph_arg(ex, st), 'nodes': T(NONE)}
		if case == 'nodes':
			x = z3.Const('nodes', V)
			st.assume(And(ex.tagf(st, x, 'list'), V.rv(x) < ex.comp(st, 'next'), V.rv(x) >= 0))
			st.types[x] = 'list'
			d['nodes'] = T(x)
		for n in ('direction', 'filter_type'):
			d[n] = T(z3.Const(n, V))
		return d

	def given(self, H, a):
		return lnil if a['nodes'].eq(NONE) else H.lst(a['nodes'])

	def applies(self, ex, st, env):
		return False

	def requires(self, H, a, ex):
		g = a['self']
		l = self.given(H, a)
		return self.base(H, g) + [('names or nodes of the graph', FA([x_], Implies(lmem(l, x_), self.node_ok(H, g, x_)), [lmem(l, x_)])),
			('a direction', V.is_s(a['direction'])), ('a type of filter', V.is_s(a['filter_type']))]

	def raises(self, H, a, ex):
		l = self.given(H, a)
		return [('KeyError', EX([x_], And(lmem(l, x_), self.missing(H, a['self'], x_)), [lmem(l, x_)]))]

	def selected(self, k):
		return ufn('selected', V, B)(k)

	def ways(self, H, a):
		"""x selects u"""
		g = a['self']
		r = self.s.rel(H, g)
		n = lambda x: self.sel(H, g, x)
		d = a['direction']
		up, down = Or(d == lit('to'), d == lit('to_and_from')), Or(d == lit('from'), d == lit('to_and_from'))
		return r, n, up, down

	def lemmas(self, H, a, ex):
		"""the definition of the names that are selected"""
		s = self.s
		r, n, up, down = self.ways(H, a)
		l = self.given(H, a)
		nd = s.nd(H, a['self'])
		raw = lambda u: s.raw(H, u)
		sel = self.selected
		u = dget(nd, k_)
		return r.tc_defs() + [
			FA([x_], Implies(lmem(l, x_), sel(raw(n(x_)))), [lmem(l, x_)]),
			FA([x_, u_], Implies(And(lmem(l, x_), up, r.tc(u_, n(x_))), sel(raw(u_))), [(lmem(l, x_), r.tc(u_, n(x_)))]),
			FA([x_, u_], Implies(And(lmem(l, x_), down, r.tc(n(x_), u_)), sel(raw(u_))), [(lmem(l, x_), r.tc(n(x_), u_))]),
			FA([k_], Implies(sel(k_), EX([x_], And(lmem(l, x_), Or(k_ == raw(n(x_)), And(up, ddom(nd, k_), r.tc(u, n(x_))), And(down, ddom(nd, k_), r.tc(n(x_), u)))), [lmem(l, x_)])), [sel(k_)]),
		]

	def kept(self, a, k):
		return self.selected(k) == (a['filter_type'] == lit('include'))

	def result_tag(self):
		return 'Graph'

	def invariants(self, lc):
		H0, a, s, ex = lc.root['H0'], lc.root['args'], self.s, lc.ex
		g = a['self']
		nd = s.nd(H0, g)
		out = set_pool(lc)
		r, n, up, down = self.ways(H0, a)
		raw = lambda u: s.raw(H0, u)
		l = self.given(H0, a)
		graphs = [v.t for v in lc.entry.env.values() if isinstance(v, T) and ex.static_tag(lc.entry, v.t) == 'Graph' and not v.t.eq(g)]
		for m in lc.mod_dicts:
			d = lambda st, m=m: lc.dct(st, m)
			old = d(lc.entry)
			out.append((f'{m} keeps its keys', lambda st, k, vis, d=d, old=old: FA([k_], Implies(ddom(old, k_), ddom(d(st), k_)), [ddom(old, k_), ddom(d(st), k_)])))
			out.append((f'{m} has selected names', lambda st, k, vis, d=d: FA([k_], Implies(ddom(d(st), k_), And(ddom(nd, k_), self.selected(k_))), [ddom(d(st), k_)])))
			out.append((f'{m} has the names of what was visited', lambda st, k, vis, d=d: FA([u_], Implies(lmem(vis, u_), ddom(d(st), raw(u_))), [lmem(vis, u_)])))
			out.append((f'{m} has the names of nodes that were visited', lambda st, k, vis, d=d: FA([x_], Implies(lmem(vis, x_), And(ddom(nd, raw(n(x_))), ddom(d(st), raw(n(x_))))), [lmem(vis, x_)])))
			out.append((f'{m} has the ancestors of nodes that were visited', lambda st, k, vis, d=d: FA([x_, u_], Implies(And(lmem(vis, x_), up, r.tc(u_, n(x_))), ddom(d(st), raw(u_))), [(lmem(vis, x_), r.tc(u_, n(x_)))])))
			out.append((f'{m} has the descendants of nodes that were visited', lambda st, k, vis, d=d: FA([x_, u_], Implies(And(lmem(vis, x_), down, r.tc(n(x_), u_)), ddom(d(st), raw(u_))), [(lmem(vis, x_), r.tc(n(x_), u_))])))
		if lc.iter is not None:
			out.append(('nothing that was visited is missing', lambda st, k, vis: FA([x_], Implies(lmem(vis, x_), Not(self.missing(H0, g, x_))), [lmem(vis, x_)])))
		if lc.iter is not None and len(graphs) == 1:
			g1 = graphs[0]
			E = ex.view(lc.entry)
			for i, (name, _) in enumerate(self.whole(H0, g)):
				out.append((f'the invariant: {name}', lambda st, k, vis, i=i: self.whole(ex.view(st), g1)[i][1]))
			out += [(f'so far: {name}', lambda st, k, vis, i=i: self.without(E, ex.view(st), g1, lambda x: lmem(vis, x))[i][1]) for i, (name, _) in enumerate(self.without(E, E, g1, lambda x: lmem(lnil, x)))]
			n0 = lc.root['next0']
			for comp in EdgesRemoved.COMPS:
				out.append((f'{comp} of what is older stays', lambda st, k, vis, comp=comp: FA([r_], Implies(r_ < n0, z3.Select(ex.comp(st, comp), r_) == z3.Select(H0.c(comp), r_)), [z3.Select(ex.comp(st, comp), r_)])))
		return out

	def without(self, E, H, g1, gone):
		"""the graph in H is what it was in E, without some names"""
		s = self.s
		n0, n1 = s.nd(E, g1), s.nd(H, g1)
		out = [('the nodes', FA([k_], And(ddom(n1, k_) == And(ddom(n0, k_), Not(gone(k_))), Implies(ddom(n1, k_), dget(n1, k_) == dget(n0, k_))), [ddom(n1, k_), ddom(n0, k_)])),
			('the nodes keep their order', lsub(dkeys(n1), dkeys(n0)))]
		for what, dct in (('outward', s.Od), ('inward', s.Id)):
			d0, d1 = dct(E, u_), dct(H, u_)
			out.append((f'the {what} edges', FA([u_, t_], Implies(s.innode(E, g1, u_), And(ddom(d1, t_) == And(ddom(d0, t_), Not(gone(V.a3(t_))), Not(gone(V.b3(t_)))), Implies(ddom(d1, t_), dget(d1, t_) == dget(d0, t_)))), [ddom(d1, t_), ddom(d0, t_)])))
			out.append((f'the {what} edges keep their order', FA([u_], Implies(s.innode(E, g1, u_), lsub(dkeys(d1), dkeys(d0))), [dkeys(d1)])))
		return out

	def modifies(self, H, a, ex):
		return []

	def ensures(self, H0, H1, a, res, ex):
		g, s = a['self'], self.s
		c = lambda x: _dc(res, x)
		kept = lambda k: self.kept(a, k)
		n0, n1 = s.nd(H0, g), s.nd(H1, res)
		same = lambda x, *fs: And(*[H1.f(f, c(x)) == c(H0.f(f, x)) for f in CONTENT + fs])
		n, e = dget(n0, k_), dget(s.Od(H0, u_), t_)
		out = [('a new graph', And(V.is_r(res), V.rv(res) >= H0.next)),
			('exactly the nodes that are kept', FA([k_], And(ddom(n1, k_) == And(ddom(n0, k_), kept(k_)), Implies(ddom(n1, k_), dget(n1, k_) == c(n))), [ddom(n1, k_), ddom(n0, k_)])),
			('the nodes keep their order', lsub(dkeys(n1), dkeys(n0))),
			('with the content they had', FA([k_], Implies(And(ddom(n0, k_), kept(k_)), same(n, '_index')), [ddom(n0, k_)]))]
		for what, dct, f in (('outward', s.Od, '_outward_edges_dict'), ('inward', s.Id, '_inward_edges_dict')):
			d0 = dct(H0, u_)
			d1 = H1.dct(H1.f(f, c(u_)))
			out.append((f'exactly the {what} edges between nodes that are kept', FA([u_, t_], Implies(s.innode(H0, g, u_), And(ddom(d1, t_) == And(ddom(d0, t_), kept(V.a3(t_)), kept(V.b3(t_))), Implies(ddom(d1, t_), dget(d1, t_) == c(dget(d0, t_))))), [ddom(d1, t_), (ddom(d0, t_), c(u_))])))
			out.append((f'the {what} edges keep their order', FA([u_], Implies(s.innode(H0, g, u_), lsub(dkeys(d1), dkeys(d0))), [dkeys(d1)])))
		out += [('the edges have the content they had', FA([u_, t_], Implies(And(s.innode(H0, g, u_), ddom(s.Od(H0, u_), t_)), same(e)), [ddom(s.Od(H0, u_), t_)]))]
		return out + self.settings(H0, H1, g, res) + self.keeps(H1, res) + s.newer(H1, res, H0.next) + [('the node dictionary is new', V.rv(H1.f('_nodes_dict', res)) >= H0.next)]
