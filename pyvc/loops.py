"""Loops and comprehensions: invariants found as the largest inductive subset of a pool of candidates."""
import ast
import z3
from .terms import *
from .values import *


# ---------------------------------------------------------------------- what is iterated over
def iterate(self, e, st):
	out = []
	for s, v in self.ev(e, st):
		out.extend(self.iter_value(s, v, e))
	return out


def literal_list(l):
	"""the elements of a list term built from appends to the empty list, or None"""
	xs = []
	while z3.is_app(l) and l.decl().eq(lapp):
		xs.append(l.arg(1))
		l = l.arg(0)
	return list(reversed(xs)) if l.eq(lnil) else None


def list_iter(l, src=None):
	return MIter(llen(l), lambda s, k: [(s, T(lat(l, k)))], l, src)


def iter_value(self, st, v, node):
	if isinstance(v, MIter):
		return [(st, v)]
	if isinstance(v, MTuple):
		it = MIter(z3.IntVal(len(v.items)), None, None, None)
		it.items = list(v.items)
		try:
			l = lnil
			s = st.fork()
			for x in v.items:
				l = lapp(l, self.toV(s, x))
			if set(s.heap.items()) == set(st.heap.items()):
				it.lst = l
		except (Unsupported, z3.Z3Exception, TypeError):
			pass
		return [(st, it)]
	if isinstance(v, MKw):
		it = MIter(z3.IntVal(len(v.items)), None, None, None)
		it.items = [T(lit(k)) for k in v.items]
		return [(st, it)]
	if isinstance(v, MView):
		d = self.dct(st, v.ref)
		src = ('D', v.ref, d)
		if v.kind == 'items':
			from .builtins_ import literal_dict
			known = literal_dict(d)
			if known is not None and node is not None:
				it = MIter(z3.IntVal(len(known)), None, None, src)
				it.items = [MTuple([T(k), T(x)]) for k, x in known]
				return [(st, it)]
			ks = dkeys(d)
			return [(st, MIter(llen(ks), lambda s, k: [(s, MTuple([T(lat(ks, k)), T(self.dget(d, lat(ks, k)))]))], None, src))]
		it = list_iter(self.view_list(st, v), src)
		return [(st, it)]
	if isinstance(v, T):
		out = []
		for s, k in self.tags(st, v.t, node, ('list', 'dict')):
			if k == 'list':
				out.append((s, list_iter(self.lst(s, v.t), ('L', v.t, self.lst(s, v.t)))))
			elif k in ('dict', 'set'):
				d = self.dct(s, v.t)
				out.append((s, list_iter(dkeys(d), ('D', v.t, d))))
			elif k in ('t2', 't3', 't4'):
				out.extend(self.iter_value(s, self.untuple(v.t, k), node))
			elif k in ('none', 'i', 'b', 'f'):
				self.throw(s, 'TypeError', node)
			elif k == 's':
				l = ufn('chars', V, L)(v.t)
				out.append((s, list_iter(l)))
			else:
				raise Unsupported(f'iteration over a {k}', node)
		return out
	raise Unsupported(f'iteration over {type(v).__name__}', node)


def for_loop(self, s, st, it):
	items = getattr(it, 'items', None)
	if items is None and it.lst is not None:
		xs = literal_list(z3.simplify(it.lst) if False else it.lst)
		if xs is not None:
			items = [T(x) for x in xs]
	if items is not None:
		return self.unrolled(s, st, items, it.src)
	return self.symbolic_loop(s, st, it)


def unrolled(self, s, st, items, src=None):
	out, live = [], [st]
	for x in items:
		nxt = []
		for s1 in live:
			for s2 in self.assign(s.target, x, s1):
				for kind, s3, v in self.block(s.body, s2):
					if kind in ('next', 'continue'):
						if src is not None and src[0] == 'D' and not self.dct(s3, src[1]).eq(src[2]):
							raise Unsupported('a loop that changes what it goes through', s)
						nxt.append(s3)
					elif kind == 'break':
						out.append(('next', s3, None))
					else:
						out.append((kind, s3, v))
		live = nxt
		if len(live) > 64:
			raise Unsupported('too many paths', s)
	for s1 in live:
		out.extend(self.block(s.orelse, s1) if s.orelse else [('next', s1, None)])
	return out


# ---------------------------------------------------------------------- symbolic loops
class Mods:
	"""what a loop may change: names, (comp, ref) pairs with a loop-invariant ref, and whole components"""
	def __init__(self):
		self.names, self.refs, self.comps, self.ylist = set(), [], set(), False

	def has_ref(self, comp, ref):
		return any(c == comp and r.eq(ref) for c, r in self.refs)


def stored_names(s):
	out = set()
	def target(t):
		for n in ast.walk(t):
			if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
				out.add(n.id)
	def walk(stmts):
		for n in stmts:
			for m in ast.walk(n):
				if isinstance(m, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
					continue
				if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store, ast.Del)):
					out.add(m.id)
	walk(s.body)
	if isinstance(s, ast.For):
		target(s.target)
	else:
		walk([s.test])
	return out


def consts_of(t, cache=None):
	seen, out, todo = set(), set(), [t]
	while todo:
		x = todo.pop()
		i = x.get_id()
		if i in seen:
			continue
		seen.add(i)
		if z3.is_app(x):
			if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
				out.add(x.decl().name())
			todo.extend(x.children())
		elif z3.is_quantifier(x):
			todo.append(x.body())
	return out


def loop_diff(self, head, end, born, mods):
	"""heap changes between the loop head and a state reached from it that mods does not have yet"""
	new = []
	for comp in set(head.heap) | set(end.heap):
		a, b = self.comp(head, comp), self.comp(end, comp)
		if a.eq(b):
			continue
		if comp in ('next', 'rng') or not z3.is_array(a):
			if comp not in mods.comps:
				new.append((comp, None))
			continue
		x, whole = b, False
		while not x.eq(a):
			if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
				r = x.arg(1)
				if consts_of(r) & born:
					whole = True
				elif not mods.has_ref(comp, r):
					new.append((comp, r))
				x = x.arg(0)
			elif x.get_id() in self.havocs:
				# an inner loop changed the component: what it changed at places that are known here counts
				whole = True
				x, refs = self.havocs[x.get_id()][1:3]
				for r in refs:
					if not (consts_of(r) & born) and not mods.has_ref(comp, r):
						new.append((comp, r))
			else:
				whole = True
				break
		if whole and comp not in mods.comps:
			new.append((comp, None))
	return new


def loop_head(self, st, s, mods, it, live=()):
	"""the state at the head of an arbitrary iteration: what the loop may change is unknown"""
	h = st.fork()
	for n in mods.names:
		v = st.env.get(n)
		if isinstance(v, T):
			h.env[n] = T(Fresh.const(n, V))
		elif n in st.env and isinstance(v, MTuple):
			try:
				self.toV(st.fork(), v)
				h.env[n] = T(Fresh.const(n, V))
			except Unsupported:
				h.env[n] = None
		else:
			h.env[n] = None
	for comp in mods.comps:
		if comp == 'next':
			h.heap['next'] = Fresh.const('next', I)
			h.assume(h.heap['next'] >= self.comp(st, 'next'))
		else:
			old = self.comp(h, comp)
			h.heap[comp] = new = Fresh.const(comp, comp_sort(comp))
			refs = [r for c, r in mods.refs if c == comp]
			framed = any(n == f'auto: {comp} of old objects unchanged' for n, _ in live)
			self.havocs[new.get_id()] = (new, old, refs, framed)
	for comp, r in mods.refs:
		if comp not in mods.comps:
			self.setcomp(h, comp, r, Fresh.const(comp + '_at', comp_sort(comp).range()))
	if mods.ylist:
		h.ylist = Fresh.const('ylist', L)
	h.types = {t: k for t, k in h.types.items()}
	return h


def list_vars(self, st):
	"""names of variables that hold a list or a dictionary, with their tags"""
	out = []
	for n, v in st.env.items():
		if isinstance(v, T):
			k = self.static_tag(st, v.t)
			if k in ('list', 'dict', 'set'):
				out.append((n, k))
	return out


def auto_candidates(self, st, s, it, mods):
	"""candidate invariants that any loop may have: (name, function of (state, k, vis) -> formula or None)"""
	out = []
	entry_next = self.comp(st, 'next')
	view0 = self.view(st)

	for n in sorted(mods.names):
		v = st.env.get(n)
		if not isinstance(v, T):
			continue
		k = self.static_tag(st, v.t) or self.tag(st, v.t)
		v0 = v.t
		out.append((f'{n} unchanged', lambda s2, k2, vis, n=n, v0=v0: s2.env[n].t == v0 if isinstance(s2.env.get(n), T) else None))
		if k:
			out.append((f'{n} is a {k}', lambda s2, k2, vis, n=n, k=k: self.tagf(s2, s2.env[n].t, k) if isinstance(s2.env.get(n), T) else None))
		if k in ('list', 'dict', 'set') or k in self.p.classes:
			out.append((f'{n} allocated', lambda s2, k2, vis, n=n: And(V.rv(s2.env[n].t) >= 0, V.rv(s2.env[n].t) < self.comp(s2, 'next')) if isinstance(s2.env.get(n), T) else None))
		if k in ('list', 'dict', 'set'):
			out.append((f'{n} is new', lambda s2, k2, vis, n=n: V.rv(s2.env[n].t) >= self.root_next() if isinstance(s2.env.get(n), T) else None))
			for m, km in self.list_vars(st):
				if m != n and km == k:
					out.append((f'{n} is not {m}', lambda s2, k2, vis, n=n, m=m: s2.env[n].t != s2.env[m].t
						if isinstance(s2.env.get(n), T) and isinstance(s2.env.get(m), T) else None))
		if it is not None and k == 'i':
			pass
	for n, k in self.list_vars(st):
		comp = 'L' if k == 'list' else 'D'
		if n in mods.names or comp not in mods.comps:
			continue
		ref = self.ref(st.env[n].t)
		if not mods.has_ref(comp, ref):
			out.append((f'content of {n} unchanged', lambda s2, k2, vis, comp=comp, ref=ref, c0=self.sel(self.comp(st, comp), ref): self.sel(self.comp(s2, comp), ref) == c0))
	# frames of components that change at places that depend on the iteration
	for comp in sorted(mods.comps):
		if comp in ('next', 'rng'):
			continue
		a0 = self.comp(st, comp)
		skip = [r for c, r in mods.refs if c == comp]
		r = z3.Int('r_frame')
		def frame(s2, k2, vis, comp=comp, a0=a0, skip=skip, bound=entry_next):
			a = self.comp(s2, comp)
			if a.eq(a0):
				return z3.BoolVal(True)
			return FA([r], Implies(And(r < bound, *[r != q for q in skip]), z3.Select(a, r) == z3.Select(a0, r)), [z3.Select(a, r)])
		out.append((f'{comp} of old objects unchanged', frame))
	return out


def root_next(self):
	return self.rootctx['next0'] if self.rootctx else self.init_comp('next')


def symbolic_loop(self, s, st, it):
	self.loop_depth += 1
	try:
		return self._symbolic_loop(s, st, it)
	finally:
		self.loop_depth -= 1


def _symbolic_loop(self, s, st, it):
	self.tick(s)
	key = (id(s), tuple(id(f) for f in self.inline_stack), self.loop_depth)
	mods = Mods()
	mods.names = stored_names(s)
	known = self.loop_mods.get(key)
	if known:
		mods.comps |= known.comps
		mods.ylist = known.ylist
	entry = st.fork()
	if it is not None and it.lst is not None:
		vis0 = lnil
	else:
		vis0 = None
	bad = set(self.loop_dropped.get(key, ()))

	def pool():
		c = [('auto: ' + n, f) for n, f in self.auto_candidates(entry, s, it, mods)]
		rc = self.rootctx
		if rc and rc.get('contract') is not None:
			lc = LoopCtx(self, entry, it, s, mods)
			c += [(n, f) for n, f in rc['contract'].invariants(lc)]
		return c

	def value(f, s2, k, vis):
		try:
			r = f(s2, k, vis)
		except (KeyError, AttributeError, z3.Z3Exception, TypeError):
			return None
		if r is None:
			return None
		return r

	again = 0
	for attempt in range(60):
		self.tick(s)
		cands = [(n, f) for n, f in pool() if n not in bad]
		# base
		live = []
		for n, f in cands:
			g = value(f, entry, z3.IntVal(0), vis0)
			if g is None or not self.valid(entry, g, 1500):
				if self.debug and __import__("re").search(self.debug, n):
					print('      base fails', self.where(s), n, g, 'attempt', attempt, mods.refs, mods.comps)
				bad.add(n)
				continue
			live.append((n, f))
		outs, new, failed = self.loop_once(s, entry, it, mods, live, value, quiet=True)
		if new:
			for comp, r in new:
				if comp == 'ylist':
					mods.ylist = True
				elif r is None:
					mods.comps.add(comp)
				elif not mods.has_ref(comp, r):
					mods.refs.append((comp, r))
			continue
		if failed:
			bad |= failed
			continue
		self.loop_mods[key] = mods
		self.loop_dropped[key] = frozenset(bad)
		mark = len(self.obls)
		outs, new, failed = self.loop_once(s, entry, it, mods, live, value, quiet=self.quiet > 0)
		if not new and not failed:
			break
		del self.obls[mark:]
		again += 1
		if new or again > 2:
			raise Unsupported('unstable invariant', s)
		bad |= failed
	else:
		raise Unsupported('no stable invariant', s)
	if self.loop_log is not None and not self.quiet:
		self.loop_log.append((self.where(s), [n for n, _ in live], sorted(bad)))
	return outs


def loop_once(self, s, entry, it, mods, live, value, quiet):
	"""one arbitrary iteration from the invariant: (outcomes of the loop, new modifications, candidates not preserved)"""
	born = []
	outer_log = Fresh.log
	Fresh.log = born
	if quiet:
		self.quiet += 1
	mark = len(self.obls)
	try:
		head = self.loop_head(entry, s, mods, it, live)
		k, vis, body_vis = z3.IntVal(0), None, None
		if it is not None:
			k = Fresh.const('k', I)
			head.assume(And(0 <= k, k <= it.n))
			if it.lst is not None:
				vis = Fresh.const('vis', L)
				head.assume(And(lprefix(vis, it.lst), llen(vis) == k))
		for n, f in live:
			g = value(f, head, k, vis)
			if g is not None:
				head.assume(g)
		for n in mods.names:
			v = head.env.get(n)
			if isinstance(v, T):
				ev = entry.env.get(n)
				tg = self.static_tag(entry, ev.t) if isinstance(ev, T) else None
				if tg and any(m == f'auto: {n} is a {tg}' for m, _ in live):
					head.types[v.t] = tg
		outs, exits, ends = [], [], []
		if it is not None:
			run = head.fork().assume(k < it.n)
			if self.rootctx:
				run.pc = self.rootctx['contract'].within(self, s, entry, run.pc)
			if vis is not None:
				cur = lat(it.lst, k)
				run.assume(Implies(nodup(it.lst), Not(lmem(vis, cur))))
				run.assume(lmem(it.lst, cur))
				body_vis = lapp(vis, cur)
				run.assume(And(lprefix(body_vis, it.lst), llen(body_vis) == k + 1))
			starts = []
			for s1, x in it.elem(run, k):
				starts.extend(self.assign(s.target, x, s1))
			done = head.fork().assume(k == it.n)
			if vis is not None:
				done.assume(vis == it.lst)
			exits.append(done)
		else:
			starts = []
			self.sinks.append([])
			try:
				for s1, f in self.cond(s.test, head):
					for s2, b in self.branch(s1, f):
						(starts if b else exits).append(s2)
			finally:
				sink = self.sinks.pop()
			outs.extend(('raise', s2, v) for s2, v in sink)
		for s1 in starts:
			for kind, s2, v in self.block(s.body, s1):
				if kind in ('next', 'continue'):
					ends.append(s2)
				elif kind == 'break':
					outs.append(('next', s2, None))
				else:
					outs.append((kind, s2, v))
		names = {c.decl().name() for c in born}
		new, failed = [], set()
		for s2 in ends + [o[1] for o in outs]:
			for ch in self.loop_diff(head, s2, names, mods):
				if ch not in new:
					new.append(ch)
			if s2.ylist is not None and not (s2.ylist.eq(head.ylist)) and not mods.ylist:
				new.append(('ylist', None))
		if new:
			return outs, new, failed
		for s2 in ends:
			for n, f in live:
				if n in failed:
					continue
				g = value(f, s2, z3.simplify(k + 1) if it is not None else k, body_vis)
				if g is None or not self.valid(s2, g, self.inv_timeout, () if n.startswith('auto: ') else (1, 2, 3)):
					if self.debug and __import__("re").search(self.debug, n):
						print('      step fails', self.where(s), n, z3.simplify(g) if g is not None else None, mods.refs, mods.comps)
					failed.add(n)
			if it is not None and it.src is not None:
				comp, ref, old = it.src
				now = self.sel(self.comp(s2, comp), self.ref(ref))
				g = now == old if comp == 'L' else dkeys(now) == dkeys(old)
				if not now.eq(old):
					self.prove(s2, g, 'the collection that the loop iterates over is not changed by it', s)
			if it is None and not quiet:
				m = self.rootctx['contract'].variant(self, head, s2, s) if self.rootctx and self.rootctx.get('contract') is not None else None
				if m is not None:
					self.prove(s2, m, 'the loop makes progress (variant)', s)
				else:
					self.trusted.add(f'termination of the while loop at {self.where(s)} is not proved')
		if failed:
			return outs, new, failed
		for s2 in exits:
			if self.dead(s2):
				continue
			if s.orelse:
				outs.extend(self.block(s.orelse, s2))
			else:
				outs.append(('next', s2, None))
		return outs, new, failed
	finally:
		if quiet:
			self.quiet -= 1
			del self.obls[mark:]
		Fresh.log = outer_log
		if outer_log is not None:
			outer_log.extend(born)


class LoopCtx:
	"""what a pool of candidate invariants may look at"""
	def __init__(self, ex, entry, it, node, mods):
		self.ex, self.entry, self.it, self.node, self.mods = ex, entry, it, node, mods
		self.iter = it.lst if it is not None else None
		self.depth = ex.loop_depth
		self.root = ex.rootctx
		self.names = ex.list_vars(entry)
		self.lists = [n for n, k in self.names if k == 'list']
		self.dicts = [n for n, k in self.names if k == 'dict']
		self.mod_lists = [n for n in self.lists if self.changes(n)]
		self.mod_dicts = [n for n in self.dicts if self.changes(n)]

	def changes(self, n):
		if n in self.mods.names:
			return True
		v = self.entry.env.get(n)
		k = self.ex.static_tag(self.entry, v.t)
		comp = 'L' if k == 'list' else 'D'
		return self.mods.has_ref(comp, self.ex.ref(v.t))

	def lst(self, st, n):
		"""the content of the list that the variable n holds in st"""
		v = st.env[n]
		return self.ex.lst(st, v.t)

	def dct(self, st, n):
		return self.ex.dct(st, st.env[n].t)


# ---------------------------------------------------------------------- comprehensions
def simple_target(t):
	return isinstance(t, ast.Name) or (isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts))


def desugar(self, e, st, kind):
	"""a comprehension as loops that fill an accumulator"""
	acc = f'__{kind}_{getattr(e, "lineno", 0)}_{getattr(e, "col_offset", 0)}'
	name = lambda ctx: ast.copy_location(ast.Name(acc, ctx), e)
	if kind == 'list':
		leaf = ast.Expr(ast.Call(ast.Attribute(name(ast.Load()), 'append', ast.Load()), [e.elt], []))
		init = self.new_list
		empty = lnil
	elif kind == 'dict':
		leaf = ast.Assign([ast.Subscript(name(ast.Load()), e.key, ast.Store())], e.value)
		init, empty = self.new_dict, dnil
	else:
		leaf = ast.Expr(ast.Call(ast.Attribute(name(ast.Load()), 'add', ast.Load()), [e.elt], []))
		init, empty = None, None
	cache = self.desugared.get((id(e), kind))
	if cache is None:
		stmt = leaf
		for g in reversed(e.generators):
			for c in reversed(g.ifs):
				stmt = ast.If(c, [stmt], [])
			stmt = ast.For(g.target, g.iter, [stmt], [])
		ast.copy_location(stmt, e)
		for n in ast.walk(stmt):
			if not hasattr(n, 'lineno') and isinstance(n, (ast.stmt, ast.expr)):
				n.lineno, n.col_offset = e.lineno, e.col_offset
		cache = self.desugared[(id(e), kind)] = stmt
	s = st.fork()
	if kind == 'set':
		r = self.alloc(s, SET)
		self.setcomp(s, 'D', self.ref(r), dnil)
		s.env[acc] = T(r)
	else:
		s.env[acc] = init(s, empty)
	saved = dict(st.env)
	out = []
	for k, s2, v in self.block([cache], s):
		s2 = s2.fork()
		res = s2.env.get(acc)
		s2.env = {n: s2.env.get(n, x) for n, x in saved.items()} if False else dict(saved)
		if k == 'next':
			out.append((s2, res))
		elif k == 'raise':
			self.sinks[-1].append((s2, v))
		else:
			raise Unsupported('control flow in a comprehension', e)
	return out


def ev_ListComp(self, e, st):
	if len(e.generators) != 1 or e.generators[0].is_async or not simple_target(e.generators[0].target):
		return self.desugar(e, st, 'list')
	g = e.generators[0]
	out = []
	for s, it in self.iterate(g.iter, st):
		items = getattr(it, 'items', None)
		if items is None and it.lst is not None:
			xs = literal_list(it.lst)
			items = [T(x) for x in xs] if xs is not None else None
		if items is not None:
			out.extend(self.comp_items(e, g, s, items))
			continue
		r = self.list_map(e, g, s, it)
		if r is None:
			out.extend(self.desugar(e, s, 'list'))
		else:
			out.extend(r)
	return out


def comp_items(self, e, g, st, items):
	saved = dict(st.env)
	res = [(st, lnil)]
	for x in items:
		nxt = []
		for s, l in res:
			for s1 in self.assign(g.target, x, s):
				conds = [(s1, z3.BoolVal(True))]
				for c in g.ifs:
					conds = [(s3, And(f, f2)) for s2, f in conds for s3, f2 in self.cond(c, s2)]
				for s2, f in conds:
					for s3, b in self.branch(s2, f):
						if not b:
							nxt.append((s3, l))
							continue
						for s4, v in self.ev(e.elt, s3):
							nxt.append((s4, lapp(l, self.toV(s4, v, e))))
		res = nxt
		if len(res) > 64:
			raise Unsupported('too many paths', e)
	out = []
	for s, l in res:
		s = s.fork()
		s.env = dict(saved)
		out.append((s, self.new_list(s, l)))
	return out


def list_map(self, e, g, st, it):
	"""[elt for x in it if cond], from one arbitrary element; None if evaluating it changes anything"""
	born = []
	outer = Fresh.log
	Fresh.log = born
	mark = len(self.obls)
	self.sinks.append([])
	self.loop_depth += 1
	try:
		i = Fresh.const('i', I)
		s0 = st.fork().assume(And(0 <= i, i < it.n))
		if it.lst is not None:
			s0.assume(lmem(it.lst, lat(it.lst, i)))
		n0 = len(st.pc)
		paths = []
		for s1, x in it.elem(s0, i):
			for s2 in self.assign(g.target, x, s1):
				conds = [(s2, z3.BoolVal(True))]
				for c in g.ifs:
					conds = [(s4, And(f, f2)) for s3, f in conds for s4, f2 in self.cond(c, s3)]
				for s3, f in conds:
					f = z3.simplify(f)
					if z3.is_false(f):
						paths.append((s3, f, None))
						continue
					s4 = s3 if z3.is_true(f) else s3.fork().assume(f)
					for s5, v in self.ev(e.elt, s4):
						paths.append((s5, True, self.toV(s5, v, e)))
					if not z3.is_true(f) and self.feasible(s3, Not(f)):
						paths.append((s3.fork().assume(Not(f)), False, None))
	finally:
		self.loop_depth -= 1
		sink = self.sinks.pop()
		Fresh.log = outer
		if outer is not None:
			outer.extend(born)
	names = {c.decl().name() for c in born}
	next0 = self.comp(st, 'next')
	for s1, inc, v in paths + [(x, False, None) for x, _ in sink]:
		if not self.only_fresh(st, s1, next0, names):
			del self.obls[mark:]
			return None
		if v is not None and not self.simple_value(v, s1, next0, names):
			del self.obls[mark:]
			return None
	for s1, exc in sink:
		s1 = s1.fork()
		s1.env = dict(st.env)
		self.sinks[-1].append((s1, exc))
	# fresh constants of the arbitrary element become functions of its index
	subst = []
	j = z3.Int('j_map')
	for c in born:
		if c.eq(i):
			continue
		f = z3.Function(c.decl().name() + '@', I, c.sort())
		subst.append((c, f(j)))
	subst.append((i, j))
	sub = lambda t: z3.substitute(t, *subst)
	R = Fresh.const('map', L)
	res = st.fork()
	filtered = bool(g.ifs)
	n = it.n
	rng = And(0 <= j, j < n)
	alts_fwd, alts_back = [], []
	y = z3.Const('y_map', V)
	base = len(st.pc)
	for s1, inc, v in paths:
		pcj = [sub(f) for f in s1.pc[base:]]
		if inc is True or (not isinstance(inc, bool) and z3.is_true(inc)):
			vj = sub(v)
			rel = lmem(R, vj) if filtered else z3.Select(z3.K(I, True), 0) if False else (lat(R, j) == vj)
			alts_fwd.append(And(*pcj, rel))
			alts_back.append((pcj, vj))
		else:
			alts_fwd.append(And(*pcj))
	src = z3.Function(f'src!{R.decl().name()}', V, I)
	it_pat = []
	if it.lst is not None:
		it_pat.append(lat(it.lst, j))
	if not filtered:
		res.assume(llen(R) == n)
		it_pat.append(lat(R, j))
	if not it_pat:
		# views of items: trigger on the key
		it_pat = self.index_patterns(it, j, st)
	if alts_fwd:
		res.assume(FA([j], Implies(rng, Or(*alts_fwd)), it_pat or None))
		if filtered:
			sj = src(y)
			at = lambda t: z3.substitute(t, (j, sj))
			res.assume(FA([y], Implies(lmem(R, y), And(0 <= sj, sj < n, Or(*[And(*[at(p) for p in pcj], at(vj) == y) for pcj, vj in alts_back]))), [lmem(R, y)]))
			res.assume(llen(R) <= n)
			if it.lst is not None:
				res.assume(FA([y], Implies(lmem(R, y), lat(it.lst, src(y)) == lat(it.lst, src(y))), [lmem(R, y)]))
				same = all(vj.eq(lat(it.lst, j)) for _, vj in alts_back)
				if same:
					res.assume(Implies(nodup(it.lst), nodup(R)))
	else:
		res.assume(n == 0)
		res.assume(R == lnil)
	res.env = dict(st.env)
	return [(res, self.new_list(res, R))]


def index_patterns(self, it, j, st):
	for s, x in it.elem(st, j):
		if isinstance(x, MTuple) and isinstance(x.items[0], T):
			return [x.items[0].t] if z3.is_app(x.items[0].t) and x.items[0].t.num_args() else []
		if isinstance(x, T):
			return [x.t] if z3.is_app(x.t) and x.t.num_args() else []
	return []


def only_fresh(self, st, end, next0, names):
	"""the heap differs from that of st only at objects allocated since"""
	for comp in set(st.heap) | set(end.heap):
		a, b = self.comp(st, comp), self.comp(end, comp)
		if a.eq(b) or comp == 'next':
			continue
		x = b
		while not x.eq(a):
			if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
				r = x.arg(1)
				d = z3.simplify(r - next0)
				if not (z3.is_int_value(d) and d.as_long() >= 0):
					if not self.valid(end, r >= next0):
						return False
				x = x.arg(0)
			else:
				return False
	return True


def simple_value(self, v, st, next0, names):
	"""the value does not refer to objects that were allocated while computing it"""
	k = self.static_tag(st, v)
	if k in ('none', 'b', 'i', 'f', 's', 'o'):
		return True
	if z3.is_app(v) and v.decl().name() in ('t2', 't3', 't4') and v.num_args():
		return all(self.simple_value(x, st, next0, names) for x in v.children())
	return self.valid(st, Implies(V.is_r(v), V.rv(v) < next0))


def ev_GeneratorExp(self, e, st):
	return self.ev_ListComp(e, st)


def ev_DictComp(self, e, st):
	if len(e.generators) == 1 and not e.generators[0].is_async:
		g = e.generators[0]
		out = []
		its = self.iterate(g.iter, st)
		if all(getattr(it, 'items', None) is not None for _, it in its):
			for s, it in its:
				res = [(s, dnil)]
				for x in it.items:
					nxt = []
					for s1, d in res:
						for s2 in self.assign(g.target, x, s1):
							conds = [(s2, z3.BoolVal(True))]
							for c in g.ifs:
								conds = [(s4, And(f, f2)) for s3, f in conds for s4, f2 in self.cond(c, s3)]
							for s3, f in conds:
								for s4, b in self.branch(s3, f):
									if b:
										for s5, (kk, vv) in self.evs([e.key, e.value], s4):
											nxt.append((s5, dset(d, self.toV(s5, kk, e), self.toV(s5, vv, e))))
									else:
										nxt.append((s4, d))
					res = nxt
				for s1, d in res:
					s1 = s1.fork()
					s1.env = dict(st.env)
					out.append((s1, self.new_dict(s1, d)))
			return out
	return self.desugar(e, st, 'dict')


def ev_SetComp(self, e, st):
	return self.desugar(e, st, 'set')
