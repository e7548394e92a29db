"""Built-in functions, methods of built-in types and the external functions the package uses."""
import ast
import z3
from .terms import *
from .values import *

EXT_CLASSES = {'colouration.Colour', 'colouration.Scheme', 'graphviz.Source'}


def need(args, kw, n, names, node):
	"""positional arguments from positional and keyword ones"""
	args = list(args)
	for k in names[len(args):]:
		if k in kw:
			args.append(kw[k])
	if len(args) < n:
		raise Unsupported('arguments of a built-in', node)
	return args


def isinstance_f(self, st, v, c, node):
	"""isinstance(v, c) as a formula"""
	if isinstance(c, MTuple):
		return Or(*[isinstance_f(self, st, v, x, node) for x in c.items])
	if isinstance(v, (MTuple,)):
		return z3.BoolVal(isinstance(c, MBuiltin) and c.name in ('tuple', 'object'))
	if isinstance(v, (MKw,)):
		return z3.BoolVal(isinstance(c, MBuiltin) and c.name in ('dict', 'object'))
	if not isinstance(v, T):
		return z3.BoolVal(False)
	t = v.t
	k = self.static_tag(st, t)
	cls = self.sel(self.comp(st, 'cls'), self.ref(t))
	if isinstance(c, MCls):
		if k is not None and k not in self.p.classes:
			return z3.BoolVal(False)
		codes = self.class_codes(c.ci.name)
		if k is not None:
			return z3.BoolVal(self.p.classes[k].code in codes)
		return And(V.is_r(t), Or(*[cls == z3.IntVal(x) for x in codes]))
	if isinstance(c, MBuiltin):
		n = c.name
		if n == 'object':
			return z3.BoolVal(True)
		if n == 'str':
			return z3.BoolVal(k == 's') if k else V.is_s(t)
		if n == 'int':
			return z3.BoolVal(k in ('i', 'b')) if k else Or(V.is_i(t), V.is_b(t))
		if n == 'bool':
			return z3.BoolVal(k == 'b') if k else V.is_b(t)
		if n == 'float':
			return z3.BoolVal(k == 'f') if k else V.is_f(t)
		if n == 'tuple':
			return z3.BoolVal(k in ('t2', 't3', 't4')) if k else Or(V.is_t2(t), V.is_t3(t), V.is_t4(t))
		if n in BUILTIN_CODES:
			return z3.BoolVal(k == n) if k else And(V.is_r(t), cls == BUILTIN_CODES[n])
	if isinstance(c, MExt):
		if k is not None and k != 'o':
			return z3.BoolVal(False)
		f = ufn('is_a:' + c.path.split('.')[-1], I, B)
		return And(V.is_o(t), f(V.ov(t)))
	raise Unsupported('isinstance', node)


def one_list(self, st, v, node):
	"""(state, list term) of something iterable"""
	out = []
	for s, it in self.iter_value(st, v, node):
		if it.lst is None:
			l = Fresh.const('iter', L)
			s = s.fork()
			j = z3.Int('j_it')
			facts = [llen(l) == it.n]
			rs = it.elem(s, j)
			if len(rs) != 1:
				raise Unsupported('iteration', node)
			val = self.toV(s, rs[0][1], node)
			facts.append(FA([j], Implies(And(0 <= j, j < it.n), lat(l, j) == val), [lat(l, j)]))
			for f in facts:
				s.assume(f)
			out.append((s, l))
		else:
			out.append((s, it.lst))
	return out


def builtin(self, st, f, args, kw, node):
	n = f.name
	if '.' in n:
		return method(self, st, f, args, kw, node)
	m = globals().get('b_' + n)
	if m is None:
		from .exec import BUILTIN_EXC
		if n in BUILTIN_EXC:
			return [(st, MExc(n))]
		raise Unsupported(f'built-in {n}', node)
	return m(self, st, args, kw, node)


def b_len(self, st, args, kw, node):
	v = args[0]
	if isinstance(v, (MTuple,)):
		return [(st, T(V.i(z3.IntVal(len(v.items)))))]
	if isinstance(v, MKw):
		return [(st, T(V.i(z3.IntVal(len(v.items)))))]
	if isinstance(v, MView):
		return [(st, T(V.i(llen(dkeys(self.dct(st, v.ref))))))]
	if isinstance(v, MIter):
		return [(st, T(V.i(v.n)))]
	out = []
	for s, k in self.tags(st, v.t, node, ('list', 'dict')):
		if k == 'list':
			out.append((s, T(V.i(llen(self.lst(s, v.t))))))
		elif k in ('dict', 'set'):
			out.append((s, T(V.i(llen(dkeys(self.dct(s, v.t)))))))
		elif k == 's':
			x = ufn('strlen', V, I)(v.t)
			s = s.fork().assume(And(x >= 0, (x == 0) == (V.sv(v.t) == 0)))
			out.append((s, T(V.i(x))))
		elif k in ('t2', 't3', 't4'):
			out.append((s, T(V.i(z3.IntVal(int(k[1]))))))
		elif k in ('none', 'i', 'b', 'f') or k in self.p.classes:
			self.throw(s, 'TypeError', node)
		else:
			x = ufn('user_len', V, I)(v.t)
			out.append((s.fork().assume(x >= 0), T(V.i(x))))
	return out


def b_list(self, st, args, kw, node):
	if not args:
		s = st.fork()
		return [(s, self.new_list(s, lnil))]
	out = []
	for s, l in one_list(self, st, args[0], node):
		s = s.fork()
		out.append((s, self.new_list(s, l)))
	return out


def b_tuple(self, st, args, kw, node):
	if args and isinstance(args[0], MTuple):
		return [(st, args[0])]
	raise Unsupported('tuple()', node)


def b_dict(self, st, args, kw, node):
	s = st.fork()
	if not args:
		d = dnil
		for k, v in kw.items():
			if k == '**':
				raise Unsupported('dict(**)', node)
			d = dset(d, lit(k), self.toV(s, v, node))
		return [(s, self.new_dict(s, d))]
	v = args[0]
	if kw or len(args) != 1:
		raise Unsupported('dict()', node)
	if isinstance(v, MKw):
		t = self.toV(s, v)
		return [(s, T(t))]
	if isinstance(v, T):
		out = []
		for s2, k in self.tags(s, v.t, node, ('dict',)):
			if k != 'dict':
				raise Unsupported('dict() of a non-dictionary', node)
			s2 = s2.fork()
			out.append((s2, self.new_dict(s2, self.dct(s2, v.t))))
		return out
	raise Unsupported('dict()', node)


def b_set(self, st, args, kw, node):
	s = st.fork()
	if not args:
		d = dnil
		r = self.alloc(s, SET)
		self.setcomp(s, 'D', self.ref(r), d)
		return [(s, T(r))]
	out = []
	for s, l in one_list(self, st, args[0], node):
		s = s.fork()
		d = Fresh.const('set', D)
		x = z3.Const('x_set', V)
		s.assume(FA([x], ddom(d, x) == lmem(l, x), [ddom(d, x), lmem(l, x)]))
		# iteration order of a set is arbitrary: dkeys(d) is only known to have these elements, once each
		r = self.alloc(s, SET)
		self.setcomp(s, 'D', self.ref(r), d)
		out.append((s, T(r)))
	return out


def b_str(self, st, args, kw, node):
	if not args:
		return [(st, T(lit('')))]
	v = args[0]
	if isinstance(v, T):
		k = self.static_tag(st, v.t)
		if k is None and self.valid(st, Not(V.is_r(v.t))):
			return [(st, T(text_of([v.t])))]
		k = self.tag(st, v.t, node)
		if k == 's':
			return [(st, v)]
		if k in self.p.classes:
			m = self.p.classes[k].find('methods', '__str__')
			if m:
				return self.call_fn(st, MFn(m, v), [], {}, node)
		return [(st, T(text_of([v.t])))]
	return [(st, T(V.s(Fresh.const('str', I))))]


b_repr = b_str


def b_int(self, st, args, kw, node):
	v = args[0]
	k = self.tag(st, v.t, node)
	if k == 'i':
		return [(st, v)]
	if k == 'f':
		x = V.fv(v.t)
		return [(st, T(V.i(If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))))]
	raise Unsupported('int()', node)


def b_float(self, st, args, kw, node):
	v = args[0]
	k = self.tag(st, v.t, node)
	if k == 'f':
		return [(st, v)]
	if k == 'i':
		return [(st, T(V.f(z3.ToReal(V.iv(v.t)))))]
	raise Unsupported('float()', node)


def b_bool(self, st, args, kw, node):
	return [(st, T(V.b(self.truth(st, args[0], node))))]


def b_isinstance(self, st, args, kw, node):
	return [(st, T(V.b(z3.simplify(isinstance_f(self, st, args[0], args[1], node)))))]


def b_callable(self, st, args, kw, node):
	if isinstance(args[0], T):
		return [(st, T(V.b(ufn('callable', V, B)(args[0].t))))]
	return [(st, T(TRUE))]


def b_type(self, st, args, kw, node):
	v = args[0]
	if isinstance(v, T):
		k = self.tag(st, v.t, node)
		if k in self.p.classes:
			return [(st, MCls(self.p.classes[k]))]
	return [(st, T(V.o(Fresh.const('type', I))))]


def const_str(self, t):
	t = z3.simplify(t)
	if z3.is_app(t) and t.decl().eq(V.s) and z3.is_int_value(t.arg(0)):
		from .terms import _codes
		n = t.arg(0).as_long()
		for text, c in _codes.items():
			if c == n:
				return text
	return None


def b_getattr(self, st, args, kw, node):
	name = const_str(self, self.toV(st, args[1]))
	if name is None:
		raise Unsupported('getattr with an unknown name', node)
	if len(args) == 2:
		return self.getattr(st, args[0], name, node)
	self.sinks.append([])
	try:
		res = self.getattr(st, args[0], name, node)
	finally:
		sink = self.sinks.pop()
	for s, exc in sink:
		if exc.name == 'AttributeError':
			res.append((s, args[2]))
		else:
			self.sinks[-1].append((s, exc))
	return res


def b_setattr(self, st, args, kw, node):
	name = const_str(self, self.toV(st, args[1]))
	if name is None:
		raise Unsupported('setattr with an unknown name', node)
	return [(s, T(NONE)) for s in self.setattr(st, args[0], name, args[2], node)]


def b_hasattr(self, st, args, kw, node):
	name = const_str(self, self.toV(st, args[1]))
	if name is None:
		raise Unsupported('hasattr with an unknown name', node)
	v = args[0]
	if isinstance(v, T):
		k = self.tag(st, v.t, node)
		if k in self.p.classes:
			c = self.p.classes[k]
			has = bool(c.find('methods', name) or c.find('getters', name) or c.has_field(name) or c.find('attrs', name) is not None)
			return [(st, T(V.b(z3.BoolVal(has))))]
		if k in ('none', 'i', 's', 'b', 'f', 'list', 'dict'):
			py = {'none': type(None), 'i': int, 's': str, 'b': bool, 'f': float, 'list': list, 'dict': dict}[k]
			return [(st, T(V.b(z3.BoolVal(hasattr(py, name)))))]
		return [(st, T(V.b(ufn('has_attr:' + name, V, B)(v.t))))]
	raise Unsupported('hasattr', node)


def b_hash(self, st, args, kw, node):
	v = args[0]
	if isinstance(v, T):
		k = self.tag(st, v.t, node)
		if k in self.p.classes:
			m = self.p.classes[k].find('methods', '__hash__')
			if m:
				return self.call_fn(st, MFn(m, v), [], {}, node)
		return [(st, T(V.i(ufn('hash', V, I)(v.t))))]
	return [(st, T(V.i(ufn('hash', V, I)(self.toV(st, v)))))]


def b_id(self, st, args, kw, node):
	return [(st, T(V.i(ufn('id', V, I)(self.toV(st, args[0])))))]


def b_print(self, st, args, kw, node):
	return [(st, T(NONE))]


def named(st, t, name):
	c = Fresh.const(name, t.sort())
	st.assume(c == t)
	return c


def b_range(self, st, args, kw, node):
	ts = [V.iv(self.toV(st, a)) for a in args]
	if len(ts) == 1:
		lo, hi = z3.IntVal(0), ts[0]
	elif len(ts) == 2:
		lo, hi = ts
	else:
		raise Unsupported('range with a step', node)
	n = z3.simplify(If(hi > lo, hi - lo, 0))
	if z3.is_int_value(n) and z3.is_int_value(lo):
		return [(st, MTuple([T(V.i(lo + i)) for i in range(n.as_long())]))] if n.as_long() <= 8 else [(st, MIter(n, lambda s, k: [(s, T(V.i(lo + k)))], None))]
	s = st.fork()
	if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE:
		n = z3.simplify(hi - lo) if self.valid(st, hi >= lo) else named(s, n, 'count')
	lo = named(s, lo, 'low') if z3.is_app(lo) and lo.decl().kind() == z3.Z3_OP_ITE else lo
	l = ufn('lrange', I, I, L)(lo, n)
	j = z3.Int('j_rng')
	s.assume(llen(l) == n)
	s.assume(FA([j], Implies(And(0 <= j, j < n), lat(l, j) == V.i(lo + j)), [lat(l, j)]))
	x = z3.Const('x_rng', V)
	s.assume(FA([x], lmem(l, x) == And(V.is_i(x), lo <= V.iv(x), V.iv(x) < lo + n), [lmem(l, x)]))
	s.assume(nodup(l))
	from .loops import list_iter
	return [(s, list_iter(l))]


def b_enumerate(self, st, args, kw, node):
	start = z3.IntVal(0)
	if len(args) > 1 or 'start' in kw:
		start = V.iv(self.toV(st, kw.get('start', args[1] if len(args) > 1 else None)))
	out = []
	for s, it in self.iter_value(st, args[0], node):
		items = getattr(it, 'items', None)
		if items is not None:
			out.append((s, MTuple([MTuple([T(V.i(z3.simplify(start + i))), x]) for i, x in enumerate(items)])))
			continue
		def elem(s2, k, it=it):
			return [(s3, MTuple([T(V.i(z3.simplify(start + k))), x])) for s3, x in it.elem(s2, k)]
		m = MIter(it.n, elem, None, it.src)
		m.under = it
		out.append((s, m))
	return out


def b_zip(self, st, args, kw, node):
	out = []
	def go(s, rest, its):
		if not rest:
			if all(getattr(it, 'items', None) is not None for it in its):
				out.append((s, MTuple([MTuple(list(xs)) for xs in zip(*[it.items for it in its])])))
				return
			n = its[0].n
			for it in its[1:]:
				n = If(it.n < n, it.n, n)
			def elem(s2, k):
				res = [(s2, [])]
				for it in its:
					if it.elem is None:
						raise Unsupported('zip', node)
					res = [(s4, xs + [x]) for s3, xs in res for s4, x in it.elem(s3, k)]
				return [(s3, MTuple(xs)) for s3, xs in res]
			s = s.fork()
			out.append((s, MIter(named(s, z3.simplify(n), 'count'), elem, None, None)))
			return
		for s2, it in self.iter_value(s, rest[0], node):
			go(s2, rest[1:], its + [it])
	go(st, list(args), [])
	return out


def b_sorted(self, st, args, kw, node):
	out = []
	for s, l in one_list(self, st, args[0], node):
		s = s.fork()
		f = lsorted
		if kw:
			f = ufn('lsorted_' + '_'.join(sorted(kw)), L, L)
			x = z3.Const('x_sorted', V)
			r = Fresh.const('sorted', L)
			s.assume(llen(r) == llen(l))
			s.assume(FA([x], lmem(r, x) == lmem(l, x), [lmem(r, x)]))
			s.assume(FA([x], Implies(lmem(l, x), lmem(r, x)), [lmem(l, x)]))
			s.assume(Implies(nodup(l), nodup(r)))
			out.append((s, self.new_list(s, r)))
			continue
		r = self.sorted_objects(s, l, node)
		if r is None:
			s.assume(Implies(nodup(l), nodup(lsorted(l))))
			r = lsorted(l)
		out.append((s, self.new_list(s, r)))
	return out


def b_reversed(self, st, args, kw, node):
	out = []
	for s, l in one_list(self, st, args[0], node):
		s = s.fork()
		r = Fresh.const('reversed', L)
		x = z3.Const('x_rev', V)
		j = z3.Int('j_rev')
		s.assume(llen(r) == llen(l))
		s.assume(FA([j], Implies(And(0 <= j, j < llen(l)), lat(r, j) == lat(l, llen(l) - 1 - j)), [lat(r, j)]))
		s.assume(FA([x], lmem(r, x) == lmem(l, x), [lmem(r, x), (r_pat(r), lmem(l, x))] if False else [lmem(r, x)]))
		s.assume(FA([x], Implies(lmem(l, x), lmem(r, x)), [lmem(l, x)]))
		s.assume(Implies(nodup(l), nodup(r)))
		out.append((s, self.new_list(s, r)))
	return out


def minmax(self, st, args, kw, node, is_min):
	if len(args) == 2 and not kw:
		a, b = self.toV(st, args[0]), self.toV(st, args[1])
		ka, kb = self.tag(st, a, node), self.tag(st, b, node)
		x, y = self.num(ka, a), self.num(kb, b)
		if x is None or y is None:
			raise Unsupported('min/max', node)
		c = y < x if is_min else y > x
		if ka == kb:
			return [(st, T(If(c, b, a)))]
		return [(s, T(b if one else a)) for s, one in self.branch(st, c)]
	raise Unsupported('min/max of a collection', node)


def b_min(self, st, args, kw, node):
	return minmax(self, st, args, kw, node, True)


def b_max(self, st, args, kw, node):
	return minmax(self, st, args, kw, node, False)


def quant(self, st, args, node, is_any):
	out = []
	v = args[0]
	if isinstance(v, MTuple):
		fs = [self.truth(st, x, node) for x in v.items]
		return [(st, T(V.b(Or(*fs) if is_any else And(*fs))))]
	for s, l in one_list(self, st, v, node):
		from .loops import literal_list
		xs = literal_list(l)
		if xs is not None:
			fs = [self.truth(s, T(x), node) for x in xs]
			out.append((s, T(V.b(Or(*fs) if is_any else And(*fs)))))
			continue
		s = s.fork()
		b = Fresh.const('any' if is_any else 'all', B)
		w = Fresh.const('w', I)
		j = z3.Int('j_any')
		tr = self.truth(s, T(lat(l, j)), node)
		tw = self.truth(s, T(lat(l, w)), node)
		if is_any:
			s.assume(Implies(b, And(0 <= w, w < llen(l), tw)))
			s.assume(FA([j], Implies(And(0 <= j, j < llen(l), tr), b), [lat(l, j)]))
		else:
			s.assume(Implies(Not(b), And(0 <= w, w < llen(l), Not(tw))))
			s.assume(FA([j], Implies(And(0 <= j, j < llen(l), Not(tr)), Not(b)), [lat(l, j)]))
		out.append((s, T(V.b(b))))
	return out


def b_any(self, st, args, kw, node):
	return quant(self, st, args, node, True)


def b_all(self, st, args, kw, node):
	return quant(self, st, args, node, False)


def b_iter(self, st, args, kw, node):
	return [(st, args[0])]


def b_abs(self, st, args, kw, node):
	v = args[0]
	k = self.tag(st, v.t, node)
	x = self.num(k, v.t)
	if x is None:
		raise Unsupported('abs', node)
	return [(st, T((V.f if k == 'f' else V.i)(If(x >= 0, x, -x))))]


def b_sum(self, st, args, kw, node):
	raise Unsupported('sum', node)


# ---------------------------------------------------------------------- methods
def method(self, st, f, args, kw, node):
	kind, name = f.name.split('.', 1)
	v = f.self_val
	if kind == 'list':
		return list_method(self, st, v, name, args, kw, node)
	if kind == 'dict':
		return dict_method(self, st, v, name, args, kw, node)
	if kind == 'set':
		return set_method(self, st, v, name, args, kw, node)
	if kind == 's':
		return str_method(self, st, v, name, args, kw, node)
	if kind == 'kw':
		return kw_method(self, st, v, name, args, kw, node)
	if kind == 'view':
		l = self.view_list(st, v)
		s = st.fork()
		r = self.new_list(s, l)
		if name in ('union', 'intersection', 'difference'):
			return b_set_op(self, s, r, name, args, node)
		raise Unsupported(f'view method {name}', node)
	if kind == 'object':
		return object_method(self, st, v, name, args, kw, node)
	raise Unsupported(f.name, node)


def object_method(self, st, v, name, args, kw, node):
	if name == '__init__':
		return [(st, T(NONE))]
	t = self.toV(st, v)
	if name == '__hash__':
		k = self.tag(st, t, node)
		if k in self.p.classes and self.p.classes[k].find('methods', '__hash__'):
			return self.call_fn(st, MFn(self.p.classes[k].find('methods', '__hash__'), v), [], {}, node)
		return [(st, T(V.i(ufn('hash', V, I)(t))))]
	if name in ('__str__', '__repr__'):
		return b_str(self, st, [v], {}, node)
	if name == '__eq__':
		return [(s, T(V.b(x))) for s, x in self.eq(st, v, args[0], node)]
	raise Unsupported(f'object.{name}', node)


def list_method(self, st, v, name, args, kw, node):
	l = self.lst(st, v.t)
	s = st.fork()
	ref = self.ref(v.t)
	if name == 'append':
		self.setcomp(s, 'L', ref, lapp(l, self.toV(s, args[0], node)))
		return [(s, T(NONE))]
	if name == 'copy':
		return [(s, self.new_list(s, l))]
	if name == 'extend':
		out = []
		for s2, l2 in one_list(self, s, args[0], node):
			s2 = s2.fork()
			self.setcomp(s2, 'L', ref, self.lcat(l, l2))
			out.append((s2, T(NONE)))
		return out
	if name == 'remove':
		x = self.toV(s, args[0], node)
		self.same_elements_obligation(s, l, x, node)
		s2 = self.split_raise(s, lmem(l, x), 'ValueError', node)
		if s2 is None:
			return []
		s2 = s2.fork()
		self.setcomp(s2, 'L', ref, lrem(l, x))
		return [(s2, T(NONE))]
	if name == 'index':
		x = self.toV(s, args[0], node)
		self.same_elements_obligation(s, l, x, node)
		s2 = self.split_raise(s, lmem(l, x), 'ValueError', node)
		if s2 is None:
			return []
		return [(s2, T(V.i(lidx(l, x))))]
	if name == 'clear':
		self.setcomp(s, 'L', ref, lnil)
		return [(s, T(NONE))]
	if name == 'sort':
		s.assume(Implies(nodup(l), nodup(lsorted(l))))
		if kw:
			raise Unsupported('sort with arguments', node)
		self.setcomp(s, 'L', ref, lsorted(l))
		return [(s, T(NONE))]
	if name == 'pop':
		s2 = self.split_raise(s, llen(l) > 0, 'IndexError', node)
		if s2 is None:
			return []
		s2 = s2.fork()
		if not args or self.int_const(self.toV(s2, args[0])) == -1:
			x = lat(l, llen(l) - 1)
			r = ltake(l, llen(l) - 1)
			y = z3.Const('y_pop', V)
			s2.assume(FA([y], Implies(lmem(l, y), Or(lmem(r, y), y == x)), [lmem(l, y)]))
			s2.assume(Implies(nodup(l), Not(lmem(r, x))))
			self.setcomp(s2, 'L', ref, r)
			return [(s2, T(x))]
		if self.int_const(self.toV(s2, args[0])) == 0:
			x = lat(l, z3.IntVal(0))
			r = ldrop(l, z3.IntVal(1))
			y = z3.Const('y_pop', V)
			s2.assume(FA([y], Implies(lmem(l, y), Or(lmem(r, y), y == x)), [lmem(l, y)]))
			s2.assume(FA([y], Implies(lmem(r, y), lmem(l, y)), [lmem(r, y)]))
			s2.assume(Implies(nodup(l), And(Not(lmem(r, x)), nodup(r))))
			self.setcomp(s2, 'L', ref, r)
			return [(s2, T(x))]
		raise Unsupported('pop', node)
	if name == 'insert' and self.int_const(self.toV(s, args[0])) == 0:
		x = self.toV(s, args[1], node)
		r = lcat(lapp(lnil, x), l)
		y = z3.Const('y_ins', V)
		s.assume(nodup(r) == And(nodup(l), Not(lmem(l, x))))
		s.assume(FA([y], lmem(r, y) == Or(y == x, lmem(l, y)), [lmem(r, y), lmem(l, y)]))
		self.setcomp(s, 'L', ref, r)
		return [(s, T(NONE))]
	raise Unsupported(f'list.{name}', node)


def dict_method(self, st, v, name, args, kw, node):
	d = self.dct(st, v.t)
	ref = self.ref(v.t)
	if name in ('keys', 'values', 'items'):
		return [(st, MView(v.t, name))]
	s = st.fork()
	if name == 'copy':
		return [(s, self.new_dict(s, d))]
	if name == 'clear':
		self.setcomp(s, 'D', ref, dnil)
		return [(s, T(NONE))]
	if name == 'get':
		k = self.toV(s, args[0], node)
		self.key_ok(s, k, node)
		dv = args[1] if len(args) > 1 else T(NONE)
		out = []
		if isinstance(dv, T):
			f = ddom(d, k)
			if self.valid(s, f):
				return [(s, T(self.dget(d, k)))]
			return [(s, T(z3.simplify(If(f, self.dget(d, k), dv.t))))]
		if isinstance(dv, MTuple):
			try:
				t = self.toV(s, dv)
				return [(s, T(If(ddom(d, k), self.dget(d, k), t)))]
			except Unsupported:
				pass
		for s2, b in self.branch(s, ddom(d, k)):
			out.append((s2, T(self.dget(d, k)) if b else dv))
		return out
	if name == 'pop':
		k = self.toV(s, args[0], node)
		self.key_ok(s, k, node)
		if len(args) > 1:
			out = []
			for s2, b in self.branch(s, ddom(d, k)):
				if b:
					s2 = s2.fork()
					self.setcomp(s2, 'D', ref, ddel(d, k))
					out.append((s2, T(self.dget(d, k))))
				else:
					out.append((s2, args[1]))
			return out
		s2 = self.split_raise(s, ddom(d, k), 'KeyError', node)
		if s2 is None:
			return []
		s2 = s2.fork()
		self.setcomp(s2, 'D', ref, ddel(d, k))
		return [(s2, T(self.dget(d, k)))]
	if name == 'setdefault':
		k = self.toV(s, args[0], node)
		self.key_ok(s, k, node)
		dv = self.toV(s, args[1] if len(args) > 1 else T(NONE), node)
		out = []
		for s2, b in self.branch(s, ddom(d, k)):
			if b:
				out.append((s2, T(self.dget(d, k))))
			else:
				s2 = s2.fork()
				self.setcomp(s2, 'D', ref, dset(d, k, dv))
				out.append((s2, T(dv)))
		return out
	if name == 'update':
		items = {}
		if args:
			a = args[0]
			if isinstance(a, MKw):
				items.update({lit(k): self.toV(s, x) for k, x in a.items.items()})
			elif isinstance(a, T):
				out = []
				for s2, k in self.tags(s, a.t, node, ('dict',)):
					if k != 'dict':
						raise Unsupported('update', node)
					d2 = self.dct(s2, a.t)
					s2 = s2.fork()
					known = literal_dict(d2)
					if known is not None:
						r = d
						for kk, vv in known:
							r = dset(r, kk, vv)
					else:
						r = Fresh.const('updated', D)
						x = z3.Const('x_upd', V)
						s2.assume(FA([x], ddom(r, x) == Or(ddom(d, x), ddom(d2, x)), [ddom(r, x), ddom(d, x), ddom(d2, x)]))
						s2.assume(FA([x], dget(r, x) == If(ddom(d2, x), dget(d2, x), dget(d, x)), [dget(r, x)]))
					self.setcomp(s2, 'D', ref, r)
					out.append((s2, T(NONE)))
				return out
			else:
				raise Unsupported('update', node)
		r = d
		for k, x in items.items():
			r = dset(r, k, x)
		for k, x in kw.items():
			if k == '**':
				raise Unsupported('update(**)', node)
			r = dset(r, lit(k), self.toV(s, x, node))
		self.setcomp(s, 'D', ref, r)
		return [(s, T(NONE))]
	raise Unsupported(f'dict.{name}', node)


def literal_dict(d):
	xs = []
	while z3.is_app(d) and d.decl().eq(dset):
		xs.append((d.arg(1), d.arg(2)))
		d = d.arg(0)
	if d.get_id() in _literals and not xs:
		return list(_literals[d.get_id()][1])
	return list(reversed(xs)) if d.eq(dnil) else None


_literals = {}


def named_literal(st, items):
	"""a constant for a dictionary with these items: the long term is kept out of the formulas"""
	c = Fresh.const('literal', D)
	_literals[c.get_id()] = (c, list(items))
	k = z3.Const('k_lit', V)
	for key, v in items:
		st.assume(And(ddom(c, key), dget(c, key) == v))
	st.assume(FA([k], ddom(c, k) == Or(*[k == key for key, _ in items]), [ddom(c, k)]))
	return c


def kw_method(self, st, v, name, args, kw, node):
	if name == 'items':
		return [(st, MTuple([MTuple([T(lit(k)), x]) for k, x in v.items.items()]))]
	if name == 'keys':
		return [(st, MTuple([T(lit(k)) for k in v.items]))]
	if name == 'values':
		return [(st, MTuple(list(v.items.values())))]
	if name == 'get':
		k = const_str(self, self.toV(st, args[0]))
		if k is None:
			raise Unsupported('kwargs.get', node)
		return [(st, v.items.get(k, args[1] if len(args) > 1 else T(NONE)))]
	if name == 'copy':
		return [(st, MKw(v.items))]
	raise Unsupported(f'kwargs.{name}', node)


def b_set_op(self, st, v, name, args, node):
	"""union, intersection or difference of a set (or list) reference and an iterable"""
	k = self.static_tag(st, v.t)
	def has(x):
		return lmem(self.lst(st, v.t), x) if k == 'list' else ddom(self.dct(st, v.t), x)
	out = []
	for s, l in one_list(self, st, args[0], node):
		s = s.fork()
		d = Fresh.const('set', D)
		x = z3.Const('x_set', V)
		f = {'union': lambda x: Or(has(x), lmem(l, x)), 'intersection': lambda x: And(has(x), lmem(l, x)),
			'difference': lambda x: And(has(x), Not(lmem(l, x)))}[name]
		s.assume(FA([x], ddom(d, x) == f(x), [ddom(d, x), has(x), lmem(l, x)]))
		r = self.alloc(s, SET)
		self.setcomp(s, 'D', self.ref(r), d)
		out.append((s, T(r)))
	return out


def set_method(self, st, v, name, args, kw, node):
	d = self.dct(st, v.t)
	s = st.fork()
	if name == 'add':
		self.setcomp(s, 'D', self.ref(v.t), dset(d, self.toV(s, args[0], node), NONE))
		return [(s, T(NONE))]
	if name in ('discard', 'remove'):
		x = self.toV(s, args[0], node)
		if name == 'remove':
			s = self.split_raise(s, ddom(d, x), 'KeyError', node)
			if s is None:
				return []
			s = s.fork()
		self.setcomp(s, 'D', self.ref(v.t), If(ddom(d, x), ddel(d, x), d))
		return [(s, T(NONE))]
	if name in ('union', 'intersection', 'difference') and len(args) == 1:
		return b_set_op(self, s, v, name, args, node)
	if name == 'copy':
		r = self.alloc(s, SET)
		self.setcomp(s, 'D', self.ref(r), d)
		return [(s, T(r))]
	raise Unsupported(f'set.{name}', node)


STR_BOOL = {'startswith', 'endswith', 'isdigit'}
STR_INT = {'count', 'find'}


def str_method(self, st, v, name, args, kw, node):
	cs = const_str(self, v.t)
	consts = [const_str(self, a.t) if isinstance(a, T) else None for a in args]
	if cs is not None and not kw and all(c is not None for c in consts) and name not in ('split', 'splitlines', 'join', 'format', 'encode'):
		r = getattr(cs, name)(*consts)
		return [(st, self.const(r, node))]
	if name == 'join':
		out = []
		for s, l in one_list(self, st, args[0], node):
			out.append((s, T(join_text(v.t, l))))
		return out
	if name == 'format':
		return [(st, T(V.s(Fresh.const('format', I))))]
	if name in ('split', 'splitlines'):
		s = st.fork()
		l = ufn(f'str.{name}', *([V] * (1 + len(args))), L)(v.t, *[self.toV(s, a) for a in args])
		x = z3.Const('x_split', V)
		s.assume(FA([x], Implies(lmem(l, x), V.is_s(x)), [lmem(l, x)]))
		return [(s, self.new_list(s, l))]
	if name == 'encode':
		return [(st, T(V.o(ufn('str.encode', V, I)(v.t))))]
	ts = [v.t] + [self.toV(st, a) for a in args] + [self.toV(st, kw[k]) for k in sorted(kw)]
	if name in STR_BOOL:
		return [(st, T(V.b(ufn(f'str.{name}', *([V] * len(ts)), B)(*ts))))]
	if name in STR_INT:
		return [(st, T(V.i(ufn(f'str.{name}', *([V] * len(ts)), I)(*ts))))]
	return [(st, T(V.s(ufn(f'str.{name}', *([V] * len(ts)), I)(*ts))))]


def join_text(sep, l):
	"""joined text; of a list that is known, its texts"""
	xs, t = [], l
	while z3.is_app(t) and t.decl().eq(lapp):
		xs.insert(0, t.arg(1))
		t = t.arg(0)
	if t.eq(lnil):
		parts = []
		for i, x in enumerate(xs):
			parts += ([sep] if i else []) + [x]
		return text_of(parts)
	return V.s(ufn('join', V, L, I)(sep, l))


# ---------------------------------------------------------------------- external functions
def external(self, st, f, args, kw, node):
	path = f.path
	m = self.models.get('ext:' + path)
	if m is None:
		short = path.split('.')[-1]
		m = self.models.get('ext:*.' + short)
	if m is not None:
		return m(self, st, f, args, kw, node)
	if path == 'warnings.warn':
		self.trusted.add('warnings.warn returns (warnings are not turned into errors)')
		return [(st, T(NONE))]
	raise Unsupported(f'external function {path}', node)
