"""Values, heap views and states of the symbolic executor."""
import z3
from .terms import *

LIST, DICT, SET, ITER, STREAM = 1, 2, 3, 4, 5
BUILTIN_CODES = {'list': LIST, 'dict': DICT, 'set': SET}


class Unsupported(Exception):
	"""a construct outside the verifier's subset"""
	def __init__(self, msg, node=None):
		self.msg, self.node = msg, node
		line = getattr(node, 'lineno', None)
		super().__init__(f'{msg}' + (f' (line {line})' if line else ''))


class Val:
	pass


class T(Val):
	"""a value represented by a term of sort V"""
	__slots__ = ('t',)

	def __init__(self, t):
		self.t = t

	def __repr__(self):
		return f'T({self.t})'


class MTuple(Val):
	def __init__(self, items):
		self.items = list(items)


class MFn(Val):
	def __init__(self, fi, self_val=None, closure=None):
		self.fi, self.self_val, self.closure = fi, self_val, closure


class MLambda(Val):
	def __init__(self, node, env, module):
		self.node, self.env, self.module = node, env, module


class MCls(Val):
	def __init__(self, ci):
		self.ci = ci


class MBuiltin(Val):
	def __init__(self, name, self_val=None):
		self.name, self.self_val = name, self_val


class MExt(Val):
	"""something outside the package: a dotted path"""
	def __init__(self, path, self_val=None):
		self.path, self.self_val = path, self_val


class MSuper(Val):
	def __init__(self, after, self_val):
		self.after, self.self_val = after, self_val


class MKw(Val):
	"""keyword arguments with known names"""
	def __init__(self, items):
		self.items = dict(items)


class MView(Val):
	"""d.keys(), d.values(), d.items() of a dictionary reference"""
	def __init__(self, ref, kind):
		self.ref, self.kind = ref, kind


class MIter(Val):
	"""something to iterate over: n elements; elem(st, k) -> list of (state, value); lst the list of them if there is one"""
	def __init__(self, n, elem, lst=None, src=None):
		self.n, self.elem, self.lst, self.src = n, elem, lst, src


class MExc(Val):
	def __init__(self, name):
		self.name = name


def refof(t):
	return t.arg(0) if z3.is_app(t) and t.decl().eq(V.r) else V.rv(t)


def select(arr, ref):
	"""select, seeing through stores where the references are equal or clearly different"""
	while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
		a, i, x = arr.arg(0), arr.arg(1), arr.arg(2)
		if i.eq(ref):
			return x
		d = z3.simplify(i - ref)
		if z3.is_int_value(d):
			if d.as_long() == 0:
				return x
			arr = a
			continue
		break
	return z3.Select(arr, ref)


class Heap:
	"""a read-only view of heap components"""
	def __init__(self, comps, init):
		self.comps, self.init = comps, init

	def c(self, comp):
		t = self.comps.get(comp)
		return self.init(comp) if t is None else t

	def f(self, attr, v):
		return select(self.c('f:' + attr), refof(v))

	def lst(self, v):
		return select(self.c('L'), refof(v))

	def dct(self, v):
		return select(self.c('D'), refof(v))

	def cls(self, v):
		return select(self.c('cls'), refof(v))

	def own(self, v):
		return select(self.c('own'), refof(v))

	@property
	def next(self):
		return self.c('next')

	def allocated(self, v):
		return And(V.rv(v) >= 0, V.rv(v) < self.next)


def comp_sort(comp):
	if comp == 'L':
		return z3.ArraySort(I, L)
	if comp == 'D':
		return z3.ArraySort(I, D)
	if comp == 'cls':
		return z3.ArraySort(I, I)
	if comp in ('next', 'rng'):
		return I
	return z3.ArraySort(I, V)


class State:
	__slots__ = ('heap', 'env', 'pc', 'types', 'ylist', 'fn')

	def __init__(self):
		self.heap, self.env, self.pc, self.types, self.ylist, self.fn = {}, {}, [], {}, None, None

	def fork(self):
		s = State()
		s.heap, s.env, s.pc, s.types = dict(self.heap), dict(self.env), list(self.pc), dict(self.types)
		s.ylist, s.fn = self.ylist, self.fn
		return s

	def assume(self, f):
		if not z3.is_true(f):
			self.pc.append(f)
		return self
