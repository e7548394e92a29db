"""Symbolic executor and verification-condition generator for the Python subset used by the package.

Functions with a contract are checked against it and called by it; functions without one are executed in
place at each call.  Loops are cut with invariants: the largest inductive subset of a pool of candidates.
"""
import ast
import os
import time
import z3
from .terms import *
from .values import *
from .frontend import FuncInfo, ClassInfo, Module, walk_own
from .solve import Solver

BUILTIN_EXC = {
	'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'ValueError': 'Exception',
	'TypeError': 'Exception', 'AttributeError': 'Exception', 'RuntimeError': 'Exception', 'NameError': 'Exception',
	'UnboundLocalError': 'NameError', 'NotImplementedError': 'RuntimeError', 'Exception': 'BaseException',
	'RecursionError': 'RuntimeError', 'StopIteration': 'Exception', 'ZeroDivisionError': 'Exception', 'AssertionError': 'Exception',
	'BaseException': None, 'ArithmeticError': 'Exception', 'OSError': 'Exception', 'UnicodeError': 'ValueError',
}
SIMPLE_TAGS = ('none', 'b', 'i', 'f', 's', 'o', 't2', 't3', 't4')
BUILTINS = {
	'len', 'list', 'dict', 'set', 'tuple', 'str', 'int', 'float', 'bool', 'repr', 'isinstance', 'getattr', 'setattr', 'hasattr',
	'enumerate', 'zip', 'range', 'sorted', 'reversed', 'min', 'max', 'sum', 'any', 'all', 'super', 'type', 'hash', 'print', 'object',
	'callable', 'iter', 'next', 'map', 'filter', 'abs', 'id', 'frozenset',
}


class Obligation:
	def __init__(self, name, where, status, detail='', time=0.0, backend='z3'):
		self.name, self.where, self.status, self.detail, self.time, self.backend = name, where, status, detail, time, backend


class Exec:
	def __init__(self, program, contracts=None, models=None, log=None, timeout=4000):
		self.p = program
		self.contracts = contracts or {}
		self.models = models or {}
		self.solver = Solver()
		self.obls = []
		self.quiet = 0
		self.sinks = []
		self.inline_stack = []
		self.loop_depth = 0
		self.hints = {}
		self.inits = {}
		self.root = None
		self.rootctx = None
		self.log = log or (lambda *a: None)
		self.timeout = timeout
		self.eq_models = {}      # class: (when == holds, when it does not raise), as the contract of __eq__ says
		self.lt_models = {}      # class: (when < holds, when it does not raise), as the contract of __lt__ says
		self.opaque_eq = None
		self.trusted = set()      # external models and assumptions used
		self.called = set()       # contracts used at call sites
		self.inlined = set()      # functions executed in place
		self.unsupported_loops = []
		self.loop_mods = {}
		self.havocs = {}
		self.loop_dropped = {}
		self.loop_log = None
		self.desugared = {}
		self.debug = os.environ.get("PYVC_DEBUG")
		self.inv_timeout = 2500
		self.deadline = None

	# ------------------------------------------------------------------ heap
	def init_comp(self, comp):
		if comp not in self.inits:
			self.inits[comp] = z3.Const(f'{comp}@0', comp_sort(comp))
		return self.inits[comp]

	def comp(self, st, comp):
		t = st.heap.get(comp)
		return self.init_comp(comp) if t is None else t

	def view(self, st):
		return Heap(dict(st.heap), self.init_comp)

	def named(self, st, t):
		"""a name for a term with a case distinction, so that patterns can have it"""
		if not has_ite(t):
			return t
		c = Fresh.const('case', t.sort())
		st.assume(c == t)
		return c

	def setcomp(self, st, comp, ref, val):
		ref, val = self.named(st, ref), self.named(st, val)
		st.heap[comp] = z3.Store(self.comp(st, comp), ref, val)

	def alloc(self, st, code):
		ref = self.comp(st, 'next')
		ref = z3.simplify(ref)
		st.heap['next'] = z3.simplify(ref + 1)
		self.setcomp(st, 'cls', ref, z3.IntVal(code))
		v = V.r(ref)
		for name, c in BUILTIN_CODES.items():
			if c == code:
				st.types[v] = name
		for name, c in self.p.classes.items():
			if c.code == code:
				st.types[v] = name
		return v

	def new_list(self, st, l):
		v = self.alloc(st, LIST)
		self.setcomp(st, 'L', V.rv(v) if False else v.arg(0), l)
		return T(v)

	def new_dict(self, st, d):
		v = self.alloc(st, DICT)
		self.setcomp(st, 'D', v.arg(0), d)
		self.setcomp(st, 'own', v.arg(0), NONE)
		return T(v)

	def ref(self, t):
		return refof(t)

	def lst(self, st, t):
		return self.sel(self.comp(st, 'L'), self.ref(t))

	def dct(self, st, t):
		return self.sel(self.comp(st, 'D'), self.ref(t))

	def sel(self, arr, ref):
		return select(arr, ref)

	# ------------------------------------------------------------------ solver
	def tick(self, node=None):
		if self.deadline and time.time() > self.deadline:
			raise Unsupported('out of time', node)

	def valid(self, st, f, timeout=700, seeds=()):
		f = z3.simplify(f) if not z3.is_quantifier(f) else f
		if z3.is_true(f):
			return True
		if z3.is_false(f):
			return self.dead(st)
		self.tick()
		if self.solver.check(st.pc, Not(f), timeout) == 'unsat':
			return True
		for seed in seeds if self.solver.gave_up else ():
			if self.solver.fresh_check(st.pc, Not(f), timeout, seed)[0] == 'unsat':
				return True
		return False

	def dead(self, st):
		return self.solver.check(st.pc, z3.BoolVal(True), 150) == 'unsat'

	def feasible(self, st, f, timeout=150):
		f = z3.simplify(f)
		if z3.is_false(f):
			return False
		if z3.is_true(f):
			return True
		self.tick()
		return self.solver.check(st.pc, f, timeout) != 'unsat'

	def prove(self, st, goal, name, node=None):
		"""an obligation: goal holds on this path"""
		if self.quiet:
			st.assume(goal)
			return True
		where = self.where(node)
		g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
		t0 = time.time()
		if z3.is_true(g):
			self.obls.append(Obligation(name, where, 'proved', 'trivial', 0.0, 'simplifier'))
			return True
		self.tick(node)
		r = self.solver.check(st.pc, Not(goal), self.timeout)
		detail = r
		if r != 'unsat':
			for seed in (0, 7, 11):
				r, detail = self.solver.fresh_check(st.pc, Not(goal), self.timeout * 2, seed)
				if r == 'unsat' or 'incomplete' in detail:
					break
		ok = r == 'unsat'
		self.obls.append(Obligation(name, where, 'proved' if ok else 'failed', '' if ok else f'{r}: {detail}', time.time() - t0))
		self.log('ok ' if ok else 'FAIL', name, where, f'{time.time() - t0:.2f}s', '' if ok else detail)
		if not ok:
			self.last_fail = (list(st.pc), goal)
		st.assume(goal)
		return ok

	def where(self, node):
		fn = self.inline_stack[-1].qualname if self.inline_stack else ''
		line = getattr(node, 'lineno', None)
		return f'{fn}:{line}' if line else fn

	# ------------------------------------------------------------------ exceptions
	def throw(self, st, exc, node=None):
		"""record an exceptional outcome"""
		if self.sinks:
			self.sinks[-1].append((st, MExc(exc)))

	def split_raise(self, st, ok, exc, node=None):
		"""continue with ok; if it can fail, raise exc on the failing path.  Returns the state that goes on, or None"""
		ok = z3.simplify(ok)
		if z3.is_true(ok):
			return st
		if self.valid(st, ok):
			return st
		bad = st.fork().assume(Not(ok))
		self.throw(bad, exc, node)
		if not self.feasible(st, ok):
			return None
		st = st.fork().assume(ok)
		return st

	# ------------------------------------------------------------------ types
	def class_codes(self, name):
		if name in BUILTIN_CODES:
			return [BUILTIN_CODES[name]]
		return [c.code for c in self.p.subclasses(self.p.classes[name])]

	def tagf(self, st, t, tag):
		if tag == 'none':
			return V.is_none(t)
		if tag in SIMPLE_TAGS:
			return getattr(V, 'is_' + tag)(t)
		return And(V.is_r(t), self.sel(self.comp(st, 'cls'), self.ref(t)) == (BUILTIN_CODES[tag] if tag in BUILTIN_CODES else self.p.classes[tag].code))

	CONS = {'none': 'none', 'b': 'b', 'i': 'i', 'f': 'f', 's': 's', 'o': 'o', 't2': 't2', 't3': 't3', 't4': 't4'}

	def static_tag(self, st, t):
		if z3.is_app(t):
			n = t.decl().name()
			if n in self.CONS and t.sort() == V and t.decl().arity() == {'none': 0, 't2': 2, 't3': 3, 't4': 4}.get(n, 1) and n != 'r':
				if t.num_args() or n == 'none':
					return n
		return st.types.get(t)

	ALL_TAGS = ['s', 'list', 'dict', 'none', 'i', 'b', 'o', 't3', 't2', 't4', 'f', 'set']

	def all_tags(self):
		return ['Node', 'Edge', 'Graph'] + self.ALL_TAGS + [c for c in self.p.classes if c not in ('Node', 'Edge', 'Graph')]

	def tag(self, st, t, node=None, prefer=()):
		"""the tag of t if one is certain, else None"""
		s = self.static_tag(st, t)
		if s:
			return s
		key = (id(node), getattr(node, 'lineno', 0)) if node is not None else None
		hints = list(prefer) + self.hints.get(key, [])
		tried = set()
		for h in hints:
			if h in tried:
				continue
			tried.add(h)
			if self.valid(st, self.tagf(st, t, h)):
				st.types[t] = h
				return h
		kinds = [('r', V.is_r(t)), ('s', V.is_s(t)), ('none', V.is_none(t))]
		order = []
		for h in self.all_tags():
			if h not in tried:
				order.append(h)
		for h in order:
			if not self.feasible(st, self.tagf(st, t, h), 150):
				continue
			if self.valid(st, self.tagf(st, t, h)):
				st.types[t] = h
				if key:
					self.hints.setdefault(key, []).append(h)
				return h
		return None

	def tags(self, st, t, node=None, prefer=()):
		"""all (state, tag) cases of t"""
		one = self.tag(st, t, node, prefer)
		if one:
			return [(st, one)]
		out = []
		for h in self.all_tags():
			f = self.tagf(st, t, h)
			if self.feasible(st, f):
				s = st.fork().assume(f)
				s.types[t] = h
				out.append((s, h))
		if len(out) > 6:
			raise Unsupported('a value of unknown type', node)
		return out

	# ------------------------------------------------------------------ conversions
	def toV(self, st, v, node=None):
		if isinstance(v, T):
			return v.t
		if isinstance(v, MTuple):
			xs = [self.toV(st, x, node) for x in v.items]
			if len(xs) in (2, 3, 4):
				return {2: V.t2, 3: V.t3, 4: V.t4}[len(xs)](*xs)
			raise Unsupported(f'a tuple of {len(xs)} as a value', node)
		if isinstance(v, MKw):
			d = dnil
			for k, x in v.items.items():
				d = dset(d, lit(k), self.toV(st, x, node))
			return self.new_dict(st, d).t
		if isinstance(v, MView):
			return self.new_list(st, self.view_list(st, v)).t
		if isinstance(v, (MFn, MCls, MBuiltin, MExt, MLambda, MSuper)):
			o = Fresh.const('callable', I)
			return V.o(o)
		if isinstance(v, MIter) and v.lst is not None:
			return self.new_list(st, v.lst).t
		raise Unsupported(f'{type(v).__name__} as a value', node)

	def view_list(self, st, v):
		d = self.dct(st, v.ref)
		return dkeys(d) if v.kind == 'keys' else dvals(d)

	def truth(self, st, v, node=None):
		"""truth value as a formula"""
		if isinstance(v, MTuple):
			return z3.BoolVal(len(v.items) > 0)
		if isinstance(v, MKw):
			return z3.BoolVal(len(v.items) > 0)
		if isinstance(v, MView):
			return llen(dkeys(self.dct(st, v.ref))) > 0
		if not isinstance(v, T):
			return z3.BoolVal(True)
		t = v.t
		s = self.static_tag(st, t)
		if s == 'none':
			return z3.BoolVal(False)
		if s == 'b':
			return t.arg(0) if z3.is_app(t) and t.num_args() == 1 and t.decl().eq(V.b) else V.bv(t)
		if s == 'i':
			return V.iv(t) != 0
		if s == 's':
			return V.sv(t) != 0
		if s == 'list':
			return llen(self.lst(st, t)) > 0
		if s in ('dict', 'set'):
			return llen(dkeys(self.dct(st, t))) > 0
		if s in ('t2', 't3', 't4'):
			return z3.BoolVal(True)
		if s in self.p.classes:
			if self.p.classes[s].find('methods', '__len__') or self.p.classes[s].find('methods', '__bool__'):
				raise Unsupported('__len__/__bool__', node)
			return z3.BoolVal(True)
		c = self.sel(self.comp(st, 'cls'), self.ref(t))
		return If(V.is_none(t), False, If(V.is_b(t), V.bv(t), If(V.is_i(t), V.iv(t) != 0, If(V.is_s(t), V.sv(t) != 0,
			If(V.is_f(t), V.fv(t) != 0, If(V.is_o(t), truth_o(V.ov(t)), If(V.is_r(t),
				If(c == LIST, llen(self.lst(st, t)) > 0, If(Or(c == DICT, c == SET), llen(dkeys(self.dct(st, t))) > 0, True)), True)))))))

	def branch(self, st, cond):
		"""(state, truth) for the feasible sides of a condition"""
		cond = z3.simplify(cond)
		if z3.is_true(cond):
			return [(st, True)]
		if z3.is_false(cond):
			return [(st, False)]
		out = []
		yes = self.feasible(st, cond)
		if not yes:
			return [(st.fork().assume(Not(cond)), False)]
		no = self.feasible(st, Not(cond))
		if not no:
			return [(st.fork().assume(cond), True)]
		return [(st.fork().assume(cond), True), (st.fork().assume(Not(cond)), False)]

	# ------------------------------------------------------------------ equality
	def eq(self, st, a, b, node=None):
		"""a == b, as a list of (state, formula)"""
		if isinstance(a, MTuple) and isinstance(b, MTuple):
			if len(a.items) != len(b.items):
				return [(st, z3.BoolVal(False))]
			res = [(st, z3.BoolVal(True))]
			for x, y in zip(a.items, b.items):
				res = [(s2, And(f, g)) for s, f in res for s2, g in self.eq(s, x, y, node)]
			return res
		if isinstance(a, (MCls, MFn, MBuiltin, MExt)) or isinstance(b, (MCls, MFn, MBuiltin, MExt)):
			return [(st, z3.BoolVal(a is b))]
		ta, tb = self.toV(st, a, node), self.toV(st, b, node)
		out = []
		ka = self.static_tag(st, ta)
		kb = self.static_tag(st, tb)
		flat = ('none', 'b', 'i', 's')
		if ka in flat and kb in flat:
			return [(st, ta == tb)]
		if ka is None or kb is None:
			# strings, integers and None are equal exactly if they are the same value
			plain = lambda x, k: k in ('none', 'i', 's') or k is None and self.valid(st, Or(V.is_s(x), V.is_i(x), V.is_none(x)), 300)
			if plain(ta, ka) and plain(tb, kb):
				return [(st, ta == tb)]
		try:
			cases = self.tags(st, ta, node) if ka is None or ka not in ('o',) else [(st, ka)]
		except Unsupported:
			# a value of any type
			self.trusted.add('== on values that users store does not raise or change anything, and its answer depends on the two values only')
			return [(st, ufn('veq', V, V, B)(ta, tb))]
		for s, k in cases:
			if k in self.p.classes:
				m = self.p.classes[k].find('methods', '__eq__')
				if m:
					for s2, r in self.call_fn(s, MFn(m, T(ta)), [b if isinstance(b, T) else T(tb)], {}, node):
						out.append((s2, self.truth(s2, r)))
				else:
					out.append((s, ta == tb))
			elif k in ('list', 'dict', 'set'):
				content = self.lst if k == 'list' else self.dct
				sort = L if k == 'list' else D
				for s2, k2 in self.tags(s, tb, node, (k,)):
					out.append((s2, ufn('content_eq', sort, sort, B)(content(s2, ta), content(s2, tb)) if k2 == k else z3.BoolVal(False)))
			elif k == 'o' and self.opaque_eq != 'identity':
				out.append((s, ufn('user_eq', V, V, B)(ta, tb)))
			else:
				out.append((s, ta == tb))
		return out

	def same_elements_obligation(self, st, l, x, node):
		"""list membership is decided by ==; show that on these elements == is identity, so that lmem says it"""
		k = self.tag(st, x, node)
		if k in self.eq_models:
			H = self.view(st)
			y = z3.Const('y_eq', V)
			eq, fine = self.eq_models[k]
			self.rely_on(k, '__eq__', node)
			f = FA([y], Implies(lmem(l, y), And(self.tagf(st, y, k), fine(H, y, x), Implies(eq(H, y, x), y == x))), [lmem(l, y)])
			self.prove(st, f, f'== on the elements of the list is identity ({k})', node)
			return
		if k in ('none', 'b', 'i', 's') or (k == 'o' and self.opaque_eq == 'identity'):
			return
		if k in ('t2', 't3', 't4'):
			return
		raise Unsupported(f'membership of a {k} in a list', node)

	def rely_on(self, cls, name, node):
		"""the meaning of an operator on objects of a class is what the contract of its method says"""
		m = self.p.classes[cls].find('methods', name)
		if m is None or m.qualname not in self.contracts:
			raise Unsupported(f'{cls}.{name} has no contract', node)
		self.called.add(m.qualname)

	def contains(self, st, x, c, node):
		"""x in c, as a list of (state, formula)"""
		if isinstance(c, MTuple):
			res = [(st, z3.BoolVal(False))]
			for y in c.items:
				res = [(s2, Or(f, g)) for s, f in res for s2, g in self.eq(s, x, y, node)]
			return res
		if isinstance(c, MKw):
			return [(st, Or(*[self.toV(st, x) == lit(k) for k in c.items]))]
		if isinstance(c, MView):
			if c.kind == 'keys':
				self.key_ok(st, self.toV(st, x), node)
				return [(st, ddom(self.dct(st, c.ref), self.toV(st, x)))]
			l = self.view_list(st, c)
			self.same_elements_obligation(st, l, self.toV(st, x), node)
			return [(st, lmem(l, self.toV(st, x)))]
		if isinstance(c, MIter) and c.lst is not None:
			self.same_elements_obligation(st, c.lst, self.toV(st, x), node)
			return [(st, lmem(c.lst, self.toV(st, x)))]
		if not isinstance(c, T):
			raise Unsupported('in', node)
		tx = self.toV(st, x, node)
		out = []
		for s, k in self.tags(st, c.t, node, prefer=('list', 'dict')):
			if k == 'list':
				l = self.lst(s, c.t)
				if not (z3.is_app(l) and l.eq(lnil)):
					self.same_elements_obligation(s, l, tx, node)
				out.append((s, lmem(l, tx)))
			elif k in ('dict', 'set'):
				self.key_ok(s, tx, node)
				out.append((s, ddom(self.dct(s, c.t), tx)))
			elif k == 's':
				out.append((s, ufn('substring', V, V, B)(tx, c.t)))
			elif k == 'none':
				self.throw(s, 'TypeError', node)
			elif k in self.p.classes and self.p.classes[k].find('methods', '__contains__'):
				m = self.p.classes[k].find('methods', '__contains__')
				for s2, r in self.call_fn(s, MFn(m, c), [x], {}, node):
					out.append((s2, self.truth(s2, r)))
			else:
				raise Unsupported(f'in a {k}', node)
		return out

	# ------------------------------------------------------------------ expressions
	def ev(self, e, st):
		"""evaluate: list of (state, value); exceptions go to the current sink"""
		m = getattr(self, 'ev_' + type(e).__name__, None)
		if m is None:
			raise Unsupported(type(e).__name__, e)
		return m(e, st)

	def evs(self, es, st):
		res = [(st, [])]
		for e in es:
			res = [(s2, vs + [v]) for s, vs in res for s2, v in self.ev(e, s)]
		return res

	def ev_Constant(self, e, st):
		return [(st, self.const(e.value, e))]

	def const(self, v, node=None):
		if v is None:
			return T(NONE)
		if v is True:
			return T(TRUE)
		if v is False:
			return T(FALSE)
		if isinstance(v, int):
			return T(V.i(z3.IntVal(v)))
		if isinstance(v, float):
			return T(V.f(z3.RealVal(repr(v))))
		if isinstance(v, str):
			return T(lit(v))
		if v is Ellipsis:
			return T(NONE)
		raise Unsupported('constant', node)

	def ev_Name(self, e, st):
		return self.name(e.id, st, e)

	def name(self, name, st, node=None):
		if name in st.env:
			v = st.env[name]
			if v is None:
				raise Unsupported(f'the value of {name} after a loop', node)
			return [(st, v)]
		fn = st.fn
		if fn is not None and name in local_names(fn.node):
			self.throw(st, 'UnboundLocalError', node)
			return []
		return [(st, self.global_value(fn.module if fn else None, name, node, st))]

	def global_value(self, module, name, node, st):
		r = self.p.resolve(module, name) if module is not None else None
		if isinstance(r, FuncInfo):
			return MFn(r)
		if isinstance(r, ClassInfo):
			return MCls(r)
		if isinstance(r, Module):
			return MExt(r.name)
		if isinstance(r, tuple):
			if r[0] == 'extmodule':
				return MExt(r[1])
			if r[0] == 'extname':
				return MExt(f'{r[1]}.{r[2]}')
			if r[0] == 'expr':
				return self.module_expr(r[1], r[2], name, node, st)
		if name in BUILTINS:
			return MBuiltin(name)
		if name in BUILTIN_EXC:
			return MBuiltin(name)
		if name in ('Warning', 'UserWarning', 'DeprecationWarning'):
			return MExt(name)
		raise Unsupported(f'name {name}', node)

	def module_expr(self, module, expr, name, node, st):
		if isinstance(expr, ast.Constant):
			return self.const(expr.value, node)
		if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub) and isinstance(expr.operand, ast.Constant):
			return self.const(-expr.operand.value, node)
		# a value made once when the module is loaded: the same opaque object every time
		return T(V.o(z3.Const(f'global:{module.name}.{name}', I)))

	def ev_Tuple(self, e, st):
		if any(isinstance(x, ast.Starred) for x in e.elts):
			raise Unsupported('starred', e)
		return [(s, MTuple(vs)) for s, vs in self.evs(e.elts, st)]

	def ev_List(self, e, st):
		if any(isinstance(x, ast.Starred) for x in e.elts):
			out = [(st, lnil)]
			for x in e.elts:
				nxt = []
				for s, l in out:
					if isinstance(x, ast.Starred):
						for s2, it in self.iterate(x.value, s):
							if it.lst is None:
								raise Unsupported('starred', e)
							nxt.append((s2, lcat(l, it.lst)))
					else:
						for s2, v in self.ev(x, s):
							nxt.append((s2, lapp(l, self.toV(s2, v, e))))
				out = nxt
			return [(s, self.new_list(s, l)) for s, l in [(s.fork(), l) for s, l in out]]
		out = []
		for s, vs in self.evs(e.elts, st):
			s = s.fork()
			l = lnil
			for v in vs:
				l = lapp(l, self.toV(s, v, e))
			out.append((s, self.new_list(s, l)))
		return out

	def ev_Set(self, e, st):
		out = []
		for s, vs in self.evs(e.elts, st):
			s = s.fork()
			d = dnil
			for v in vs:
				d = dset(d, self.toV(s, v, e), NONE)
			r = self.alloc(s, SET)
			self.setcomp(s, 'D', self.ref(r), d)
			out.append((s, T(r)))
		return out

	def ev_Dict(self, e, st):
		if any(k is None for k in e.keys):
			raise Unsupported('dict display with **', e)
		out = []
		for s, vs in self.evs([x for kv in zip(e.keys, e.values) for x in kv], st):
			s = s.fork()
			d = dnil
			for k, v in zip(vs[::2], vs[1::2]):
				d = dset(d, self.toV(s, k, e), self.toV(s, v, e))
			out.append((s, self.new_dict(s, d)))
		return out

	def ev_JoinedStr(self, e, st):
		parts, exprs = [], []
		for v in e.values:
			if isinstance(v, ast.Constant):
				parts.append(v.value)
			else:
				parts.append(('{}' if v.conversion == -1 and v.format_spec is None else '{!%s}' % v.conversion,))
				exprs.append(v.value)
		out = []
		for s, vs in self.evs(exprs, st):
			out.append((s, T(self.fmt(s, parts, vs, e))))
		return out

	def fmt(self, st, parts, vs, node=None):
		"""a formatted string"""
		vs = list(vs)
		out = []
		for p in parts:
			if isinstance(p, str):
				out.append(p)
				continue
			p, v = p[0], vs.pop(0)
			if isinstance(v, T):
				t = v.t
			else:
				try:
					t = self.toV(st, v)
				except Unsupported:
					t = V.o(Fresh.const('fmt', I))
			out.append(t if p == '{}' else (p, t))
		return text_of(out)

	def ev_UnaryOp(self, e, st):
		out = []
		if isinstance(e.op, ast.Not):
			return [(s, T(V.b(Not(f)))) for s, f in self.cond(e.operand, st)]
		for s, v in self.ev(e.operand, st):
			if isinstance(e.op, ast.USub) and isinstance(v, T):
				k = self.tag(s, v.t, e)
				if k == 'i':
					out.append((s, T(V.i(-V.iv(v.t)))))
					continue
				if k == 'f':
					out.append((s, T(V.f(-V.fv(v.t)))))
					continue
			raise Unsupported('unary operator', e)
		return out

	def ev_BoolOp(self, e, st):
		return self.boolop(e, e.values, st)

	def boolop(self, e, vals, st):
		if len(vals) == 1:
			return self.ev(vals[0], st)
		is_or = isinstance(e.op, ast.Or)
		out = []
		for s, v in self.ev(vals[0], st):
			f = z3.simplify(self.truth(s, v, e))
			stop, go = (f, Not(f)) if is_or else (Not(f), f)
			merged = self.try_pure(s, go, lambda s2: self.boolop(e, vals[1:], s2))
			if merged is not None and isinstance(v, T) and isinstance(merged[1], T):
				s2, w = merged
				out.append((s2, T(z3.simplify(If(stop, v.t, w.t)))))
				continue
			for s2, b in self.branch(s, f):
				if b == is_or:
					out.append((s2, v))
				else:
					out.extend(self.boolop(e, vals[1:], s2))
		return out

	def try_pure(self, st, cond, k):
		"""evaluate k under cond without forking: (state, value) if it is one path that only adds facts, else None"""
		if z3.is_true(cond):
			r = self.probe(st, k)
			return r
		if z3.is_false(cond):
			return None
		s = st.fork().assume(cond)
		n = len(s.pc)
		if not self.feasible(st, cond):
			return None
		r = self.probe(s, k)
		if r is None:
			return None
		s2, v = r
		if any(s2.heap.get(c) is not s.heap.get(c) for c in set(s2.heap) | set(s.heap)):
			return None
		if isinstance(v, T):
			if not (z3.is_app(v.t)):
				return None
		facts = s2.pc[n:]
		res = st.fork()
		for f in facts:
			res.assume(Implies(cond, f))
		return res, v

	def probe(self, st, k):
		"""run k; the result if it is a single normal path, else None (with all effects undone)"""
		mark = len(self.obls)
		self.sinks.append([])
		try:
			rs = k(st)
		finally:
			sink = self.sinks.pop()
		if len(rs) == 1 and not sink:
			return rs[0]
		del self.obls[mark:]
		return None

	def cond(self, e, st):
		"""evaluate for its truth: list of (state, formula)"""
		if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
			return [(s, z3.simplify(Not(f))) for s, f in self.cond(e.operand, st)]
		if isinstance(e, ast.BoolOp):
			return self.cond_bool(e, e.values, st)
		return [(s, self.truth(s, v, e)) for s, v in self.ev(e, st)]

	def cond_bool(self, e, vals, st):
		if len(vals) == 1:
			return self.cond(vals[0], st)
		is_or = isinstance(e.op, ast.Or)
		out = []
		for s, f in self.cond(vals[0], st):
			f = z3.simplify(f)
			go = Not(f) if is_or else f
			if z3.is_true(f) or z3.is_false(f):
				if z3.is_true(f) == is_or:
					out.append((s, f))
				else:
					out.extend(self.cond_bool(e, vals[1:], s))
				continue
			if not self.feasible(s, go):
				out.append((s, z3.BoolVal(is_or)))
				continue
			m = self.try_pure(s, go, lambda s2: self.cond_bool(e, vals[1:], s2))
			if m is not None:
				s2, g = m
				out.append((s2, Or(f, g) if is_or else And(f, g)))
				continue
			for s2, b in self.branch(s, f):
				if b == is_or:
					out.append((s2, z3.BoolVal(is_or)))
				else:
					out.extend(self.cond_bool(e, vals[1:], s2))
		return out

	def ev_IfExp(self, e, st):
		out = []
		for s, f in self.cond(e.test, st):
			f = z3.simplify(f)
			if not z3.is_true(f) and not z3.is_false(f):
				a = self.try_pure(s, f, lambda s2: self.ev(e.body, s2))
				if a is not None and isinstance(a[1], T):
					b = self.try_pure(a[0], Not(f), lambda s2: self.ev(e.orelse, s2))
					if b is not None and isinstance(b[1], T):
						out.append((b[0], T(If(f, a[1].t, b[1].t))))
						continue
			for s2, b in self.branch(s, f):
				out.extend(self.ev(e.body if b else e.orelse, s2))
		return out

	def ev_NamedExpr(self, e, st):
		out = []
		for s, v in self.ev(e.value, st):
			s = s.fork()
			s.env[e.target.id] = v
			out.append((s, v))
		return out

	def ev_Lambda(self, e, st):
		return [(st, MLambda(e, dict(st.env), st.fn.module if st.fn else None))]

	def ev_Compare(self, e, st):
		out = []
		def go(s, left, ops, rights, acc):
			if not ops:
				out.append((s, T(V.b(z3.simplify(acc)))))
				return
			for s2, r in self.ev(rights[0], s):
				for s3, f in self.compare(s2, ops[0], left, r, e):
					if len(ops) > 1:
						for s4, b in self.branch(s3, And(acc, f)):
							if b:
								go(s4, r, ops[1:], rights[1:], z3.BoolVal(True))
							else:
								out.append((s4, T(FALSE)))
					else:
						go(s3, r, ops[1:], rights[1:], And(acc, f))
		for s, l in self.ev(e.left, st):
			go(s, l, e.ops, e.comparators, z3.BoolVal(True))
		return out

	def compare(self, st, op, a, b, node):
		if isinstance(op, (ast.Is, ast.IsNot)):
			if isinstance(a, T) and isinstance(b, T):
				f = a.t == b.t
			elif isinstance(a, MCls) and isinstance(b, MCls):
				f = z3.BoolVal(a.ci is b.ci)
			else:
				f = z3.BoolVal(a is b)
			return [(st, Not(f) if isinstance(op, ast.IsNot) else f)]
		if isinstance(op, ast.Eq):
			return self.eq(st, a, b, node)
		if isinstance(op, ast.NotEq):
			if isinstance(a, T):
				k = self.static_tag(st, a.t) or (self.tag(st, a.t, node) if self.static_tag(st, a.t) is None else None)
				if k in self.p.classes:
					m = self.p.classes[k].find('methods', '__ne__')
					if m:
						return [(s, self.truth(s, r)) for s, r in self.call_fn(st, MFn(m, a), [b], {}, node)]
			return [(s, Not(f)) for s, f in self.eq(st, a, b, node)]
		if isinstance(op, (ast.In, ast.NotIn)):
			return [(s, Not(f) if isinstance(op, ast.NotIn) else f) for s, f in self.contains(st, a, b, node)]
		return self.order(st, op, a, b, node)

	def order(self, st, op, a, b, node):
		names = {ast.Lt: '__lt__', ast.Gt: '__gt__', ast.LtE: '__le__', ast.GtE: '__ge__'}
		if isinstance(a, MTuple) and isinstance(b, MTuple):
			# lexicographic
			if len(a.items) != len(b.items):
				raise Unsupported('order of tuples', node)
			less = isinstance(op, (ast.Lt, ast.LtE))
			f = z3.BoolVal(isinstance(op, (ast.LtE, ast.GtE)))
			fine = z3.BoolVal(True)
			for x, y in reversed(list(zip(a.items, b.items))):
				rs = self.eq(st, x, y, node)
				tx, ty = self.toV(st, x), self.toV(st, y)
				if len(rs) != 1 or rs[0][0] is not st:
					raise Unsupported('order of tuples', node)
				# the first components that differ decide
				f = If(rs[0][1], f, self.vless(tx, ty) if less else self.vless(ty, tx))
				fine = If(rs[0][1], fine, self.comparable(tx, ty))
			st = self.split_raise(st, fine, 'TypeError', node)
			return [(st, f)] if st is not None else []
		if isinstance(a, T) and isinstance(b, T):
			ka = self.tag(st, a.t, node)
			if ka in self.p.classes:
				m = self.p.classes[ka].find('methods', names[type(op)])
				if m:
					return [(s, self.truth(s, r)) for s, r in self.call_fn(st, MFn(m, a), [b], {}, node)]
			kb = self.tag(st, b.t, node)
			x, y = self.num(ka, a.t), self.num(kb, b.t)
			if x is not None and y is not None:
				return [(st, {ast.Lt: x < y, ast.Gt: x > y, ast.LtE: x <= y, ast.GtE: x >= y}[type(op)])]
			if 'none' in (ka, kb):
				self.throw(st, 'TypeError', node)
				return []
			if ka == 's' and kb == 's' or 'o' in (ka, kb):
				return [(st, ufn('order:' + names[type(op)], V, V, B)(a.t, b.t))]
		raise Unsupported('comparison', node)

	def sorted_objects(self, st, l, node):
		"""what sorting gives for a list of objects with an order of their own: a permutation in which no later element is less"""
		x, y = z3.Consts('x_srt y_srt', V)
		i, j = z3.Ints('i_srt j_srt')
		for k, (less, fine) in self.lt_models.items():
			if self.valid(st, FA([x], Implies(lmem(l, x), self.tagf(st, x, k)), [lmem(l, x)])):
				self.rely_on(k, '__lt__', node)
				H = self.view(st)
				self.prove(st, FA([x, y], Implies(And(lmem(l, x), lmem(l, y)), fine(H, x, y)), [(lmem(l, x), lmem(l, y))]), f'the elements can be compared ({k})', node)
				r = Fresh.const('sorted', L)
				st.assume(lperm(r, l))
				st.assume(FA([i, j], Implies(And(0 <= i, i < j, j < llen(r)), Not(less(H, lat(r, j), lat(r, i)))), [(lat(r, i), lat(r, j))]))
				return r
		return None

	def comparable(self, x, y):
		number = lambda p: Or(V.is_i(p), V.is_f(p), V.is_b(p))
		return Or(And(number(x), number(y)), And(V.is_s(x), V.is_s(y)), V.is_o(x), V.is_o(y))

	def vless(self, x, y):
		"""x < y for values that can be compared: numbers by value, others somehow"""
		g = ufn('vless', V, V, B)
		return If(And(V.is_i(x), V.is_i(y)), V.iv(x) < V.iv(y), g(x, y))

	def num(self, k, t):
		if k == 'i':
			return V.iv(t)
		if k == 'f':
			return V.fv(t)
		if k == 'b':
			return If(V.bv(t), z3.IntVal(1), z3.IntVal(0))
		return None

	def ev_BinOp(self, e, st):
		out = []
		for s, (a, b) in self.evs([e.left, e.right], st):
			out.extend(self.binop(s, e.op, a, b, e))
		return out

	def binop(self, st, op, a, b, node):
		if isinstance(a, MTuple) and isinstance(b, MTuple) and isinstance(op, ast.Add):
			return [(st, MTuple(a.items + b.items))]
		if isinstance(a, MView):
			a = T(self.toV(st, a))
		if isinstance(b, MView):
			b = T(self.toV(st, b))
		if not (isinstance(a, T) and isinstance(b, T)):
			raise Unsupported('operands', node)
		out = []
		from .builtins_ import const_str
		opn = type(op).__name__
		for s, ka in self.tags(st, a.t, node):
			for s2, kb in self.tags(s, b.t, node):
				x, y = self.num(ka, a.t), self.num(kb, b.t)
				if x is not None and y is not None:
					real = ka == 'f' or kb == 'f'
					mk = V.f if real or opn == 'Div' else V.i
					if real or opn == 'Div':
						x = z3.ToReal(x) if x.sort() == I else x
						y = z3.ToReal(y) if y.sort() == I else y
					if opn == 'Add':
						out.append((s2, T(mk(x + y))))
					elif opn == 'Sub':
						out.append((s2, T(mk(x - y))))
					elif opn == 'Mult':
						out.append((s2, T(mk(x * y))))
					elif opn in ('FloorDiv', 'Mod', 'Div'):
						s3 = self.split_raise(s2, y != 0, 'ZeroDivisionError', node)
						if s3 is not None:
							if opn == 'Div':
								out.append((s3, T(V.f(x / y))))
							elif real:
								raise Unsupported('operator', node)
							else:
								if not self.valid(s3, y > 0):
									raise Unsupported('division by a possibly negative number', node)
								if z3.is_int_value(z3.simplify(y)):
									out.append((s3, T(V.i(x / y if opn == 'FloorDiv' else x % y))))
								else:
									# linear arithmetic only: the result is a function of both
									out.append((s3, T(V.i(ufn(opn.lower(), I, I, I)(x, y)))))
					else:
						raise Unsupported('operator', node)
				elif ka == 'list' and kb == 'list' and opn == 'Add':
					s2 = s2.fork()
					out.append((s2, self.new_list(s2, lcat(self.lst(s2, a.t), self.lst(s2, b.t)))))
				elif ka == 's' and kb == 's' and opn == 'Add':
					out.append((s2, T(text_of([a.t, b.t]))))
				elif ka == 's' and opn == 'Mult' and kb == 'i' and const_str(self, a.t) is not None and self.int_const(b.t) is not None:
					out.append((s2, T(lit(const_str(self, a.t) * self.int_const(b.t)))))
				elif ka == 's' and opn == 'Mult' and kb in ('i', 'b'):
					out.append((s2, T(V.s(ufn('strmul', V, V, I)(a.t, b.t)))))
				elif ka == 'o' or kb == 'o':
					out.append((s2, T(ufn('user_op_' + opn, V, V, V)(a.t, b.t))))
				elif ka in self.p.classes and opn == 'Add' and self.p.classes[ka].find('methods', '__add__'):
					out.extend(self.call_fn(s2, MFn(self.p.classes[ka].find('methods', '__add__'), a), [b], {}, node))
				elif 'none' in (ka, kb) or {ka, kb} <= {'s', 'i', 'b', 'list', 'dict', 'f'}:
					self.throw(s2, 'TypeError', node)
				else:
					raise Unsupported(f'{opn} on {ka} and {kb}', node)
		return out

	# ------------------------------------------------------------------ attributes
	def ev_Attribute(self, e, st):
		out = []
		for s, v in self.ev(e.value, st):
			out.extend(self.getattr(s, v, e.attr, e))
		return out

	STR_METHODS = {'startswith', 'endswith', 'lower', 'upper', 'replace', 'strip', 'lstrip', 'rstrip', 'join', 'format', 'split', 'encode', 'title', 'capitalize', 'isdigit', 'count', 'find', 'splitlines'}
	LIST_METHODS = {'append', 'remove', 'copy', 'index', 'extend', 'pop', 'insert', 'sort', 'reverse', 'clear', 'count'}
	DICT_METHODS = {'keys', 'values', 'items', 'get', 'update', 'copy', 'pop', 'setdefault', 'clear', 'popitem'}
	SET_METHODS = {'union', 'add', 'copy', 'update', 'discard', 'remove', 'intersection', 'difference'}

	def getattr(self, st, v, attr, node):
		if isinstance(v, MSuper):
			c = v.after
			while c is not None:
				if attr in c.methods:
					f = c.methods[attr]
					return [(st, MFn(f, None if f.kind == 'staticmethod' else v.self_val))]
				if attr in c.getters:
					return self.call_fn(st, MFn(c.getters[attr], v.self_val), [], {}, node)
				c = c.base
			return [(st, MBuiltin('object.' + attr, v.self_val))]
		if isinstance(v, MCls):
			f = v.ci.find('methods', attr)
			if f:
				return [(st, MFn(f, v if f.kind == 'classmethod' else None))]
			a = v.ci.find('attrs', attr)
			if a is not None:
				return self.class_attr(st, v.ci, attr, node)
			if attr == '__name__':
				return [(st, T(lit(v.ci.name)))]
			raise Unsupported(f'class attribute {attr}', node)
		if isinstance(v, MExt):
			path = f'{v.path}.{attr}'
			if path in self.p.modules:
				return [(st, MExt(path))]
			if v.path in self.p.modules:
				r = self.p.resolve(self.p.modules[v.path], attr)
				if r is not None:
					return [(st, self.global_value(self.p.modules[v.path], attr, node, st))]
			return [(st, MExt(path, v.self_val))]
		if isinstance(v, MView) and attr in self.DICT_METHODS | self.SET_METHODS:
			return [(st, MBuiltin('view.' + attr, v))]
		if isinstance(v, MKw):
			return [(st, MBuiltin('kw.' + attr, v))]
		if isinstance(v, MFn):
			if attr in ('__name__', '__doc__', '__qualname__'):
				return [(st, T(lit(v.fi.name)))]
			raise Unsupported(f'attribute {attr} of a function', node)
		if isinstance(v, MExc):
			return [(st, T(V.o(Fresh.const('excattr', I))))]
		if isinstance(v, MTuple) and attr in ('index', 'count'):
			raise Unsupported('tuple method', node)
		if not isinstance(v, T):
			raise Unsupported(f'attribute {attr} of {type(v).__name__}', node)
		out = []
		prefer = [c for c in ('Node', 'Edge', 'Graph', 'NodeStyle', 'EdgeStyle') if c in self.p.classes and (
			self.p.classes[c].find('methods', attr) or self.p.classes[c].find('getters', attr) or self.p.classes[c].has_field(attr))]
		if attr in self.LIST_METHODS:
			prefer.append('list')
		if attr in self.DICT_METHODS:
			prefer.append('dict')
		if attr in self.STR_METHODS:
			prefer.append('s')
		for s, k in self.tags(st, v.t, node, prefer):
			out.extend(self.getattr_tag(s, v, k, attr, node))
		return out

	def class_attr(self, st, ci, attr, node):
		for c in ci.mro():
			if attr in c.attrs:
				return self.class_expr(st, c, c.attrs[attr], node)
		return []

	def class_expr(self, st, c, e, node):
		"""the value of a class-level assignment: lists of constants become tuples of values"""
		if isinstance(e, (ast.List, ast.Tuple)):
			items = []
			for x in e.elts:
				items.extend(v for _, v in self.class_expr(st, c, x, node))
			return [(st, MTuple(items))]
		if isinstance(e, ast.Constant):
			return [(st, self.const(e.value, node))]
		if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
			(_, a), = self.class_expr(st, c, e.left, node)
			(_, b), = self.class_expr(st, c, e.right, node)
			return self.binop(st, e.op, a, b, node)
		if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in self.p.classes:
			return self.class_attr(st, self.p.classes[e.value.id], e.attr, node)
		if isinstance(e, ast.Name) and e.id in c.attrs:
			return self.class_expr(st, c, c.attrs[e.id], node)
		raise Unsupported('class attribute', node)

	def getattr_tag(self, st, v, k, attr, node):
		if k in self.p.classes:
			c = self.p.classes[k]
			g = c.find('getters', attr)
			if g:
				return self.call_fn(st, MFn(g, v), [], {}, node)
			f = c.find('methods', attr)
			if f:
				if f.kind == 'staticmethod':
					return [(st, MFn(f))]
				if f.kind == 'classmethod':
					return [(st, MFn(f, MCls(c)))]
				return [(st, MFn(f, v))]
			if c.has_field(attr):
				m = self.models.get('field:' + attr)
				if m:
					return m(self, st, v, node)
				return [(st, T(self.sel(self.comp(st, 'f:' + attr), self.ref(v.t))))]
			if attr == '__class__':
				return [(st, MCls(c))]
			if c.find('attrs', attr) is not None:
				return self.class_attr(st, c, attr, node)
			if attr in ('__hash__', '__eq__', '__ne__', '__str__', '__repr__'):
				return [(st, MBuiltin('object.' + attr, v))]
			self.throw(st, 'AttributeError', node)
			return []
		if k == 'list' and attr in self.LIST_METHODS or k == 'dict' and attr in self.DICT_METHODS or k == 'set' and attr in self.SET_METHODS:
			return [(st, MBuiltin(f'{k}.{attr}', v))]
		if k == 's' and attr in self.STR_METHODS:
			return [(st, MBuiltin(f's.{attr}', v))]
		if k == 'o':
			m = self.models.get('attr:' + attr)
			if m:
				return m(self, st, v, node)
			return [(st, MExt('object.' + attr, v))]
		if attr == '__hash__':
			return [(st, MBuiltin('object.__hash__', v))]
		self.throw(st, 'AttributeError', node)
		return []

	def setattr(self, st, v, attr, x, node):
		"""v.attr = x: list of states"""
		if isinstance(v, MSuper) or not isinstance(v, T):
			raise Unsupported('assignment to an attribute', node)
		out = []
		prefer = [c for c in ('Node', 'Edge', 'Graph', 'NodeStyle', 'EdgeStyle') if c in self.p.classes and (
			self.p.classes[c].find('setters', attr) or self.p.classes[c].has_field(attr))]
		for s, k in self.tags(st, v.t, node, prefer):
			if k in self.p.classes:
				c = self.p.classes[k]
				f = c.find('setters', attr)
				if f:
					out.extend(s2 for s2, _ in self.call_fn(s, MFn(f, v), [x], {}, node))
					continue
				if c.find('getters', attr):
					self.throw(s, 'AttributeError', node)
					continue
				s = s.fork()
				val = self.toV(s, x, node)
				self.setcomp(s, 'f:' + attr, self.ref(v.t), val)
				if self.static_tag(s, val) in ('list', 'dict', 'set'):
					# ghost state: which field a collection was last stored in
					self.setcomp(s, 'own', self.ref(val), V.t2(v.t, lit(attr)))
				c.fields.add(attr) if not c.has_field(attr) else None
				out.append(s)
			elif k == 'o':
				m = self.models.get('setattr:' + attr)
				if m is None:
					raise Unsupported(f'assignment to attribute {attr} of an unknown object', node)
				out.extend(m(self, s, v, x, node))
			else:
				self.throw(s, 'AttributeError', node)
		return out

	# ------------------------------------------------------------------ subscripts
	def ev_Subscript(self, e, st):
		out = []
		if isinstance(e.slice, ast.Slice):
			return self.slice(e, st)
		for s, (v, i) in self.evs([e.value, e.slice], st):
			out.extend(self.getitem(s, v, i, e))
		return out

	def slice(self, e, st):
		sl = e.slice
		if sl.step is not None:
			raise Unsupported('slice with a step', e)
		out = []
		parts = [e.value] + [x for x in (sl.lower, sl.upper) if x is not None]
		for s, vs in self.evs(parts, st):
			v = vs[0]
			if isinstance(v, MTuple):
				bounds = []
				for x in (sl.lower, sl.upper):
					bounds.append(None if x is None else ast.literal_eval(x))
				out.append((s, MTuple(v.items[bounds[0]:bounds[1]])))
				continue
			for s2, k in self.tags(s, v.t, e, ('list', 's')):
				if k == 's':
					out.append((s2, T(V.s(ufn('strslice', *([V] * (len(vs))), I)(*[self.toV(s2, x) for x in vs])))))
					continue
				if k != 'list':
					raise Unsupported('slice', e)
				l = self.lst(s2, v.t)
				rest = vs[1:]
				lo = z3.IntVal(0)
				if sl.lower is not None:
					lo = V.iv(self.toV(s2, rest.pop(0)))
					if not self.valid(s2, lo >= 0):
						raise Unsupported('negative slice bound', e)
				r = l
				if sl.upper is not None:
					hi = V.iv(self.toV(s2, rest.pop(0)))
					if not self.valid(s2, hi >= 0):
						raise Unsupported('negative slice bound', e)
					r = ltake(r, hi)
				for s3, inside in self.branch(s2, lo <= llen(r)) if sl.lower is not None else [(s2, True)]:
					s3 = s3.fork()
					if sl.lower is not None:
						y = z3.Const('y_drop', V)
						d = ldrop(r, lo) if inside else lnil
						s3.assume(FA([y], Implies(lmem(d, y), lmem(r, y)), [lmem(d, y)]))
						s3.assume(Implies(nodup(r), nodup(d)))
						out.append((s3, self.new_list(s3, d)))
					else:
						out.append((s3, self.new_list(s3, r)))
		return out

	def getitem(self, st, v, i, node):
		if isinstance(v, MTuple):
			n = self.int_const(self.toV(st, i))
			if n is None:
				raise Unsupported('tuple index', node)
			if -len(v.items) <= n < len(v.items):
				return [(st, v.items[n])]
			self.throw(st, 'IndexError', node)
			return []
		if isinstance(v, MKw):
			ti = self.toV(st, i)
			for k, x in v.items.items():
				if lit(k).eq(ti):
					return [(st, x)]
			self.throw(st, 'KeyError', node)
			return []
		if not isinstance(v, T):
			raise Unsupported('subscript', node)
		ti = self.toV(st, i, node)
		out = []
		for s, k in self.tags(st, v.t, node, ('dict', 'list')):
			if k == 'dict':
				self.key_ok(s, ti, node)
				d = self.dct(s, v.t)
				s2 = self.split_raise(s, ddom(d, ti), 'KeyError', node)
				if s2 is not None:
					out.append((s2, T(self.dget(d, ti))))
			elif k == 'list':
				if not self.valid(s, V.is_i(ti)):
					raise Unsupported('list index', node)
				l = self.lst(s, v.t)
				n = V.iv(ti)
				c = self.int_const(ti)
				if c is not None and c < 0:
					n = llen(l) + c
				elif not self.valid(s, n >= 0):
					raise Unsupported('possibly negative index', node)
				s2 = self.split_raise(s, And(0 <= n, n < llen(l)), 'IndexError', node)
				if s2 is not None:
					out.append((s2, T(lat(l, z3.simplify(n)))))
			elif k in ('t2', 't3', 't4'):
				out.extend(self.getitem(s, self.untuple(v.t, k), i, node))
			elif k == 's':
				c = self.int_const(ti)
				s2 = self.split_raise(s, V.sv(v.t) != 0 if c in (0, -1) else ufn('has_char', V, V, B)(v.t, ti), 'IndexError', node)
				if s2 is not None:
					out.append((s2, T(V.s(ufn('char', V, V, I)(v.t, ti)))))
			elif k in self.p.classes and self.p.classes[k].find('methods', '__getitem__'):
				out.extend(self.call_fn(s, MFn(self.p.classes[k].find('methods', '__getitem__'), v), [i], {}, node))
			elif k == 'none':
				self.throw(s, 'TypeError', node)
			elif k == 'o':
				out.append((s, T(ufn('user_item', V, V, V)(v.t, ti))))
			else:
				raise Unsupported(f'subscript of a {k}', node)
		return out

	def dget(self, d, k):
		"""dget, seeing through updates at syntactically equal or different constant keys"""
		while z3.is_app(d) and d.decl().eq(dset):
			if d.arg(1).eq(k):
				return d.arg(2)
			if self.const_v(d.arg(1)) and self.const_v(k):
				d = d.arg(0)
				continue
			break
		return dget(d, k)

	def const_v(self, t):
		return z3.is_app(t) and t.num_args() == 1 and (z3.is_int_value(t.arg(0))) and t.decl().name() in ('s', 'i')

	def int_const(self, t):
		t = z3.simplify(t)
		if z3.is_app(t) and t.decl().eq(V.i) and z3.is_int_value(t.arg(0)):
			return t.arg(0).as_long()
		return None

	def untuple(self, t, k):
		n = int(k[1])
		def part(i):
			if z3.is_app(t) and t.decl().name() == k and t.num_args() == n:
				return T(t.arg(i))
			return T(getattr(V, 'abcd'[i] + str(n))(t))
		return MTuple([part(i) for i in range(n)])

	def key_ok(self, st, k, node):
		"""is k a dictionary key whose equality is identity of values?"""
		tag = self.static_tag(st, k)
		if tag in ('none', 'i', 's', 't2', 't3', 't4'):
			return
		if tag is None and self.valid(st, Or(V.is_s(k), V.is_i(k), V.is_none(k), V.is_t2(k), V.is_t3(k), V.is_t4(k)), 1500):
			return
		raise Unsupported('a key of this kind', node)

	def setitem(self, st, v, i, x, node):
		if not isinstance(v, T):
			raise Unsupported('item assignment', node)
		out = []
		for s, k in self.tags(st, v.t, node, ('dict', 'list')):
			s = s.fork()
			if k == 'dict':
				ti, tx = self.toV(s, i, node), self.toV(s, x, node)
				self.key_ok(s, ti, node)
				self.setcomp(s, 'D', self.ref(v.t), dset(self.dct(s, v.t), ti, tx))
				out.append(s)
			elif k == 'list':
				l = self.lst(s, v.t)
				if not self.valid(s, V.is_i(self.toV(s, i))):
					raise Unsupported('list index', node)
				n = V.iv(self.toV(s, i))
				if not self.valid(s, n >= 0):
					raise Unsupported('possibly negative index', node)
				s2 = self.split_raise(s, n < llen(l), 'IndexError', node)
				if s2 is not None:
					s2 = s2.fork()
					self.setcomp(s2, 'L', self.ref(v.t), lset(l, n, self.toV(s2, x)))
					out.append(s2)
			elif k in self.p.classes and self.p.classes[k].find('methods', '__setitem__'):
				out.extend(s2 for s2, _ in self.call_fn(s, MFn(self.p.classes[k].find('methods', '__setitem__'), v), [i, x], {}, node))
			else:
				raise Unsupported(f'item assignment on a {k}', node)
		return out

	# ------------------------------------------------------------------ calls
	def ev_Call(self, e, st):
		out = []
		if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env and not e.args:
			fi = st.fn
			return [(st, MSuper(fi.cls.base, st.env[fi.params[0]]))]
		for s, f in self.ev(e.func, st):
			for s2, (args, kw) in self.ev_args(e, s):
				out.extend(self.call(s2, f, args, kw, e))
		return out

	def ev_args(self, e, st):
		res = [(st, ([], {}))]
		for a in e.args:
			if isinstance(a, ast.Starred):
				nxt = []
				for s, (args, kw) in res:
					for s2, v in self.ev(a.value, s):
						if not isinstance(v, MTuple):
							raise Unsupported('*args', e)
						nxt.append((s2, (args + v.items, kw)))
				res = nxt
			elif isinstance(a, ast.GeneratorExp):
				res = [(s2, (args + [v], kw)) for s, (args, kw) in res for s2, v in self.ev_ListComp(a, s)]
			else:
				res = [(s2, (args + [v], kw)) for s, (args, kw) in res for s2, v in self.ev(a, s)]
		for k in e.keywords:
			nxt = []
			for s, (args, kw) in res:
				for s2, v in self.ev(k.value, s):
					if k.arg is None:
						if isinstance(v, MKw):
							if set(v.items) & set(kw):
								self.throw(s2, 'TypeError', e)
								continue
							nxt.append((s2, (args, {**kw, **v.items})))
						elif isinstance(v, T):
							nxt.append((s2, (args, {**kw, '**': v})))
						else:
							raise Unsupported('** argument', e)
					else:
						if k.arg in kw:
							self.throw(s2, 'TypeError', e)
							continue
						nxt.append((s2, (args, {**kw, k.arg: v})))
			res = nxt
		return res

	def call(self, st, f, args, kw, node):
		if isinstance(f, MFn):
			return self.call_fn(st, f, args, kw, node)
		if isinstance(f, MLambda):
			return self.call_lambda(st, f, args, kw, node)
		if isinstance(f, MCls):
			return self.construct(st, f.ci, args, kw, node)
		if isinstance(f, MBuiltin):
			return self.builtin(st, f, args, kw, node)
		if isinstance(f, MExt):
			return self.external(st, f, args, kw, node)
		if isinstance(f, T):
			m = self.models.get('call:opaque')
			if m:
				return m(self, st, f, args, kw, node)
			k = self.tag(st, f.t, node)
			if k in ('none', 's', 'i', 'b', 'list', 'dict'):
				self.throw(st, 'TypeError', node)
				return []
			self.trusted.add('user-supplied callables are pure and return')
			ts = [self.toV(st, a) for a in args] + [self.toV(st, kw[k]) for k in sorted(kw)]
			return [(st, T(ufn('user_call%d' % len(ts), *([V] * (len(ts) + 1)), V)(f.t, *ts)))]
		raise Unsupported('call', node)

	def call_lambda(self, st, f, args, kw, node):
		env = dict(f.env)
		ps = [a.arg for a in f.node.args.args]
		if kw or len(ps) != len(args) or f.node.args.defaults:
			raise Unsupported('lambda call', node)
		env.update(zip(ps, args))
		caller = st.env
		s = st.fork()
		s.env = env
		out = []
		for s2, v in self.ev(f.node.body, s):
			s2 = s2.fork()
			s2.env = dict(caller)
			out.append((s2, v))
		return out

	def bind(self, st, fi, self_val, args, kw, node):
		"""bind arguments to parameters: list of (state, dict); None for a TypeError"""
		params = list(fi.params)
		env = {}
		pos = ([self_val] if self_val is not None else []) + list(args)
		if len(pos) > len(params):
			if fi.vararg is None:
				self.throw(st, 'TypeError', node)
				return []
			env[fi.vararg] = MTuple(pos[len(params):])
			pos = pos[:len(params)]
		elif fi.vararg:
			env[fi.vararg] = MTuple([])
		env.update(zip(params, pos))
		kw = dict(kw)
		splat = kw.pop('**', None)
		extra = {}
		for k, v in kw.items():
			if k in params + fi.kwonly:
				if k in env:
					self.throw(st, 'TypeError', node)
					return []
				env[k] = v
			elif fi.kwarg:
				extra[k] = v
			else:
				self.throw(st, 'TypeError', node)
				return []
		if splat is not None:
			return self.bind_splat(st, fi, env, extra, splat, node)
		for p in params + fi.kwonly:
			if p not in env:
				if p in fi.defaults:
					env[p] = self.default(st, fi, p, node)
				else:
					self.throw(st, 'TypeError', node)
					return []
		if fi.kwarg:
			env[fi.kwarg] = MKw(extra)
		return [(st, env)]

	def bind_splat(self, st, fi, env, extra, splat, node):
		"""f(..., **d) with a dictionary d: a parameter that d has takes its value from there"""
		k = self.tag(st, splat.t, node, ('dict',))
		if k != 'dict':
			raise Unsupported('** of something that is not a dictionary', node)
		d = self.dct(st, splat.t)
		free = [p for p in fi.params + fi.kwonly if p not in env]
		ky = z3.Const('k_splat', V)
		names = [lit(p) for p in free]
		only = FA([ky], Implies(ddom(d, ky), Or(*[ky == n for n in names])), [ddom(d, ky)])
		if fi.kwarg:
			# the rest goes to **kwargs: the contract of the function says for which keys a missing one is the same as None
			c = self.contracts.get(fi.qualname)
			for p in getattr(c, 'rest', ()):
				has = ddom(d, lit(p))
				if p in free or p in extra:
					continue
				if self.valid(st, has):
					extra[p] = T(self.dget(d, lit(p)))
				elif self.feasible(st, has):
					extra[p] = T(self.named(st, If(has, self.dget(d, lit(p)), NONE)))
				names.append(lit(p))
			only = FA([ky], Implies(ddom(d, ky), Or(*[ky == n for n in names])), [ddom(d, ky)])
		self.prove(st, only, f'the keys passed with ** are parameters of {fi.qualname}', node)
		for p in free:
			has = ddom(d, lit(p))
			if p in fi.defaults:
				dv = self.default(st, fi, p, node)
				has_s = z3.simplify(has)
				if self.valid(st, has):
					env[p] = T(self.dget(d, lit(p)))
				elif not self.feasible(st, has):
					env[p] = dv
				else:
					env[p] = T(self.named(st, If(has, self.dget(d, lit(p)), self.toV(st, dv))))
			else:
				st = self.split_raise(st, has, 'TypeError', node)
				if st is None:
					return []
				env[p] = T(self.dget(d, lit(p)))
		if fi.kwarg:
			env[fi.kwarg] = MKw(extra)
		return [(st, env)]

	def default(self, st, fi, p, node):
		e = fi.defaults[p]
		if isinstance(e, ast.Constant):
			return self.const(e.value, node)
		if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
			return self.const(-e.operand.value, node)
		if isinstance(e, ast.Name):
			return self.global_value(fi.module, e.id, node, st)
		# an object made once at definition time, shared between calls: out of the subset
		raise Unsupported('mutable default argument', node)

	def call_fn(self, st, f, args, kw, node):
		fi = f.fi
		if fi.other_decorators:
			raise Unsupported(f'decorator on {fi.qualname}', node)
		out = []
		for s, env in self.bind(st, fi, f.self_val, args, kw, node):
			key = fi.qualname + ('=' if fi.kind == 'setter' else '')
			m = self.models.get(key)
			if m is not None:
				out.extend(m(self, s, env, node))
				continue
			c = self.contracts.get(key)
			if c is not None and not (self.rootctx and key in self.rootctx['contract'].avoid) and (c.applies(self, s, env) or self.rootctx and key in self.rootctx['contract'].use):
				out.extend(self.apply_contract(s, c, env, node, fi))
				continue
			out.extend(self.inline(s, fi, env, node, f.closure))
		return out

	def inline(self, st, fi, env, node, closure=None):
		if self.inline_stack.count(fi) > 1 or len(self.inline_stack) > 40:
			raise Unsupported(f'recursion through {fi.qualname}, which has no contract', node)
		caller, cfn, cy = st.env, st.fn, st.ylist
		s = st.fork()
		s.env = dict(closure or {})
		s.env.update(env)
		s.fn = fi
		s.ylist = lnil if fi.is_generator else None
		self.inline_stack.append(fi)
		self.inlined.add(fi.qualname)
		try:
			outs = self.block(fi.node.body, s)
		finally:
			self.inline_stack.pop()
		res = []
		for kind, s2, v in outs:
			y = s2.ylist
			s2 = s2.fork()
			s2.env, s2.fn, s2.ylist = dict(caller), cfn, cy
			if kind == 'raise':
				self.sinks[-1].append((s2, v))
			elif fi.is_generator:
				res.append((s2, self.new_list(s2, y)))
			elif kind == 'return':
				res.append((s2, v))
			elif kind == 'next':
				res.append((s2, T(NONE)))
			else:
				raise Unsupported('control flow', node)
		return res

	def construct(self, st, ci, args, kw, node):
		key = ci.name + '()'
		s = st.fork()
		m = self.models.get(key)
		if m is not None:
			return m(self, s, args, kw, node)
		c = self.contracts.get(key)
		init = ci.find('methods', '__init__')
		if ci.find('methods', '__new__'):
			raise Unsupported('__new__', node)
		if c is not None and init is not None:
			out = []
			for s2, env in self.bind(s, init, T(NONE), args, kw, node):
				env = dict(env)
				env.pop(init.params[0])
				if c.applies(self, s2, env):
					out.extend(self.apply_contract(s2, c, env, node, init))
				else:
					out.extend(self.construct_inline(s2, ci, init, args, kw, node))
			return out
		return self.construct_inline(s, ci, init, args, kw, node)

	def construct_inline(self, s, ci, init, args, kw, node):
		s = s.fork()
		ref = T(self.alloc(s, ci.code))
		if init is None:
			return [(s, ref)]
		return [(s2, ref) for s2, _ in self.call_fn(s, MFn(init, ref), args, kw, node)]

	# ------------------------------------------------------------------ contracts at call sites
	def apply_contract(self, st, c, env, node, fi):
		self.called.add(c.key)
		s = st.fork()
		env = c.settle(self, s, env)
		args = {k: (v.t if isinstance(v, T) else v) for k, v in env.items()}
		H0 = self.view(s)
		if self.rootctx:
			for f in self.rootctx['contract'].ghosts_before(self, s, c, args):
				s.assume(f)
		for name, f in c.requires(H0, args, self):
			self.prove(s, f, f'precondition of {c.key}: {name}', node)
		for f in c.lemmas(H0, args, self):
			s.assume(f)
		return [x for s2 in self.split_modifies(s, c, H0, args) for x in self.after_contract(s2, c, H0, args, node, fi)]

	def split_modifies(self, st, c, H0, args):
		"""cases where what the call changes depends on a condition"""
		conds = []
		for ch in list(c.modifies(H0, args, self)) + list(c.raise_modifies(H0, args, self)):
			ref = ch[1] if isinstance(ch, tuple) else None
			while ref is not None and z3.is_app(ref) and ref.decl().kind() == z3.Z3_OP_ITE:
				if not any(ref.arg(0).eq(x) for x in conds):
					conds.append(ref.arg(0))
				ref = ref.arg(1) if not z3.is_int_value(ref.arg(1)) else ref.arg(2)
		states = [st]
		for f in conds:
			if z3.is_true(z3.simplify(f)) or z3.is_false(z3.simplify(f)):
				continue
			nxt = []
			for s in states:
				for g in (f, Not(f)):
					if self.feasible(s, g):
						nxt.append(s.fork().assume(g))
			states = nxt
		return states

	def after_contract(self, s, c, H0, args, node, fi):
		"""the states after a call, by the contract"""
		for exc, cnd in c.raises(H0, args, self):
			cnd = z3.simplify(cnd)
			if z3.is_false(cnd):
				continue
			if self.feasible(s, cnd):
				bad = s.fork().assume(cnd)
				for ch in c.raise_modifies(H0, args, self):
					self.havoc(bad, ch)
				self.throw(bad, exc, node)
			s = s.fork().assume(Not(cnd))
			if self.dead(s):
				return []
		if c.depth_check is not None and self.rootctx is not None and self.root is not None:
			c.depth_check(self, s, H0, args, node)
		old_next = self.comp(s, 'next')
		if c.allocates:
			nn = Fresh.const('next', I)
			s.heap['next'] = nn
			s.assume(nn >= old_next)
		for ch in c.modifies(H0, args, self):
			self.havoc(s, ch)
		res = c.make_result(self, s, old_next)
		H1 = self.view(s)
		rt = res.t if isinstance(res, T) else res
		for name, f in c.ensures(H0, H1, args, rt, self):
			s.assume(f)
		if self.rootctx:
			for f in self.rootctx['contract'].ghosts(self, s, c, args, rt):
				s.assume(f)
		return [(s, res)]

	def havoc(self, st, ch):
		comp, ref = ch if isinstance(ch, tuple) else (ch, None)
		while ref is not None and z3.is_app(ref) and ref.decl().kind() == z3.Z3_OP_ITE:
			# split_modifies has put the condition or its negation into the path condition
			c, n = ref.arg(0), Not(ref.arg(0))
			if z3.is_true(z3.simplify(c)) or any(f.eq(c) for f in reversed(st.pc)):
				ref = ref.arg(1)
			elif z3.is_false(z3.simplify(c)) or any(f.eq(n) for f in reversed(st.pc)):
				ref = ref.arg(2)
			else:
				break
		if ref is None:
			st.heap[comp] = Fresh.const(comp, comp_sort(comp))
		elif z3.is_int_value(ref) and ref.as_long() < 0:
			pass       # nothing
		else:
			srt = comp_sort(comp).range()
			if z3.is_app(ref) and ref.decl().eq(V.rv):
				ref = self.ref(ref.arg(0))
			self.setcomp(st, comp, ref, Fresh.const(comp, srt))

	# ------------------------------------------------------------------ statements
	def block(self, stmts, st):
		"""execute statements: list of (kind, state, value)"""
		done = []
		live = [st]
		for s in stmts:
			nxt = []
			for state in live:
				for kind, s2, v in self.stmt(s, state):
					if kind == 'next':
						nxt.append(s2)
					else:
						done.append((kind, s2, v))
			live = nxt
			if not live:
				break
			if len(live) + len(done) > 300:
				raise Unsupported('too many paths', s)
		return done + [('next', s, None) for s in live]

	def stmt(self, s, st):
		self.sinks.append([])
		try:
			m = getattr(self, 'st_' + type(s).__name__, None)
			if m is None:
				raise Unsupported(type(s).__name__, s)
			res = m(s, st)
		finally:
			sink = self.sinks.pop()
		return res + [('raise', s2, v) for s2, v in sink]

	def st_Expr(self, s, st):
		if isinstance(s.value, ast.Constant):
			return [('next', st, None)]
		if isinstance(s.value, ast.Yield):
			out = []
			for s2, v in (self.ev(s.value.value, st) if s.value.value else [(st, T(NONE))]):
				s2 = s2.fork()
				from .builtins_ import named
				s2.ylist = lapp(s2.ylist, named(s2, self.toV(s2, v, s), 'yielded'))
				out.append(('next', s2, None))
			return out
		return [('next', s2, None) for s2, _ in self.ev(s.value, st)]

	def st_Pass(self, s, st):
		return [('next', st, None)]

	def st_Assign(self, s, st):
		out = []
		for s2, v in self.ev(s.value, st):
			states = [s2]
			for t in s.targets:
				states = [s4 for s3 in states for s4 in self.assign(t, v, s3)]
			out.extend(('next', s3, None) for s3 in states)
		return out

	def st_AnnAssign(self, s, st):
		if s.value is None:
			return [('next', st, None)]
		return [('next', s3, None) for s2, v in self.ev(s.value, st) for s3 in self.assign(s.target, v, s2)]

	def st_AugAssign(self, s, st):
		out = []
		t = s.target
		if isinstance(t, ast.Name):
			for s2, (a, b) in self.evs([ast.copy_location(ast.Name(t.id, ast.Load()), t), s.value], st):
				if isinstance(a, T) and self.tag(s2, a.t, t) == 'list' and isinstance(s.op, ast.Add):
					for s3, it in self.iter_value(s2, b, s):
						if it.lst is None:
							raise Unsupported('+=', s)
						s3 = s3.fork()
						self.setcomp(s3, 'L', self.ref(a.t), lcat(self.lst(s3, a.t), it.lst))
						out.append(('next', s3, None))
					continue
				for s3, v in self.binop(s2, s.op, a, b, s):
					out.extend(('next', s4, None) for s4 in self.assign(t, v, s3))
			return out
		if isinstance(t, ast.Attribute):
			for s2, o in self.ev(t.value, st):
				for s3, a in self.getattr(s2, o, t.attr, t):
					for s4, b in self.ev(s.value, s3):
						for s5, v in self.binop(s4, s.op, a, b, s):
							out.extend(('next', s6, None) for s6 in self.setattr(s5, o, t.attr, v, s))
			return out
		if isinstance(t, ast.Subscript):
			for s2, (o, i) in self.evs([t.value, t.slice], st):
				for s3, a in self.getitem(s2, o, i, t):
					for s4, b in self.ev(s.value, s3):
						for s5, v in self.binop(s4, s.op, a, b, s):
							out.extend(('next', s6, None) for s6 in self.setitem(s5, o, i, v, s))
			return out
		raise Unsupported('augmented assignment', s)

	def assign(self, t, v, st):
		if isinstance(t, ast.Name):
			s = st.fork()
			s.env[t.id] = v
			return [s]
		if isinstance(t, ast.Attribute):
			return [s3 for s2, o in self.ev(t.value, st) for s3 in self.setattr(s2, o, t.attr, v, t)]
		if isinstance(t, ast.Subscript):
			if isinstance(t.slice, ast.Slice):
				return self.assign_slice(t, v, st)
			return [s3 for s2, (o, i) in self.evs([t.value, t.slice], st) for s3 in self.setitem(s2, o, i, v, t)]
		if isinstance(t, (ast.Tuple, ast.List)):
			out = []
			for s, items in self.unpack(st, v, len(t.elts), t):
				states = [s]
				for x, y in zip(t.elts, items):
					states = [s3 for s2 in states for s3 in self.assign(x, y, s2)]
				out.extend(states)
			return out
		raise Unsupported('assignment target', t)

	def assign_slice(self, t, v, st):
		if t.slice.upper is not None or t.slice.step is not None or t.slice.lower is None:
			raise Unsupported('slice assignment', t)
		out = []
		for s, (o, lo) in self.evs([t.value, t.slice.lower], st):
			if self.tag(s, o.t, t, ('list',)) != 'list':
				raise Unsupported('slice assignment', t)
			n = V.iv(self.toV(s, lo))
			l = self.lst(s, o.t)
			if not self.valid(s, And(n >= 0)):
				raise Unsupported('negative slice bound', t)
			for s2, it in self.iter_value(s, v, t):
				if it.lst is None:
					raise Unsupported('slice assignment', t)
				s2 = s2.fork()
				self.setcomp(s2, 'L', self.ref(o.t), self.lcat(ltake(l, n), it.lst))
				out.append(s2)
		return out

	def lcat(self, a, b):
		"""concatenation, with appends of a literal list written as appends"""
		if z3.is_app(b) and b.decl().eq(lapp):
			return lapp(self.lcat(a, b.arg(0)), b.arg(1))
		if b.eq(lnil):
			return a
		return lcat(a, b)

	def unpack(self, st, v, n, node):
		if isinstance(v, MTuple):
			if len(v.items) == n:
				return [(st, v.items)]
			self.throw(st, 'ValueError', node)
			return []
		if isinstance(v, T):
			out = []
			for s, k in self.tags(st, v.t, node):
				if k in ('t2', 't3', 't4'):
					if int(k[1]) == n:
						out.append((s, self.untuple(v.t, k).items))
					else:
						self.throw(s, 'ValueError', node)
				elif k == 'list':
					l = self.lst(s, v.t)
					s2 = self.split_raise(s, llen(l) == n, 'ValueError', node)
					if s2 is not None:
						out.append((s2, [T(lat(l, z3.IntVal(i))) for i in range(n)]))
				else:
					raise Unsupported(f'unpacking a {k}', node)
			return out
		raise Unsupported('unpacking', node)

	def st_Return(self, s, st):
		if s.value is None:
			return [('return', st, T(NONE))]
		return [('return', s2, v) for s2, v in self.ev(s.value, st)]

	def st_If(self, s, st):
		out = []
		for s2, f in self.cond(s.test, st):
			for s3, b in self.branch(s2, f):
				out.extend(self.block(s.body if b else s.orelse, s3))
		return out

	def st_Raise(self, s, st):
		if s.exc is None:
			raise Unsupported('re-raise', s)
		e = s.exc
		args = []
		if isinstance(e, ast.Call):
			args, e = e.args, e.func
		if not isinstance(e, ast.Name) or e.id not in BUILTIN_EXC:
			raise Unsupported('raise', s)
		out = []
		for s2, _ in self.evs(args, st):
			out.append(('raise', s2, MExc(e.id)))
		return out

	def st_Assert(self, s, st):
		out = []
		for s2, f in self.cond(s.test, st):
			s3 = self.split_raise(s2, f, 'AssertionError', s)
			if s3 is not None:
				out.append(('next', s3, None))
		return out

	def exc_matches(self, name, handler, st):
		if handler.type is None:
			return True
		types = handler.type.elts if isinstance(handler.type, ast.Tuple) else [handler.type]
		for t in types:
			if not isinstance(t, ast.Name):
				raise Unsupported('except', handler)
			n = name
			while n is not None:
				if n == t.id:
					return True
				n = BUILTIN_EXC.get(n)
		return False

	def st_Try(self, s, st):
		if s.finalbody:
			raise Unsupported('finally', s)
		out = []
		for kind, s2, v in self.block(s.body, st):
			if kind == 'next' and s.orelse:
				out.extend(self.block(s.orelse, s2))
			elif kind == 'raise':
				if v.name.startswith('?'):
					raise Unsupported('an unknown exception', s)
				for h in s.handlers:
					if self.exc_matches(v.name, h, s2):
						s3 = s2.fork()
						if h.name:
							s3.env[h.name] = v
						out.extend(self.block(h.body, s3))
						break
				else:
					out.append((kind, s2, v))
			else:
				out.append((kind, s2, v))
		return out

	def st_Delete(self, s, st):
		states = [st]
		for t in s.targets:
			nxt = []
			for s2 in states:
				if isinstance(t, ast.Name):
					s3 = s2.fork()
					s3.env.pop(t.id, None)
					nxt.append(s3)
				elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
					for s3, (o, i) in self.evs([t.value, t.slice], s2):
						if self.tag(s3, o.t, t, ('dict',)) != 'dict':
							raise Unsupported('del of a list item', s)
						d, k = self.dct(s3, o.t), self.toV(s3, i)
						self.key_ok(s3, k, s)
						s4 = self.split_raise(s3, ddom(d, k), 'KeyError', s)
						if s4 is not None:
							s4 = s4.fork()
							self.setcomp(s4, 'D', self.ref(o.t), ddel(d, k))
							nxt.append(s4)
				else:
					raise Unsupported('del', s)
			states = nxt
		return [('next', s2, None) for s2 in states]

	def st_FunctionDef(self, s, st):
		fi = FuncInfo(s, st.fn.module)
		fi.qualname = f'{st.fn.qualname}.{s.name}'
		s2 = st.fork()
		s2.env[s.name] = MFn(fi, None, s2.env)
		return [('next', s2, None)]

	def st_Import(self, s, st):
		s2 = st.fork()
		for a in s.names:
			s2.env[a.asname or a.name.split('.')[0]] = MExt(a.name)
		return [('next', s2, None)]

	def st_ImportFrom(self, s, st):
		s2 = st.fork()
		for a in s.names:
			if s.level:
				m = Module.__new__(Module)
				m.name, m.path, m.functions, m.classes, m.imports, m.assigns = st.fn.module.name, st.fn.module.path, {}, {}, {}, {}
				m.add_import(s)
				s2.env[a.asname or a.name] = self.global_value(m, a.asname or a.name, s, st)
			else:
				s2.env[a.asname or a.name] = MExt(f'{s.module}.{a.name}')
		return [('next', s2, None)]

	def st_Break(self, s, st):
		return [('break', st, None)]

	def st_Continue(self, s, st):
		return [('continue', st, None)]

	def st_For(self, s, st):
		out = []
		for s2, it in self.iterate(s.iter, st):
			out.extend(self.for_loop(s, s2, it))
		return out

	def st_While(self, s, st):
		return self.symbolic_loop(s, st, None)

	# loops, comprehensions, built-ins and external functions are in the mixins below
	from .loops import (iterate, iter_value, for_loop, unrolled, symbolic_loop, _symbolic_loop, loop_once, loop_diff, loop_head, list_vars, auto_candidates,
		root_next, desugar, ev_ListComp, comp_items, list_map, index_patterns, only_fresh, simple_value, ev_GeneratorExp, ev_DictComp, ev_SetComp)
	from .builtins_ import builtin, external

	def consts_in(self, st):
		"""names of all constants that occur in the state"""
		out = set()
		from .loops import consts_of
		for t in st.heap.values():
			out |= consts_of(t)
		for v in st.env.values():
			if isinstance(v, T):
				out |= consts_of(v.t)
		out |= {c.decl().name() for c in self.inits.values()}
		if self.rootctx:
			out |= self.rootctx.get('consts', set())
		return out


_locals_cache = {}


def local_names(fn):
	if fn not in _locals_cache:
		names = set()
		for n in walk_own(fn):
			if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
				names.add(n.id)
			elif isinstance(n, ast.FunctionDef):
				names.add(n.name)
		# comprehension variables are local to the comprehension
		_locals_cache[fn] = names
	return _locals_cache[fn]
