"""Contracts and the verification of a function against its contract."""
import time
import z3
from .terms import *
from .values import *
from .exec import Exec, Obligation


class Contract:
	"""the specification of one function of the program; see the methods for its parts"""
	key = None              # 'Class.method', 'Class.property', 'Class.property=', 'module.function', 'Class()'
	prop = ()               # properties that rest on it
	allocates = True
	depth_check = None      # termination of recursive calls
	pure = False
	use = ()                # contracts to use at calls although they are executed in place elsewhere
	avoid = ()              # functions to execute in place although they have a contract

	def settle(self, ex, st, env):
		"""the arguments of a call, with simpler terms for the same values"""
		return env

	def __init__(self, suite):
		self.suite = suite

	# -- inputs
	def cases(self, ex):
		"""the argument shapes to verify separately"""
		return ['']

	def make_args(self, ex, st, case):
		"""symbolic arguments: a dict of parameter name -> value; may assume facts in st"""
		raise NotImplementedError

	def applies(self, ex, st, env):
		"""may a call with these arguments be replaced by the contract?"""
		return True

	# -- specification
	def requires(self, H, a, ex):
		return []

	def lemmas(self, H, a, ex):
		return []

	def raises(self, H, a, ex):
		return []

	def raise_modifies(self, H, a, ex):
		return []

	def modifies(self, H, a, ex):
		return []

	def result(self, ex, st, old_next):
		return T(Fresh.const('res', V))

	def result_tag(self):
		return None

	def make_result(self, ex, st, old_next):
		r = self.result(ex, st, old_next)
		tag = self.result_tag()
		if tag and isinstance(r, T):
			st.types[r.t] = tag
			st.assume(ex.tagf(st, r.t, tag))
		return r

	def ensures(self, H0, H1, a, res, ex):
		return []

	# -- help for the proof
	def within(self, ex, s, entry, pc):
		"""the facts to use inside of a loop (leaving some out is always sound)"""
		return pc

	def ghosts_before(self, ex, st, contract, args):
		"""what defines ghost functions for a call by contract"""
		return []

	def ghosts(self, ex, st, contract, args, res):
		"""what defines ghost functions after a call by contract"""
		return []

	def invariants(self, lc):
		return []

	def variant(self, ex, head, st, node):
		return None

	def hints(self, H0, H1, a, res, ex, st):
		"""facts that are valid in the background theory, to help the solver at the exit"""
		return []


class ListResult(Contract):
	"""a contract of a function that returns a new list"""
	def result(self, ex, st, old_next):
		r = T(Fresh.const('res', V))
		return r

	def result_tag(self):
		return 'list'

	def make_result(self, ex, st, old_next):
		# the new list is the object at the old allocation pointer or later
		nn = ex.comp(st, 'next')
		ref = Fresh.const('next', I)      # an allocated reference
		st.assume(And(ref >= old_next, ref < nn))
		t = V.r(ref)
		ex.setcomp(st, 'cls', ref, z3.IntVal(LIST))
		ex.setcomp(st, 'L', ref, Fresh.const('L_res', L))
		st.types[t] = 'list'
		return T(t)


class Report:
	def __init__(self, key, case):
		self.key, self.case = key, case
		self.obls, self.error, self.time, self.solver_time, self.queries = [], None, 0.0, 0.0, 0
		self.trusted, self.called, self.inlined = set(), set(), set()
		self.paths = 0
		self.vacuous = None
		self.loops = []

	@property
	def failed(self):
		return [o for o in self.obls if o.status != 'proved']

	@property
	def ok(self):
		return self.error is None and not self.failed and bool(self.obls) and not self.vacuous


def store_refs(a, b):
	"""the references stored to between arrays a and b, or None if b is not a chain of stores on a"""
	refs = []
	while not b.eq(a):
		if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE:
			refs.append(b.arg(1))
			b = b.arg(0)
		else:
			return None
	return refs


def check_frame(ex, st, allowed, name, next0, skip=()):
	whole = {c for c in allowed if not isinstance(c, tuple)} | {c for c, r in [x for x in allowed if isinstance(x, tuple)] if r is None}
	for comp in sorted(st.heap):
		if comp in ('next', 'rng') or comp in whole or comp in skip:
			continue
		a, b = ex.init_comp(comp), st.heap[comp]
		if a.eq(b):
			continue
		refs = [r for x in allowed if isinstance(x, tuple) for c, r in [x] if c == comp]
		stores = store_refs(a, b)
		if stores is not None:
			for r in stores:
				d = z3.simplify(r - next0)
				if z3.is_int_value(d) and d.as_long() >= 0 or any(r.eq(q) for q in refs):
					continue
				ex.prove(st, Or(r >= next0, *[r == q for q in refs], z3.Select(b, r) == z3.Select(a, r)), f'{name}: only what is specified changes ({comp})')
			continue
		r = Fresh.const('r', I)
		ex.prove(st, Implies(And(r >= 0, r < next0, *[r != q for q in refs]), z3.Select(b, r) == z3.Select(a, r)),
			f'{name}: only what is specified changes ({comp})')


def verify(program, contract, contracts, models, case='', timeout=4000, budget=120, log=None, setup=None):
	"""check one function against its contract"""
	rep = Report(contract.key, case)
	t0 = time.time()
	ex = Exec(program, contracts, models, log=log, timeout=timeout)
	ex.deadline = t0 + budget
	ex.loop_log = rep.loops
	if setup:
		setup(ex)
	try:
		_verify(ex, contract, case, rep)
	except Unsupported as e:
		rep.error = f'outside the verified subset: {e}'
	except z3.Z3Exception as e:
		rep.error = f'outside the verified subset: z3: {e}'
	except RecursionError:
		rep.error = 'outside the verified subset: too deep'
	rep.obls = ex.obls
	rep.time = time.time() - t0
	rep.solver_time, rep.queries = ex.solver.stats.time, ex.solver.stats.queries
	rep.trusted, rep.called, rep.inlined = ex.trusted, ex.called, ex.inlined
	rep.last_fail = getattr(ex, 'last_fail', None)
	return rep


def _verify(ex, c, case, rep):
	fi = ex.p.func(c.key)
	if fi is None:
		raise Unsupported(f'{c.key} does not exist')
	if fi.other_decorators:
		raise Unsupported(f'decorator on {c.key}')
	st = State()
	st.fn = fi
	next0 = ex.init_comp('next')
	st.assume(next0 >= 1)
	env = c.make_args(ex, st, case)
	# parameters that the contract does not name take their default values; ones it names and that are gone are errors
	bound = {}
	for p in fi.params + fi.kwonly:
		if p in env:
			bound[p] = env[p]
		elif p in fi.defaults:
			bound[p] = ex.default(st, fi, p, fi.node)
		else:
			raise Unsupported(f'parameter {p} is not in the contract')
	for p in env:
		if p not in bound and p != fi.kwarg and p != fi.vararg:
			raise Unsupported(f'parameter {p} of the contract does not exist')
	if fi.kwarg:
		bound[fi.kwarg] = env.get(fi.kwarg, MKw({}))
	if fi.vararg:
		bound[fi.vararg] = MTuple([])
	a = {k: (v.t if isinstance(v, T) else v) for k, v in bound.items()}
	H0 = ex.view(st)
	consts = set()
	from .loops import consts_of
	for v in bound.values():
		if isinstance(v, T):
			consts |= consts_of(v.t)
	ex.rootctx = {'contract': c, 'next0': next0, 'H0': H0, 'args': a, 'consts': consts, 'fi': fi, 'case': case}
	ex.root = fi
	for name, f in c.requires(H0, a, ex):
		st.assume(f)
	for f in c.lemmas(H0, a, ex):
		st.assume(f)
	# a contradictory precondition would make everything provable
	if ex.solver.check(st.pc, z3.BoolVal(True), 3000) == 'unsat':
		rep.vacuous = 'the precondition is contradictory'
		ex.obls.append(Obligation('the precondition is satisfiable', c.key, 'failed', 'contradictory'))
		return
	st.env = dict(bound)
	st.ylist = lnil if fi.is_generator else None
	ex.inline_stack.append(fi)
	try:
		outs = ex.block(fi.node.body, st)
	finally:
		ex.inline_stack.pop()
	rep.paths = len(outs)
	normal = 0
	for kind, s, v in outs:
		if kind == 'raise':
			conds = [f for e, f in c.raises(H0, a, ex) if e == v.name]
			ex.prove(s, Or(*conds) if conds else z3.BoolVal(False), f'raises {v.name} only as specified')
			check_frame(ex, s, c.raise_modifies(H0, a, ex), f'when {v.name} is raised', next0)
			continue
		if kind not in ('return', 'next'):
			raise Unsupported('control flow')
		s = s.fork()
		res = v if kind == 'return' else T(NONE)
		if fi.is_generator:
			res = ex.new_list(s, s.ylist)
		if ex.dead(s):
			continue
		normal += 1
		H1 = ex.view(s)
		for e, f in c.raises(H0, a, ex):
			ex.prove(s, Not(f), f'raises {e} when specified')
		if isinstance(res, (MTuple, MView, MIter, MKw)):
			try:
				res = T(ex.toV(s, res))
				H1 = ex.view(s)
			except Unsupported:
				pass
		rt = res.t if isinstance(res, T) else res
		tag = c.result_tag()
		if tag and isinstance(res, T):
			ex.prove(s, ex.tagf(s, rt, tag), f'the result is a {tag}')
		for f in c.hints(H0, H1, a, rt, ex, s):
			s.assume(f)
		for name, f in c.ensures(H0, H1, a, rt, ex):
			ex.prove(s, f, f'ensures {name}')
		check_frame(ex, s, c.modifies(H0, a, ex), 'frame', next0)
	if normal == 0:
		ex.obls.append(Obligation('some path returns', c.key, 'failed', 'no path returns normally'))
