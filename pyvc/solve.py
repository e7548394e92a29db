"""Solver access: an incremental z3 instance kept in step with the current path condition."""
import time
import z3
from .terms import AXIOMS


RATE = 1800  # units of work of z3 that take about a millisecond


class Stats:
	def __init__(self):
		self.queries = 0
		self.time = 0.0


class Solver:
	def __init__(self, axioms=()):
		self.axioms = list(AXIOMS) + list(axioms)
		self.stats = Stats()
		self.reset()

	def make(self, timeout, seed=0):
		s = z3.SimpleSolver()
		s.set('auto_config', False)
		s.set('smt.mbqi', False)
		self.limit(s, timeout)
		if seed:
			s.set('smt.random_seed', seed)
		return s

	def limit(self, s, timeout):
		"""a limit on the work, not on the time: the answers do not depend on how busy the machine is"""
		s.set('rlimit', timeout * RATE)
		s.set('timeout', timeout * 8)

	def reset(self):
		self.s = self.make(2000)
		self.s.add(*self.axioms)
		self.stack = []
		self.uses = 0

	def sync(self, pc):
		self.uses += 1
		if self.uses > 400:
			self.reset()
		n = 0
		while n < len(self.stack) and n < len(pc) and self.stack[n] is pc[n]:
			n += 1
		if len(self.stack) > n:
			self.s.pop(len(self.stack) - n)
			del self.stack[n:]
		for f in pc[n:]:
			self.s.push()
			self.s.add(f)
			self.stack.append(f)

	def check(self, pc, extra, timeout=2000):
		"""'unsat', 'sat' or 'unknown' of pc and extra"""
		t = time.time()
		self.sync(pc)
		self.limit(self.s, timeout)
		self.s.push()
		self.s.add(extra)
		r = str(self.s.check())
		self.gave_up = r == 'unknown' and 'incomplete' not in self.s.reason_unknown()
		self.s.pop()
		self.stats.queries += 1
		self.stats.time += time.time() - t
		return r

	def fresh_check(self, pc, extra, timeout, seed=0):
		t = time.time()
		s = self.make(timeout, seed)
		s.add(*self.axioms)
		s.add(*pc)
		s.add(extra)
		r = str(s.check())
		reason = s.reason_unknown() if r == 'unknown' else r
		self.stats.queries += 1
		self.stats.time += time.time() - t
		return r, reason
