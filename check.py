#!/usr/bin/env python3-vt
"""Decides one property on the current tree of the repository: contracts by proof, and the same statement on the running code."""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

ROOT = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
NFI = 'no-failing-input-found'

BASE_ASSUMPTIONS = [
	'the symbolic semantics of the Python subset in pyvc (expressions, statements, calls, exceptions, lists, dictionaries, strings as opaque values) is that of CPython 3.12',
	'z3 answers unsat only for unsatisfiable formulas; the axioms of pyvc/terms.py hold for Python lists and dictionaries',
	'names of nodes are strings or integers (no bools), as the precondition of the contracts says',
	'no recursion limit, no memory limit, integers are mathematical (as in Python)',
	'no other thread and no code outside the package changes the private attributes of graphs, nodes and edges',
]


def job(a):
	key, case, exclude, budget = a
	try:
		import z3
		from contracts import Suite
		s = Suite(ROOT, exclude=exclude)
		c = s.contracts[key]
		cases = c.cases(None)
		if case is None:
			return key, None, {'cases': cases}
		r = s.verify(key, case, budget=budget)
		if not r.ok and (r.error in (None, 'out of time') and any('cancel' in str(o.detail) or 'resource' in str(o.detail) for o in r.failed) or 'unstable' in str(r.error)):
			# the solver gave up on something: another order of its choices may get there
			z3.set_param('smt.random_seed', 5)
			r = Suite(ROOT, exclude=exclude).verify(key, case, budget=budget)
		return key, case, {
			'ok': r.ok, 'error': r.error, 'obligations': len(r.obls), 'discharged': sum(o.status == 'proved' for o in r.obls),
			'failed': [{'obligation': o.name, 'at': o.where, 'solver': str(o.detail)} for o in r.failed],
			'time': r.time, 'solver_time': r.solver_time, 'queries': r.queries, 'trusted': sorted(map(str, r.trusted)), 'called': sorted(r.called), 'inlined': sorted(r.inlined),
			'vacuous': r.vacuous, 'paths': r.paths, 'names': [f'{o.name} [{o.where}]' if o.where else o.name for o in r.obls],
		}
	except Exception as e:  # a crash of the engine decides nothing
		import traceback
		return key, case, {'ok': False, 'error': f'engine: {type(e).__name__}: {e}', 'trace': traceback.format_exc()[-1500:], 'obligations': 0, 'discharged': 0, 'failed': [], 'time': 0, 'solver_time': 0, 'queries': 0, 'trusted': [], 'called': [], 'inlined': [], 'vacuous': None, 'paths': 0, 'names': []}


class Proof:
	"""verifies functions, and what they call, against their contracts"""
	def __init__(self, roots, budget, deadline, workers):
		self.roots, self.budget, self.deadline, self.workers = list(roots), budget, deadline, workers
		self.results = {}          # key -> {case: result}
		self.inlined_instead = set()
		self.log = []

	def batch(self, keys, exclude=frozenset()):
		from contracts import Suite
		s = Suite(ROOT, exclude=exclude)
		jobs = [(k, c, exclude, self.budget) for k in keys for c in s.contracts[k].cases(None)]
		out = {}
		if not jobs:
			return out
		cost = lambda j: -getattr(s.contracts[j[0]], 'cost', 1)
		jobs.sort(key=cost)
		ctx = mp.get_context('fork')
		with ctx.Pool(min(self.workers, len(jobs)), maxtasksperchild=1) as pool:
			it = [pool.apply_async(job, (j,)) for j in jobs]
			for j, r in zip(jobs, it):
				try:
					key, case, res = r.get(timeout=max(1, self.deadline - time.time()))
				except mp.TimeoutError:
					key, case, res = j[0], j[1], {'ok': False, 'error': 'out of time', 'obligations': 0, 'discharged': 0, 'failed': [], 'time': 0, 'solver_time': 0, 'queries': 0, 'trusted': [], 'called': [], 'inlined': [], 'vacuous': None, 'paths': 0, 'names': []}
				out.setdefault(key, {})[case] = res
			pool.terminate()
		return out

	def run(self):
		todo = list(self.roots)
		while todo:
			res = self.batch(todo)
			self.results.update(res)
			called = {k for r in res.values() for c in r.values() for k in c['called']}
			todo = sorted(called - set(self.results))
		# helpers whose own contract fails: their callers may hold with the helper executed in place
		bad = {k for k in self.results if self.status(k) != 'proved' and k not in self.roots}
		if bad:
			callers = {k for k, r in self.results.items() if k not in bad and any(set(c['called']) & bad for c in r.values())}
			callers |= {k for k in self.roots if k not in callers and self.status(k) != 'proved' and k in self.results}
			res = self.batch(sorted(callers), frozenset(bad))
			good = {k for k, r in res.items() if all(c['ok'] for c in r.values())}
			direct = {k for k in callers if any(set(c['called']) & bad for c in self.results[k].values())}
			if direct <= good:
				for k in good:
					self.results[k] = res[k]
				for k in bad:
					self.inlined_instead.add(k)
					del self.results[k]
				new = {x for k in good for c in res[k].values() for x in c['called']} - set(self.results) - bad
				if new:
					self.results.update(self.batch(sorted(new)))
		return self

	def status(self, key):
		rs = self.results[key].values()
		if all(r['ok'] for r in rs):
			return 'proved'
		if any(r['failed'] or r['vacuous'] for r in rs if not r['error']):
			return 'failed'
		return 'outside'


def start_monitor(prop, tier, seed, budget, out):
	env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=ROOT)
	return subprocess.Popen([PY, os.path.join(HERE, 'monitor', 'run.py'), prop, '--tier', tier, '--seed', str(seed), '--budget', str(budget), '--out', out],
		stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=tempfile.gettempdir())


def finish_monitor(p, out, budget):
	try:
		text, _ = p.communicate(timeout=budget + 120)
	except subprocess.TimeoutExpired:
		p.kill()
		text, _ = p.communicate()
		return None, 'the monitor did not end (a search or loop of the code under test does not terminate)\n' + text[-2000:]
	try:
		with open(out) as f:
			return json.load(f), text
	except (OSError, ValueError):
		return None, text[-3000:]


def write_replay(prop, data):
	d = os.path.join(HERE, 'replays')
	os.makedirs(d, exist_ok=True)
	text = json.dumps(data, indent=1, default=str)
	path = os.path.join(d, f'{prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json')
	with open(path, 'w') as f:
		f.write(text)
	return path


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('property')
	ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
	ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
	ap.add_argument('-v', action='store_true')
	a = ap.parse_args()
	prop, t0 = a.property, time.time()
	quick = a.tier == 'quick'
	from contracts.props import PROOFS, PARTLY
	roots = PROOFS.get(prop, [])
	tmp = tempfile.mkdtemp(prefix='verif-')
	out = os.path.join(tmp, 'monitor.json')
	mbudget = 60 if quick else 600
	mon = start_monitor(prop, a.tier, a.seed, mbudget, out)
	proof = Proof(roots, 220 if quick else 400, t0 + (520 if quick else 3000), 7).run()
	res, text = finish_monitor(mon, out, mbudget)
	violations, notes = [], []

	failed = [k for k in proof.results if proof.status(k) == 'failed']
	outside = [k for k in proof.results if proof.status(k) == 'outside']
	extra = 0
	if res is not None and res['found'] is None and failed and quick:
		# obligations failed: look longer for an input that shows it
		for s in (a.seed + 1000, a.seed + 2000, a.seed + 3000):
			o2 = os.path.join(tmp, f'm{s}.json')
			r2, _ = finish_monitor(start_monitor(prop, 'thorough', s, 25, o2), o2, 25)
			if r2:
				extra += r2['evaluations']
				if r2['found']:
					res['found'] = r2['found']
					break
	obligations = [dict(f, function=k, case=c) for k in failed for c, r in proof.results[k].items() for f in r['failed']]
	if res is None:
		if 'does not terminate' in text:
			violations.append((write_replay(prop, {'property': prop, 'case': None, 'message': text}), ''))
		else:
			# the package cannot be imported or used at all
			p = subprocess.run([PY, '-c', 'import abstract.Graph'], cwd=ROOT, capture_output=True, text=True)
			if p.returncode:
				violations.append((write_replay(prop, {'property': prop, 'case': 'import abstract.Graph', 'message': p.stderr[-2000:]}), ''))
			else:
				print(text)
				print(f'{prop}: the monitor failed to run')
				sys.exit(3)
	elif res['found']:
		violations.append((write_replay(prop, dict(res['found'], failed_obligations=obligations, replay=f'{PY} monitor/run.py {prop} --replay <this file>')), ''))
	elif failed:
		violations.append((write_replay(prop, {'property': prop, 'case': None, 'message': 'obligations that the contracts need are not discharged', 'failed_obligations': obligations,
			'solver_output': [f"{o['function']} {o['case']}: {o['obligation']} {o['at']}: {o['solver']}" for o in obligations],
			'replay': f'python3-vt check.py {prop} -v'}), ' ' + NFI))

	n_obl = sum(r['obligations'] for k in proof.results for r in proof.results[k].values())
	n_dis = sum(r['discharged'] for k in proof.results for r in proof.results[k].values())
	if roots and n_obl == 0 and not violations:
		notes.append('no obligation was generated: nothing is proved on this tree, the bounded check decides')
	trusted = sorted({t for k in proof.results for r in proof.results[k].values() for t in r['trusted']})
	level = ('other' if prop in PARTLY else 'proof') if roots else 'exploration'
	fn = {}
	for k in proof.results:
		rs = proof.results[k]
		fn[k] = {'status': {'proved': 'proved', 'failed': 'obligations failed', 'outside': 'bounded: outside the verifier\'s reach on this tree'}[proof.status(k)],
			'obligations': sum(r['obligations'] for r in rs.values()), 'discharged': sum(r['discharged'] for r in rs.values()),
			'solver_s': round(sum(r['solver_time'] for r in rs.values()), 2), 'queries': sum(r['queries'] for r in rs.values())}
		errs = sorted({r['error'] for r in rs.values() if r['error']})
		if errs:
			fn[k]['reason'] = errs
		inl = sorted({x for r in rs.values() for x in r['inlined']})
		if inl:
			fn[k]['executed_in_place'] = inl
	for k in proof.inlined_instead:
		fn[k] = {'status': 'its own contract does not hold on this tree; executed in place in its callers instead'}
	from contracts.props import BOUNDED
	cov = {
		'functions_under_contract': fn,
		'proved_functions': sum(proof.status(k) == 'proved' for k in proof.results),
		'obligation_names': sorted({n for k in proof.results for r in proof.results[k].values() for n in r['names']})[:400],
		'backend': 'z3 (E-matching, no model-based instantiation), through the generator in pyvc',
		'solver_s': round(sum(f.get('solver_s', 0) for f in fn.values()), 2),
		'bounded_parts': BOUNDED.get(prop, []) + [k for k in outside],
		'evaluations': (res or {}).get('evaluations', 0) + extra,
		'distinct_nontrivial': (res or {}).get('distinct', 0),
		'rule': 'run-time check of the contracts (bounded, not counted as proof): ' + (res or {}).get('limits', 'did not run') + '; non-trivial: distinct cases, every one is executed on the real code and compared with an independent model',
		'samples': (res or {}).get('samples', [])[:3] or ['none'],
	}
	if roots:
		cov.update(obligations=n_obl, discharged=n_dis, checker_cmd=f'python3-vt check.py {prop}', trusted_base=trusted + ['pyvc (the generator of this directory)', 'z3'])
	if notes:
		cov['notes'] = notes
	ev = {'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': level, 'coverage': cov, 'assumptions': (BASE_ASSUMPTIONS + trusted) if roots else ['bounded: only the cases explored are decided'],
		'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
	os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
	with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
		json.dump(ev, f, indent=1, default=str)
	for f in os.listdir(tmp):
		os.unlink(os.path.join(tmp, f))
	os.rmdir(tmp)

	print(f'{prop} ({a.tier}): {cov["proved_functions"]}/{len(fn)} functions proved, {n_dis}/{n_obl} obligations discharged, {cov["evaluations"]} cases executed, {ev["wall_s"]} s')
	for k in outside:
		print(f'  bounded only: {k}: {fn[k].get("reason")}')
	for o in obligations[:20] if a.v or violations else []:
		print(f'  not discharged: {o["function"]} {o["case"]}: {o["obligation"]} {o["at"]} ({o["solver"]})')
	if a.v:
		for k, v in fn.items():
			print('  ', k, v)
	if res and res['found']:
		print('  failing input:', res['found']['message'])
	for path, suffix in violations:
		print(f'VIOLATION property={prop} replay={path}{suffix}')
	sys.exit(1 if violations else 0)


if __name__ == '__main__':
	if os.environ.get('PYTHONHASHSEED') != '0':
		os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
	main()
