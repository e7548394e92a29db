import argparse
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa
import checks  # noqa

p = argparse.ArgumentParser()
p.add_argument('property')
p.add_argument('--tier', default='quick')
p.add_argument('--seed', type=int, default=1)
p.add_argument('--budget', type=float, default=40)
p.add_argument('--out', default='/dev/null')
p.add_argument('--replay')
a = p.parse_args()
m = checks.MONITORS[a.property]()
if a.replay:
	case = json.load(open(a.replay))
	case = case.get('case', case)
	msg = m.failing(case)
	print(f'property {a.property}: {msg or "the case passes"}')
	sys.exit(1 if msg else 0)
r = core.run(a.property, m, a.tier, a.seed, a.budget, a.out)
print(r['property'], r['evaluations'], 'cases', f"{r['time']:.1f}s", r['found'])
sys.exit(1 if r['found'] else 0)
