"""Writes /verif/MANIFEST.json from what contracts/props.py proves (run by hand)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts.props import PROOFS, BOUNDED, PARTLY
NA = {}
try:
	from contracts.props import NOT_APPLICABLE as NA
except ImportError:
	pass
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
	i = p['id']
	if i in NA or i not in PROOFS:
		na.append({'property': i, 'reason': NA.get(i, 'no contract of this property is discharged yet')})
		continue
	note = 'Every obligation of the functions in the evidence file is discharged by z3 on every run, for all inputs; each function is checked against the contracts of what it calls. '
	if BOUNDED.get(i):
		note += 'Bounded, not proved: ' + '; '.join(BOUNDED[i]) + '. '
	note += 'Trusted: the generator pyvc (its model of Python), z3, and the assumptions in the evidence. The same statement is run on the real code (bounded) to find failing inputs.'
	checks.append({'property': i, 'quick_cmd': f'python3-vt check.py {i}', 'thorough_cmd': f'python3-vt check.py {i} --tier thorough',
		'technique': 'contract-based deductive verification (own VC generator over the real Python source, z3)', 'level': 'other' if i in PARTLY else 'proof', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, contracts.props"', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
