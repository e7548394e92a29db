"""Sorts, functions and axioms of the verifier's background theory.

A Python value is a term of the datatype V.  Mutable objects are references (V.r) into a heap whose
components are arrays indexed by reference; list and dict contents are immutable abstract values of the
sorts L and D, axiomatised below.
"""
import os
import sys
import z3

QID = os.environ.get('PYVC_QID')      # name quantifiers by where they are written, for profiles

_V = z3.Datatype('V')
_V.declare('none')
_V.declare('b', ('bv', z3.BoolSort()))
_V.declare('i', ('iv', z3.IntSort()))
_V.declare('f', ('fv', z3.RealSort()))
_V.declare('s', ('sv', z3.IntSort()))       # a string, by code; literals have distinct codes
_V.declare('r', ('rv', z3.IntSort()))       # a reference to a heap object
_V.declare('o', ('ov', z3.IntSort()))       # an object of a class the verifier does not look into
_V.declare('t2', ('a2', _V), ('b2', _V))
_V.declare('t3', ('a3', _V), ('b3', _V), ('c3', _V))
_V.declare('t4', ('a4', _V), ('b4', _V), ('c4', _V), ('d4', _V))
V = _V.create()
L = z3.DeclareSort('L')
D = z3.DeclareSort('D')
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()

NONE = V.none
TRUE, FALSE = V.b(True), V.b(False)

F = z3.Function
llen, lat, lmem, lidx = F('llen', L, I), F('lat', L, I, V), F('lmem', L, V, B), F('lidx', L, V, I)
lnil, lapp, lcat, lrem = z3.Const('lnil', L), F('lapp', L, V, L), F('lcat', L, L, L), F('lrem', L, V, L)
ltake, ldrop = F('ltake', L, I, L), F('ldrop', L, I, L)
lprefix = F('lprefix', L, L, B)
lsub = F('lsub', L, L, B)                   # a subsequence: the same order, some elements left out
lperm = F('lperm', L, L, B)                 # the same elements in some order
nodup = F('nodup', L, B)
lset = F('lset', L, I, V, L)
lsorted = F('lsorted', L, L)
ddom, dget, dkeys, dvals = F('ddom', D, V, B), F('dget', D, V, V), F('dkeys', D, L), F('dvals', D, L)
dkof = F('dkof', D, V, V)
dnil, dset, ddel = z3.Const('dnil', D), F('dset', D, V, V, D), F('ddel', D, V, D)
dsome = F('dsome', D, V)                    # a key of a dictionary that is not empty
truth_o = F('truth_o', I, B)                # truthiness of an opaque object
card = F('card', z3.ArraySort(V, B), I)

_w1, _w2 = F('dup1', D, V), F('dup2', D, V)

_x, _y, _k, _k2, _v, _w = z3.Consts('x y k k2 v w', V)
_l, _m, _n = z3.Consts('l m n', L)
_d, _e = z3.Consts('d e', D)
_i, _j = z3.Ints('i j')


def EX(vs, body, pats=None):
	if pats:
		return z3.Exists(vs, body, patterns=[p if not isinstance(p, tuple) else z3.MultiPattern(*p) for p in pats])
	return z3.Exists(vs, body)


def FA(vs, body, pats=None, qid=None):
	kw = {}
	if QID and not qid:
		f = sys._getframe(1)
		while f.f_code.co_name in ('<lambda>', '<listcomp>', '<genexpr>'):
			f = f.f_back
		qid = f'{os.path.basename(f.f_code.co_filename)}:{f.f_lineno}:{f.f_code.co_name}'
	if qid:
		kw['qid'] = qid
	if pats:
		return z3.ForAll(vs, body, patterns=[p if not isinstance(p, tuple) else z3.MultiPattern(*p) for p in pats], **kw)
	return z3.ForAll(vs, body, **kw)


And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If

AXIOMS = [
	FA([_l], llen(_l) >= 0, [llen(_l)]),
	FA([_l, _i], Implies(And(0 <= _i, _i < llen(_l)), lmem(_l, lat(_l, _i))), [lat(_l, _i)]),
	FA([_l, _x], Implies(lmem(_l, _x), And(0 <= lidx(_l, _x), lidx(_l, _x) < llen(_l), lat(_l, lidx(_l, _x)) == _x)),
		[lmem(_l, _x)]),
	FA([_l, _i], Implies(And(0 <= _i, _i < llen(_l)), lidx(_l, lat(_l, _i)) <= _i), [lidx(_l, lat(_l, _i))]),
	llen(lnil) == 0,
	FA([_x], Not(lmem(lnil, _x)), [lmem(lnil, _x)]),
	FA([_l, _x], And(llen(lapp(_l, _x)) == llen(_l) + 1, lmem(lapp(_l, _x), _x), lat(lapp(_l, _x), llen(_l)) == _x),
		[lapp(_l, _x)]),
	FA([_l, _x, _y], lmem(lapp(_l, _x), _y) == Or(lmem(_l, _y), _y == _x), [lmem(lapp(_l, _x), _y)]),
	FA([_l, _x, _y], Implies(lmem(_l, _y), lmem(lapp(_l, _x), _y)), [(lapp(_l, _x), lmem(_l, _y))]),
	FA([_l, _x, _i], Implies(And(0 <= _i, _i < llen(_l)), lat(lapp(_l, _x), _i) == lat(_l, _i)), [lat(lapp(_l, _x), _i)]),
	FA([_l, _m], llen(lcat(_l, _m)) == llen(_l) + llen(_m), [lcat(_l, _m)]),
	FA([_l, _m, _x], lmem(lcat(_l, _m), _x) == Or(lmem(_l, _x), lmem(_m, _x)), [lmem(lcat(_l, _m), _x)]),
	FA([_l, _m, _i], Implies(And(0 <= _i, _i < llen(_l)), lat(lcat(_l, _m), _i) == lat(_l, _i)), [lat(lcat(_l, _m), _i)]),
	FA([_l, _m, _i], Implies(And(llen(_l) <= _i, _i < llen(_l) + llen(_m)), lat(lcat(_l, _m), _i) == lat(_m, _i - llen(_l))),
		[lat(lcat(_l, _m), _i)]),
	# removal of the first occurrence
	FA([_l, _x], Implies(lmem(_l, _x), llen(lrem(_l, _x)) == llen(_l) - 1), [lrem(_l, _x)]),
	FA([_l, _x, _y], Implies(_y != _x, lmem(lrem(_l, _x), _y) == lmem(_l, _y)), [lmem(lrem(_l, _x), _y), (lrem(_l, _x), lmem(_l, _y))]),
	FA([_l, _x, _y], Implies(lmem(lrem(_l, _x), _y), lmem(_l, _y)), [lmem(lrem(_l, _x), _y)]),
	FA([_l, _x], Implies(nodup(_l), And(nodup(lrem(_l, _x)), Not(lmem(lrem(_l, _x), _x)))), [lrem(_l, _x)]),
	# no duplicates
	nodup(lnil),
	FA([_l, _x], nodup(lapp(_l, _x)) == And(nodup(_l), Not(lmem(_l, _x))), [nodup(lapp(_l, _x))]),
	FA([_l, _i, _j], Implies(And(nodup(_l), 0 <= _i, _i < llen(_l), 0 <= _j, _j < llen(_l), lat(_l, _i) == lat(_l, _j)), _i == _j),
		[(nodup(_l), lat(_l, _i), lat(_l, _j))]),
	# prefixes
	FA([_l, _m], Implies(lprefix(_l, _m), llen(_l) <= llen(_m)), [lprefix(_l, _m)]),
	FA([_l, _m, _i], Implies(And(lprefix(_l, _m), 0 <= _i, _i < llen(_l)), lat(_l, _i) == lat(_m, _i)),
		[(lprefix(_l, _m), lat(_l, _i)), (lprefix(_l, _m), lat(_m, _i))]),
	FA([_l, _m, _x], Implies(And(lprefix(_l, _m), lmem(_l, _x)), lmem(_m, _x)), [(lprefix(_l, _m), lmem(_l, _x))]),
	FA([_l, _m], Implies(And(lprefix(_l, _m), nodup(_m)), nodup(_l)), [(lprefix(_l, _m), nodup(_m))]),
	# subsequences
	FA([_l], lsub(_l, _l), [lsub(_l, _l)]),
	FA([_l, _m, _n], Implies(And(lsub(_l, _m), lsub(_m, _n)), lsub(_l, _n)), [(lsub(_l, _m), lsub(_m, _n))]),
	FA([_l, _x], lsub(lrem(_l, _x), _l), [lrem(_l, _x)]),
	# permutations
	FA([_l], lperm(_l, _l), [lperm(_l, _l)]),
	FA([_l, _m], Implies(lperm(_l, _m), llen(_l) == llen(_m)), [lperm(_l, _m)]),
	FA([_l, _m, _x], Implies(lperm(_l, _m), lmem(_l, _x) == lmem(_m, _x)), [(lperm(_l, _m), lmem(_l, _x)), (lperm(_l, _m), lmem(_m, _x))]),
	FA([_l, _m], Implies(lperm(_l, _m), nodup(_l) == nodup(_m)), [(lperm(_l, _m), nodup(_l)), (lperm(_l, _m), nodup(_m))]),
	# take / drop
	FA([_l, _i], Implies(And(0 <= _i, _i <= llen(_l)), And(llen(ltake(_l, _i)) == _i, lprefix(ltake(_l, _i), _l))), [ltake(_l, _i)]),
	FA([_l, _i], Implies(_i > llen(_l), ltake(_l, _i) == _l), [ltake(_l, _i)]),
	FA([_l, _i], Implies(And(0 <= _i, _i <= llen(_l)), llen(ldrop(_l, _i)) == llen(_l) - _i), [ldrop(_l, _i)]),
	FA([_l, _i, _j], Implies(And(0 <= _i, 0 <= _j, _j < llen(_l) - _i), lat(ldrop(_l, _i), _j) == lat(_l, _i + _j)), [lat(ldrop(_l, _i), _j)]),
	# item assignment
	FA([_l, _i, _x], Implies(And(0 <= _i, _i < llen(_l)), And(llen(lset(_l, _i, _x)) == llen(_l), lat(lset(_l, _i, _x), _i) == _x)), [lset(_l, _i, _x)]),
	FA([_l, _i, _x, _j], Implies(And(0 <= _i, _i < llen(_l), _i != _j), lat(lset(_l, _i, _x), _j) == lat(_l, _j)), [lat(lset(_l, _i, _x), _j)]),
	# sorting keeps the elements
	FA([_l], llen(lsorted(_l)) == llen(_l), [lsorted(_l)]),
	FA([_l, _x], lmem(lsorted(_l), _x) == lmem(_l, _x), [lmem(lsorted(_l), _x)]),
	FA([_l, _x], Implies(lmem(_l, _x), lmem(lsorted(_l), _x)), [(lsorted(_l), lmem(_l, _x))]),
	# dictionaries
	FA([_d, _k], lmem(dkeys(_d), _k) == ddom(_d, _k), [lmem(dkeys(_d), _k), (dkeys(_d), ddom(_d, _k))]),
	FA([_d], nodup(dkeys(_d)), [dkeys(_d)]),
	FA([_k], Not(ddom(dnil, _k)), [ddom(dnil, _k)]),
	dkeys(dnil) == lnil,
	FA([_d, _k, _v, _k2], ddom(dset(_d, _k, _v), _k2) == Or(_k2 == _k, ddom(_d, _k2)), [ddom(dset(_d, _k, _v), _k2)]),
	FA([_d, _k, _v, _k2], Implies(ddom(_d, _k2), ddom(dset(_d, _k, _v), _k2)), [(dset(_d, _k, _v), ddom(_d, _k2))]),
	FA([_d, _k, _v, _k2], dget(dset(_d, _k, _v), _k2) == If(_k2 == _k, _v, dget(_d, _k2)), [dget(dset(_d, _k, _v), _k2)]),
	FA([_d, _k, _v], And(ddom(dset(_d, _k, _v), _k), dget(dset(_d, _k, _v), _k) == _v,
		dkeys(dset(_d, _k, _v)) == If(ddom(_d, _k), dkeys(_d), lapp(dkeys(_d), _k))), [dset(_d, _k, _v)]),
	FA([_d, _k, _v, _w], dset(dset(_d, _k, _v), _k, _w) == dset(_d, _k, _w), [dset(dset(_d, _k, _v), _k, _w)]),
	FA([_d, _k, _v], Implies(And(ddom(_d, _k), dget(_d, _k) == _v), dset(_d, _k, _v) == _d), [dset(_d, _k, _v)]),
	FA([_d, _k, _k2], ddom(ddel(_d, _k), _k2) == And(_k2 != _k, ddom(_d, _k2)), [ddom(ddel(_d, _k), _k2)]),
	FA([_d, _k, _k2], Implies(And(_k2 != _k, ddom(_d, _k2)), ddom(ddel(_d, _k), _k2)), [(ddel(_d, _k), ddom(_d, _k2))]),
	FA([_d, _k, _k2], Implies(_k2 != _k, dget(ddel(_d, _k), _k2) == dget(_d, _k2)), [dget(ddel(_d, _k), _k2)]),
	FA([_d, _k], dkeys(ddel(_d, _k)) == lrem(dkeys(_d), _k), [ddel(_d, _k)]),
	FA([_d], llen(dvals(_d)) == llen(dkeys(_d)), [dvals(_d)]),
	FA([_d, _i], Implies(And(0 <= _i, _i < llen(dkeys(_d))), And(lat(dvals(_d), _i) == dget(_d, lat(dkeys(_d), _i)),
		ddom(_d, lat(dkeys(_d), _i)))), [lat(dvals(_d), _i)]),
	FA([_d, _k], Implies(ddom(_d, _k), lmem(dvals(_d), dget(_d, _k))), [(dvals(_d), ddom(_d, _k)), (dvals(_d), dget(_d, _k))]),
	FA([_d], Or(nodup(dvals(_d)), And(ddom(_d, _w1(_d)), ddom(_d, _w2(_d)), _w1(_d) != _w2(_d), dget(_d, _w1(_d)) == dget(_d, _w2(_d)))),
		[nodup(dvals(_d))]),
	FA([_d, _v], Implies(lmem(dvals(_d), _v), And(ddom(_d, dkof(_d, _v)), dget(_d, dkof(_d, _v)) == _v)), [lmem(dvals(_d), _v)]),
]

def empty_or_not(d):
	"""valid: a dictionary is the empty dictionary or has a key"""
	return Or(d == dnil, And(ddom(d, dsome(d)), lmem(dkeys(d), dsome(d))))


nodeof = F('nodeof', D, V, V)     # the node that a name, or a node itself, stands for
AXIOMS.append(FA([_d, _x], nodeof(_d, _x) == If(V.is_r(_x), _x, dget(_d, _x)), [nodeof(_d, _x)]))

# strings by code
_codes = {}


def code(text):
	if text not in _codes:
		_codes[text] = len(_codes)
	return _codes[text]


def lit(text):
	return V.s(z3.IntVal(code(text)))


code('')   # the empty string has code 0
_templates = {}


def literal_text(t):
	"""the text of a literal, or None"""
	if z3.is_app(t) and t.decl().eq(V.s) and z3.is_int_value(t.arg(0)):
		n = t.arg(0).as_long()
		for text, c in _codes.items():
			if c == n:
				return text
	return None


def text_parts(t):
	"""what a text is made of: literals, and terms that stand for their str()"""
	c = literal_text(t)
	if c is not None:
		return [c] if c else []
	if z3.is_app(t) and t.decl().eq(V.s) and z3.is_app(t.arg(0)):
		f = t.arg(0)
		if f.decl().name() in _templates:
			args = f.children()
			return [p if isinstance(p, str) else args[p[0]] if p[1] == '{}' else (p[1], args[p[0]]) for p in _templates[f.decl().name()]]
		if f.decl().name() == 'str' and f.num_args() == 1:
			return [f.arg(0)]
	return [t]


def text_of(parts):
	"""the text made of literals and of terms that stand for their str(): the same term however it was put together"""
	flat = []
	for p in parts:
		for q in (text_parts(p) if z3.is_expr(p) else [p] if p else []):
			if isinstance(q, str) and flat and isinstance(flat[-1], str):
				flat[-1] += q
			else:
				flat.append(q)
	if all(isinstance(p, str) for p in flat):
		return lit(''.join(flat))
	args = [p[1] if isinstance(p, tuple) else p for p in flat if not isinstance(p, str)]
	if len(flat) == 1 and not isinstance(flat[0], tuple):
		x = flat[0]
		return x if z3.is_app(x) and x.decl().eq(V.s) else V.s(ufn('str', V, I)(x))
	n, template, name = 0, [], 'text:'
	for p in flat:
		if isinstance(p, str):
			template.append(p)
			name += p.replace('{', '{{').replace('}', '}}')
		else:
			k = p[0] if isinstance(p, tuple) else '{}'
			template.append((n, k))
			name += k
			n += 1
	_templates[name] = template
	return V.s(ufn(name, *([V] * n), I)(*args))


_fns = {}


def ufn(name, *sorts):
	"""an uninterpreted function, by name and signature"""
	key = (name,) + tuple(str(s) for s in sorts)
	if key not in _fns:
		_fns[key] = z3.Function(name, *sorts)
	return _fns[key]


class Fresh:
	n = 0
	log = None    # when a list, records every fresh constant made

	@classmethod
	def const(cls, name, sort):
		cls.n += 1
		c = z3.Const(f'{name}!{cls.n}', sort)
		if cls.log is not None:
			cls.log.append(c)
		return c


_ites = {}


_mentioned = {}


def mentions(t, name):
	"""is there a function with a name that starts like this in a formula?"""
	k = (t.get_id(), name)
	known = _mentioned.get(k)
	if known is None:
		found = mentions(t.body(), name) if z3.is_quantifier(t) else z3.is_app(t) and (t.decl().name().startswith(name) or any(mentions(c, name) for c in t.children()))
		known = _mentioned[k] = (found, t)
	return known[0]


def has_ite(t):
	"""is there a case distinction in a term? (arrays are not looked into)"""
	i = t.get_id()
	known = _ites.get(i)
	if known is None:
		found = z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c) for c in t.children() if not z3.is_array(c)))
		known = _ites[i] = (found, t)
	return known[0]
