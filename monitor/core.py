"""Run-time check of the contracts on the real code: the graph next to an independent model of it."""
import itertools
import json
import os
import random
import sys
import time
import warnings

sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.setrecursionlimit(5000)
sys.dont_write_bytecode = True

from abstract.Graph import Graph  # noqa
from abstract.Node import Node  # noqa
from abstract.Edge import Edge  # noqa

UNSET = '__unset__'


class Broken(Exception):
	"""the real code does not do what the property says"""


def need(cond, text):
	if not cond:
		raise Broken(text() if callable(text) else text)


def same(real, expected, what):
	if type(real) is not type(expected) or real != expected:
		raise Broken(f'{what}: got {real!r}, expected {expected!r}')


# ---------------------------------------------------------------------- the model
class Model:
	def __init__(self):
		self.nodes = {}       # name -> [label, value]
		self.edges = {}       # (start, end, id) -> [label, value]
		self.out, self.inn = {}, {}

	def key(self, x):
		return x

	def add(self, name, label=None, value=None):
		if name in self.nodes:
			if label is not None:
				self.nodes[name][0] = label
			if value is not None:
				self.nodes[name][1] = value
		else:
			self.nodes[name] = [label, value]
			self.out[name], self.inn[name] = [], []

	def connect(self, s, e, i=None, label=None, value=None):
		t = (s, e, i)
		if t in self.edges:
			if label is not None:
				self.edges[t][0] = label
			if value is not None:
				self.edges[t][1] = value
		else:
			self.edges[t] = [label, value]
			self.out[s].append(t)
			self.inn[e].append(t)

	def drop_edge(self, t):
		del self.edges[t]
		self.out[t[0]].remove(t)
		self.inn[t[1]].remove(t)

	def remove(self, name):
		for t in [t for t in self.edges if name in (t[0], t[1]) and self.is_(name, t)]:
			self.drop_edge(t)
		del self.nodes[name], self.out[name], self.inn[name]

	def is_(self, name, t):
		return True

	def copy(self):
		m = Model()
		m.nodes = {k: list(v) for k, v in self.nodes.items()}
		m.edges = {k: list(v) for k, v in self.edges.items()}
		m.out = {k: list(v) for k, v in self.out.items()}
		m.inn = {k: list(v) for k, v in self.inn.items()}
		return m

	# relations
	def children(self, n):
		return [t[1] for t in self.out[n]]

	def parents(self, n):
		return [t[0] for t in self.inn[n]]

	def levels(self, n, step):
		"""names by shortest distance of at least one step"""
		res, seen, level = {}, set(), [n]
		while level:
			nxt = []
			for x in level:
				for y in step(x):
					if y not in seen:
						seen.add(y)
						nxt.append(y)
			if nxt:
				res[len(res) + 1] = nxt
			level = nxt
		return res

	def down(self, n):
		"""names reachable by at least one edge"""
		return {y for l in self.levels(n, self.children).values() for y in l}

	def up(self, n):
		return {y for l in self.levels(n, self.parents).values() for y in l}

	def in_loop(self, n):
		return n in self.down(n)


# ---------------------------------------------------------------------- comparing
def names(nodes):
	return [n.name for n in nodes]


def typed(xs):
	"""names that keep 1 and '1' apart"""
	return [(type(x).__name__, x) for x in xs]


def same_set(real, expected, what):
	need(sorted(map(repr, real)) == sorted(map(repr, expected)), lambda: f'{what}: got {sorted(map(repr, real))}, expected {sorted(map(repr, expected))}')


def compare(g, m, what='graph'):
	"""the graph is exactly what the model says, and all its objects agree with each other"""
	same(list(g.nodes_dict), list(m.nodes), f'{what}: names')
	same(names(g.nodes), list(m.nodes), f'{what}: names of the nodes')
	seen = []
	for name, (label, value) in m.nodes.items():
		n = g.get_node(name)
		need(g.nodes_dict[name] is n, f'{what}: node {name!r} by name')
		need(type(n.name) is type(name) and n.name == name and n.id == name, f'{what}: node {name!r} is called {n.name!r}')
		need(n.graph is g, f'{what}: node {name!r} does not belong to the graph')
		need(n._label == label and n.value == value, lambda: f'{what}: label and value of {name!r}: {n._label!r}, {n.value!r}, expected {label!r}, {value!r}')
		same(list(n.outward_edges_dict), m.out[name], f'{what}: outward edges of {name!r}')
		same(list(n.inward_edges_dict), m.inn[name], f'{what}: inward edges of {name!r}')
		same([e.id for e in n.outward_edges], m.out[name], f'{what}: list of outward edges of {name!r}')
		same([e.id for e in n.inward_edges], m.inn[name], f'{what}: list of inward edges of {name!r}')
		for t, e in n.outward_edges_dict.items():
			need(e.id == t, f'{what}: edge {t!r} has id {e.id!r}')
			need(e.start is n and e.end is g.nodes_dict.get(t[1]), f'{what}: ends of edge {t!r}')
			need(e.end.inward_edges_dict.get(t) is e, f'{what}: edge {t!r} is not the one recorded at its end')
			need(e.graph is g, f'{what}: edge {t!r} does not belong to the graph')
			need(e.label == m.edges[t][0] and e.value == m.edges[t][1], lambda: f'{what}: label and value of edge {t!r}: {e.label!r}, {e.value!r}, expected {m.edges[t]}')
		for t, e in n.inward_edges_dict.items():
			need(e.end is n and e.start is g.nodes_dict.get(t[0]), f'{what}: ends of inward edge {t!r}')
			need(e.start.outward_edges_dict.get(t) is e, f'{what}: edge {t!r} is not the one recorded at its start')
		seen.append(id(n))
	need(len(set(seen)) == len(seen), f'{what}: one node under two names')
	es = g.edges
	same_set([e.id for e in es], list(m.edges), f'{what}: edges')
	ed = g.edges_dict
	same_set(list(ed), list(m.edges), f'{what}: keys of the dictionary of edges')
	for e in es:
		need(ed[e.id] is e, f'{what}: edge {e.id!r} in the dictionary of edges is another object')


def snapshot(g):
	"""everything observable of the structure of a graph"""
	return (
		[(type(k).__name__, k, id(n), n._label, id(n._value), n._index, id(n._graph), id(n._style),
			[(t, id(e), id(e._start), id(e._end), e._label, id(e._value), id(e._graph), id(e._style)) for t, e in n._outward_edges_dict.items()],
			[(t, id(e)) for t, e in n._inward_edges_dict.items()]) for k, n in g._nodes_dict.items()],
		g._is_strict, g._ordering)


# ---------------------------------------------------------------------- histories
def fresh(**kw):
	return Graph(**kw)


class World:
	"""a graph and its model, driven by a history of operations"""
	def __init__(self, **kw):
		self.g, self.m = fresh(**kw), Model()
		self.removed = []          # (node object, name, label, value) that were removed and have not been added again
		self.log = []

	def raises(self, exc, f, what):
		before = snapshot(self.g)
		try:
			r = f()
		except exc:
			need(snapshot(self.g) == before, f'{what}: the graph changed although it raised {exc}')
			return
		except Exception as e:
			raise Broken(f'{what}: raised {type(e).__name__}: {e}, expected {exc}')
		raise Broken(f'{what}: returned {r!r}, expected {exc}')

	def ref(self, name, how):
		"""a node by name or as an object"""
		return self.g.nodes_dict[name] if how else name

	def do(self, op):
		g, m = self.g, self.m
		kind, a = op[0], op[1:]
		if kind == 'add':
			name, label, value = (list(a) + [None, None])[:3]
			policy = a[3] if len(a) > 3 else 'ignore'
			old = g.nodes_dict.get(name)
			kw = {'if_node_exists': policy} if policy != UNSET else {}
			if label is not None:
				kw['label'] = label
			if value is not None:
				kw['value'] = value
			if old is not None and policy == 'error':
				self.raises(KeyError, lambda: g.add_node(name, **kw), f'add_node({name!r}) again with error')
				return
			with warnings.catch_warnings(record=True) as w:
				warnings.simplefilter('always')
				n = g.add_node(name, **kw)
			need(bool(w) == (old is not None and policy in ('warn', UNSET)), f'add_node({name!r}, {policy}): warnings {len(w)}')
			m.add(name, label, value)
			need(n is g.nodes_dict.get(name), f'add_node({name!r}) does not return the node that is registered')
			need(old is None or n is old, f'add_node({name!r}) replaced the node')
		elif kind == 'connect':
			s, e = a[0], a[1]
			i = a[2] if len(a) > 2 else None
			label, value, policy, how = (list(a[3:]) + [None, None, 'ignore', 0][len(a[3:]):])
			kw = {'if_edge_exists': policy} if policy != UNSET else {}
			if i is not None:
				kw['id'] = i
			if label is not None:
				kw['label'] = label
			if value is not None:
				kw['value'] = value
			if s not in m.nodes or e not in m.nodes:
				self.raises(KeyError, lambda: g.connect(s, e, **kw), f'connect({s!r}, {e!r}) with a missing node')
				return
			t = (s, e, i)
			if t in m.edges and policy == 'error':
				self.raises(ValueError, lambda: g.connect(s, e, **kw), f'connect{t!r} again with error')
				return
			old = g.nodes_dict[s].outward_edges_dict.get(t)
			with warnings.catch_warnings(record=True) as w:
				warnings.simplefilter('always')
				if how == 2:
					edge = g.nodes_dict[s].connect_to(g.nodes_dict[e], **kw)
				elif how == 3:
					edge = g.nodes_dict[e].connect_from(g.nodes_dict[s], **kw)
				else:
					edge = g.connect(start=self.ref(s, how), end=self.ref(e, how), **kw)
			need(bool(w) == (t in m.edges and policy in ('warn', UNSET)), f'connect{t!r}, {policy}: warnings {len(w)}')
			m.connect(s, e, i, label, value)
			need(edge is g.nodes_dict[s].outward_edges_dict.get(t), f'connect{t!r} does not return the edge that is registered')
			need(old is None or old is edge, f'connect{t!r} replaced the edge')
		elif kind == 'remove':
			name, how = a[0], (a[1] if len(a) > 1 else 0)
			if name not in m.nodes:
				self.raises(KeyError, lambda: g.remove_node(name), f'remove_node({name!r}) of a missing node')
				return
			n = g.nodes_dict[name]
			edges = list(n.outward_edges_dict.values()) + list(n.inward_edges_dict.values())
			g.remove_node(self.ref(name, how))
			m_label = m.nodes[name]
			m.remove(name)
			need(n.graph is None, f'removed node {name!r} still belongs to a graph')
			need(not n.outward_edges_dict and not n.inward_edges_dict, f'removed node {name!r} still has edges')
			need(all(e._start is None and e._end is None and e._graph is None for e in edges), f'an edge of the removed node {name!r} still refers to the graph')
			self.removed.append((n, name, m_label))
		elif kind == 'cut':
			k, how = a
			if not m.edges:
				return
			t = list(m.edges)[k % len(m.edges)]
			e = g.nodes_dict[t[0]].outward_edges_dict[t]
			if how:
				e.remove_self()
			else:
				g.disconnect(e)
			m.drop_edge(t)
			need(e.graph is None, f'removed edge {t!r} still belongs to a graph')
		elif kind == 'isolate':
			name = a[0]
			if name not in m.nodes:
				return
			g.nodes_dict[name].remove_edges()
			for t in [t for t in m.edges if t in m.out[name] or t in m.inn[name]]:
				m.drop_edge(t)
		elif kind == 'readd':
			if not self.removed:
				return
			n, name, lv = self.removed[a[0] % len(self.removed)]
			if name in m.nodes:
				self.raises(ValueError, lambda: g.add_node(n), f'adding removed node {name!r} while the name is taken')
				return
			r = g.add_node(n)
			need(r is n, f'adding removed node {name!r} returns another object')
			self.removed.remove((n, name, lv))
			m.add(name, *lv)
		elif kind == 'again':
			# adding a node object that is registered does nothing
			if a[0] in m.nodes:
				n = g.nodes_dict[a[0]]
				before = snapshot(g)
				need(g.add_node(n) is n and snapshot(g) == before, f'adding the registered node {a[0]!r} again changes something')
		elif kind == 'foreign':
			name = a[0]
			other = fresh()
			n = other.add_node(name)
			self.raises(ValueError, lambda: g.add_node(n), f'adding node {name!r} of another graph')
			need(n.graph is other, 'a rejected node changed graphs')
		elif kind == 'badname':
			bad = {'none': None, 'list': ['a'], 'float': 1.5, 'tuple': ('a', 'b')}[a[0]]
			self.raises(TypeError, lambda: g.add_node(bad), f'add_node({bad!r})')
		elif kind == 'copy':
			self.g = g.copy()
			self.removed = []
		else:
			raise ValueError(kind)

	def run(self, ops, check=None):
		for op in ops:
			self.log.append(op)
			self.do(op)
			if check:
				check(self)
		return self


# ---------------------------------------------------------------------- making cases
NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']
ODD_NAMES = ['', 'a b', 0, 1, '1', '0', -3, 'root', 'ä"', 7]


def digraph_ops(names_, edges):
	return [['add', n] for n in names_] + [['connect', *e] for e in edges]


def all_digraphs(n, loops=True, stride=1, offset=0):
	pairs = [(NAMES[i], NAMES[j]) for i in range(n) for j in range(n) if loops or i != j]
	for k in range(offset, 2 ** len(pairs), stride):
		yield digraph_ops(NAMES[:n], [p for b, p in enumerate(pairs) if k >> b & 1])


def shapes():
	"""shapes that small enumerations do not have"""
	chain = [f'n{i}' for i in range(40)]
	yield digraph_ops(chain, list(zip(chain, chain[1:])))
	yield digraph_ops(list(reversed(chain)), list(zip(chain, chain[1:])))
	ring = [f'r{i}' for i in range(12)]
	yield digraph_ops(ring, list(zip(ring, ring[1:] + ring[:1])))
	yield digraph_ops(ring + ['in', 'out'], list(zip(ring, ring[1:] + ring[:1])) + [('in', 'r0'), ('r5', 'out')])
	star = [f's{i}' for i in range(25)]
	yield digraph_ops(['hub'] + star, [('hub', s) for s in star])
	yield digraph_ops(star + ['hub'], [(s, 'hub') for s in star])
	# ladders of diamonds, two rings that share a node, multiple edges
	rungs, es = [], []
	for i in range(8):
		rungs += [f't{i}', f'l{i}', f'r{i}']
		es += [(f't{i}', f'l{i}'), (f't{i}', f'r{i}')]
		if i:
			es += [(f'l{i-1}', f't{i}'), (f'r{i-1}', f't{i}')]
	yield digraph_ops(rungs, es)
	yield digraph_ops(ring[:7], [('r0', 'r1'), ('r1', 'r2'), ('r2', 'r0'), ('r2', 'r3'), ('r3', 'r4'), ('r4', 'r2'), ('r4', 'r5'), ('r6', 'r0')])
	yield digraph_ops(NAMES[:3], [('a', 'b'), ('a', 'b', 1), ('a', 'b', 0), ('a', 'b', 'x'), ('b', 'a', 1), ('c', 'c'), ('c', 'c', 2), ('b', 'c', '')])
	yield digraph_ops([0, '0', 1, '1', '', -1], [(0, '0'), ('0', 1), (1, '1'), ('1', ''), ('', -1), (-1, 0)])
	yield digraph_ops([0, '0', 1, '1'], [(0, 1), ('0', '1'), (1, '0')])
	# long way and short cut in both orders of insertion
	for flip in (0, 1):
		es = [('a', 'b'), ('b', 'c'), ('c', 'd'), ('d', 'e'), ('e', 'f')]
		cut = [('a', 'f'), ('b', 'e'), ('f', 'g'), ('g', 'c')]
		yield digraph_ops(NAMES, es + cut if flip else cut + es)


def random_digraph(rnd, odd=True):
	n = rnd.randint(1, 9)
	pool = NAMES + (ODD_NAMES if odd and rnd.random() < .4 else [])
	ns = rnd.sample(pool, min(n, len(pool)))
	p = rnd.choice([.1, .2, .3, .5])
	es = []
	for s in ns:
		for e in ns:
			if rnd.random() < p:
				es.append([s, e])
			if rnd.random() < .05:
				es.append([s, e, rnd.choice([0, 1, 'x', ''])])
	rnd.shuffle(es)
	return digraph_ops(ns, es)


def random_history(rnd, length=None, labels=True):
	pool = rnd.sample(NAMES, 4) + rnd.sample(ODD_NAMES, 2)
	ops = []
	for _ in range(length or rnd.randint(4, 30)):
		r = rnd.random()
		lab = rnd.choice([None, None, 'L', '']) if labels else None
		val = rnd.choice([None, None, 0, 3, 'v']) if labels else None
		x, y = rnd.choice(pool), rnd.choice(pool)
		if r < .3:
			ops.append(['add', x, lab, val, rnd.choice(['ignore', 'warn', 'error', UNSET])])
		elif r < .65:
			ops.append(['connect', x, y, rnd.choice([None, None, None, 0, 1, 'x', '']), lab, val, rnd.choice(['ignore', 'warn', 'error', UNSET]), rnd.choice([0, 1, 2, 3])])
		elif r < .73:
			ops.append(['remove', x, rnd.choice([0, 1])])
		elif r < .83:
			ops.append(['cut', rnd.randint(0, 5), rnd.choice([0, 1])])
		elif r < .86:
			ops.append(['isolate', x])
		elif r < .92:
			ops.append(['readd', rnd.randint(0, 3)])
		elif r < .95:
			ops.append(['again', x])
		elif r < .97:
			ops.append(['foreign', x])
		elif r < .98:
			ops.append(['badname', rnd.choice(['none', 'list', 'float', 'tuple'])])
		else:
			ops.append(['copy'])
	return ops


def small_histories(rnd, n):
	"""all short histories over two names, sampled when there are too many"""
	atoms = [['add', 'a'], ['add', 'b'], ['connect', 'a', 'b'], ['connect', 'b', 'a'], ['connect', 'a', 'a'], ['connect', 'a', 'b', 1], ['remove', 'a'], ['remove', 'b', 1], ['cut', 0, 0], ['cut', 0, 1], ['cut', 1, 0], ['isolate', 'a'], ['readd', 0], ['again', 'a'], ['copy']]
	pre = [['add', 'a'], ['add', 'b'], ['connect', 'a', 'b']]
	for k in (1, 2, 3):
		for c in itertools.product(atoms, repeat=k):
			yield pre + list(c)
	while n > 0:
		n -= 1
		yield pre + [rnd.choice(atoms) for _ in range(rnd.randint(4, 8))]


# ---------------------------------------------------------------------- running
def shrink(case, fails, budget=4.0):
	"""a smaller failing case, by dropping operations"""
	t0 = time.time()
	key = 'ops' if 'ops' in case else None
	if key is None:
		return case
	ops = case[key]
	changed = True
	while changed and time.time() - t0 < budget:
		changed = False
		for i in reversed(range(len(ops))):
			c = dict(case, **{key: ops[:i] + ops[i + 1:]})
			if fails(c):
				ops, case, changed = c[key], c, True
			if time.time() - t0 > budget:
				break
	return case


class Monitor:
	"""cases of one property and how to check one"""
	limits = 'graphs of at most 40 nodes'

	def cases(self, rnd, tier):
		raise NotImplementedError

	def check(self, case):
		raise NotImplementedError

	def failing(self, case):
		"""None, or what is wrong"""
		try:
			with warnings.catch_warnings():
				warnings.simplefilter('ignore')
				self.check(case)
			return None
		except Broken as e:
			return str(e)
		except RecursionError as e:
			return f'RecursionError: {e}'
		except Exception as e:
			return f'{type(e).__name__}: {e}'


def run(prop, mon, tier, seed, budget, out):
	rnd = random.Random(seed)
	t0, n, distinct, samples = time.time(), 0, set(), []
	found = None
	complete = True
	for case in mon.cases(rnd, tier):
		text = json.dumps(case, sort_keys=True, default=str)
		n += 1
		distinct.add(hash(text))
		if len(samples) < 3 and n % 97 == 5:
			samples.append(case)
		msg = mon.failing(case)
		if msg is not None:
			small = shrink(case, lambda c: (mon.failing(c) or '')[:10] == msg[:10])
			found = {'property': prop, 'case': small, 'message': mon.failing(small) or msg, 'original': case if small != case else None}
			break
		if time.time() - t0 > budget:
			complete = False
			break
	res = {'property': prop, 'evaluations': n, 'distinct': len(distinct), 'samples': samples or [case], 'found': found,
		'limits': mon.limits, 'complete': complete, 'time': time.time() - t0, 'seed': seed, 'tier': tier}
	with open(out, 'w') as f:
		json.dump(res, f, indent=1, default=str)
	return res
