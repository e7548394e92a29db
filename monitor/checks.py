"""One monitor per property: what the contracts of the property say, evaluated on the real code."""
import copy
import pickle
import re

from core import *  # noqa
from core import Monitor, Broken, World, Model, need, same, same_set, compare, snapshot, names, fresh  # noqa


class GraphCases(Monitor):
	"""graphs: all small ones, special shapes, random ones, and what random histories leave"""
	limits = 'all digraphs with at most 3 nodes (thorough: 4 without self-loops), special shapes of up to 40 nodes, random digraphs of up to 9 nodes, graphs left by random histories of up to 30 operations'
	odd = True

	def cases(self, rnd, tier):
		for c in self.all_cases(rnd, tier):
			if self.odd or all(isinstance(x, str) and x and '"' not in x and x not in ('0', '1') for op in c['ops'] if op[0] in ('add', 'connect') for x in op[1:2 if op[0] == 'add' else 3]):
				yield c

	def all_cases(self, rnd, tier):
		for n in (1, 2, 3):
			for ops in all_digraphs(n):
				yield {'ops': ops}
		for ops in shapes():
			yield {'ops': ops}
		k = 0
		if tier == 'thorough':
			for ops in all_digraphs(4, loops=False):
				yield {'ops': ops}
		while True:
			k += 1
			if tier == 'quick' and k > 1500:
				return
			if k % 3 == 0:
				yield {'ops': random_history(rnd, labels=False)}
			else:
				yield {'ops': random_digraph(rnd, self.odd)}

	def check(self, case):
		w = World().run(case['ops'])
		before = snapshot(w.g)
		self.look(w.g, w.m)
		need(snapshot(w.g) == before, 'a query changed the graph')

	def look(self, g, m):
		raise NotImplementedError


class HistoryCases(Monitor):
	limits = 'all histories of up to 3 operations over two nodes, random histories of up to 30 operations over 6 names'

	def cases(self, rnd, tier):
		for ops in small_histories(rnd, 300):
			yield {'ops': ops}
		k = 0
		while tier == 'thorough' or k < 1500:
			k += 1
			yield {'ops': random_history(rnd)}


class C01(HistoryCases):
	def check(self, case):
		World().run(case['ops'], lambda w: compare(w.g, w.m, f'after {w.log[-1]}'))


class C02(C01):
	pass


class C03(C01):
	def cases(self, rnd, tier):
		for how in (0, 1, 2, 3):
			for i in (None, 0, 1, 'x', ''):
				for pol in ('ignore', 'warn', 'error', UNSET):
					for lab in (None, '', 'L'):
						for val in (None, 0, 'v'):
							yield {'ops': [['add', 'a'], ['add', 'b'], ['connect', 'a', 'b', i, 'old', 'was', 'ignore', how], ['connect', 'a', 'b', None if i else 5], ['connect', 'a', 'b', i, lab, val, pol, how]]}
		yield from super().cases(rnd, tier)


class C04(C01):
	def cases(self, rnd, tier):
		for ops in all_digraphs(3, stride=1):
			for x in NAMES[:3]:
				yield {'ops': ops + [['remove', x, len(ops) % 2]]}
		yield from super().cases(rnd, tier)
		for ops in shapes():
			ns = [o[1] for o in ops if o[0] == 'add']
			yield {'ops': ops + [['remove', x] for x in ns[::3]]}

	def check(self, case):
		World().run(case['ops'], lambda w: compare(w.g, w.m, f'after {w.log[-1]}') if w.log[-1][0] not in ('add', 'connect') else None)


def listed(real, expected, what):
	"""a list of nodes without duplicates, with exactly these names"""
	need(isinstance(real, list), f'{what} is a {type(real).__name__}')
	need(all(isinstance(x, Node) for x in real), f'{what} has other things than nodes')
	ns = names(real)
	need(len(set(typed(ns))) == len(ns), lambda: f'{what} has duplicates: {ns}')
	same_set(ns, expected, what)


def typed(xs):
	return [(type(x).__name__, x) for x in xs]


def own(g, nodes, what):
	need(all(g.nodes_dict.get(n.name) is n for n in nodes), f'{what} has a node that is not registered')


class C05(GraphCases):
	def look(self, g, m):
		for n in m.nodes:
			exp = m.up(n)
			for r, what in ((g.get_ancestors(n, distance=False), f'ancestors of {n!r}'), (g.get_node(n).ancestors, f'ancestors of node {n!r}'), (g.get_ancestors(g.get_node(n), distance=False), f'get_ancestors(node {n!r})')):
				listed(r, exp, what)
				own(g, r, what)


class C06(GraphCases):
	def look(self, g, m):
		for n in m.nodes:
			exp = m.down(n) - {n}
			for r, what in ((g.get_descendants(n, distance=False), f'descendants of {n!r}'), (g.get_node(n).descendants, f'descendants of node {n!r}'), (g.get_descendants(g.get_node(n), distance=False), f'get_descendants(node {n!r})')):
				listed(r, exp, what)
				own(g, r, what)
			same(g.get_node(n).num_descendants, len(exp), f'number of descendants of {n!r}')


class C07(GraphCases):
	def look(self, g, m):
		for n in m.nodes:
			for real, step, what, self_ok in ((g.get_descendants(n), m.children, 'descendants', False), (g.get_ancestors(n, distance=True), m.parents, 'ancestors', True)):
				exp = m.levels(n, step)
				if not self_ok:
					exp = {d: [x for x in l if x != n] for d, l in exp.items()}
				exp = {d: l for d, l in exp.items() if l}
				need(isinstance(real, dict), f'{what} with distance of {n!r} is no dictionary')
				same(sorted(real), sorted(exp), f'distances of the {what} of {n!r}')
				for d in exp:
					listed(real[d], exp[d], f'{what} of {n!r} at distance {d}')
					own(g, real[d], f'{what} of {n!r}')


class C08(GraphCases):
	def look(self, g, m):
		loops = [n for n in m.nodes if m.in_loop(n)]
		same(names(g.loop_nodes), loops, 'loop_nodes')
		for n in m.nodes:
			a = g.get_node(n)
			same(g.is_node_in_loop(n), n in loops, f'is_node_in_loop({n!r})')
			same(a.is_in_loop(), n in loops, f'is_in_loop of {n!r}')
			for k in m.nodes if len(m.nodes) < 12 else list(m.nodes)[:3]:
				exp = k in m.down(n) and n in m.down(k)
				same(g.are_nodes_in_same_loop(n, k), exp, f'are_nodes_in_same_loop({n!r}, {k!r})')
				same(a.is_in_loop_with(g.get_node(k)), exp, f'is_in_loop_with of {n!r}, {k!r}')
			for e in a.outward_edges:
				same(e.is_in_loop(), n in m.down(e.end.name), f'is_in_loop of edge {e.id!r}')


class C09(GraphCases):
	def look(self, g, m):
		same(names(g.absolute_roots), [n for n in m.nodes if not m.inn[n]], 'absolute roots')
		same(names(g.leaves), [n for n in m.nodes if not m.out[n]], 'leaves')
		roots = g.roots
		own(g, roots, 'roots')
		rs = names(roots)
		need(len(set(typed(rs))) == len(rs), f'roots has duplicates: {rs}')
		down = {n: m.down(n) for n in m.nodes}
		for r in rs:
			for q in rs:
				need(r == q and type(r) is type(q) or q not in down[r], f'root {q!r} is a descendant of root {r!r}')
		for n in m.nodes:
			need(any(typed([n]) == typed([r]) or n in down[r] for r in rs), f'{n!r} is neither a root nor a descendant of one')
			if not m.inn[n]:
				need(n in rs, f'{n!r} has no parents but is no root')
			for r in rs:
				need(n not in down or r not in down[n] or n in down[r], f'root {r!r} is a descendant of {n!r} but not the other way round')


class C10(GraphCases):
	def look(self, g, m):
		listed_ids = [e.id for e in g.edges]
		same_set(listed_ids, list(m.edges), 'edges of the graph')
		same_set(list(g.edges_dict), list(m.edges), 'edges_dict of the graph')
		need(all(e.id == t for t, e in g.edges_dict.items()), 'edges_dict has an edge under another id')
		for n in m.nodes:
			a = g.get_node(n)
			ch, pa = m.children(n), m.parents(n)
			for x in (n, a):
				same(names(g.get_children(x)), ch, f'children of {n!r}')
				same(names(g.get_parents(x)), pa, f'parents of {n!r}')
				same([e.id for e in g.get_outward_edges(x)], m.out[n], f'get_outward_edges({n!r})')
				same([e.id for e in g.get_inward_edges(x)], m.inn[n], f'get_inward_edges({n!r})')
				same([e.id for e in g.get_edges(x)], m.out[n] + m.inn[n], f'get_edges({n!r})')
				same(g.num_children(x), len(ch), f'num_children({n!r})')
				same(g.num_parents(x), len(pa), f'num_parents({n!r})')
				same(g.has_children(x), len(ch) > 0, f'has_children({n!r})')
				same(g.has_parents(x), len(pa) > 0, f'has_parents({n!r})')
				sib = {y for p in pa for y in m.children(p) if y != n}
				spo = {y for c in ch for y in m.parents(c) if y != n}
				listed(g.get_siblings(x), sib, f'get_siblings({n!r})')
				listed(g.get_spouses(x), spo, f'get_spouses({n!r})')
				same(g.num_siblings(x), len(sib), f'num_siblings({n!r})')
				same(g.num_spouses(x), len(spo), f'num_spouses({n!r})')
				same(g.has_siblings(x), bool(sib), f'has_siblings({n!r})')
				same(g.has_spouses(x), bool(spo), f'has_spouses({n!r})')
				need(g.get_node(x) is a and g.get_node_name(x) == n, f'get_node({n!r})')
			same(names(a.children), ch, f'children of node {n!r}')
			same(names(a.parents), pa, f'parents of node {n!r}')
			listed(a.siblings, sib, f'siblings of node {n!r}')
			listed(a.co_parents, spo, f'co_parents of node {n!r}')
			same(a.has_children(), bool(ch), f'has_children of node {n!r}')
			same(bool(a.has_parents()), bool(pa), f'has_parents of node {n!r}')
			same(a.num_outward_edges, len(ch), f'num_outward_edges of {n!r}')
			same([e.id for e in a.edges], list(dict.fromkeys(m.out[n] + m.inn[n])), f'edges of node {n!r}')
			same(a.outward_edge_ids, m.out[n], f'outward edge ids of {n!r}')
			same(a.inward_edge_ids, m.inn[n], f'inward edge ids of {n!r}')
			need(n in g and a in g, f'{n!r} in graph')
		for x in ('no such node', 99):
			need(x not in g, f'{x!r} in graph')
			for f in (g.get_node, g.get_children, g.get_parents, g.get_siblings, g.get_ancestors, g.get_descendants):
				try:
					f(x)
				except KeyError:
					continue
				raise Broken(f'{f.__name__}({x!r}) of a missing node does not raise KeyError')


class C11(HistoryCases):
	limits = 'graphs left by random histories of up to 30 operations, copied by copy(), deepcopy and pickle (all protocols in turn)'

	def cases(self, rnd, tier):
		for n in (1, 2):
			for ops in all_digraphs(n):
				for how in range(4):
					yield {'ops': ops, 'how': how, 'then': [['remove', 'a'], ['add', 'z'], ['connect', 'z', 'z']]}
		for ops in shapes():
			yield {'ops': ops, 'how': 0, 'then': [['add', 'z']]}
			yield {'ops': ops, 'how': 2, 'then': [['remove', ops[0][1]]]}
		k = 0
		while tier == 'thorough' or k < 900:
			k += 1
			yield {'ops': random_history(rnd), 'how': k % 4, 'then': random_history(rnd, rnd.randint(1, 6))}

	def check(self, case):
		w = World().run(case['ops'])
		how = case['how']
		before = snapshot(w.g)
		c = w.g.copy() if how == 0 else copy.deepcopy(w.g) if how == 1 else pickle.loads(pickle.dumps(w.g, protocol=2 + (len(case['ops']) + how) % 4))
		need(type(c) is type(w.g), 'the copy has another class')
		need(snapshot(w.g) == before, 'copying changed the original')
		compare(c, w.m, 'copy')
		compare(w.g, w.m, 'original after copying')
		for n in w.m.nodes:
			need(c.nodes_dict[n] is not w.g.nodes_dict[n], f'the copy shares node {n!r}')
		ids = {id(e) for e in w.g.edges}
		need(not any(id(e) in ids for e in c.edges), 'the copy shares an edge')
		for attr in ('_is_strict', '_ordering', '_direction', '_label', '_colour_scheme', '_stylist', '_style_overwrite_allowed'):
			need(getattr(c, attr) == getattr(w.g, attr), f'the copy has another {attr}')
		# what happens to one does not happen to the other
		w2 = World()
		w2.g, w2.m = c, w.m.copy()
		w2.run([op for op in case['then'] if op[0] != 'readd'])
		compare(w2.g, w2.m, 'copy after operations on it')
		compare(w.g, w.m, 'original after operations on the copy')
		need(snapshot(w.g) == before, 'operations on the copy changed the original')
		w.removed = []
		w.run([op for op in reversed(case['then']) if op[0] != 'readd'])
		compare(w2.g, w2.m, 'copy after operations on the original')


def norm(m):
	"""the content of a model, without the orders"""
	return ({(type(k).__name__, k): v for k, v in m.nodes.items()}, dict(m.edges))


def same_content(g, m, what):
	"""as compare, but for the orders of nodes and edges"""
	mm = m.copy()
	need(len(g.nodes_dict) == len(mm.nodes) and set(g.nodes_dict) == set(mm.nodes), lambda: f'{what}: names {list(g.nodes_dict)}, expected {list(mm.nodes)}')
	mm.nodes = {k: mm.nodes[k] for k in g.nodes_dict}
	for n in mm.nodes:
		o, i = list(g.nodes_dict[n].outward_edges_dict), list(g.nodes_dict[n].inward_edges_dict)
		same_set(o, mm.out[n], f'{what}: outward edges of {n!r}')
		same_set(i, mm.inn[n], f'{what}: inward edges of {n!r}')
		mm.out[n], mm.inn[n] = o, i
	compare(g, mm, what)


def plus(x, y):
	return y if x is None else x if y is None else x + y


class C12(Monitor):
	limits = 'pairs of graphs left by random histories of up to 20 operations, values None or numbers, with and without a function to combine values'

	def cases(self, rnd, tier):
		sm = [digraph_ops(['a', 'b'], e) for e in ([], [('a', 'b')], [('b', 'a')], [('a', 'a')], [('a', 'b', 1)], [('a', 'b'), ('a', 'b', 0)])]
		sm.append([['add', 'a', 'L', 2], ['add', 'c', None, 0]])
		sm.append([['add', 'a', 'M', 5], ['add', 'b', '', 1], ['connect', 'a', 'b', None, 'e', 4]])
		sm.append([['add', 'a', '', 0], ['add', 'b', 'B', None], ['connect', 'a', 'b', None, None, 0]])
		for x in sm:
			for y in sm:
				for f in (0, 1):
					yield {'ops': x, 'other': y, 'f': f}
		k = 0
		while tier == 'thorough' or k < 700:
			k += 1
			yield {'ops': self.history(rnd), 'other': self.history(rnd), 'f': k % 2}

	def history(self, rnd):
		ops = []
		for op in random_history(rnd, rnd.randint(1, 20)):
			op = list(op)
			if op[0] == 'add':
				op[3] = rnd.choice([None, 0, 1, 2, 7])
			elif op[0] == 'connect':
				op[5] = rnd.choice([None, 0, 1, 2, 7])
			ops.append(op)
		return ops

	def check(self, case):
		w1, w2 = World().run(case['ops']), World(ordering=case['f'] == 0).run(case['other'])
		s1, s2 = snapshot(w1.g), snapshot(w2.g)
		f = plus
		if case['f']:
			f = lambda x, y: ('both', x, y)
			r = w1.g.add(w2.g, add_values_function=f)
		else:
			r = w1.g + w2.g
		need(snapshot(w1.g) == s1 and snapshot(w2.g) == s2, 'adding changed an operand')
		m = w1.m.copy()
		for n, (label, value) in w2.m.nodes.items():
			if n in m.nodes:
				l1, v1 = m.nodes[n]
				m.nodes[n] = [l1 or label, f(v1, value)]
			else:
				m.add(n)
				m.nodes[n] = [label, value]
		for t, (label, value) in w2.m.edges.items():
			if t in m.edges:
				l1, v1 = m.edges[t]
				m.edges[t] = [l1 or label, f(v1, value)]
			else:
				m.connect(*t)
				m.edges[t] = [label, value]
		same_content(r, m, 'sum')
		compare(w1.g, w1.m, 'left operand')
		compare(w2.g, w2.m, 'right operand')
		for g in (w1.g, w2.g):
			need(not any(n is g.nodes_dict.get(n.name) for n in r.nodes), 'the sum shares a node')


class C13(GraphCases):
	limits = 'representations of graphs left by random histories, of dictionaries with nodes as list or dictionary and edges of two or three parts'

	def cases(self, rnd, tier):
		for c in super().cases(rnd, tier):
			yield c
			if rnd.random() < .4:
				yield {'ops': random_history(rnd)}

	def check(self, case):
		w = World(strict=len(case['ops']) % 2 == 0, ordering=len(case['ops']) % 3 == 0).run(case['ops'])
		g, m = w.g, w.m
		before = snapshot(g)
		for what, h in (('Graph(obj=graph)', Graph(obj=g)), ('from_dict', Graph.from_dict(g.__graph__())), ('append', Graph().append(g))):
			if isinstance(h, Graph):
				same_content(h, m, what)
				need(list(h.nodes_dict) == list(m.nodes), f'{what}: order of the nodes')
				for n in m.nodes:
					same(list(h.nodes_dict[n].outward_edges_dict), m.out[n], f'{what}: order of the edges of {n!r}')
				if m.nodes or what != 'Graph(obj=graph)':
					need(h._is_strict == g._is_strict and h._ordering == g._ordering, f'{what}: strictness and ordering')
		need(snapshot(g) == before, 'making a representation changed the graph')
		# a plain dictionary
		for d in ({'nodes': list(m.nodes), 'edges': [(t[0], t[1]) for t in m.edges if t[2] is None]},
			{'nodes': {n: {'label': 'x', 'value': 0} for n in m.nodes}, 'edges': [(t[0], t[1], {'id': t[2], 'label': 'e', 'value': 1}) for t in m.edges]}):
			e = Model()
			for n in m.nodes:
				e.add(n, *(['x', 0] if isinstance(d['nodes'], dict) else []))
			for t in d['edges']:
				if len(t) == 2:
					e.connect(*t)
				else:
					e.connect(t[0], t[1], t[2]['id'], 'e', 1)
			for what, h in (('Graph(obj=dictionary)', Graph(obj=d)), ('append(dictionary)', Graph().append(d)), ('append([dictionary, dictionary])', Graph().append([d, d]))):
				same_content(h, e, what)


class C14(GraphCases):
	limits = 'all digraphs of at most 3 nodes and random ones, filtered by up to 2 nodes in all directions and both types'

	def cases(self, rnd, tier):
		for c in super().cases(rnd, tier):
			ns = [o[1] for o in c['ops'] if o[0] == 'add']
			for d in ('to', 'from', 'to_and_from'):
				for t in ('include', 'exclude'):
					if ns and rnd.random() < .45:
						yield dict(c, nodes=rnd.sample(ns, rnd.randint(0, min(2, len(ns)))), direction=d, type=t, obj=rnd.random() < .3)

	def check(self, case):
		w = World().run(case['ops'])
		g, m = w.g, w.m
		sel = [n for n in case['nodes'] if n in m.nodes]
		rel = set(sel)
		for n in sel:
			if case['direction'] in ('to', 'to_and_from'):
				rel |= m.up(n)
			if case['direction'] in ('from', 'to_and_from'):
				rel |= m.down(n)
		before = snapshot(g)
		r = g.filter([g.get_node(n) if case['obj'] else n for n in sel], direction=case['direction'], filter_type=case['type'])
		need(snapshot(g) == before, 'filtering changed the graph')
		exp = m.copy()
		for n in list(m.nodes):
			if (n in rel) != (case['type'] == 'include'):
				exp.remove(n)
		compare(r, exp, f'filter({sel}, {case["direction"]}, {case["type"]})')
		need(not any(n is g.nodes_dict[n.name] for n in r.nodes), 'the filtered graph shares a node')


class C15(Monitor):
	limits = 'outlines of up to 12 lines and depth 6, with tabs, or 1 to 8 spaces, with and without given indentation, blank lines'

	def cases(self, rnd, tier):
		for depth in (0, 1, 2):
			yield {'levels': list(range(depth + 1)), 'unit': '\t', 'given': False}
		k = 0
		while tier == 'thorough' or k < 1500:
			k += 1
			lv, levels = 0, []
			for _ in range(rnd.randint(1, 12)):
				levels.append(lv if rnd.random() > .12 else None)
				lv = rnd.randint(0, min(lv + 1, 6)) if levels[-1] is not None else lv
				# a level may only follow one line that is at most one less deep
			yield {'levels': levels, 'unit': rnd.choice(['\t', ' ', '  ', '   ', '    ', '        ', '\t\t']), 'given': rnd.random() < .5, 'newline': rnd.random() < .5, 'bad': rnd.random() < .1}

	def check(self, case):
		unit, levels = case['unit'], []
		stack = 0
		for l in case['levels']:
			if l is not None:
				l = min(l, stack)
				stack = l + 1
			levels.append(l)
		lines = ['' if l is None else unit * l + f'text {i}' for i, l in enumerate(levels)]
		if case.get('newline'):
			lines = [l + '\n' for l in lines]
		if case.get('bad') and stack:
			bad = lines + [unit * (stack + 1) + 'too deep']
			for f in (lambda: Graph.from_indented_text('top', bad, indent=unit),):
				try:
					f()
				except ValueError:
					continue
				raise Broken('a line that is indented too deep is accepted')
		g = Graph.from_indented_text('top', lines, indent=unit if case['given'] else None)
		need(len(g.nodes) == len(lines) + 1, lambda: f'{len(g.nodes)} nodes for {len(lines)} lines')
		need(g.get_node('root').label == 'top', 'label of the root')
		stack, last = [], 0
		for i, l in enumerate(levels):
			if l is None:
				# an empty line is a line of the level before it
				par = stack[last - 1] if last else 'root'
			else:
				par = stack[l - 1] if l else 'root'
				stack[l:] = [str(i)]
				last = l
			same(names(g.get_parents(str(i))), [par], f'parent of line {i} of {lines!r}')
		need(len(g.edges) == len(lines), 'number of edges')
		if not case['given'] and not any(levels):
			return
		from abstract.parse_indentations_function import parse_indentations
		for (i, level, content, parent), l in zip(parse_indentations(lines, unit if case['given'] else None), levels):
			if l is not None:
				same((level, content), (l, f'text {i}'), f'parsed line {i}')


class C16(Monitor):
	limits = 'up to 9 nodes, 12 probabilities, all flags, 40 seeds'

	def cases(self, rnd, tier):
		k = 0
		for n in (0, 1, 2, 3, 5, 9):
			for p in (-1, 0, 0.0, .01, .3, .5, .99, 1, 1.0, 5):
				for cycle in (False, True):
					for start in (0, 1, 7, -2):
						k += 1
						yield {'n': n, 'p': p, 'cycle': cycle, 'start': start, 'strict': k % 2 == 0, 'ordering': k % 3 == 0, 'seed': k % 40}
		while tier == 'thorough':
			yield {'n': rnd.randint(0, 15), 'p': rnd.random(), 'cycle': rnd.random() < .5, 'start': rnd.randint(-20, 200), 'strict': False, 'ordering': True, 'seed': rnd.randint(0, 10 ** 6)}

	def check(self, c):
		make = lambda: Graph.random(num_nodes=c['n'], strict=c['strict'], cycle=c['cycle'], start_index=c['start'], connection_probability=c['p'], ordering=c['ordering'], seed=c['seed'])
		g, h = make(), make()
		ns = [str(c['start'] + i) for i in range(c['n'])]
		same(list(g.nodes_dict), ns, 'nodes')
		need(g._is_strict == c['strict'] and g._ordering == c['ordering'], 'flags')
		same([e.id for e in g.edges], [e.id for e in h.edges], 'edges of two graphs of one seed')
		pairs = [(x, y) for i, x in enumerate(ns) for j, y in enumerate(ns) if c['cycle'] or i < j]
		es = [(e.start.name, e.end.name) for e in g.edges]
		need(len(set(es)) == len(es), 'an edge twice')
		need(set(es) <= set(pairs), lambda: f'edges that must not be: {set(es) - set(pairs)}')
		if c['p'] >= 1:
			need(set(es) == set(pairs), 'probability 1 but edges are missing')
		if c['p'] <= 0:
			need(not es, 'probability 0 but there are edges')
		m = Model()
		for n in ns:
			m.add(n)
		for s in ns:
			for e in g.nodes_dict[s].outward_edges_dict:
				m.connect(*e)
		same_content(g, m, 'random graph')


class C17(GraphCases):
	odd = False

	def look(self, g, m):
		text = g.get_tree_str()
		lines = [l for l in text.split('\n') if l]
		strip = lambda l: l.lstrip('\u2514\u251c\u2502\u2500 ')
		shown = [strip(l) for l in lines]
		plain = [l for l in shown if not l.endswith('*')]
		label = {n: str(n) for n in m.nodes}
		# every node is printed, with its children once
		need({l.rstrip('*') for l in shown} == set(label.values()), lambda: f'lines {shown} for nodes {list(label.values())}')
		exp = sum(len(m.out[n]) for n in m.nodes) + len(g.roots)
		need(len(lines) == exp, lambda: f'{len(lines)} lines for {exp} edges and roots: {text!r}')
		# each node with children is expanded exactly once, below it there are its children
		depth = [((len(l) - len(strip(l))) // 2) for l in lines]
		stack, expanded = [], {}
		for d, l in zip(depth, shown):
			name = l.rstrip('*')
			del stack[d:]
			need(len(stack) == d, f'the tree jumps by more than a level: {text!r}')
			if stack:
				expanded.setdefault(stack[-1][0], []).append((stack[-1][1], name))
			stack.append((name, len(expanded) and object() or object()))
		for n in m.nodes:
			kids = expanded.get(str(n), [])
			same([k for _, k in kids], [str(c) for c in m.children(n)], f'children of {n!r} in the tree')
			need(len({id(o) for o, _ in kids}) <= 1, f'{n!r} is expanded twice')


class C18(GraphCases):
	limits = 'graphs as for the queries; labels, values, tooltips of nodes and edges; parsed back by an own reader of the DOT subset, at sizes given in the cases'
	odd = False

	def cases(self, rnd, tier):
		for c in super().cases(rnd, tier):
			if rnd.random() < .4:
				yield dict(c, strict=rnd.random() < .5, ordering=rnd.random() < .5, direction=rnd.choice([None, 'TB', 'LR', 'rl', 'BT']), size=rnd.choice([None, [3, None], [None, 4], [3, 4]]), conv=rnd.random() < .2)
			if rnd.random() < .2:
				yield {'ops': [o for o in random_history(rnd) if o[0] != 'copy'], 'strict': False, 'ordering': True, 'direction': None, 'size': None, 'conv': rnd.random() < .3}

	def check(self, case):
		conv = (lambda x: f'<{x}>') if case['conv'] else None
		w = World(strict=case['strict'], ordering=case['ordering'], node_label_converter=conv, edge_label_converter=conv).run(case['ops'])
		g, m = w.g, w.m
		if any(not isinstance(n, str) or '"' in n or n == '' for n in m.nodes):
			return
		h, wd = case['size'] or (None, None)
		before = snapshot(g)
		text = g.get_graphviz_str(direction=case['direction'], height=h, width=wd)
		need(snapshot(g) == before, 'making the DOT text changed the graph')
		need(text.startswith('strict digraph G' if case['strict'] else 'digraph G'), f'header {text[:20]!r}')
		need(text.endswith('}'), 'the text is not closed')
		need(('ordering=out' in text) == (not case['ordering']), 'ordering')
		d = (case['direction'] or 'LR').upper()
		need((f'rankdir="{d}"' in text) == (d != 'TB'), f'rankdir {d}')
		need(('size="3!"' in text) == (case['size'] == [3, None]) and ('size="4!"' in text) == (case['size'] == [None, 4]) and ('size="4,3!"' in text) == (case['size'] == [3, 4]), 'size')
		lines = [l.strip() for l in text.split('\n')]
		c = conv or (lambda x: x)
		nodes = [l for l in lines if re.match(r'^"[^"]*" \[', l)]
		exp = [f'"{n}" [label="{c(str(m.nodes[n][0]) if m.nodes[n][0] else str(n))}"]' for n in m.nodes]
		same(nodes, exp, 'node statements')
		edges = [l for l in lines if '->' in l]
		def edge(t):
			label, value = m.edges[t]
			show = c(label) if label is not None else value
			return f'"{t[0]}" -> "{t[1]}"' + ('' if show is None else f'[label="{show}"]')
		same_set(edges, [edge(t) for t in m.edges], 'edge statements')


class C19(Monitor):
	limits = 'up to 12 edges over 6 names'

	def cases(self, rnd, tier):
		yield {'start': [], 'end': [], 'edge': []}
		k = 0
		while tier == 'thorough' or k < 1500:
			k += 1
			n = rnd.randint(0, 12)
			pool = NAMES[:rnd.randint(1, 4)] + [1, '1', 0, '']
			yield {'start': [rnd.choice(pool) for _ in range(n)], 'end': [rnd.choice(pool) for _ in range(n)], 'edge': [rnd.choice([None, 'x', '', 'y']) for _ in range(n)], 'strict': rnd.random() < .5}

	def check(self, case):
		g = Graph.from_lists(case['start'], case['end'], case['edge'], strict=case.get('strict', False))
		m = Model()
		for i, (s, e, l) in enumerate(zip(case['start'], case['end'], case['edge'])):
			m.add(s)
			m.add(e)
			m.connect(s, e, i, l)
		compare(g, m, 'graph from lists')
		need(g._is_strict == case.get('strict', False), 'strictness')


class Thing:
	def __init__(self, name):
		self.name, self.up, self.down = name, [], []

	def __parents__(self):
		return list(self.up)

	def __children__(self):
		return list(self.down)

	def __repr__(self):
		return f'<{self.name}>'

	def __hash__(self):
		return hash(self.name) if not isinstance(self.name, int) else self.name

	def __eq__(self, other):
		return isinstance(other, Thing) and self.name == other.name


class C20(GraphCases):
	limits = 'object graphs: all digraphs with at most 3 objects, shapes and random ones, depth limits None and 0 to 4'
	odd = False

	def check(self, case):
		from abstract.get_descendants import get_descendants
		from abstract.get_ancestors import get_ancestors
		things, m = {}, Model()
		for op in case['ops']:
			if op[0] == 'add' and op[1] not in things:
				things[op[1]] = Thing(op[1])
				m.add(op[1])
			elif op[0] == 'connect' and op[1] in things and op[2] in things and (op[1], op[2], None) not in m.edges:
				m.connect(op[1], op[2])
				things[op[1]].down.append(things[op[2]])
				things[op[2]].up.append(things[op[1]])
		for n, x in list(things.items())[:4]:
			for lim in (None, 0, 1, 2, 4):
				exp_d = {d: [y for y in l if y != n] for d, l in m.levels(n, m.children).items() if lim is None or d <= lim}
				exp_u = {d: [y for y in l if y != n] for d, l in m.levels(n, m.parents).items() if lim is None or d <= lim}
				for real, flat, exp, what in ((get_descendants(x, max_depth=lim), get_descendants(x, distance=False, max_depth=lim), exp_d, 'descendants'), (get_ancestors(x, max_height=lim), get_ancestors(x, distance=False, max_height=lim), exp_u, 'ancestors')):
					exp = {d: l for d, l in exp.items() if l}
					same(sorted(real), sorted(exp), f'distances of {what} of {n!r}, limit {lim}')
					for d in exp:
						same_set([y.name for y in real[d]], exp[d], f'{what} of {n!r} at {d}, limit {lim}')
					same_set([y.name for y in flat], [y for l in exp.values() for y in l], f'{what} of {n!r}, limit {lim}')
				if lim is None or n == list(things)[0]:
					g = Graph.from_object(x, max_depth=lim, max_height=lim)
					below = {n} | {y for l in exp_d.values() for y in l}
					above = {n} | {y for l in exp_u.values() for y in l}
					same_set(g.nodes_dict, [things[y].__hash__() for y in below | above], f'nodes from object {n!r}')
					es = {(t[0], t[1]) for t in m.edges if t[0] in below and t[1] in below or t[0] in above and t[1] in above}
					same_set([(e.start.name, e.end.name) for e in g.edges], [(things[s].__hash__(), things[e].__hash__()) for s, e in es], f'edges from object {n!r}, limit {lim}')
					for y in below | above:
						need(g.get_node(things[y].__hash__()).label == str(things[y]), f'label of {y!r}')


class C21(GraphCases):
	limits = 'graphs as for the queries, rendered to a source (twice), both stylists, some nodes and edges with styles of their own'
	odd = False

	def cases(self, rnd, tier):
		k = 0
		for c in super().cases(rnd, tier):
			if rnd.random() < (.25 if tier == 'quick' else 1):
				k += 1
				yield dict(c, stylist=['pensieve', 'random'][k % 2], own=k % 3, values=rnd.choice([None, None, 2, .5, 'text']), overwrite=k % 5 == 0)

	def check(self, case):
		from abstract.styling.NodeStyle import NodeStyle
		from abstract.styling.EdgeStyle import EdgeStyle
		ops = [o for o in case['ops'] if o[0] in ('add', 'connect', 'remove', 'cut', 'isolate')]
		w = World(stylist=case['stylist']).run(ops)
		g, m = w.g, w.m
		if not m.nodes:
			return
		mine, mine_e = {}, {}
		if case['own']:
			for n in list(m.nodes)[::case['own'] + 1]:
				mine[n] = g.get_node(n).style = NodeStyle(colour='#112233')
			for e in g.edges[::2]:
				mine_e[e.id] = e.style = EdgeStyle(colour='#332211')
		if case['values'] is not None:
			for e in g.edges:
				e._value = case['values']
				m.edges[e.id][1] = case['values']
		before = [(k, id(n), list(n._outward_edges_dict), list(n._inward_edges_dict)) for k, n in g._nodes_dict.items()]
		if case['overwrite']:
			first = list(m.nodes)[0]
			g._node_colour_overwrites[first] = '#445566'
		s1 = g.render().source
		compare(g, m, 'graph after rendering')
		need([(k, id(n), list(n._outward_edges_dict), list(n._inward_edges_dict)) for k, n in g._nodes_dict.items()] == before, 'rendering changed the structure')
		for n in g.nodes:
			need(isinstance(n.style, NodeStyle), f'{n.name!r} has no style after rendering')
		for e in g.edges:
			need(isinstance(e.style, EdgeStyle), f'edge {e.id!r} has no style after rendering')
		for n, s in mine.items():
			if not (case['overwrite'] and n == first):
				need(g.get_node(n).style is s, f'the style of {n!r} was replaced')
		for t, s in mine_e.items():
			need(g.edges_dict[t].style is s, f'the style of edge {t!r} was replaced')
		if case['overwrite']:
			need(g.get_node(first).style.colour.hexadecimal.upper().startswith('#445566'), 'colour overwrite is not applied')
		s2 = g.render().source
		need(s1 == s2, 'rendering twice gives different results')
		c = g.copy().render().source
		need(c == s1, 'a copy renders differently')
		for n in m.nodes:
			need(f'"{n}" [label=' in s1, f'{n!r} is not in the rendered source')


class C22(GraphCases):
	def look(self, g, m):
		ns = g.nodes[:14]
		key = lambda n: (n.index, n.name)
		for a in ns:
			for b in ns:
				need((a == b) == (a is b), f'{a.name!r} == {b.name!r}')
				need((a != b) == (a is not b), f'{a.name!r} != {b.name!r}')
				if a is b:
					need(not a < b and not a > b and a <= b and a >= b and hash(a) == hash(b), f'order of {a.name!r} and itself')
				elif a.index != b.index or type(a.name) is type(b.name):
					need((a < b) == (key(a) < key(b)) and (a > b) == (key(a) > key(b)) and (a <= b) == (key(a) < key(b)) and (a >= b) == (key(a) > key(b)), f'order of {a.name!r} and {b.name!r}')
		idx = [n.index for n in ns]
		need(len(set(idx)) == len(idx), f'two nodes have one index: {idx}')
		es = g.edges[:30]
		for a in es:
			for b in es:
				need((a == b) == (a is b), f'{a.id!r} == {b.id!r}')
				need((a != b) == (a is not b), f'{a.id!r} != {b.id!r}')
		for n in ns:
			kids = n.children
			for c in ns:
				if c.name in m.children(n.name):
					want = sorted(k.index for k in kids).index(c.index)
					same(c.get_child_rank(parent=n), want, f'rank of {c.name!r} below {n.name!r}')
				else:
					try:
						r = c.get_child_rank(parent=n)
					except ValueError:
						continue
					raise Broken(f'rank of {c.name!r} below {n.name!r} is {r} although it is no child')


class C23(Monitor):
	limits = 'pairs of graphs of one or two random histories, and graphs that differ in one aspect'

	def cases(self, rnd, tier):
		ops = digraph_ops(['a', 'b'], [('a', 'b')])
		for x in (ops, ops[:2], ops + [['add', 'c']], ops + [['connect', 'b', 'a']], ops + [['connect', 'a', 'b', 1]], [['add', 'a', None, 1]] + ops[1:], [['add', 'a', None, 2]] + ops[1:],
			digraph_ops(['a', 'c'], [('a', 'c')]), digraph_ops(['b', 'a'], [('a', 'b')]), digraph_ops(['a', 'b'], [('b', 'a')]), ops[:2] + [['connect', 'a', 'b', None, None, 3]], []):
			for y in (ops, x, ops[:2], digraph_ops(['a', 'b'], [('b', 'a')]), [['add', 'a', None, 1]] + ops[1:], []):
				for flags in ([0, 0], [1, 1], [0, 1], [1, 0]):
					yield {'ops': x, 'other': y, 'flags': flags}
		k = 0
		while tier == 'thorough' or k < 900:
			k += 1
			a = random_history(rnd, rnd.randint(1, 15))
			b = list(a) if k % 2 else random_history(rnd, rnd.randint(1, 15))
			if k % 4 == 1 and b:
				b.insert(rnd.randint(0, len(b)), rnd.choice(random_history(rnd, 3)))
			yield {'ops': a, 'other': b, 'flags': [0, 0]}

	def check(self, case):
		w1 = World(strict=bool(case['flags'][0])).run(case['ops'])
		w2 = World(strict=bool(case['flags'][1])).run(case['other'])
		view = lambda m: ({(type(n).__name__, n): v[1] for n, v in m.nodes.items()}, {t: v[1] for t, v in m.edges.items()})
		loose = lambda m: ({n: v[1] for n, v in m.nodes.items()}, {t: v[1] for t, v in m.edges.items()})
		exp = loose(w1.m) == loose(w2.m) and case['flags'][0] == case['flags'][1]
		for a, b in ((w1.g, w2.g), (w2.g, w1.g)):
			s = snapshot(a), snapshot(b)
			same(a.is_similar_to(b), exp, 'is_similar_to')
			need((snapshot(a), snapshot(b)) == s, 'comparing changed a graph')
		same(w1.g.is_similar_to(w1.g), True, 'a graph and itself')
		self.copies(w1.g)
		# with styles and parameters, the same in both and then different in one place
		for g in (w1.g, w2.g):
			for k, x in enumerate(g.nodes + g.edges):
				x['k'] = k % 3
				if k % 2:
					x.style = {'colour': 'red' if k % 3 else 'blue'}
		if exp and list(w1.g.nodes_dict) == list(w2.g.nodes_dict) and [e.id for e in w1.g.edges] == [e.id for e in w2.g.edges]:
			self.both(w1.g, w2.g, True, 'the same styles and parameters')
			self.copies(w1.g)
			objs = list(zip(w1.g.nodes + w1.g.edges, w2.g.nodes + w2.g.edges))
			if objs:
				k = len(json.dumps(case)) % len(objs)
				x, y = objs[k]
				y['k'] = 'other'
				self.both(w1.g, w2.g, False, f'{y}: another parameter')
				y['k'] = k % 3
				x['more'] = None
				self.both(w1.g, w2.g, False, f'{y}: a parameter is missing')
				y['more'] = None
				self.both(w1.g, w2.g, True, 'the same parameters again')
				old, y._style = y._style, None
				self.both(w1.g, w2.g, old is None, f'{y}: the style is missing')
				y.style = {'colour': 'green'}
				self.both(w1.g, w2.g, False, f'{y}: another style')

	def copies(self, g):
		self.both(g.copy(), g, True, 'a graph and its copy')

	def both(self, g, h, exp, what):
		same(g.is_similar_to(h), exp, what)
		same(h.is_similar_to(g), exp, what + ' (the other way round)')


class C24(GraphCases):
	"""queries change nothing, whatever they are asked, and what they return can be changed freely"""
	def look(self, g, m):
		before = snapshot(g)
		def spoil(r):
			if isinstance(r, list):
				r.append('spoiled')
				if len(r) > 2:
					del r[0]
			elif isinstance(r, dict):
				for v in r.values():
					spoil(v)
				r['spoiled'] = 1
		for attr in ('nodes', 'edges', 'edges_dict', 'roots', 'absolute_roots', 'leaves', 'loop_nodes', 'node_styles', 'edge_styles'):
			spoil(getattr(g, attr))
			need(snapshot(g) == before, f'changing what {attr} returned changes the graph, or asking for it does')
		for f in ('get_tree_str', 'get_graphviz_str', '__graph__'):
			if f != 'get_graphviz_str' or all(isinstance(n, str) for n in m.nodes):
				getattr(g, f)()
			need(snapshot(g) == before, f'{f} changes the graph')
		for n in list(m.nodes)[:6]:
			for f in ('get_node', 'get_children', 'get_parents', 'get_ancestors', 'get_descendants', 'get_siblings', 'get_spouses', 'get_edges', 'get_outward_edges', 'get_inward_edges', 'num_children', 'num_parents', 'num_siblings', 'num_spouses', 'has_children', 'has_parents', 'has_siblings', 'has_spouses', 'is_node_in_loop', 'get_node_name'):
				r = getattr(g, f)(n)
				spoil(r)
				need(snapshot(g) == before, f'changing what {f}({n!r}) returned changes the graph, or asking for it does')
			for f in ('get_ancestors', 'get_descendants'):
				spoil(getattr(g, f)(n, distance=False))
				need(snapshot(g) == before, f'changing what {f}({n!r}) returned changes the graph')
			a = g.get_node(n)
			for attr in ('parents', 'children', 'siblings', 'co_parents', 'ancestors', 'descendants', 'outward_edges', 'inward_edges', 'edges', 'outward_edge_ids', 'inward_edge_ids', 'num_descendants', 'label', 'name'):
				spoil(getattr(a, attr))
				need(snapshot(g) == before, f'changing what {attr} of {n!r} returned changes the graph, or asking for it does')
			a.get_tree_str()
			a.is_in_loop()
			need(snapshot(g) == before, f'a query on {n!r} changes the graph')


MONITORS = {k: v for k, v in list(globals().items()) if re.fullmatch(r'C\d\d', k)}
