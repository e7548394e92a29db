"""Contracts of the DOT text: one statement for each node and each edge, with what it says."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract
from .spec import u_, v_, w_, t_, k_, i_
from .queries import OnNode
from .mutators import Mutator
from .relatives import truthy

j_ = z3.Int('j')
l_, n_, m_ = z3.Consts('l node_lines edge_lines', L)
e_ = z3.Const('e', V)
style_text = ufn('style_text', V, I)
called = ufn('user_call1', V, V, V)
header = ufn('dot_header', *([V] * 6), I)


def header_model(ex, st, env, node):
	ex.trusted.add('get_graphviz_header returns a text and changes nothing (its text is checked with bounds)')
	args = [env[n] for n in ('self', 'direction', 'dpi', 'height', 'width', 'pad')]
	return [(st, T(V.s(header(*[ex.toV(st, a) for a in args]))))]


class Shown(Mutator):
	"""what nodes and edges show"""
	def plain(self, x):
		"""a label: None, a text or a number"""
		return Or(V.is_none(x), V.is_s(x), V.is_i(x), V.is_b(x), V.is_f(x))

	def label(self, H, n):
		"""of a node: its label, or its name"""
		x = H.f('_label', n)
		return V.s(ufn('str.replace', V, V, V, I)(text_of([If(truthy(H, x), x, self.s.raw(H, n))]), lit('"'), lit('\\"')))

	def converted(self, H, g, f, x):
		c = H.f(f, g)
		return If(V.is_none(c), x, called(c, x))

	def node_shows(self, H, n):
		return self.converted(H, H.f('_graph', n), '_node_label_converter', self.label(H, n))

	def edge_shows(self, H, e):
		x = H.f('_label', e)
		return If(V.is_none(x), H.f('_value', e), self.converted(H, H.f('_graph', e), '_edge_label_converter', x))

	def choose(self, options, f):
		"""the text with those of the parts that are there"""
		def go(i, parts):
			if i == len(options):
				return f(parts)
			there, p = options[i]
			yes = go(i + 1, parts + ([lit(' ')] if parts else []) + p)
			return yes if there is True else If(there, yes, go(i + 1, parts))
		return go(0, [])

	def node_text(self, H, n):
		tip, st = H.f('_tooltip', n), H.f('_style', n)
		return self.choose([(True, ['label="', self.node_shows(H, n), '"']), (Not(V.is_none(tip)), ['tooltip="', tip, '"']), (Not(V.is_none(st)), [V.s(style_text(st))])],
			lambda parts: text_of(['"', self.s.raw(H, n), '" ['] + parts + [']']))

	def edge_text(self, H, e):
		shown, tip, st = self.edge_shows(H, e), H.f('_tooltip', e), H.f('_style', e)
		return self.choose([(Not(V.is_none(shown)), ['label="', shown, '"']), (Not(V.is_none(tip)), ['tooltip="', tip, '"']), (Not(V.is_none(st)), [V.s(style_text(st))])],
			lambda parts: text_of(['"', self.s.raw(H, H.f('_start', e)), '" -> "', self.s.raw(H, H.f('_end', e)), '"'] + (['['] + parts + [']'] if parts else [])))

	def converter(self, H, g, f):
		c = H.f(f, g)
		return Or(V.is_none(c), V.is_o(c))

	def result_tag(self):
		return 's'


class NodeText(Shown, OnNode, Contract):
	key = 'Node.get_graphviz_str'
	allocates = False

	def make_args(self, ex, st, case):
		return {'self': self.node_self(ex, st)}

	def requires(self, H, a, ex):
		n = a['self']
		g = H.f('_graph', n)
		return [('a node', And(self.s.isnode(H, n), self.s.name_ok(self.s.raw(H, n)))), ('of a graph', self.s.isgraph(H, g)), ('its label', self.plain(H.f('_label', n))), ('its style', self.s.has_content(H, n, 'NodeStyle')),
			('the converter of labels', self.converter(H, g, '_node_label_converter'))]

	def ensures(self, H0, H1, a, res, ex):
		return [('the name, the label, the tooltip and the style', res == self.node_text(H0, a['self']))]


class EdgeText(Shown, Contract):
	key = 'Edge.get_graphviz_str'
	allocates = False

	def make_args(self, ex, st, case):
		e = z3.Const('edge', V)
		st.assume(ex.tagf(st, e, 'Edge'))
		st.types[e] = 'Edge'
		return {'self': T(e)}

	def applies(self, ex, st, env):
		return isinstance(env.get('self'), T)

	def requires(self, H, a, ex):
		e, s = a['self'], self.s
		g = H.f('_graph', e)
		return [('an edge', s.isedge(H, e)), ('of a graph', s.isgraph(H, g)), *[(f'{f}', And(s.isnode(H, H.f(f, e)), s.name_ok(s.raw(H, H.f(f, e))))) for f in ('_start', '_end')],
			('its style', s.has_content(H, e, 'EdgeStyle')), ('the converter of labels', self.converter(H, g, '_edge_label_converter'))]

	def ensures(self, H0, H1, a, res, ex):
		return [('the names of both ends, the label or value, the tooltip and the style', res == self.edge_text(H0, a['self']))]


class Dot(Shown, Contract):
	key = 'GraphWithoutDisplay.get_graphviz_str'
	use = ('BasicGraph.edges',)

	def make_args(self, ex, st, case):
		d = {'self': self.graph_arg(ex, st)}
		for n in ('direction', 'dpi', 'height', 'width', 'pad'):
			d[n] = T(z3.Const(n, V))
		st.assume(Or(V.is_none(d['direction'].t), V.is_s(d['direction'].t)))
		return d

	def requires(self, H, a, ex):
		g, s = a['self'], self.s
		n = dget(s.nd(H, g), k_)
		return self.base(H, g) + [('the labels of the nodes', FA([k_], Implies(ddom(s.nd(H, g), k_), self.plain(H.f('_label', n))), [ddom(s.nd(H, g), k_)])),
			('the converters of labels', And(self.converter(H, g, '_node_label_converter'), self.converter(H, g, '_edge_label_converter'))), ('the direction is a text', V.is_s(H.f('_direction', g)))]

	def stated(self, H, l, objects, n, text):
		"""the list has the statements of the first n objects"""
		return And(llen(l) == n, FA([i_], Implies(And(0 <= i_, i_ < n), lat(l, i_) == text(H, lat(objects, i_))), [lat(l, i_), lat(objects, i_)]))

	def invariants(self, lc):
		if lc.iter is None:
			return []
		out, H0 = [], lc.root['H0']
		for m in lc.mod_lists:
			for what, text in (('nodes', self.node_text), ('edges', self.edge_text)):
				out.append((f'{m} has the statements of the {what} that were visited', lambda st, k, vis, m=m, text=text: self.stated(H0, lc.lst(st, m), lc.iter, k, text)))
		return out

	def edge_of(self, H, g, e):
		s = self.s
		u = H.f('_start', e)
		return And(V.is_r(e), V.is_r(u), s.innode(H, g, u), ddom(s.Od(H, u), s.edge_id(H, e)), dget(s.Od(H, u), s.edge_id(H, e)) == e)

	def ensures(self, H0, H1, a, res, ex):
		g, s = a['self'], self.s
		nodes = dvals(s.nd(H0, g))
		direction = If(truthy(H0, a['direction']), a['direction'], H0.f('_direction', g))
		head = V.s(header(g, direction, *[a[x] for x in ('dpi', 'height', 'width', 'pad')]))
		join = lambda sep, l: V.s(ufn('join', V, L, I)(lit(sep), l))
		ns, es = join('\n\t\t', n_), join('\n\t', m_)
		return [('a header, the statements of the nodes in order, and one statement for each edge', EX([l_, n_, m_], And(nodup(l_), FA([e_], Implies(lmem(l_, e_), self.edge_of(H0, g, e_)), [lmem(l_, e_)]),
			FA([e_], Implies(self.edge_of(H0, g, e_), lmem(l_, e_)), [lmem(l_, e_)]), self.stated(H0, n_, nodes, llen(nodes), self.node_text), self.stated(H0, m_, l_, llen(l_), self.edge_text),
			res == text_of([head, '\t{\n\t\t', ns, '\n\t}\n\t', es, '\n}'])), [(nodup(l_), ns, es)]))]

	def hints(self, H0, H1, a, res, ex, st):
		return [Fresh.const('text', V) == res]      # a name for the result
