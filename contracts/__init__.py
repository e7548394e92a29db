"""The contracts of the package."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.frontend import Program
from pyvc.contract import Contract, verify
from .spec import Spec


class Suite:
	def __init__(self, root='/repo', modules=('queries', 'relatives', 'mutators', 'order', 'similar', 'copies', 'shapes', 'objects', 'text', 'represent', 'append', 'dot', 'tree'), exclude=()):
		import importlib
		self.program = Program(root)
		self.spec = Spec(self.program)
		self.contracts = {}
		self.models = {}
		self.models.update(models(self.program))
		from .copies import deepcopy
		from .shapes import uniform, seed
		self.models['ext:random.uniform'], self.models['ext:random.seed'] = uniform, seed
		from .text import re_escape, re_match, re_group, re_findall
		self.models.update({'ext:re.escape': re_escape, 'ext:re.match': re_match, 'ext:object.group': re_group, 'ext:re.findall': re_findall})
		from .objects import links, object_hash, _kids, _pars
		self.models.update({'ext:object.__children__': links(_kids), 'ext:object.__parents__': links(_pars), 'ext:object.__hash__': object_hash})
		self.models['ext:copy.deepcopy'] = deepcopy(self)
		from .dot import header_model
		self.models['GraphWithoutDisplay.get_graphviz_header'] = header_model
		for m in modules:
			mod = importlib.import_module('contracts.' + m)
			for x in vars(mod).values():
				if isinstance(x, type) and issubclass(x, Contract) and x.key and x.__module__ == mod.__name__ and x.key not in exclude:
					self.contracts[x.key] = x(self)

	def setup(self, ex):
		s = self.spec
		ok = lambda H, n: And(s.isnode(H, n), V.is_i(H.f('_index', n)), s.name_ok(s.raw(H, n)))
		def node_eq(H, y, x):
			idx = lambda n: H.f('_index', n)
			return And(V.is_r(y), idx(y) == idx(x), s.raw(H, y) == s.raw(H, x))
		def edge_eq(H, y, x):
			return s.edge_id(H, y) == s.edge_id(H, x)
		def edge_ok(H, y, x):
			ends = lambda e: And(s.isedge(H, e), *[And(s.isnode(H, H.f(f, e)), s.name_ok(s.raw(H, H.f(f, e)))) for f in ('_start', '_end')], s.raw_ok(s.raw(H, e)))
			return And(H.f('_graph', y) == H.f('_graph', x), s.isgraph(H, H.f('_graph', x)), ends(x), ends(y))
		def node_lt(H, x, y):
			return V.iv(H.f('_index', x)) < V.iv(H.f('_index', y))
		s.havocs, s.old_graphs, s.memo = ex.havocs, {}, {}
		ex.eq_models = {'Node': (node_eq, lambda H, y, x: And(ok(H, x), ok(H, y))), 'Edge': (edge_eq, edge_ok)}
		# nodes with one index are the same node, so the order of the names does not matter
		ex.lt_models = {'Node': (node_lt, lambda H, x, y: And(ok(H, x), ok(H, y), Implies(H.f('_index', x) == H.f('_index', y), x == y)))}

	def verify(self, key, case='', **kw):
		return verify(self.program, self.contracts[key], self.contracts, self.models, case, setup=self.setup, **kw)


def models(program):
	"""what is outside the verified text: trusted"""
	def style(name):
		def make(ex, st, args, kw, node):
			ex.trusted.add(f'{name}(**parameters) returns a new style for the parameters that are given')
			s = st.fork()
			return [(s, T(ex.alloc(s, program.classes[name].code)))]
		return make

	def warn(ex, st, f, args, kw, node):
		ex.trusted.add('warnings.warn returns (warnings are not turned into errors)')
		s = st.fork()
		n = V.iv(z3.Select(ex.comp(s, 'warned'), 0))
		ex.setcomp(s, 'warned', z3.IntVal(0), V.i(n + 1))
		return [(s, T(NONE))]
	def colour(ex, st, f, args, kw, node):
		ex.trusted.add('colouration.Colour(obj=...) returns a colour for the name of a colour')
		return [(st, T(V.o(Fresh.const('colour', I))))]
	def style_text(name):
		def text(ex, st, env, node):
			ex.trusted.add(f'{name}.get_graphviz_str changes nothing, and its answer depends on the style only')
			return [(st, T(V.s(ufn('style_text', V, I)(env['self'].t))))]
		return text
	return {'NodeStyle.get_graphviz_str': style_text('NodeStyle'), 'EdgeStyle.get_graphviz_str': style_text('EdgeStyle'), 'ext:colouration.Colour': colour, 'NodeStyle()': style('NodeStyle'), 'EdgeStyle()': style('EdgeStyle'), 'ext:warnings.warn': warn}
