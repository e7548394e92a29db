"""Loads the Python files of the package under verification and resolves names in them."""
import ast
import os


class FuncInfo:
	def __init__(self, node, module, cls=None, outer=None):
		self.node, self.module, self.cls = node, module, cls
		self.name = node.name
		self.qualname = f'{cls.name}.{node.name}' if cls else f'{module.name}.{node.name}'
		self.kind = 'function'
		self.other_decorators = []
		for d in node.decorator_list:
			if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod'):
				self.kind = d.id
			elif isinstance(d, ast.Attribute) and d.attr == 'setter':
				self.kind = 'setter'
			elif isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'wraps':
				pass      # functools.wraps(f) only copies metadata
			else:
				self.other_decorators.append(ast.dump(d))
		self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
		a = node.args
		self.params = [p.arg for p in a.posonlyargs + a.args]
		self.kwonly = [p.arg for p in a.kwonlyargs]
		self.vararg = a.vararg.arg if a.vararg else None
		self.kwarg = a.kwarg.arg if a.kwarg else None
		self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
		for p, d in zip(a.kwonlyargs, a.kw_defaults):
			if d is not None:
				self.defaults[p.arg] = d

	def __repr__(self):
		return f'<{self.qualname}>'


def walk_own(fn):
	"""the AST nodes of a function, without those of nested functions"""
	todo = list(fn.body)
	while todo:
		n = todo.pop()
		yield n
		if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
			todo.extend(ast.iter_child_nodes(n))


class ClassInfo:
	def __init__(self, node, module):
		self.node, self.module, self.name = node, module, node.name
		self.methods, self.getters, self.setters, self.attrs = {}, {}, {}, {}
		for st in node.body:
			if isinstance(st, ast.FunctionDef):
				f = FuncInfo(st, module, cls=self)
				if f.kind == 'property':
					self.getters[f.name] = f
				elif f.kind == 'setter':
					self.setters[f.name] = f
				else:
					self.methods[f.name] = f
			elif isinstance(st, ast.Assign):
				for t in st.targets:
					if isinstance(t, ast.Name):
						self.attrs[t.id] = st.value
		self.base = None
		self.code = None
		self.fields = set()
		for n in ast.walk(node):
			if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
				self.fields.add(n.attr)

	def mro(self):
		c = self
		while c is not None:
			yield c
			c = c.base

	def find(self, table, name):
		for c in self.mro():
			t = getattr(c, table)
			if name in t:
				return t[name]
		return None

	def has_field(self, name):
		return any(name in c.fields for c in self.mro())

	def __repr__(self):
		return f'<class {self.name}>'


class Module:
	def __init__(self, name, path, tree):
		self.name, self.path, self.tree = name, path, tree
		self.functions, self.classes, self.imports, self.assigns = {}, {}, {}, {}
		for st in tree.body:
			if isinstance(st, ast.FunctionDef):
				self.functions[st.name] = FuncInfo(st, self)
			elif isinstance(st, ast.ClassDef):
				self.classes[st.name] = ClassInfo(st, self)
			elif isinstance(st, (ast.Import, ast.ImportFrom)):
				self.add_import(st)
			elif isinstance(st, ast.Assign):
				for t in st.targets:
					if isinstance(t, ast.Name):
						self.assigns[t.id] = st.value
			elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
				self.assigns[st.target.id] = st.value

	def add_import(self, st):
		if isinstance(st, ast.Import):
			for a in st.names:
				self.imports[a.asname or a.name.split('.')[0]] = ('module', a.name)
		else:
			for a in st.names:
				self.imports[a.asname or a.name] = ('from', st.level, st.module or '', a.name)


class Program:
	def __init__(self, root, package='abstract'):
		self.modules = {}
		base = os.path.join(root, package)
		for dirpath, dirs, files in os.walk(base):
			dirs[:] = sorted(d for d in dirs if d not in ('test', '__pycache__'))
			for f in sorted(files):
				if f.endswith('.py'):
					path = os.path.join(dirpath, f)
					rel = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
					if rel.endswith('.__init__'):
						rel = rel[:-9]
					with open(path, encoding='utf-8') as h:
						self.modules[rel] = Module(rel, path, ast.parse(h.read(), path))
		self.classes = {}
		for m in self.modules.values():
			for c in m.classes.values():
				self.classes[c.name] = c
		for m in self.modules.values():
			for c in m.classes.values():
				for b in c.node.bases:
					if isinstance(b, ast.Name):
						r = self.resolve(m, b.id)
						if isinstance(r, ClassInfo):
							c.base = r
		for i, name in enumerate(sorted(self.classes)):
			self.classes[name].code = 100 + i

	def subclasses(self, c):
		return [d for d in self.classes.values() if c in d.mro()]

	def resolve(self, module, name, depth=0):
		"""what a global name of a module means: FuncInfo, ClassInfo, an AST expression with its module, or a tuple"""
		if depth > 8:
			return None
		if name in module.functions:
			return module.functions[name]
		if name in module.classes:
			return module.classes[name]
		if name in module.imports:
			imp = module.imports[name]
			if imp[0] == 'module':
				return ('extmodule', imp[1])
			_, level, mod, orig = imp
			if level == 0:
				if mod in self.modules:
					target = mod
				else:
					return ('extname', mod, orig)
			else:
				parts = module.name.split('.')
				is_pkg = module.path.endswith('__init__.py')
				keep = len(parts) - level + (1 if is_pkg else 0)
				target = '.'.join(parts[:keep] + ([mod] if mod else []))
			if target in self.modules:
				r = self.resolve(self.modules[target], orig, depth + 1)
				if r is not None:
					return r
			if f'{target}.{orig}' in self.modules:
				return self.modules[f'{target}.{orig}']
			return ('extname', target, orig)
		if name in module.assigns:
			return ('expr', module, module.assigns[name])
		return None

	def func(self, qualname):
		"""'Class.method', 'Class.prop' (getter), 'Class.prop=' (setter), or 'pkg.module.function'"""
		setter = qualname.endswith('=')
		q = qualname.rstrip('=')
		head, _, tail = q.rpartition('.')
		if head in self.classes:
			c = self.classes[head]
			if setter:
				return c.setters.get(tail)
			return c.methods.get(tail) or c.getters.get(tail)
		m = self.modules.get(head)
		return m.functions.get(tail) if m else None
