"""Contracts of the tree text: it shows the children of each node once, in order."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract
from .spec import u_, v_, w_, t_, k_, i_
from .queries import OnNode
from .relatives import x_, y_
from .dot import Shown

j_ = z3.Int('j')
l_, m_ = z3.Consts('l tree_lines', L)
# the text of a node below an indentation, after some nodes were expanded; the nodes that are expanded afterwards; both before a child
_tree, _seen = ufn('tree_text', V, V, L, I), ufn('tree_seen', V, L, L)
_text_at, _seen_at = ufn('tree_text_before', V, V, L, I, I), ufn('tree_seen_before', V, L, I, L)
_seen_roots = ufn('tree_seen_before_root', L, I, L)
CORNER, TWO_WAY, VERTICAL = '\u2514 ', '\u251C ', '\u2502 '
tree = lambda n, ind, S: V.s(_tree(n, ind, S))


class Tree(Shown):
	def kids(self, H, n):
		return dvals(self.s.Od(H, n))

	def kid(self, H, n, i):
		return H.f('_end', lat(self.kids(H, n), i))

	def parent(self, H, x):
		return llen(self.kids(H, x)) > 0

	def definition(self, H, n, ind, S):
		"""the text of a node, with the children of a node that was not expanded yet"""
		at, seen = lambda k: V.s(_text_at(n, ind, S, k)), lambda k: _seen_at(n, S, k)
		k = llen(self.kids(H, n))
		child = self.kid(H, n, i_)
		now = lapp(seen(i_), n)
		line = lambda mark, more: text_of([at(i_), ind, mark, tree(child, text_of([ind, more]), now)])
		step = And(0 <= i_, i_ < k, j_ == i_ + 1)
		both = (_text_at(n, ind, S, i_), _text_at(n, ind, S, j_))
		return [tree(n, ind, S) == If(lmem(S, n), text_of([self.label(H, n), '*\n']), at(k)), _seen(n, S) == If(lmem(S, n), S, seen(k)),
			at(z3.IntVal(0)) == text_of([self.label(H, n), '\n']), seen(z3.IntVal(0)) == S,
			FA([i_, j_], Implies(step, seen(j_) == _seen(child, now)), [(seen(i_), seen(j_))]),
			FA([i_, j_], Implies(And(step, j_ < k), at(j_) == line(TWO_WAY, VERTICAL)), [both]),
			FA([i_, j_], Implies(And(step, j_ == k), at(j_) == line(CORNER, '  ')), [both])]

	def shown(self, H, new, old):
		"""the children of what was expanded: each with children of its own is expanded too"""
		return FA([x_, t_], Implies(And(lmem(new, x_), Not(lmem(old, x_)), ddom(self.s.Od(H, x_), t_)), self.done(H, new, H.f('_end', dget(self.s.Od(H, x_), t_)))), [(lmem(new, x_), ddom(self.s.Od(H, x_), t_))])

	def done(self, H, S, x):
		return Or(Not(self.parent(H, x)), lmem(S, x))

	def nodes(self, H, g, S):
		return FA([x_], Implies(lmem(S, x_), And(self.s.innode(H, g, x_), self.s.isnode(H, x_), self.parent(H, x_))), [lmem(S, x_)])

	def plain_labels(self, H, g):
		s = self.s
		nd = s.nd(H, g)
		return ('the labels of the nodes', FA([k_], Implies(ddom(nd, k_), self.plain(H.f('_label', dget(nd, k_)))), [ddom(nd, k_)]))


class NodeTree(Tree, OnNode, Contract):
	key = 'Node.get_tree_str'

	def cases(self, ex):
		return ['list', 'none']

	def make_args(self, ex, st, case):
		ind, seen = z3.Const('indentation', V), T(NONE)
		st.assume(V.is_s(ind))
		st.types[ind] = 's'
		if case == 'list':
			x = z3.Const('already_added', V)
			st.assume(ex.tagf(st, x, 'list'))
			st.types[x] = 'list'
			seen = T(x)
		return {'self': self.node_self(ex, st), 'indentation': T(ind), 'already_added': seen}

	def applies(self, ex, st, env):
		return super().applies(ex, st, env) and isinstance(env['already_added'], T)

	def old(self, H, a):
		x = a['already_added']
		return lnil if x.eq(NONE) else H.lst(x)

	def requires(self, H, a, ex):
		n, x = a['self'], a['already_added']
		g = H.f('_graph', n)
		out = self.base_node(H, n) + [self.plain_labels(H, g), ('the indentation is a text', V.is_s(a['indentation']))]
		if not x.eq(NONE):
			out += [('a list', And(V.is_r(x), H.cls(x) == LIST, H.allocated(x))), ('of nodes with children', self.nodes(H, g, H.lst(x)))]
		return out

	def lemmas(self, H, a, ex):
		return self.definition(H, a['self'], a['indentation'], self.old(H, a))

	def modifies(self, H, a, ex):
		x = a['already_added']
		return [] if x.eq(NONE) else [('L', V.rv(x))]

	def depth_check(self, ex, st, H, a, node):
		if ex.rootctx.get('contract') is not self:
			return
		H0, a0 = ex.rootctx['H0'], ex.rootctx['args']
		S0, S1, n0 = self.old(H0, a0), self.old(H, a), a0['self']
		x = Fresh.const('x', V)
		ex.prove(st, And(lmem(S1, n0), Not(lmem(S0, n0)), Implies(lmem(S0, x), lmem(S1, x)), H.f('_graph', a['self']) == H0.f('_graph', n0)), 'the recursion ends: more nodes of the graph are expanded', node)

	def invariants(self, lc):
		H0, a, ex = lc.root['H0'], lc.root['args'], lc.ex
		n, ind, S = a['self'], a['indentation'], self.old(H0, a)
		g = H0.f('_graph', n)
		out = []
		for m in lc.mods.names:
			v = lc.entry.env.get(m)
			if isinstance(v, T) and ex.static_tag(lc.entry, v.t) == 's':
				out.append((f'{m} is the text so far', lambda st, k, vis, m=m: st.env[m].t == V.s(_text_at(n, ind, S, k))))
		for m in lc.mod_lists:
			l = lambda st, m=m: lc.lst(st, m)
			out += [(f'{m} are the expanded nodes', lambda st, k, vis, l=l: l(st) == _seen_at(n, S, k)),
				(f'{m}: nodes with children', lambda st, k, vis, l=l: self.nodes(H0, g, l(st))),
				(f'{m}: none is forgotten', lambda st, k, vis, l=l: FA([x_], Implies(lmem(S, x_), lmem(l(st), x_)), [lmem(l(st), x_), lmem(S, x_)])),
				(f'{m}: the node', lambda st, k, vis, l=l: Implies(k > 0, lmem(l(st), n))),
				(f'{m}: the children so far', lambda st, k, vis, l=l: FA([i_], Implies(And(0 <= i_, i_ < k), self.done(H0, l(st), self.kid(H0, n, i_))), [lat(self.kids(H0, n), i_)])),
				(f'{m}: what is below', lambda st, k, vis, l=l: self.shown(H0, l(st), lapp(S, n)))]
		return out

	def result_tag(self):
		return 's'

	def ensures(self, H0, H1, a, res, ex):
		n, x = a['self'], a['already_added']
		S = self.old(H0, a)
		g = H0.f('_graph', n)
		out = [('the text', res == tree(n, a['indentation'], S))]
		if not x.eq(NONE):
			S1 = H1.lst(x)
			out += [('the expanded nodes', S1 == _seen(n, S)), ('nodes with children', self.nodes(H0, g, S1)), ('none is forgotten', FA([x_], Implies(lmem(S, x_), lmem(S1, x_)), [lmem(S1, x_), lmem(S, x_)])),
				('the node is expanded', self.done(H0, S1, n)), ('everything below it is expanded', self.shown(H0, S1, S))]
		return out


class GraphTree(Tree, Contract):
	key = 'BasicGraph.get_tree_str'
	use = ('BasicGraph.roots',)

	def make_args(self, ex, st, case):
		return {'self': self.graph_arg(ex, st)}

	def requires(self, H, a, ex):
		return self.base(H, a['self']) + [self.plain_labels(H, a['self'])]

	def seen_defs(self):
		f = _seen_roots
		return [FA([l_], f(l_, 0) == lnil, [f(l_, 0)]), FA([l_, i_, j_], Implies(And(0 <= i_, i_ < llen(l_), j_ == i_ + 1), f(l_, j_) == _seen(lat(l_, i_), f(l_, i_))), [(f(l_, i_), f(l_, j_))])]

	def lemmas(self, H, a, ex):
		r = self.s.rel(H, a['self'])
		return r.tc_defs() + self.seen_defs()

	def stated(self, l, roots, n):
		return And(llen(l) == n, FA([i_], Implies(And(0 <= i_, i_ < n), lat(l, i_) == tree(lat(roots, i_), lit(''), _seen_roots(roots, i_))), [lat(l, i_), lat(roots, i_)]))

	def invariants(self, lc):
		if lc.iter is None:
			return []
		H0, a = lc.root['H0'], lc.root['args']
		g = a['self']
		out = []
		for m in lc.mod_lists:
			l = lambda st, m=m: lc.lst(st, m)
			out += [(f'{m} has the texts of the roots so far', lambda st, k, vis, l=l: self.stated(l(st), lc.iter, k)),
				(f'{m} are the expanded nodes', lambda st, k, vis, l=l: l(st) == _seen_roots(lc.iter, k)),
				(f'{m}: nodes with children', lambda st, k, vis, l=l: self.nodes(H0, g, l(st))),
				(f'{m}: the roots so far', lambda st, k, vis, l=l: FA([x_], Implies(lmem(vis, x_), self.done(H0, l(st), x_)), [lmem(vis, x_)])),
				(f'{m}: what is below', lambda st, k, vis, l=l: self.shown(H0, l(st), lnil))]
		return out

	def result_tag(self):
		return 's'

	def all_shown(self, H, g, l):
		S = _seen_roots(l, llen(l))
		ns = dvals(self.s.nd(H, g))
		return FA([x_], Implies(And(lmem(ns, x_), self.parent(H, x_)), lmem(S, x_)), [lmem(ns, x_), lmem(S, x_)])

	def ensures(self, H0, H1, a, res, ex):
		g = a['self']
		lines = V.s(ufn('join', V, L, I)(lit('\n'), m_))
		return [('the trees of roots, one after the other, that expand every node with children',
			EX([l_, m_], And(nodup(l_), FA([x_], Implies(lmem(l_, x_), self.s.innode(H0, g, x_)), [lmem(l_, x_)]), self.stated(m_, l_, llen(l_)), self.all_shown(H0, g, l_), res == lines), [(nodup(l_), lines)]))]

	def hints(self, H0, H1, a, res, ex, st):
		g = a['self']
		r = self.s.rel(H0, g)
		out = [Fresh.const('text', V) == res]
		# induction along the paths from every node, for what is expanded in the end
		for i, (name, kind) in enumerate(ex.list_vars(st)):
			if kind == 'list':
				S = ex.lst(st, st.env[name].t)
				a_, b_ = [ufn(f'induct_{x}{i}', V, V)(y_) for x in 'ab']
				P = lambda x: self.done(H0, S, x)
				out.append(FA([y_], Implies(And(Implies(r.ch(y_, a_), P(a_)), Implies(And(P(a_), r.tc(y_, a_), r.ch(a_, b_)), P(b_))), FA([v_], Implies(r.tc(y_, v_), P(v_)), [r.tc(y_, v_)])), [lmem(S, y_)]))
		return out
