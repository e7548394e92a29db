"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BG, GD, ND, ED = 'abstract/_BasicGraph.py', 'abstract/_GraphWithoutDisplay.py', 'abstract/Node.py', 'abstract/Edge.py'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
	P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
		'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe)}})
H = 'The tests build three or four fixed graphs; they cannot reach every history, and none checks both ends of an edge after a removal.'
Q = 'The tests sample one small acyclic graph; loops, diamonds, repeated edges, self-loops and long paths are never visited.'
prop('C01', 'Edges and nodes always agree with each other', 'After every operation on a graph, every edge is recorded at its start node and at its end node under the same identity (start name, end name, id), both ends are registered nodes of the graph, and edge and nodes belong to that graph. Every registered node is registered under its own name.',
	['histories', 'inputs'], 'For every sequence of adding, connecting, disconnecting, removing, re-adding and copying, with any names (strings or integers) and edge ids.', H, [BG, ND, ED],
	[('registering nodes', f'{BG}: add_node, remove_node'), ('recording edges at both ends', f'{ED}: __init__, remove_self'), ('creating and cutting edges', f'{BG}: connect, disconnect')], ['Graph.nodes_dict', 'Node.outward_edges_dict', 'Node.inward_edges_dict'])
prop('C02', 'A name stands for exactly one node', 'Adding a node under a new name registers one new node with the given label and value; adding under a taken name returns the registered node, updates only the label, value and style that are given, and warns or raises KeyError if asked to. Adding a node object registers that object unless it belongs to another graph or its name is taken (ValueError), and nothing else in the graph changes.',
	['inputs', 'histories'], 'For every graph, name, label, value and policy.', 'The tests add fresh string names only; duplicates, falsy values, integer names, node objects and the frame are not sampled.', [BG, GD, ND],
	[('add_node', f'{BG}: add_node'), ('node constructor', f'{ND}: __init__')], ['Graph.add_node', 'Graph.nodes_dict'])
prop('C03', 'Connecting makes one edge per start, end and id', 'Connecting two nodes with an id creates one new edge exactly if no edge with this start, end and id exists; otherwise the existing edge is returned, only what is given (label, value, style) is updated, and a warning or ValueError is given if asked for. A missing end raises KeyError, and nothing else in the graph changes.',
	['inputs', 'histories'], 'For every graph, pair of nodes (by name or as objects), id, label, value and policy.', 'The tests connect each pair once; parallel edges, falsy ids, self-loops and repeated connects are not sampled.', [BG, GD, ED],
	[('connect', f'{BG}: connect'), ('edge constructor', f'{ED}: __init__')], ['Graph.connect', 'Node.connect_to', 'Node.connect_from'])
prop('C04', 'Removal removes exactly what it should', 'Removing a node removes it and exactly the edges that start or end at it; disconnecting or removing an edge removes exactly that edge. All other nodes and edges, their order, labels and values stay, and what was removed no longer belongs to a graph.',
	['inputs', 'histories'], 'For every graph and every node or edge of it, also self-loops and parallel edges.', 'One test removes one node of a path; that the rest stays unchanged is never checked.', [BG, ND, ED],
	[('remove_node', f'{BG}: remove_node'), ('remove_edges', f'{ND}: remove_edges'), ('remove_self', f'{ED}: remove_self'), ('disconnect', f'{BG}: disconnect')], ['Graph.remove_node', 'Graph.disconnect', 'Edge.remove_self', 'Node.remove_edges'])
prop('C05', 'Ancestors are exactly the nodes that reach the node', 'The ancestors of a node are exactly the nodes from which a path of at least one edge leads to it, each once; the node itself is among them exactly if it lies on a loop. The search always ends.',
	['inputs'], 'For every graph, with loops, and every node.', Q, [BG, ND], [('recursive search', f'{BG}: _get_ancestors, get_ancestors'), ('ancestors', f'{ND}: ancestors')], ['Graph.get_ancestors', 'Node.ancestors'])
prop('C06', 'Descendants are exactly the nodes that can be reached', 'The descendants of a node are exactly the other nodes to which a path leads from it, each once. The search always ends.',
	['inputs'], 'For every graph, with loops, and every node.', Q, [BG, ND], [('recursive search', f'{BG}: _get_descendants, get_descendants'), ('descendants', f'{ND}: descendants, num_descendants')], ['Graph.get_descendants', 'Node.descendants', 'Node.num_descendants'])
prop('C07', 'Relatives are grouped by their shortest distance', 'Asked with distances, ancestors and descendants are given as a dictionary that has every relative exactly once, under the number of edges of a shortest path; the distances are 1, 2, ... without gaps.',
	['inputs'], 'For every graph, with loops, and every node.', 'No test asks for distances.', [BG], [('levels', f'{BG}: _group_by_distance, get_ancestors, get_descendants')], ['Graph.get_ancestors', 'Graph.get_descendants'])
prop('C08', 'Loop queries are exact', 'A node is in a loop exactly if a path of at least one edge leads from it to itself, and the loop nodes of a graph are these nodes in order. Two nodes are in the same loop exactly if each reaches the other, and an edge is in a loop exactly if its ends are.',
	['inputs'], 'For every graph and all nodes and edges of it.', 'No test has a loop.', [BG, ND, ED], [('loop queries', f'{BG}: is_node_in_loop, are_nodes_in_same_loop, loop_nodes'), ('of nodes and edges', f'{ND}: is_in_loop, is_in_loop_with; {ED}: is_in_loop')], ['Graph.loop_nodes', 'Graph.is_node_in_loop', 'Graph.are_nodes_in_same_loop'])
prop('C09', 'Roots, absolute roots and leaves', 'The absolute roots are the nodes without parents and the leaves the nodes without children, in order. Every node is a root or a descendant of one, no root is a descendant of another, and every node that reaches a root can be reached from it.',
	['inputs'], 'For every graph, with loops.', Q, [BG], [('roots', f'{BG}: roots, absolute_roots, leaves')], ['Graph.roots', 'Graph.absolute_roots', 'Graph.leaves'])
prop('C10', 'Immediate relatives are exact', 'Children and parents have one entry per edge in the order of the edges; siblings and spouses (co-parents) are exactly the other nodes that share a parent or a child, each once. Counts, tests for presence, membership and lookups agree with them, and a missing name raises KeyError.',
	['inputs'], 'For every graph and node, given by name or as an object.', 'The tests look at one child of one node.', [BG, ND], [('queries', f'{BG}: get_children, get_parents, get_siblings, get_spouses, num_*, has_*, get_node, __contains__'), ('of nodes', f'{ND}: children, parents, siblings, co_parents, edges')], ['Graph.get_children', 'Graph.get_parents', 'Graph.get_siblings', 'Graph.get_spouses', 'Node.siblings', 'Node.co_parents'])
prop('C11', 'Copies and pickles are equal and independent', 'A copied or unpickled graph has the same nodes, edges, orders, labels, values and settings, all of its objects belong to it alone, and it can be used like any other graph. Nothing done to one of the two shows in the other.',
	['inputs', 'histories'], 'For every graph with loops and parallel edges, every way of copying, and all operations afterwards.', 'No test copies or pickles.', [BG, GD, ND, ED, 'abstract/_GraphObj.py'], [('states', f'{BG}: __getstate__, __setstate__, copy; {ND}, {ED}, _GraphObj: __getstate__, __setstate__'), ('repairing references', f'{GD}: update_nodes; {ND}: update_edges')], ['Graph.copy', 'copy.deepcopy', 'pickle'])
prop('C12', 'Adding graphs gives their union', 'The sum of two graphs has exactly the nodes and edges of either; a label or value that only one of them has is kept, the values of both are combined (by the given function or +), and where both have a label that of the left one counts. Neither operand changes.',
	['inputs'], 'For every pair of graphs, overlapping or not, with values that are None, zero or anything that can be added.', 'No test adds graphs.', [GD], [('add', f'{GD}: add, __add__, __graph__, append')], ['Graph.__add__', 'Graph.add'])
prop('C13', 'Representations preserve the graph', 'A graph made from a graph, or from a dictionary of nodes and edges, has exactly its nodes and edges with their order, ids, labels and values, and strictness and ordering. The source does not change, and appending the same representation again adds nothing.',
	['inputs'], 'For every graph and every dictionary with nodes as a list or dictionary and edges of two or three parts.', 'No test uses representations.', [GD], [('append', f'{GD}: append, from_dict, __init__'), ('representation', f'{GD}: __graph__')], ['Graph(obj=...)', 'Graph.append', 'Graph.from_dict', 'Graph.__graph__'])
prop('C14', 'Filtering keeps exactly the selected nodes', 'Filtering returns a new graph with exactly the given nodes and, as the direction says, their ancestors and descendants (or exactly all others, when excluding), and all edges between the nodes that are kept. The original graph does not change.',
	['inputs'], 'For every graph, selection, direction and type.', 'No test filters.', [BG], [('filter', f'{BG}: filter')], ['Graph.filter'])
prop('C15', 'Indented text becomes its tree', 'Every line becomes one node below the nearest line before it that is one level less deep, and lines at the outermost level are below the root. Lines that are indented too deep or by something else are rejected with ValueError.',
	['inputs'], 'For every outline and indentation unit.', 'No test reads indented text.', [BG, 'abstract/parse_indentations_function.py'], [('from_indented_text', f'{BG}: from_indented_text'), ('parser', 'abstract/parse_indentations_function.py')], ['Graph.from_indented_text', 'parse_indentations'])
prop('C16', 'Random graphs have the shape that was asked for', 'A random graph has the given number of nodes, named by consecutive numbers from the start index, at most one edge between each ordered pair, and without cycles only edges from lower to higher numbers. With probability one all such edges exist and with probability zero none, and the same seed gives the same graph.',
	['inputs', 'configurations'], 'For every number of nodes, probability, start index, seed and flags.', 'No test makes a random graph, and for a random choice a test sees one outcome.', [GD], [('random', f'{GD}: random')], ['Graph.random'])
prop('C17', 'The tree text shows every node and edge', 'The tree of a graph has a line for every root and one for every edge below its start node, and shows the children of each node exactly once, in order; further appearances of a node are marked. It ends for every graph, also with loops.',
	['inputs'], 'For every graph.', 'No test makes a tree.', [BG, ND], [('tree', f'{BG}: get_tree_str; {ND}: get_tree_str')], ['Graph.get_tree_str', 'Node.get_tree_str'])
prop('C18', 'The DOT text states every node and edge once', 'The DOT text has exactly one statement for each node, with its label, in order, and exactly one for each edge with its label or value, and the header says strictness, ordering, direction and size as asked. Making it does not change the graph.',
	['inputs', 'configurations'], 'For every graph with names and labels free of quotes, label converters and all header arguments.', 'No test reads the DOT text.', [GD, ND, ED], [('DOT text', f'{GD}: get_graphviz_str, get_graphviz_header; {ND}, {ED}: get_graphviz_str'), ('edges', f'{BG}: edges')], ['Graph.get_graphviz_str'])
prop('C19', 'Graphs from lists have one edge per entry', 'A graph from lists has exactly the names in the lists as nodes, in the order of their first appearance, and one edge per position with that position as id and the given label.',
	['inputs'], 'For all lists of equal length.', 'No test uses it.', [BG], [('from_lists', f'{BG}: from_lists')], ['Graph.from_lists'])
prop('C20', 'Relatives of linked objects are exact', 'For objects that tell their children and parents, the descendants and ancestors are exactly the other objects that can be reached, each once, at their shortest distance and within the given limit. A graph made from an object has one node per object found and an edge for each link between objects found in the same direction.',
	['inputs'], 'For every structure of objects with consistent links, with loops, and every limit.', 'No test uses linked objects.', ['abstract/get_ancestors.py', 'abstract/get_descendants.py', BG], [('levels', 'abstract/get_ancestors.py, abstract/get_descendants.py'), ('from_object', f'{BG}: from_object')], ['get_ancestors', 'get_descendants', 'Graph.from_object'])
prop('C21', 'Rendering styles everything and changes nothing else', 'Rendering gives every node and edge a style, keeps the styles that were set, and leaves nodes, edges, labels and values as they were. Rendering again, or rendering a copy, gives the same text.',
	['inputs', 'configurations'], 'For every graph, with loops, both stylists, styles of its own and edge values of any type.', 'The tests render nothing.', [GD, 'abstract/styling/stylize_with_pensieve.py', 'abstract/styling/inherit_style.py', 'abstract/styling/stylize_edges_based_on_nodes.py', 'abstract/styling/stylize_randomly.py'], [('stylists', 'abstract/styling'), ('stylize', f'{GD}: stylize, render')], ['Graph.render'])
prop('C22', 'Nodes and edges of a graph are told apart, and nodes are ordered', 'Two registered nodes or two edges of a graph are equal only if they are the same, equal nodes have equal hashes, and nodes are ordered by when they were added. The rank of a child is its position among the children of the parent in that order, and ValueError if it is no child.',
	['inputs', 'histories'], 'For all nodes and edges of every graph that any history leaves.', 'No test compares nodes.', [ND, BG, 'abstract/_GraphObj.py'], [('edges', 'abstract/_GraphObj.py: __eq__, __ne__'), ('comparisons', f'{ND}: __eq__, __ne__, __lt__, __gt__, __le__, __ge__, __hash__, get_child_rank'), ('counter', f'{BG}: generate_node_index')], ['Node comparisons', 'Node.get_child_rank'])
prop('C23', 'Similarity means equal content', 'Two graphs are similar exactly if they have the same names, the same values of nodes, the same edges by start, end and id with the same values and styles, and the same strictness and ordering. It is symmetric, and a graph is similar to itself and to its copies.',
	['inputs'], 'For every pair of graphs.', 'No test compares graphs.', [BG, ND, ED, 'abstract/_GraphObj.py'], [('is_similar_to', f'{BG}, {ND}, {ED}, _GraphObj: is_similar_to')], ['Graph.is_similar_to'])
prop('C24', 'Queries change nothing', 'No query (relatives, distances, loops, roots, edges, counts, text and representation) changes the graph, and the lists and dictionaries that queries return can be changed without changing the graph.',
	['inputs'], 'For every graph, every query and every change to its result.', 'A test that looks at a result does not look at the graph afterwards.', [BG, ND, GD], [('queries', f'{BG}, {ND}: properties and get_*')], ['all queries'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
	for p in P:
		assert len(p['title']) <= 80
		f.write(json.dumps(p) + '\n')
