"""Which functions each property rests on (with everything they call, found while verifying)."""

RELATIVES = ['BasicGraph.get_ancestors', 'BasicGraph.get_descendants', 'BasicGraph._group_by_distance']
IMMEDIATE = ['BasicGraph.get_children', 'BasicGraph.get_parents', 'Node.children', 'Node.parents', 'Node.outward_edges', 'Node.inward_edges', 'BasicGraph.get_outward_edges', 'BasicGraph.get_inward_edges',
	'Node.edges', 'BasicGraph.get_edges', 'BasicGraph.num_parents', 'BasicGraph.num_children', 'BasicGraph.has_parents', 'BasicGraph.has_children',
	'Node.has_parents', 'Node.has_children', 'Node.num_outward_edges', 'BasicGraph.get_siblings', 'BasicGraph.get_spouses', 'Node.siblings', 'Node.co_parents',
	'BasicGraph.num_siblings', 'BasicGraph.num_spouses', 'BasicGraph.has_siblings', 'BasicGraph.has_spouses', 'Node.outward_edge_ids', 'Node.inward_edge_ids',
	'BasicGraph.__contains__', 'BasicGraph.get_node', 'BasicGraph.get_node_name', 'BasicGraph.nodes', 'BasicGraph.edges', 'BasicGraph.edges_dict']
LOOPS = ['BasicGraph.loop_nodes', 'BasicGraph.is_node_in_loop', 'Node.is_in_loop', 'BasicGraph.are_nodes_in_same_loop', 'Node.is_in_loop_with', 'Edge.is_in_loop']
ROOTS = ['BasicGraph.roots', 'BasicGraph.absolute_roots', 'BasicGraph.leaves']

ADD = ['BasicGraph.add_node', 'GraphWithoutDisplay.add_node', 'BasicGraph.__init__']
CONNECT = ['BasicGraph.connect', 'GraphWithoutDisplay.connect', 'Node.connect_to', 'Node.connect_from']
REMOVE = ['BasicGraph.remove_node', 'Node.remove_edges', 'Edge.remove_self', 'BasicGraph.disconnect', 'GraphWithoutDisplay.disconnect']
SETTERS = ['Node.label=', 'GraphObj.label=', 'GraphObj.value=', 'GraphObj.freeze', 'GraphObj.unfreeze', 'Node.style=', 'Edge.style=']
ORDER = ['GraphObj.__eq__', 'GraphObj.__ne__', 'Node.__eq__', 'Node.__ne__', 'Node.__lt__', 'Node.__gt__', 'Node.__le__', 'Node.__ge__', 'Node.__hash__', 'BasicGraph.generate_node_index', 'Node.get_child_rank']

PROOFS = {
	'C01': ADD + CONNECT + REMOVE + SETTERS + ['BasicGraph.from_lists', 'GraphWithoutDisplay.__init__', 'GraphWithoutDisplay.append'],
	'C02': ADD,
	'C03': CONNECT,
	'C04': REMOVE,
	'C05': ['BasicGraph._get_ancestors', 'BasicGraph.get_ancestors', 'Node.ancestors'],
	'C06': ['BasicGraph._get_descendants', 'BasicGraph.get_descendants', 'Node.descendants', 'Node.num_descendants'],
	'C07': RELATIVES,
	'C08': LOOPS,
	'C09': ROOTS,
	'C10': IMMEDIATE,
	'C11': ['BasicGraph.copy', 'Node.update_edges'],
	'C12': ['GraphWithoutDisplay.__graph__'] + ADD + CONNECT,
	'C13': ['GraphWithoutDisplay.__graph__', 'GraphWithoutDisplay.append', 'GraphWithoutDisplay.__init__', 'GraphWithoutDisplay.from_dict'],
	'C14': ['BasicGraph.filter'],
	'C15': ['abstract.parse_indentations_function.parse_indentations', 'BasicGraph.from_indented_text'],
	'C16': ['GraphWithoutDisplay.random'],
	'C17': ['Node.get_tree_str', 'BasicGraph.get_tree_str', 'BasicGraph.roots'],
	'C18': ['Node.get_graphviz_str', 'Edge.get_graphviz_str', 'GraphWithoutDisplay.get_graphviz_str', 'BasicGraph.edges', 'BasicGraph.nodes'],
	'C19': ['BasicGraph.from_lists'],
	'C20': ['abstract.get_descendants.get_descendants', 'abstract.get_ancestors.get_ancestors', 'BasicGraph.from_object'],
	'C21': ['Node.style=', 'Edge.style=', 'GraphObj.label=', 'Node.label=', 'GraphObj.value='],
	'C22': ORDER + ADD + CONNECT + REMOVE,
	'C23': ['Edge.is_similar_to', 'Node.is_similar_to', 'BasicGraph.is_similar_to', 'BasicGraph.copy'],
	'C24': RELATIVES + IMMEDIATE + LOOPS + ROOTS + ['BasicGraph._get_ancestors', 'BasicGraph._get_descendants', 'Node.ancestors', 'Node.descendants', 'Node.num_descendants',
		'Node.get_tree_str', 'BasicGraph.get_tree_str', 'Node.get_graphviz_str', 'Edge.get_graphviz_str', 'GraphWithoutDisplay.get_graphviz_str', 'GraphWithoutDisplay.__graph__'],
}

# parts of a property that are only checked by running them, with the limits in the evidence
BOUNDED = {
	'C12': ['add, __add__ and the constructor with a representation: the union itself (proved: the representations that are combined, and adding nodes and edges to the result)'],
	'C13': ['representations of other shapes than those __graph__ makes (names and their details, rows of two names and details) and than lists of names with pairs; lists of objects'],
	'C18': ['the text of the header, and of the style attributes'],
	'C21': ['the stylists and render (proved: the setters through which styles are given)'],
	'C11': ['pickles (copies are proved; pickle goes through the same __getstate__ and __setstate__)'],
}

# where the main statement of a property is only checked by running it
PARTLY = ('C12', 'C21')
