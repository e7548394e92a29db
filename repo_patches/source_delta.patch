From 8d3978fec2ba337263930f23f2aa0bd4615d1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 01/30] fix: add_node accepts integer names like get_node does,
 and reports other types with TypeError

---
 abstract/_BasicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 040afaa..dd818c1 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -275,7 +275,7 @@ class BasicGraph:
 		Returns:
 			Node: The created node.
 		"""
-		if isinstance(name, str):
+		if isinstance(name, (str, int)):
 			if name in self.nodes_dict:
 				if if_node_exists == 'ignore':
 					pass
@@ -318,7 +318,7 @@ class BasicGraph:
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-			raise TypeError(f'node of type {type(node)} is not supported!')
+			raise TypeError(f'node of type {type(name)} is not supported!')
 
 	def remove_node(self, node: Union[str, Node]):
 		"""
-- 
2.43.0


From d3a1db6c8c2a3e3beb1acf37ef75ec707948b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 02/30] fix: add_node returns the node when it is already
 registered

---
 abstract/_BasicGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index dd818c1..8fb646e 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -306,7 +306,7 @@ class BasicGraph:
 			if node.id in self.nodes_dict:
 				# if the node is already in the graph and node.graph is self then do nothing
 				if node.graph is self and self.nodes_dict[node.id] is node:
-					pass
+					return node
 				else:
 					raise ValueError(f'node with id "{node.id}" is already in a graph!')
 			else:
-- 
2.43.0


From 035703421d9483de6ac9b6e199bb78bfe666fd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 03/30] fix: a removed node that is added to a graph again
 belongs to that graph

---
 abstract/_BasicGraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 8fb646e..5eb938b 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -315,6 +315,7 @@ class BasicGraph:
 						raise ValueError(f'node with id "{node.id}" is already in a graph but not in the graph dictionary: {self.nodes_dict.keys()}')
 					else:
 						raise ValueError(f'node with id "{node.id}" is already in a graph!')
+				node._graph = self
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-- 
2.43.0


From 5388e91ea3efa592fa8dfd21ee137f488f3bf7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 04/30] fix: 'node in graph' works for Node objects

---
 abstract/_BasicGraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 5eb938b..ac480e1 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -190,6 +190,8 @@ class BasicGraph:
 		Returns:
 			bool: True if the item is in the graph, False otherwise.
 		"""
+		if isinstance(item, Node):
+			return item.id in self._nodes_dict and self._nodes_dict[item.id] is item
 		return item in self._nodes_dict
 
 	@property
-- 
2.43.0


From 0503762650cad8715d579c921c79027da1b84824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 05/30] fix: is_similar_to answers False instead of raising
 KeyError for different nodes or edges

---
 abstract/Node.py        | 4 ++++
 abstract/_BasicGraph.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/abstract/Node.py b/abstract/Node.py
index 63f52f1..ec95fe0 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -120,10 +120,14 @@ class Node(GraphObj):
 		if len(self._inward_edges_dict) != len(other._inward_edges_dict):
 			return False
 		for id, outward_edge in self._outward_edges_dict.items():
+			if id not in other._outward_edges_dict:
+				return False
 			other_outward_edge = other._outward_edges_dict[id]
 			if not outward_edge.is_similar_to(other=other_outward_edge):
 				return False
 		for id, inward_edge in self._inward_edges_dict.items():
+			if id not in other._inward_edges_dict:
+				return False
 			other_inward_edge = other._inward_edges_dict[id]
 			if not inward_edge.is_similar_to(other=other_inward_edge):
 				return False
diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index ac480e1..b487944 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -751,6 +751,8 @@ class BasicGraph:
 			return False
 
 		for name, node in self._nodes_dict.items():
+			if name not in other._nodes_dict:
+				return False
 			other_node = other._nodes_dict[name]
 			if not node.is_similar_to(other=other_node):
 				return False
-- 
2.43.0


From df82c767939c680da2abc61472c6f0645c33adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 06/30] fix: filter honours its direction argument

---
 abstract/_BasicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index b487944..1c14641 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -79,11 +79,11 @@ class BasicGraph:
 			node = self.get_node(node=x)
 			name = node.name
 			relatives[name] = 1
-			if direction == 'to' or 'to_and_from':
+			if direction in ('to', 'to_and_from'):
 				for ancestor in node.ancestors:
 					relatives[ancestor.name] = 1
 
-			if direction == 'from' or 'to_and_from':
+			if direction in ('from', 'to_and_from'):
 				for descendant in node.descendants:
 					relatives[descendant.name] = 1
 
-- 
2.43.0


From 36b7c2b46342c4fda8e977b8323b421f6c8c73ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 07/30] fix: get_ancestors/get_descendants with distance=True
 list every relative once, at its shortest distance

---
 abstract/_BasicGraph.py | 51 ++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 1c14641..ffdae3e 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -513,23 +513,42 @@ class BasicGraph:
 		nodes_travelled.append(node)
 		parents = self.get_parents(node=node)
 		if len(parents) == 0:
-			return [], {}
+			return []
 		else:
 			ancestors = []
-			ancestors_dict = {1: []}
 			for parent in parents:
 				if parent not in ancestors:
 					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
 
 				if parent not in nodes_travelled:
-					parent_ancestors, parent_ancestors_dict = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
+					parent_ancestors = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
 					for ancestor in parent_ancestors:
 						if ancestor not in ancestors:
 							ancestors.append(ancestor)
-							for distance in parent_ancestors_dict.keys():
-								ancestors_dict[distance+1] = parent_ancestors_dict[distance]
-			return ancestors, ancestors_dict
+			return ancestors
+
+	def _group_by_distance(self, node, relatives, get_next):
+		"""
+		groups the relatives of a node by the length of the shortest path between them and the node
+		:type node: Node or str
+		:type relatives: list[Node]
+		:type get_next: callable
+		:rtype: dict[int,list[Node]]
+		"""
+		result = {}
+		seen = []
+		level = [self.get_node(node)]
+		while len(level) > 0:
+			next_level = []
+			for nearer in level:
+				for relative in get_next(node=nearer):
+					if relative in relatives and relative not in seen:
+						seen.append(relative)
+						next_level.append(relative)
+			if len(next_level) > 0:
+				result[len(result) + 1] = next_level
+			level = next_level
+		return result
 
 	def get_ancestors(self, node, distance=True):
 		"""
@@ -537,9 +556,9 @@ class BasicGraph:
 		:param bool distance: if True, ancestors and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		ancestors, ancestors_dict = self._get_ancestors(node=node, nodes_travelled=None)
+		ancestors = self._get_ancestors(node=node, nodes_travelled=None)
 		if distance:
-			return ancestors_dict
+			return self._group_by_distance(node=node, relatives=ancestors, get_next=self.get_parents)
 		else:
 			return ancestors
 
@@ -572,22 +591,18 @@ class BasicGraph:
 		nodes_travelled.append(node)
 		children = self.get_children(node=node)
 		if len(children) == 0:
-			return [], {}
+			return []
 		else:
 			descendants = []
-			descendants_dict = {1: []}
 			for child in children:
 				if child not in nodes_travelled:
 					if child not in descendants:
 						descendants.append(child)
-						descendants_dict[1].append(child)
-					child_descendants, child_descendants_dict = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
+					child_descendants = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
 					for descendant in child_descendants:
 						if descendant not in descendants:
 							descendants.append(descendant)
-							for distance in child_descendants_dict.keys():
-								descendants_dict[distance+1] = child_descendants_dict[distance]
-			return descendants, descendants_dict
+			return descendants
 
 	def get_descendants(self, node, distance=True):
 		"""
@@ -595,9 +610,9 @@ class BasicGraph:
 		:param bool distance: if True, descendants and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		descendants, descendants_dict = self._get_descendants(node=node, nodes_travelled=None)
+		descendants = self._get_descendants(node=node, nodes_travelled=None)
 		if distance:
-			return descendants_dict
+			return self._group_by_distance(node=node, relatives=descendants, get_next=self.get_children)
 		else:
 			return descendants
 
-- 
2.43.0


From 2ebdc7358bed9018ebb6376caf5e948c7a0d293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 08/30] fix: get_ancestors/get_descendants of objects find
 everything within the depth limit, at its shortest distance

---
 abstract/get_ancestors.py   | 44 +++++++++++++------------------------
 abstract/get_descendants.py | 44 +++++++++++++------------------------
 2 files changed, 30 insertions(+), 58 deletions(-)

diff --git a/abstract/get_ancestors.py b/abstract/get_ancestors.py
index 6f554b4..3eb00d3 100755
--- a/abstract/get_ancestors.py
+++ b/abstract/get_ancestors.py
@@ -1,44 +1,30 @@
 from typing import List, Dict, Optional, Tuple, Union
 
-def _get_ancestors(obj, _objects_travelled: Optional[List] = None, max_height: Optional[int] = None) -> Tuple[List, Dict]:
+def _get_ancestors(obj, max_height: Optional[int] = None) -> Tuple[List, Dict]:
 	"""
 	Retrieves the ancestors of an object.
 
 	Args:
 		obj: The object to retrieve ancestors from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
 		max_height (Optional[int]): Maximum height for travelling through objects' parents.
 
 	Returns:
 		Tuple[List, Dict]: A tuple containing a list of ancestors and a dictionary of ancestors with their distances.
 	"""
-	if max_height is not None:
-		if max_height <= 0:
-			return [], {}
-		else:
-			max_height -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	parents = obj.__parents__()
-	if len(parents) == 0:
-		return [], {}
-	else:
-		ancestors = []
-		ancestors_dict = {1: []}
-		for parent in parents:
-			if parent not in _objects_travelled:
-				if parent not in ancestors:
+	ancestors = []
+	ancestors_dict = {}
+	level = [obj]
+	while len(level) > 0 and (max_height is None or len(ancestors_dict) < max_height):
+		next_level = []
+		for nearer in level:
+			for parent in nearer.__parents__():
+				if parent != obj and parent not in ancestors:
 					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
-				parent_ancestors, parent_ancestors_dict = _get_ancestors(
-					obj=parent, _objects_travelled=_objects_travelled, max_height=max_height
-				)
-				for ancestor in parent_ancestors:
-					if ancestor not in ancestors:
-						ancestors.append(ancestor)
-						for distance in parent_ancestors_dict.keys():
-							ancestors_dict[distance + 1] = parent_ancestors_dict[distance]
-		return ancestors, ancestors_dict
+					next_level.append(parent)
+		if len(next_level) > 0:
+			ancestors_dict[len(ancestors_dict) + 1] = next_level
+		level = next_level
+	return ancestors, ancestors_dict
 
 
 def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None) -> Union[List, Dict]:
@@ -53,7 +39,7 @@ def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of ancestors or a dictionary of ancestors with their distances.
 	"""
-	ancestors, ancestors_dict = _get_ancestors(obj=obj, _objects_travelled=None, max_height=max_height)
+	ancestors, ancestors_dict = _get_ancestors(obj=obj, max_height=max_height)
 	if distance:
 		return ancestors_dict
 	else:
diff --git a/abstract/get_descendants.py b/abstract/get_descendants.py
index 4771e5e..51cbdcb 100755
--- a/abstract/get_descendants.py
+++ b/abstract/get_descendants.py
@@ -1,44 +1,30 @@
 from typing import List, Dict, Optional, Tuple, Union
 
-def _get_descendants(obj, _objects_travelled: Optional[List] = None, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
+def _get_descendants(obj, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
 	"""
 	Retrieves the descendants of an object.
 
 	Args:
 		obj: The object to retrieve descendants from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
 		max_depth (Optional[int]): Maximum depth for travelling through objects' children.
 
 	Returns:
 		Tuple[List, Dict]: A tuple containing a list of descendants and a dictionary of descendants with their distances.
 	"""
-	if max_depth is not None:
-		if max_depth <= 0:
-			return [], {}
-		else:
-			max_depth -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	children = obj.__children__()
-	if len(children) == 0:
-		return [], {}
-	else:
-		descendants = []
-		descendants_dict = {1: []}
-		for child in children:
-			if child not in _objects_travelled:
-				if child not in descendants:
+	descendants = []
+	descendants_dict = {}
+	level = [obj]
+	while len(level) > 0 and (max_depth is None or len(descendants_dict) < max_depth):
+		next_level = []
+		for nearer in level:
+			for child in nearer.__children__():
+				if child != obj and child not in descendants:
 					descendants.append(child)
-					descendants_dict[1].append(child)
-				child_descendants, child_descendants_dict = _get_descendants(
-					obj=child, _objects_travelled=_objects_travelled, max_depth=max_depth
-				)
-				for descendant in child_descendants:
-					if descendant not in descendants:
-						descendants.append(descendant)
-						for distance in child_descendants_dict.keys():
-							descendants_dict[distance + 1] = child_descendants_dict[distance]
-		return descendants, descendants_dict
+					next_level.append(child)
+		if len(next_level) > 0:
+			descendants_dict[len(descendants_dict) + 1] = next_level
+		level = next_level
+	return descendants, descendants_dict
 
 
 def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None) -> Union[List, Dict]:
@@ -53,7 +39,7 @@ def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of descendants or a dictionary of descendants with their distances.
 	"""
-	descendants, descendants_dict = _get_descendants(obj=obj, _objects_travelled=None, max_depth=max_depth)
+	descendants, descendants_dict = _get_descendants(obj=obj, max_depth=max_depth)
 	if distance:
 		return descendants_dict
 	else:
-- 
2.43.0


From bd1b639dfd748e7edd2115c6c41f38383b172650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 09/30] fix: from_object adds its nodes before connecting them

---
 abstract/_BasicGraph.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index ffdae3e..ce7944e 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -137,19 +137,20 @@ class BasicGraph:
 		descendants = get_descendants(obj=obj, distance=False, max_depth=max_depth)
 		ancestors = get_ancestors(obj=obj, distance=False, max_height=max_height)
 
+		for relative in descendants + ancestors:
+			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')
+
 		obj_and_descendants = [obj] + descendants
-		for child in descendants:
+		for child in obj_and_descendants:
 			for parent in child.__parents__():
 				if parent in obj_and_descendants:
-					graph.add_node(name=child.__hash__(), label=str(child))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		obj_and_ancestors = [obj] + ancestors
-		for parent in ancestors:
+		for parent in obj_and_ancestors:
 			for child in parent.__children__():
 				if child in obj_and_ancestors:
-					graph.add_node(name=parent.__hash__(), label=str(parent))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		return graph
 
-- 
2.43.0


From 5f0a38226f1fca38ad5b5c0d8c94beabdffd0833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 10/30] fix: parse_indentations only treats leading indentation
 as indentation, and accepts a blank first line

---
 abstract/parse_indentations_function.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 7c3e8c5..a93dbc1 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -13,23 +13,22 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 	Yields:
 		Tuple[int, int, str, Optional[int]]: A tuple containing the index, level, content, and parent index.
 	"""
-	regex = re.compile(r'^(?P<indent>(?: {4})*)(?P<name>\S.*)')
 	stack = []
+	level = 0
 
 	for index, line in enumerate(lines):
 		line = line.rstrip('\n')
 		if indent is None:
 			if line.startswith('\t') or line.startswith(' '):
 				indent = re.findall(pattern=r'^[ \t]+', string=line)[0]
-		if indent is not None:
-			line = line.replace(indent, " " * 4, len(line) - len(line.lstrip(indent)))
+		unit = " " * 4 if indent is None else indent
 		if len(line) > 0:
-			match = regex.match(line)
+			match = re.match(r'^(?P<indent>(?:' + re.escape(unit) + r')*)(?P<name>\S.*)', line)
 			if not match:
 				raise ValueError(
 					'Indentation not a multiple of spaces or tabs'.format(line)
 				)
-			level = len(match.group('indent')) // 4
+			level = len(match.group('indent')) // len(unit)
 			if level > len(stack):
 				raise ValueError('Indentation too deep: "{0}"'.format(line))
 			stack[level:] = [index]
-- 
2.43.0


From 0f221a3c90c1b393eabc53bff02d9addeaf2de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 11/30] fix: __graph__ works for graphs with edges

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 32f52b2..b00b5f6 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -538,7 +538,7 @@ class GraphWithoutDisplay(BasicGraph):
 					edge.end.id,
 					{
 						'id': edge.raw_id,
-						'label': edge.raw_label,
+						'label': edge.label,
 						'value': edge.value,
 						'style': edge.style
 					}
-- 
2.43.0


From 4c203394d7e6760b1f51e9347f8823eb9cfcbe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 12/30] fix: __graph__ reports the label of a node and not a
 bound method

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index b00b5f6..26ba65d 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -527,7 +527,7 @@ class GraphWithoutDisplay(BasicGraph):
 		edges_list = []
 		for node in self.nodes:
 			nodes_dict[node.id] = {
-				'label': node.display_label_or_value,
+				'label': node._label,
 				'value': node.value,
 				'style': node.style
 			}
-- 
2.43.0


From 960f37b6f3ee22ae60b4eeb56365669a6557795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 13/30] fix: adding graphs combines the values of both nodes

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 26ba65d..630e40c 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -648,7 +648,7 @@ class GraphWithoutDisplay(BasicGraph):
 				for key in set(node1.keys()).union(node2.keys()):
 					if key in node1 and key in node2:
 						if key == 'value':
-							n[key] = add_values_function(node2[key], node2[key])
+							n[key] = add_values_function(node1[key], node2[key])
 						else:
 							n[key] = node1[key] or node2[key]
 					elif key in node1:
-- 
2.43.0


From 57e0e27365bf6fb7ae22ea3beea1e85bba056de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 14/30] fix: adding graphs keeps a value that is falsy but not
 None

---
 abstract/_GraphWithoutDisplay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 630e40c..d42e377 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -634,8 +634,10 @@ class GraphWithoutDisplay(BasicGraph):
 
 		if add_values_function is None:
 			def add_values_function(x, y):
-				if x is None or y is None:
-					return x or y
+				if x is None:
+					return y
+				elif y is None:
+					return x
 				else:
 					return x + y
 
-- 
2.43.0


From d6c901ff69ded2a80d7ad16041c012dbcca6fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 15/30] fix: adding graphs leaves the style overwrites of the
 operands alone

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index d42e377..f723312 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -626,10 +626,10 @@ class GraphWithoutDisplay(BasicGraph):
 		d1 = self.__graph__()
 		d2 = other.__graph__()
 
-		node_styles = d1['node_styles']
+		node_styles = d1['node_styles'].copy()
 		node_styles.update(d2['node_styles'])
 
-		edge_styles = d1['edge_styles']
+		edge_styles = d1['edge_styles'].copy()
 		edge_styles.update(d2['edge_styles'])
 
 		if add_values_function is None:
-- 
2.43.0


From 914511aa6ff7df5c692a35122d8fb5fd535ac8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 16/30] fix: a graph without a label can be represented and
 appended

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index f723312..a757261 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -435,7 +435,7 @@ class GraphWithoutDisplay(BasicGraph):
 				self._ordering = dictionary['ordering']
 
 			if 'label' in dictionary:
-				self._label = '\n' + dictionary['label']
+				self._label = None if dictionary['label'] is None else '\n' + dictionary['label']
 
 			if 'tooltip' in dictionary:
 				self._tooltip = dictionary['tooltip']
-- 
2.43.0


From 152210c3c915356942e2d644c36ac0dc6d26c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 17/30] fix: edge styles of an appended representation are kept
 as edge styles, by pair of nodes or by edge id

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index a757261..686bee8 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -487,8 +487,8 @@ class GraphWithoutDisplay(BasicGraph):
 
 			if 'edge_styles' in dictionary:
 				for parent_child_edge_id, edge_style in dictionary['edge_styles'].items():
-					edge_id = edges_dict[parent_child_edge_id]
-					self._edge_colour_overwrites[edge_id] = edge_style
+					edge_id = edges_dict.get(parent_child_edge_id, parent_child_edge_id)
+					self._edge_style_overwrites[edge_id] = edge_style
 
 			if 'node_colours' in dictionary:
 				for name, colour in dictionary['node_colours'].items():
-- 
2.43.0


From 6eeaf5c9ea4d9c2d9e5f78db05ae707b94903148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 18/30] fix: node and edge styles survive copying and pickling

---
 abstract/styling/EdgeStyle.py |  4 +++-
 abstract/styling/NodeStyle.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index bd2b272..96bf9d5 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -119,7 +119,8 @@ class EdgeStyle:
 			'_text_size': self._text_size,
 			'_arrow_size': self._arrow_size,
 			'_label_style': self._label_style,
-			'_line_width': self._line_width
+			'_line_width': self._line_width,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour
 		}
 
 	def __setstate__(self, state):
@@ -131,6 +132,7 @@ class EdgeStyle:
 		self._arrow_size = state['_arrow_size']
 		self._label_style = state['_label_style']
 		self._line_width = state['_line_width']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
 
 	@property
 	def _graphviz_dictionary(self):
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index d48223d..78a46d4 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -166,11 +166,16 @@ class NodeStyle:
 			'_colour': self._colour,
 			'_fill_colour': self._fill_colour,
 			'_border_colour': self._border_colour,
+			'_opacity': self._opacity,
 			'_font': self._font,
 			'_text_colour': self._text_colour,
 			'_text_size': self._text_size,
 			'_shape': self._shape,
-			'_shape_style': self._shape_style
+			'_shape_style': self._shape_style,
+			'_fill_colour_based_on_main_colour': self._fill_colour_based_on_main_colour,
+			'_border_colour_based_on_main_colour': self._border_colour_based_on_main_colour,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
+			'_lighter_fill': self._lighter_fill
 		}
 
 	def __setstate__(self, state):
@@ -183,6 +188,10 @@ class NodeStyle:
 		self._text_size = state['_text_size']
 		self._shape = state['_shape']
 		self._shape_style = state['_shape_style']
+		self._fill_colour_based_on_main_colour = state['_fill_colour_based_on_main_colour']
+		self._border_colour_based_on_main_colour = state['_border_colour_based_on_main_colour']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
+		self._lighter_fill = state['_lighter_fill']
 
 	@property
 	def _graphviz_dictionary(self):
-- 
2.43.0


From c9d38424124e34dddd3420999b1fb8b30d537c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 19/30] fix: copying a style keeps lighter_fill and label_style

---
 abstract/styling/EdgeStyle.py | 2 +-
 abstract/styling/NodeStyle.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index 96bf9d5..0789b7a 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -56,7 +56,7 @@ class EdgeStyle:
 		result = self.__class__(
 			colour=self._colour, opacity=self._opacity,
 			font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			arrow_size=self._arrow_size, line_width=self._line_width
+			arrow_size=self._arrow_size, label_style=self._label_style, line_width=self._line_width
 		)
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
 		return result
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index 78a46d4..acecdcb 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -89,7 +89,7 @@ class NodeStyle:
 		result = self.__class__(
 			colour=self._colour, fill_colour=self._fill_colour, border_colour=self._border_colour,
 			opacity=self._opacity, font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			shape=self._shape, shape_style=self._shape_style
+			shape=self._shape, shape_style=self._shape_style, lighter_fill=self._lighter_fill
 		)
 		result._fill_colour_based_on_main_colour = self._fill_colour_based_on_main_colour
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
-- 
2.43.0


From 0de279affa66d1ad314651be789f7fb28e11f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 20/30] fix: a copied or unpickled graph can be rendered

---
 abstract/_BasicGraph.py          | 4 +++-
 abstract/_GraphWithoutDisplay.py | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index ce7944e..95e0a6b 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -31,7 +31,9 @@ class BasicGraph:
 		self._edge_label_converter = edge_label_converter
 		# if a dictionary or an object with a __graph__() method is passed use that to create the graph
 
-	_STATE_ATTRIBUTES = ['_nodes_dict', '_is_strict', '_ordering', '_node_counter']
+	_STATE_ATTRIBUTES = [
+		'_nodes_dict', '_is_strict', '_ordering', '_node_counter', '_node_label_converter', '_edge_label_converter'
+	]
 
 	#  for pickling and copying
 	def __getstate__(self) -> Dict:
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 686bee8..3f23d7e 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -16,6 +16,13 @@ DEFAULT_PAD = 0.1
 
 
 class GraphWithoutDisplay(BasicGraph):
+	_STATE_ATTRIBUTES = BasicGraph._STATE_ATTRIBUTES + [
+		'_background_colour', '_direction', '_global_node_style_overwrite', '_global_edge_style_overwrite',
+		'_node_style_overwrites', '_edge_style_overwrites', '_node_colour_overwrites', '_edge_colour_overwrites',
+		'_label', '_label_location', '_label_colour', '_label_url', '_label_background_colour', '_tooltip',
+		'_font', '_font_size', '_kwargs', '_colour_scheme', '_stylist', '_style_overwrite_allowed'
+	]
+
 	def __init__(
 			self, obj=None, strict=False, ordering=True, node_style=None, edge_style=None,
 			node_label_converter=None, edge_label_converter=None,
-- 
2.43.0


From f15393169ecb10a7f2dcd8bbb63771071e7c1224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 21/30] fix: graphs with a loop that is entered from outside
 can be rendered

---
 abstract/styling/stylize_with_pensieve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_with_pensieve.py b/abstract/styling/stylize_with_pensieve.py
index 9764f88..78fbd87 100755
--- a/abstract/styling/stylize_with_pensieve.py
+++ b/abstract/styling/stylize_with_pensieve.py
@@ -19,7 +19,7 @@ def stylize_with_pensieve(
 	# roots or semi-roots
 	for node in graph.nodes:
 		if node.style is None:
-			if is_root_or_parents_are_in_loop(node):
+			if is_root_or_parents_are_in_loop(node) or node.is_in_loop():
 				colour = get_least_used_colour(colours_used)
 				if node_style is None:
 					style = NodeStyle(colour=colour)
-- 
2.43.0


From f5468e2c2831f65a9b2a8fb616a7c7885b3d26b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 22/30] fix: the value of an edge does not change the arrow
 size of other edges

---
 abstract/styling/stylize_edges_based_on_nodes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index 299c341..725a48a 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -7,13 +7,13 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 			colour = edge.start.style.colour.darken(ratio=edge_darkness_ratio)
 
 			if edge_style is None:
-				edge_style = EdgeStyle(colour=colour)
+				style = EdgeStyle(colour=colour)
 			else:
-				edge_style = edge_style.copy()
-				edge_style.reset_colours()
-				edge_style.colour = colour
+				style = edge_style.copy()
+				style.reset_colours()
+				style.colour = colour
 
 			if edge.value is not None:
-				edge_style._arrow_size *= edge.value
+				style._arrow_size *= edge.value
 
-			edge.style = edge_style
\ No newline at end of file
+			edge.style = style
\ No newline at end of file
-- 
2.43.0


From 4e7737139142a4d38888d6a9953828767c101678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 23/30] fix: graphs whose edges have values that are not
 numbers can be rendered

---
 abstract/styling/stylize_edges_based_on_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index 725a48a..d199620 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -13,7 +13,7 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 				style.reset_colours()
 				style.colour = colour
 
-			if edge.value is not None:
+			if isinstance(edge.value, (int, float)):
 				style._arrow_size *= edge.value
 
 			edge.style = style
\ No newline at end of file
-- 
2.43.0


From 1f081461143357877c6b814bb79c8fc1c0fae0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 24/30] fix: a randomly stylized graph can be rendered again,
 and keeps the styles of its nodes

---
 abstract/styling/stylize_randomly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/styling/stylize_randomly.py b/abstract/styling/stylize_randomly.py
index ce200d7..7964c8c 100755
--- a/abstract/styling/stylize_randomly.py
+++ b/abstract/styling/stylize_randomly.py
@@ -23,6 +23,8 @@ def stylize_randomly(
 
 	# all nodes
 	for node in nodes:
+		if node.style is not None:
+			continue
 		colour = get_least_used_colour(colours_used)
 		if node_style is None:
 			style = NodeStyle(colour=colour)
-- 
2.43.0


From 50964500feb4ff14d65cffae869d62dc2de0175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 25/30] fix: a graph with a global node or edge style can be
 rendered again

---
 abstract/_GraphWithoutDisplay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 3f23d7e..d99045a 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -243,11 +243,13 @@ class GraphWithoutDisplay(BasicGraph):
 				smart_global_node_style_overwrite = self._global_node_style_overwrite
 
 			for node in self.nodes:
-				node.style = smart_global_node_style_overwrite
+				if node.style is None or self._style_overwrite_allowed:
+					node.style = smart_global_node_style_overwrite
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
-				edge.style = self._global_edge_style_overwrite
+				if edge.style is None or self._style_overwrite_allowed:
+					edge.style = self._global_edge_style_overwrite
 
 		if self._stylist == 'pensieve':
 			stylize_with_pensieve(graph=self)
-- 
2.43.0


From 7dbd3bc2e0102661c242288a49e7ac706d858eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 26/30] fix: render saves in the format that the path asks for

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index d99045a..9d94c68 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -740,7 +740,7 @@ class GraphWithoutDisplay(BasicGraph):
 			to_save = self.get_graphviz_source(
 				direction=direction, pad=pad, dpi=dpi, height=height, width=width, output_format=output_format
 			)
-			to_save.render(filename=filename, view=view)
+			to_save.render(filename=filename, view=view, format=output_format or None)
 			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)
 
 	"""
-- 
2.43.0


From 7728fd7be827d4cb6f3112121e3860a4a1d31bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 27/30] fix: style and colour overwrites from a representation
 are applied when rendering

---
 abstract/_GraphWithoutDisplay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 9d94c68..9e833a2 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -260,14 +260,14 @@ class GraphWithoutDisplay(BasicGraph):
 			self.nodes_dict[name].style.complement(style)
 
 		for edge_id, style in self._edge_style_overwrites.items():
-			self.edges_dict[edge_id].style = style
+			self.edges_dict[edge_id].style.complement(style)
 
 		for name, colour in self._node_colour_overwrites.items():
 			node = self.nodes_dict[name]
 			style = node.style.copy()
 			style.reset_colours()
 			style.colour = colour
-			node.style = style
+			node._style = style
 
 		for edge_id, colour in self._edge_colour_overwrites.items():
 			edge = self.edges_dict[edge_id]
@@ -275,7 +275,7 @@ class GraphWithoutDisplay(BasicGraph):
 			style = edge.style.copy()
 			style.reset_colours()
 			style.colour = colour
-			edge.style = style
+			edge._style = style
 			_ = edge.style.colour
 
 		if self._global_node_style_overwrite is not None:
-- 
2.43.0


From 5608ebcd5719250a3dc6881d6edb24e23866d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 28/30] fix: a re-added node gets the next index of its graph

Its old index could be that of another node of the graph, so that nodes were
no longer ordered by when they were added, and comparing them could fail.
---
 abstract/_BasicGraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 95e0a6b..8eb5258 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -321,6 +321,7 @@ class BasicGraph:
 					else:
 						raise ValueError(f'node with id "{node.id}" is already in a graph!')
 				node._graph = self
+				node._index = self.generate_node_index()
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-- 
2.43.0


From 885e43866f1921c89de70c8fad6664542d888b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 29/30] fix: styles are compared by their content, so that a
 graph is similar to its copies

---
 abstract/_GraphObj.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 31a9672..b8a9217 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -140,6 +140,10 @@ class GraphObj:
 			raise ValueError('two GraphObj from different graphs cannot be compared')
 		return self.raw_id != other.raw_id
 
+	def _style_str(self):
+		# styles are compared by what they look like, because copies have their own
+		return None if self._style is None else self._style.get_graphviz_str()
+
 	def is_similar_to(self, other):
 		"""
 		:type other: GraphObj
@@ -147,7 +151,7 @@ class GraphObj:
 		"""
 		condition_1 = self.id == other.id
 		condition_2 = self._value == other._value
-		condition_3 = self._style == other._style
+		condition_3 = self._style_str() == other._style_str()
 		condition_4 = self._parameters == other._parameters
 		return  condition_1 and condition_2 and condition_3 and condition_4
 
-- 
2.43.0


From 2ab8173e74e65e592b9a0bc3dec15089da86b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 30/30] fix: different edges with the same id are unequal

---
 abstract/_GraphObj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index b8a9217..128b4fe 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -138,7 +138,7 @@ class GraphObj:
 			raise TypeError(f'"{other}" is of type: {type(other)}')
 		if self.graph != other.graph:
 			raise ValueError('two GraphObj from different graphs cannot be compared')
-		return self.raw_id != other.raw_id
+		return self.id != other.id
 
 	def _style_str(self):
 		# styles are compared by what they look like, because copies have their own
-- 
2.43.0

