From b43caef05b98a484116105f95600570dd63a4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 001/192] fix: reject duplicate subtrees in ParentedTree before
 changing parent pointers

Creating a ParentedTree from, or assigning to a slice, a list in which the same
subtree occurs twice raised ValueError halfway, leaving parent pointers that
disagree with the lists of children.
---
 discodop/tree.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 56d2899..50ed7cc 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -683,9 +683,7 @@ class ParentedTree(Tree):
 		super().__init__(label_or_str, children)
 		# iterate over self.children, *not* children,
 		# because children might be an iterator.
-		for i, child in enumerate(self.children):
-			if isinstance(child, Tree):
-				self._setparent(child, i, dry_run=True)
+		self._checkchildren(self.children, 0)
 		for i, child in enumerate(self.children):
 			if isinstance(child, Tree):
 				self._setparent(child, i)
@@ -783,6 +781,16 @@ class ParentedTree(Tree):
 		if not dry_run:
 			child._parent = self
 
+	def _checkchildren(self, children, start):
+		"""Raise an exception if children cannot all be added to this node."""
+		seen = set()
+		for i, child in enumerate(children, start):
+			if isinstance(child, Tree):
+				self._setparent(child, i, dry_run=True)
+				if id(child) in seen:
+					raise ValueError('Cannot insert the same subtree twice.')
+				seen.add(id(child))
+
 	# === Methods that add/remove children ======================
 	# Every method that adds or removes a child must make
 	# appropriate calls to _setparent() and _delparent().
@@ -820,9 +828,7 @@ class ParentedTree(Tree):
 				value = list(value)
 			# Check for any error conditions, so we can avoid ending
 			# up in an inconsistent state if an error does occur.
-			for i, child in enumerate(value):
-				if isinstance(child, Tree):
-					self._setparent(child, start + i, dry_run=True)
+			self._checkchildren(value, start)
 			# clear the child pointers of all parents we're removing
 			for i in range(start, stop):
 				if isinstance(self[i], Tree):
-- 
2.43.0


From 65a8b0c8ccd811a5799784b6240562ee213cc625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 002/192] fix: refuse insert() on immutable trees

All other modifications raise ValueError, but insert() went through and left
the precomputed hash, leaves and bitset outdated.
---
 discodop/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discodop/tree.py b/discodop/tree.py
index 50ed7cc..0d4b259 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -642,6 +642,9 @@ class ImmutableTree(Tree):
 	def extend(self, _):
 		raise ValueError('ImmutableTrees may not be modified')
 
+	def insert(self, _index, _child):
+		raise ValueError('ImmutableTrees may not be modified')
+
 	def pop(self, _=None):
 		raise ValueError('ImmutableTrees may not be modified')
 
-- 
2.43.0


From 6f24ab4e90faad9f88ce03d7bdcfc35809bc143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 003/192] fix: draw trees with words as leaves or frontier
 non-terminals

DrawTree(tree) without a sentence added placeholder terminals to the non-empty
nodes instead of the empty ones and left words as leaves, so that drawing
always raised ValueError.
---
 discodop/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 0d4b259..9db380d 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1071,7 +1071,7 @@ class DrawTree(object):
 				self.tree = self.tree.copy(True)
 				self.sent = []
 				for a in self.tree.subtrees():
-					if a:
+					if not a:
 						a.append(len(self.sent))
 						self.sent.append(None)
 					elif any(not isinstance(b, Tree) for b in a):
-- 
2.43.0


From d4f69436f763aeaf5f69abd41d16ab5f84890b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 004/192] fix: DrawTree.text(maxwidth=None) should disable
 wrapping as documented

---
 discodop/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 9db380d..6d05dfd 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1561,8 +1561,9 @@ class DrawTree(object):
 		maxchildcol = {}
 		childcols = defaultdict(set)
 		labels = {}
-		wrapre = re.compile('(.{%d,%d}\\b\\W*|.{%d})' % (
-				maxwidth - 4, maxwidth, maxwidth))
+		if maxwidth:
+			wrapre = re.compile('(.{%d,%d}\\b\\W*|.{%d})' % (
+					maxwidth - 4, maxwidth, maxwidth))
 		# collect labels and coordinates
 		for a in self.nodes:
 			row, column = self.coords[a]
-- 
2.43.0


From 2b16455c2858bbe64262425ad81be818f69ab78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 005/192] fix: escape function tags in SVG trees

---
 discodop/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 6d05dfd..7557706 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1412,7 +1412,7 @@ class DrawTree(object):
 			if func:
 				result[-1] += '%s<tspan style="fill: %s; ">%s</tspan>' % (
 							funcsep, funccolor if n in self.highlightfunc
-							else 'black', func)
+							else 'black', htmlescape(func))
 			result[-1] += '</text>'
 		result += ['</svg>']
 		return '\n'.join(result)
-- 
2.43.0


From ba4910760b85365d680dcfabfc69c5600b41ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 006/192] fix: do not repeat the last hyphen of -LRB- etc. in
 colored trees

---
 discodop/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 7557706..62cd593 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1537,7 +1537,8 @@ class DrawTree(object):
 				else:
 					newtext.append('')
 				if func or (funcsep and line.endswith(funcsep)
-						and isinstance(node, Tree)):
+						and isinstance(node, Tree)
+						and node.label not in PTBPUNC):
 					if not seensep:
 						newtext[-1] += funcsep
 						seensep = True
-- 
2.43.0


From 9e4b761918aad2c2b906290938945a1fd6232aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 007/192] fix: PyAgenda keeps insertion order among ties,
 peekitem and clear after invalidation

---
 discodop/util.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index 917ebfb..81e7419 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -194,15 +194,14 @@ class OrderedSet(Set):
 		return self._from_iterable(value for value in self if value in other)
 
 
-INVALID = 0
-
-
 class Entry(object):
 	"""A PyAgenda entry."""
 	def __init__(self, key, value, count):
 		self.key = key
 		self.value = value
 		self.count = count
+		# NB: invalidation may not affect the order of entries in the heap.
+		self.valid = True
 
 	def __lt__(self, b):
 		return (self.value < b.value
@@ -234,7 +233,7 @@ class PyAgenda:
 					oldentry = self.mapping[k]
 					if entry < oldentry:
 						entry.count = oldentry.count
-						oldentry.count = INVALID
+						oldentry.valid = False
 						self.mapping[k] = entry
 						self.heap.append(entry)
 				else:
@@ -246,15 +245,11 @@ class PyAgenda:
 
 	def peekitem(self):
 		"""Get the current best (key, value) pair; keep it on the agenda."""
-		n = len(self.heap)
-		if n == 0:
+		while self.heap and not self.heap[0].valid:
+			heappop(self.heap)
+		if not self.heap:
 			raise IndexError("peek at empty heap")
 		entry = self.heap[0]
-		while entry.count == 0:
-			if n == 1:
-				raise IndexError("peek at empty heap")
-			entry = heappop(self.heap)
-			n -= 1
 		return entry.key, entry.value
 
 	# standard dict() methods
@@ -263,7 +258,7 @@ class PyAgenda:
 		if key is None:
 			return self.popitem()[1]
 		entry = self.mapping.pop(key)
-		entry.count = INVALID
+		entry.valid = False
 		self.length -= 1
 		return entry.value
 
@@ -271,7 +266,7 @@ class PyAgenda:
 		""":returns: best scoring (key, value) pair; removed from agenda."""
 		entry = None
 		entry = heappop(self.heap)
-		while not entry.count:
+		while not entry.valid:
 			entry = heappop(self.heap)
 		del self.mapping[entry.key]
 		self.length -= 1
@@ -288,6 +283,7 @@ class PyAgenda:
 	def clear(self):
 		"""Remove all items from agenda."""
 		self.counter = 1
+		self.length = 0
 		del self.heap[:]
 		self.mapping.clear()
 
@@ -302,7 +298,7 @@ class PyAgenda:
 		if key in self.mapping:
 			oldentry = self.mapping[key]
 			entry.count = oldentry.count
-			oldentry.count = INVALID
+			oldentry.valid = False
 		else:
 			self.length += 1
 			self.counter += 1
@@ -311,13 +307,13 @@ class PyAgenda:
 
 	def __delitem__(self, key):
 		"""Remove key from heap."""
-		self.mapping[key].count = INVALID
+		self.mapping[key].valid = False
 		self.length -= 1
 		del self.mapping[key]
 
 	def __repr__(self):
 		return '%s({%s})' % (self.__class__.__name__, ", ".join(
-				['%r: %r' % (a.key, a.value) for a in self.heap if a.count]))
+				['%r: %r' % (a.key, a.value) for a in self.heap if a.valid]))
 
 	def __str__(self):
 		return self.__repr__()
-- 
2.43.0


From 92e903723d3fb34fa6fe956636f721e6c184d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 008/192] fix: unescape brackets in words when reading bracket
 treebanks

---
 discodop/treebank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 43375d5..ba8a2a2 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -9,7 +9,7 @@ from itertools import count, chain, islice
 from collections import defaultdict
 import xml.etree.ElementTree as ElementTree
 from collections import OrderedDict
-from .tree import (Tree, ParentedTree, brackettree, escape, unescape,
+from .tree import (Tree, ParentedTree, brackettree, unescape,
 		writebrackettree, writediscbrackettree, SUPERFLUOUSSPACERE, HEAD)
 from .treetransforms import removeemptynodes
 from .punctuation import applypunct
@@ -240,7 +240,7 @@ class BracketCorpusReader(CorpusReader):
 								'=0123456789')
 					if self.functions == 'remove':
 						node.label = node.label[:x]
-		sent = [escape(token) for token in LEAVESRE.findall(block)]
+		sent = [unescape(token) or '' for token in LEAVESRE.findall(block)]
 		return Item(tree, sent, None, block)
 
 
-- 
2.43.0


From c51083047a87e3f235ae2f64c9b0ead9a69006ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 009/192] fix: number sentences consecutively across files in
 bracket treebanks

---
 discodop/treebank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index ba8a2a2..b506859 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -217,9 +217,11 @@ class BracketCorpusReader(CorpusReader):
 		return OrderedDict(self._read_blocks())
 
 	def _read_blocks(self):
+		n = 0  # NB: number sentences consecutively across files
 		for filename in self._filenames:
 			with openread(filename, encoding=self._encoding) as inp:
-				yield from enumerate((line for line in inp if line), 1)
+				for n, line in enumerate((line for line in inp if line), n + 1):
+					yield n, line
 
 	def _parse(self, block):
 		c = count()
-- 
2.43.0


From 84fa45963ef324c0553b4d33540562900127fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 010/192] fix: pruning punctuation of an empty sentence

---
 discodop/punctuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index 2b7995b..abfb027 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -66,7 +66,7 @@ def punctprune(tree, sent):
 		sent[i] = None
 		i += 1
 	i = len(sent) - 1
-	while i < len(sent) and sent[i] in PRUNEPUNCT:
+	while i >= 0 and sent[i] in PRUNEPUNCT:
 		sent[i] = None
 		i -= 1
 	if tree is None:
-- 
2.43.0


From 20b28a9b59af397f31ef9239ff933516e6d7b207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 011/192] fix: detect discbracket trees regardless of kind of
 whitespace

---
 discodop/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 62cd593..f934264 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -25,7 +25,7 @@ FRONTIERNTRE = re.compile(r' \)')
 SUPERFLUOUSSPACERE = re.compile(r'\)\s+(?=\))')
 INDEXRE = re.compile(r' ([0-9]+)\)')
 # regex to check if the tree contains any terminals not prefixed by indices
-STRTERMRE = re.compile(r' (?![0-9]+=)[^()]*\s*\)')
+STRTERMRE = re.compile(r'\s(?![0-9]+=|\s|\))[^()]*\)|\([^\s()]+\s+\)')
 
 try:
 	from .bit import fanout as bitfanout
-- 
2.43.0


From 96758e667aa06b59a2d9c9696a5815da75c44657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 012/192] fix: incremental tree reader: text preceding a tree
 on the same line

---
 discodop/treebank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index b506859..f23be20 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1112,7 +1112,8 @@ def segmentbrackets(strict=False, robust=True):
 					rest, prev = line[start:a], line[a:]
 					if result:
 						tryparse(result, rest)
-						result, start = '', a
+						result = ''
+					start = a  # NB: discard any text preceding tree
 				parens += 1
 				depth = max(depth, parens)
 				a = line.find(lb, a + 1)
-- 
2.43.0


From bebf2b36738d09bf20aa8058f106e8441e3b6018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 013/192] fix: incremental tree reader: keep lines without line
 endings apart

---
 discodop/treebank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index f23be20..f9b88a4 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1141,6 +1141,8 @@ def segmentbrackets(strict=False, robust=True):
 			if results:
 				results = []
 		if parens or result:
+			if not prev.endswith('\n'):  # line endings are optional
+				prev += '\n'
 			line = prev + line
 		else:
 			prev = ''
-- 
2.43.0


From 905a2d3142115c781a303143dc65e2c93ee63669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 014/192] fix: incremental tree reader: do not turn export
 tables into empty trees

---
 discodop/treebank.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index f9b88a4..59b6dcb 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1204,9 +1204,12 @@ def segmentexport(morphology, functions, strict=False):
 		elif line.startswith('#EOS ') or line.startswith('#EOT '):
 			if strict and inblock == 0:
 				raise ValueError('#EOS or #EOT without start tag')
-			cur.append(line)
-			item = exporttree(cur, functions, morphology)
-			line = (yield ((item.tree, item.sent, item.comment), ), CONSUMED)
+			res = None
+			if inblock == 1:  # i.e., not the end of a table (#BOT, #EOT)
+				cur.append(line)
+				item = exporttree(cur, functions, morphology)
+				res = ((item.tree, item.sent, item.comment), )
+			line = (yield res, CONSUMED)
 			inblock = 0
 			cur = []
 		elif line:
-- 
2.43.0


From 1cf93b602ecad7b155ba29329eaf64617026a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 015/192] fix: incremental tree reader: return complete trees
 before reporting a malformed one

---
 discodop/treebank.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 59b6dcb..f34e875 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1083,11 +1083,12 @@ def segmentbrackets(strict=False, robust=True):
 		try:
 			tree, sent = brackettree(result, detectdisc=True)
 		except Exception as err:
-			raise ValueError('%r\nwhile parsing:\n%r' % (
+			errors.append(ValueError('%r\nwhile parsing:\n%r' % (
 					err, dict(result=result, rest=rest, parens=parens,
-						depth=depth, prev=prev)))
+						depth=depth, prev=prev))))
 		else:
-			results.append((tree, sent, rest.rstrip()))
+			if not errors:
+				results.append((tree, sent, rest.rstrip()))
 
 	lb, rb = '()'
 	parens = 0  # number of open parens
@@ -1095,6 +1096,7 @@ def segmentbrackets(strict=False, robust=True):
 	prev = ''  # incomplete tree currently being read
 	result = ''  # string of complete tree
 	results = []  # trees found in current line
+	errors = []  # raised after returning any trees preceding the error
 	rest = ''  # any non-tree data after a tree
 	line = (yield None, CONSUMED)
 	while True:
@@ -1128,13 +1130,19 @@ def segmentbrackets(strict=False, robust=True):
 						raise ValueError('unbalanced parentheses')
 					parens = 0
 				b = line.find(rb, b + 1)
+		if errors and not results:
+			raise errors[0]
 		status = CONSUMED if results or result or parens else not CONSUMED
 		line = (yield results or None, status)
+		if errors:
+			raise errors[0]
 		if results:
 			results = []
 		if line is None:
 			if result:
 				tryparse(result, rest)
+			if errors:
+				raise errors[0]
 			status = CONSUMED if results or result or parens else not CONSUMED
 			yield results or None, status
 			line = ''
-- 
2.43.0


From fc1e94171f51d751cc9a4c8dd1bff0e1ee9a0732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 016/192] fix: punctlower lost punctuation or raised an error

---
 discodop/punctuation.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index abfb027..0d53a7d 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -110,12 +110,18 @@ def punctlower(tree, sent):
 			elif num < max(termdom):
 				lower(node, child)
 				break
-
-	for a in tree.treepositions('leaves'):
-		if ispunct(sent[tree[a]], tree[a[:-1]]):
-			b = tree[a[:-1]]
-			del tree[a[:-1]]
-			lower(b, tree)
+		else:
+			candidate.append(node)
+
+	punct = [a for a in tree.subtrees() if a and isinstance(a[0], int)
+			and a is not tree and ispunct(sent[a[0]], a)]
+	for node in punct:
+		parent = node.parent
+		parent.pop(node.parent_index)
+		while not parent and parent is not tree:  # remove empty ancestors
+			parent, child = parent.parent, parent
+			parent.pop(child.parent_index)
+		lower(node, tree)
 
 
 def punctraise(tree, sent, rootpreterms=False):
-- 
2.43.0


From 0403689be2a2785629249d31640b8824a770d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 017/192] fix: undo binarization also for nodes with a tail
 marker

---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 8faa5af..5189138 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -232,7 +232,7 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
-				newnode.label = ''.join((origlabel, childchar, marktail, mark))
+				newnode.label = ''.join((origlabel, childchar, mark, marktail))
 				curnode = newnode
 				# switch direction upon encountering the head
 				if headoutward and i == headidx:
-- 
2.43.0


From 5b17b91766591b929dffb0d8427ba3a890d38304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 018/192] fix: collapse and expand unary nodes of parented
 trees

---
 discodop/treetransforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 5189138..7c8ff3f 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -299,8 +299,10 @@ def unbinarize(tree, _sent=None, expandunary=True,
 				if expandunary:
 					unaryindex = node.label.find(unarychar)
 					if unaryindex != -1:
+						children = node[:]
+						node[:] = []  # detach children from old parent
 						newnode = treeclass(
-								node.label[unaryindex + 1:], node[:])
+								node.label[unaryindex + 1:], children)
 						node.label = node.label[:unaryindex]
 						node[:] = [newnode]
 				parent = node  # non-binarized node, move on to next parent
@@ -328,7 +330,9 @@ def collapseunary(tree, collapsepos=False, collapseroot=False, joinchar='+'):
 			if (len(node) == 1 and isinstance(node[0], Tree)
 					and (collapsepos or isinstance(node[0, 0], Tree))):
 				node.label += joinchar + node[0].label
-				node[0:] = [child for child in node[0]]
+				children = node[0][:]
+				node[0][:] = []  # detach children from old parent
+				node[0:] = children
 				# since we assigned the child's children to the current node,
 				# evaluate the current node again
 				agenda.append(node)
-- 
2.43.0


From 21d852cd858138d0335173de65bed0582394edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 019/192] fix: keep head annotation when splitting
 discontinuous nodes

---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 7c8ff3f..26e2c10 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -515,7 +515,7 @@ def splitdiscnodes(tree, markorigin=False):
 					newchild = treeclass(newlabel, childsubset)
 					newchild.source = child.source
 					if (child.type == HEAD
-							and any(a.type == HEAD for a in child)):
+							and any(a.type == HEAD for a in childsubset)):
 						newchild.type = HEAD
 					node.append(newchild)
 			else:
-- 
2.43.0


From 35fb882041379234db1a68dc8359c7c882897291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 020/192] fix: do not ignore head rules with an empty list of
 children

---
 discodop/heads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index d16d494..e108527 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -47,7 +47,7 @@ def readheadrules(filename):
 	with io.open(filename, encoding='utf8') as inp:
 		for line in inp:
 			line = line.strip().upper()
-			if line and not line.startswith("%") and len(line.split()) > 2:
+			if line and not line.startswith("%") and len(line.split()) > 1:
 				try:
 					label, direction, heads = HEADRULERE.match(line).groups()
 				except AttributeError:
-- 
2.43.0


From a7c5a0f8c77f469877d0845ada55c371d13bd493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 021/192] fix: match head rules for labels with lower case
 letters

---
 discodop/heads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index e108527..e8d1c6a 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -92,7 +92,7 @@ def headfinder(tree, headrules, headlabels=frozenset({'HD'})):
 	# apply heuristic rules:
 	head = None
 	children = tree
-	for direction, heads in headrules.get(tree.label, []):
+	for direction, heads in headrules.get(tree.label.upper(), []):
 		if direction.startswith('LEFT'):
 			children = tree
 		elif direction.startswith('RIGHT'):
-- 
2.43.0


From 16496684a2c348429e46b0982697168e3b696a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 022/192] fix: do not count attachments to the root as
 dependencies in deplen

---
 discodop/treebank.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index f34e875..13ef987 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -926,9 +926,8 @@ def deplen(deps):
 	"""Compute dependency length from result of ``dependencies()``.
 
 	:returns: tuple ``(totaldeplen, numdeps)``."""
-	total = sum(abs(a - b) for a, label, b in deps
-			if label != 'ROOT')
-	return (total, float(len(deps) - 1))  # discount ROOT
+	deplens = [abs(a - b) for a, _label, b in deps if b != 0]  # discount ROOT
+	return (sum(deplens), float(len(deplens)))
 
 
 def handlefunctions(action, tree, pos=True, root=False, morphology=None):
-- 
2.43.0


From 9fcf113ed48f33aa7127f962746dd385d96965ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 023/192] fix: APPEND-MORPH transformation referred to a
 nonexistent method

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index af597be..07f177f 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -153,7 +153,7 @@ def transform(tree, sent, transformations):
 							[a.pop() for _ in range(len(a))][::-1])]
 					a.label = '-' + '-'.join(func)
 		elif name == 'APPEND-MORPH':  # Append morph. features to POS tag
-			for a in tree.subtree(lambda n: n and isinstance(n[0], int)):
+			for a in tree.subtrees(lambda n: n and isinstance(n[0], int)):
 				morph = '--'
 				if a.source:
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
-- 
2.43.0


From 16fd8dad1bceb3182e5fdc8f4cbe73fccf27da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 024/192] fix: insert node of MORPH-NODE transformation above
 POS tag, so that it can be reversed

---
 discodop/treebanktransforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 07f177f..5e00757 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -163,8 +163,9 @@ def transform(tree, sent, transformations):
 				morph = '--'
 				if a.source:
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
-				a[:] = [a.__class__(morph,
+				a[:] = [a.__class__(a.label,
 						[a.pop() for _ in range(len(a))][::-1])]
+				a.label = morph
 		elif name == 'LEMMA-NODE':  # insert node w/lemma above terminal
 			for a in tree.postorder(lambda n: n and isinstance(n[0], int)):
 				lemma = '--'
-- 
2.43.0


From 3a0bca1516bbd36f975d0825647d523f530d7dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 025/192] fix: undefined name in PP-NP transformation

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 5e00757..305abdd 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -250,7 +250,7 @@ def negratransforms(name, tree, sent):
 			# (annotation mistake?), or there is a PN and we want to avoid
 			# a cylic unary of NP -> PN -> NP.
 			if ac and nk and (len(nk) > 1
-					or nk[0].label not in s('NP', 'PN')):
+					or nk[0].label not in ('NP', 'PN')):
 				pp[:] = []
 				pp[:] = ac + [ParentedTree('NP', nk)]
 	elif name == 'DP':  # introduce determiner phrases (DPs)
-- 
2.43.0


From e1d416582fd919c943867a961c7e117061c8de60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 026/192] fix: detach nodes before reusing them in treebank
 transformations

---
 discodop/treebanktransforms.py | 41 ++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 305abdd..f71dc2d 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -288,7 +288,9 @@ def negratransforms(name, tree, sent):
 			toplevel_s = [a for a in tree if a.label == 'S']
 			for s in toplevel_s:
 				while function(s[0]) in newlevel:
-					s[:] = [s[0], ParentedTree('S', s[1:])]
+					rest = s[1:]
+					s[1:] = []
+					s.append(ParentedTree('S', rest))
 					s = s[1]
 					toplevel_s = [s]
 		elif 'CS' in labels(tree):
@@ -298,17 +300,18 @@ def negratransforms(name, tree, sent):
 			finitevp(a)
 	elif name == 'POS-PART':  # introduce POS tag for particle verbs
 		for a in tree.subtrees(
-				lambda n: any(function(x) == 'SVP' for x in n)):
+				lambda n: any(isinstance(x, Tree) and function(x) == 'SVP'
+					for x in n)):
 			svp = [x for x in a if function(x) == 'SVP'].pop()
 			# apparently there can be a _verb_ particle without a verb.
 			# headlines? annotation mistake?
 			if any(isinstance(x, Tree) and x.type == HEAD for x in a):
 				hd = [x for x in a
 						if isinstance(x, Tree) and x.type == HEAD].pop()
-				if hd.label != a.label:
-					particleverb = ParentedTree(hd.label, [hd, svp])
-					a[:] = [particleverb if x.type == HEAD else x
-										for x in a if function(x) != 'SVP']
+				if hd is not svp and hd.label != a.label:
+					particleverb = ParentedTree(hd.label, [])
+					a[hd.parent_index] = particleverb
+					particleverb[:] = [hd, svp.detach()]
 	elif name == 'SBAR':  # introduce SBAR level
 		sbarfunc = 'CP'.split()
 		# in the annotation, complementizers belong to the first S
@@ -317,7 +320,9 @@ def negratransforms(name, tree, sent):
 		for s in list(tree.subtrees(lambda n: n.label == 'S'
 				and function(n[0]) in sbarfunc and len(n) > 1)):
 			s.label = 'SBAR'
-			s[:] = [s[0], ParentedTree('S', s[1:])]
+			rest = s[1:]
+			s[1:] = []
+			s.append(ParentedTree('S', rest))
 	elif name == 'NEST':  # introduce nested structures for modifiers
 		# (iterated adjunction instead of sister adjunction)
 		adjunctable = {'NP'}  # PP AP VP
@@ -326,10 +331,11 @@ def negratransforms(name, tree, sent):
 			modifiers = [x for x in a if function(x) == 'MO']
 			if min(n for n, x in enumerate(a) if function(x) == 'MO') == 0:
 				modifiers[:] = modifiers[::-1]
-			while modifiers:
-				modifier = modifiers.pop()
-				a[:] = [ParentedTree(a.label,
-						[x for x in a if x != modifier]), modifier]
+			while modifiers and len(a) > 1:
+				modifier = modifiers.pop().detach()
+				rest = a[:]
+				a[:] = []
+				a[:] = [ParentedTree(a.label, rest), modifier]
 				a = a[0]
 	# The following transformations as described in Fraser et al (CL, 2013)
 	# http://aclweb.org/anthology/J13-1005
@@ -490,8 +496,9 @@ def ptbtransforms(name, tree, sent):
 					# FIXME: check which functions should not go in the VP
 					# (pre)modifiers unclear.
 					if 'SBJ' not in functions(child):
-						vp.append(s.pop(child))
-				s.append(vp)
+						vp.append(child.detach())
+				if vp:
+					s.append(vp)
 	elif name == 'MARK-UNARY':  # add -U to unary nodes to avoid cycles
 		for unary in tree.subtrees(lambda n: len(n) == 1
 				and isinstance(n[0], Tree)):
@@ -1184,7 +1191,7 @@ def reversetransform(tree, sent, transformations):
 						and [x.label for x in n].count('NP') == 1
 						and not set(labels(n)) & probably_nk):
 					n.children.sort(key=lambda n: n.label == 'NP')
-					n[:] = n[:1] + n[1][:]
+					n[1][:], n[1:] = [], n[1][:]
 		elif name == 'PP-NP':  # flatten PPs
 			for pp in tree.subtrees(lambda n: n.label == 'PP'):
 				if 'NP' in labels(pp) and 'NN' not in labels(pp):
@@ -1197,9 +1204,9 @@ def reversetransform(tree, sent, transformations):
 						and labels(n) == ['PTKANT', 'S']))):
 				sbar.label = 'S'
 				if sbar[0].label == 'S':
-					sbar[:] = sbar[1:] + sbar[0][:]
+					sbar[0][:], sbar[:1] = [], sbar[0][:]
 				else:
-					sbar[:] = sbar[:1] + sbar[1][:]
+					sbar[1][:], sbar[1:2] = [], sbar[1][:]
 		elif name == 'VP-FIN_NEGRA':
 			def mergevp(s):
 				"""Merge finite VP with S level."""
@@ -1227,7 +1234,7 @@ def reversetransform(tree, sent, transformations):
 						and 'PTKVZ' in (c.label for c in b
 							if isinstance(c, Tree))
 						and any(c.label == b.label for c in b)):
-						a[n:n + 1] = b[:]
+						b[:], a[n:n + 1] = [], b[:]
 		elif name == 'addUnary':
 			# remove phrasal projections for single tokens
 			# e.g. S => NP => NN becomes S => NN
-- 
2.43.0


From d766fd8d06af764506a07ca77deffc7ab072fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 027/192] fix: do not drop other children when reversing DP
 transformation

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index f71dc2d..190ca1f 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1179,7 +1179,7 @@ def reversetransform(tree, sent, transformations):
 					# dp1 = dp[1][:]
 					# dp[1][:] = []
 					# dp[1:] = dp1
-					dp[1][:], dp[1:] = [], dp[1][:]
+					dp[1][:], dp[1:2] = [], dp[1][:]
 		elif name == 'NEST':  # flatten adjunctions
 			nkonly = {'PDAT', 'CAP', 'PPOSS', 'PPOSAT', 'ADJA', 'FM', 'PRF',
 					'NM', 'NN', 'NE', 'PIAT', 'PRELS', 'PN', 'TRUNC', 'CH',
-- 
2.43.0


From 4781405ff9f44fec891df7c058ef867cd7e34c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 028/192] fix: relational-realizational transform without
 ignored functions or categories

---
 discodop/treebanktransforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 190ca1f..399db4e 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1448,6 +1448,8 @@ def rrtransform(tree, morphlevels=0, percolatefeatures=None,
 				else child.source[FUNC]), tree.label), [newchild])
 		return result, morph, lvl
 
+	ignorefunctions = ignorefunctions or ()
+	ignorecategories = ignorecategories or ()
 	if isinstance(tree[0], int):
 		morph = tree.source[MORPH].replace('(', '[').replace(')', ']')
 		preterminal = tree.__class__('%s/%s' % (tree.label, morph), tree)
-- 
2.43.0


From cc1def50c0d14ef67ba3584a360a2ae3498eeabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 029/192] fix: label of right sibling of adjunctions in
 relational-realizational transform

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 399db4e..d22c5cd 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1472,7 +1472,7 @@ def rrtransform(tree, morphlevels=0, percolatefeatures=None,
 				and child.source[FUNC] not in ignorefunctions
 				and child.label not in ignorecategories):
 			nextfunc = child.source[FUNC]
-		childfuncsr.insert(0, prevfunc)
+		childfuncsr.insert(0, nextfunc)
 	funcstr = ','.join(sorted(child.source[FUNC] for child in tree
 			if isinstance(child, Tree) and child.source[FUNC]
 					and child.source[FUNC] != adjunctionlabel
-- 
2.43.0


From 561e2af790f9fad6483b55187445af1bb9041615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 030/192] fix: do not introduce empty constituents with
 ftbraisecompl

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index d22c5cd..fd1499d 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -871,7 +871,7 @@ def ftbtransforms(name, tree, sent):
 		# treebank conversion and first results.
 		# http://www.lrec-conf.org/proceedings/lrec2010/pdf/392_Paper.pdf
 		for sbtree in tree.subtrees():
-			if (strip(sbtree.label) in ('VPinf', 'VPpart')
+			if (strip(sbtree.label) in ('VPinf', 'VPpart') and len(sbtree) > 1
 					and strip(sbtree[0].label) in ('P', 'P+D', 'MWP')):
 				# raising the PPs of the VPinf constituents:
 				# (VPinf (P pour) (VN (VINF manger)))
-- 
2.43.0


From 53042e89abf8b4217acfa5185451726193c616da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 031/192] fix: prepositional labels missing from level 2 of
 negra label mapping

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index fd1499d..a1dcfd8 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -96,8 +96,8 @@ MAPPINGS = {
 			2: {'S_': {'S', 'VP', 'VZ', 'CO', 'AA', 'CS', 'CVP',
 					'CVZ', 'CCP', 'DL', 'ISU', 'QL'},
 				'N_': {'NP', 'CNP', 'PN', 'MPN', 'NM', 'CH'},
-				'A_': {'--', 'AP', 'AVP', 'CAP', 'CAVP', 'MTA'}},
-				'P_': {'PP', 'CPP', 'CAC'}
+				'A_': {'--', 'AP', 'AVP', 'CAP', 'CAVP', 'MTA'},
+				'P_': {'PP', 'CPP', 'CAC'}},
 			# level 3: no-op, return original treebank labels
 		},
 		'alpino': {
-- 
2.43.0


From 73e9014e4e32358be89c5b5a718837484077c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 032/192] fix: VP-FIN_NEGRA transformation dropped constituents
 instead of introducing a VP

---
 discodop/treebanktransforms.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index a1dcfd8..c2cbc3e 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -280,14 +280,15 @@ def negratransforms(name, tree, sent):
 				vp = [a for a in s if function(a) in addtovp]
 				# introduce a VP unless it would lead to a unary
 				# VP -> VP production
-				if len(vp) != 1 or vp[0].label != 'VP':
-					s[:] = [a.detach() for a in s if function(a) not in addtovp
-							] + [a.detach() for a in vp]
+				if vp and (len(vp) != 1 or vp[0].label != 'VP'):
+					rest = [a for a in s if function(a) not in addtovp]
+					s[:] = []
+					s[:] = rest + [ParentedTree('VP', vp)]
 		toplevel_s = []
 		if 'S' in labels(tree):
 			toplevel_s = [a for a in tree if a.label == 'S']
 			for s in toplevel_s:
-				while function(s[0]) in newlevel:
+				while len(s) > 1 and function(s[0]) in newlevel:
 					rest = s[1:]
 					s[1:] = []
 					s.append(ParentedTree('S', rest))
-- 
2.43.0


From 8cfc3808afb83f3adcacb2557cf27b1e16c20974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 033/192] fix: ftbraisecompl raised an error on Ssub with only
 punctuation

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index c2cbc3e..cb10b78 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -897,8 +897,8 @@ def ftbtransforms(name, tree, sent):
 				# ==> (Ssub (C-S si) (Sint (NP (NPP Paul) (VN (V dort)) )))
 				# ignore punctuation
 				i = 2 if sbtree[0].label in PUNCTTAGS else 1
-				if (strip(sbtree[i - 1].label) in ('C', 'CC', 'CS', 'MWC')
-						and len(sbtree) > i):
+				if (len(sbtree) > i and strip(sbtree[i - 1].label)
+						in ('C', 'CC', 'CS', 'MWC')):
 					# store children to the right of C node, then remove them
 					children = sbtree[i:]
 					sbtree[i:] = []
-- 
2.43.0


From f0188c0343361824cd2b8d7c6883305782dac06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 034/192] fix: mwnsel3 raised an error on nested compounds

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index cb10b78..b2dbb93 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -771,7 +771,7 @@ def ftbtransforms(name, tree, sent):
 		for t in tree.subtrees(lambda n: strip(n.label) == "MWN"
 				and len(n) == 3
 				and strip(n[0].label) == "N"
-				and sent[n[1][0]] == "-"
+				and isinstance(n[1][0], int) and sent[n[1][0]] == "-"
 				and strip(n[2].label) == "N"):
 			t.label += STATESPLIT + "mwn3"
 
-- 
2.43.0


From cebd26c3f488f6fe21ece88e8977239cf6d9b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 035/192] fix: getyf raised an error for a single discontinuous
 child

---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 26e2c10..8690d04 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -975,7 +975,7 @@ def getyf(left, right):
 			if cur != '0':
 				cur = '0'
 				result.append(cur)
-		elif right.bitset & mask:
+		elif right is not None and right.bitset & mask:
 			if cur != '1':
 				cur = '1'
 				result.append(cur)
-- 
2.43.0


From 577c5adc877f317f38b841f276ea52df856eb28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 036/192] fix: do not count Epsilon as a label in grammar
 statistics

---
 discodop/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index fca7136..61b841e 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1117,7 +1117,8 @@ def grammarinfo(grammar, dump=None):
 	lhs = {rule[0] for (rule, yf), w in grammar}
 	numrules = len(grammar)
 	result = "labels: %d" % len({rule[a] for (rule, yf), w in grammar
-							for a in range(3) if len(rule) > a})
+							for a in range(3) if len(rule) > a
+							and rule[a] != 'Epsilon'})
 	result += " of which preterminals: %d\n" % (
 		len({rule[0] for (rule, yf), w in grammar if rule[1] == 'Epsilon'})
 		or len({rule[a] for (rule, yf), w in grammar
-- 
2.43.0


From 251af4d8e387b3b296c5b8d55932dda64e95ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 037/192] fix: k-best derivations missed derivations of items
 sharing a rule and split point

---
 discodop/kbest.pxd |  1 +
 discodop/kbest.pyx | 16 ++++++++--------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/discodop/kbest.pxd b/discodop/kbest.pxd
index 4546020..d2a5b02 100644
--- a/discodop/kbest.pxd
+++ b/discodop/kbest.pxd
@@ -9,6 +9,7 @@ from .pcfg cimport CFGChart, DenseCFGChart, SparseCFGChart
 from .plcfrs cimport LCFRSChart, SmallLCFRSChart, FatLCFRSChart
 
 ctypedef sparse_hash_map[ItemNo, RankedEdgeAgenda[Prob]] agendas_type
+ctypedef sparse_hash_map[ItemNo, RankedEdgeSet] explored_type
 
 cdef string getderiv(ItemNo v, RankedEdge ej, Chart chart)
 cdef collectitems(ItemNo v, RankedEdge& ej, Chart chart, itemset)
diff --git a/discodop/kbest.pyx b/discodop/kbest.pyx
index 038c9da..6d9fef4 100644
--- a/discodop/kbest.pyx
+++ b/discodop/kbest.pyx
@@ -53,12 +53,12 @@ cdef RankedEdgeAgenda[Prob] getcandidates(Chart chart, ItemNo v, int k):
 
 
 cdef lazykthbest(ItemNo v, int k, int k1, agendas_type& cand, Chart chart,
-		RankedEdgeSet& explored, int depthlimit):
+		explored_type& explored, int depthlimit):
 	""""Explore up to *k*-best derivations headed by vertex *v*.
 
 	:param k1: the global k, with ``k <= k1``
 	:param cand: contains a queue of edges to consider for each vertex
-	:param explored: a set of all edges already visited."""
+	:param explored: for each vertex, a set of edges already visited."""
 	cdef pair[RankedEdge, Prob] entry
 	cdef RankedEdge ej, ej1
 	cdef int ji
@@ -95,11 +95,11 @@ cdef lazykthbest(ItemNo v, int k, int k1, agendas_type& cand, Chart chart,
 					# if it exists and is not in heap yet
 					if (chart.rankededges[ei].size() != 0
 							and ji < <int>chart.rankededges[ei].size()
-							and explored.count(ej1) == 0):
+							and explored[v].count(ej1) == 0):
 						# 	and cand[v]): gives duplicates
 						# add it to the heap
 						cand[v].setitem(ej1, getprob(chart, v, ej1))
-						explored.insert(ej1)
+						explored[v].insert(ej1)
 			# end of lazynext
 		if cand[v].empty():
 			break
@@ -135,7 +135,7 @@ cdef inline Prob getprob(Chart chart, ItemNo v, RankedEdge& ej) except -1:
 
 
 cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
-		RankedEdgeSet& explored, int depthlimit) except -2:
+		explored_type& explored, int depthlimit) except -2:
 	"""Traverse derivation to ensure all 1-best RankedEdges are present.
 
 	:returns: True when ``ej`` is a valid, complete derivation."""
@@ -155,7 +155,7 @@ cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
 				abort()
 			entry = tmp.pop()
 			chart.rankededges[leftitem].push_back(entry)
-			explored.insert(entry.first)
+			explored[leftitem].insert(entry.first)
 		if not explorederivation(leftitem,
 				chart.rankededges[leftitem][ej.left].first,
 				chart, explored, depthlimit - 1):
@@ -170,7 +170,7 @@ cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
 				abort()
 			entry = tmp.pop()
 			chart.rankededges[rightitem].push_back(entry)
-			explored.insert(entry.first)
+			explored[rightitem].insert(entry.first)
 		return explorederivation(rightitem,
 				chart.rankededges[rightitem][ej.right].first,
 				chart, explored, depthlimit - 1)
@@ -271,7 +271,7 @@ def lazykbest(Chart chart, int k, bint derivs=True):
 
 	:param k: the number of derivations to enumerate."""
 	cdef agendas_type cand
-	cdef RankedEdgeSet explored
+	cdef explored_type explored
 	cdef pair[RankedEdge, Prob] entry
 	cdef vector[pair[RankedEdge, Prob]] tmp
 	cdef ItemNo root = chart.root()
-- 
2.43.0


From f50bb18e7fac29364bf10eb73f04daa0ed95819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 038/192] fix: Bonnema estimate of DOP reduction ignored
 frequencies and assumed binary rules

---
 discodop/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 61b841e..43594ac 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -170,7 +170,8 @@ def dopreduction(trees, sents, packedgraph=False, decorator=None,
 		shortest = 1 if '@' in r[0] else 1 / 2
 		# Goodman (2003, eq. 8.22). Prob. of fragment is reduced by factor of 2
 		# for each non-root non-terminal it contains.
-		bon = 1 / 4 if '@' in r[0] else 1 / (4 * ntfd[r[0]])
+		bon = ((1 if '@' in r[0] else freq / ntfd[r[0]])
+				/ 2 ** (0 if r[1] == 'Epsilon' else len(r) - 1))
 		return ((r, yf), rfe), ewe, shortest, bon
 
 	rules = sortgrammar(rules.items())
-- 
2.43.0


From 290088740c21711cc40fa6529103d7bbceb9464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 039/192] fix: root labels were counted twice in weights of DOP
 reduction

---
 discodop/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 43594ac..073761a 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -806,7 +806,8 @@ def nodefreq(tree, dectree, subtreefd, nonterminalfd):
 	>>> fd == Counter({'S': 4, 'NP': 1, 'VP': 1, 'NP@1-0': 1, 'VP@1-1': 1})
 	True"""
 	nonterminalfd[tree.label] += 1
-	nonterminalfd[dectree.label] += 1
+	if dectree.label != tree.label:
+		nonterminalfd[dectree.label] += 1
 	if isinstance(tree[0], Tree):
 		n = reduce(mul, (nodefreq(x, ux, subtreefd, nonterminalfd) + 1
 			for x, ux in zip(tree, dectree)))
-- 
2.43.0


From e9daf7e5e0ef6c6d8b0044d03006e0e90be2451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 040/192] fix: fragments with different yield functions shared
 binarization symbols

---
 discodop/treetransforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 8690d04..abc1bf5 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -397,7 +397,7 @@ def factorconstituent(node, sep='|', h=999, factor='right',
 	equivalent to the original. When ids is given, it is used both as an
 	interator (for new unique labels) and as a dictionary (to re-use labels).
 	The first ID in a binarization will always be unique, while the others will
-	be re-used for the same combination of labels and yield function."""
+	be re-used for the same combination of labels and yield functions."""
 	if len(node) <= threshold:
 		return node
 	elif 1 <= len(node) <= 2:
@@ -428,7 +428,7 @@ def factorconstituent(node, sep='|', h=999, factor='right',
 				if markyf:
 					key += getyf(node[i], prev)
 				if ids is not None:
-					key = ids[key]
+					key = ids[prev.label, key]
 			elif factor == 'left' and (ids is None or i < len(node) - 2):
 				key = ','.join(labelfun(child)
 						for child in node[max(0, i - h + 1):i + 1]
@@ -436,7 +436,7 @@ def factorconstituent(node, sep='|', h=999, factor='right',
 				if markyf:
 					key += getyf(prev, node[i])
 				if ids is not None:
-					key = ids[key]
+					key = ids[prev.label, key]
 			else:
 				key = next(ids)
 			newlabel = '%s%s<%s>' % (node.label, sep, key)
-- 
2.43.0


From 21f717a0e18e089afc8dcd63b05332a45e01929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 041/192] fix: escape parentheses of words in fragments of
 derivations

---
 discodop/disambiguation.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 797faaa..78c19d4 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -17,7 +17,8 @@ from itertools import count
 from functools import partial
 from collections import defaultdict
 from . import plcfrs, _fragments
-from .tree import Tree, ParentedTree, ImmutableTree, writediscbrackettree
+from .tree import (Tree, ParentedTree, ImmutableTree, writediscbrackettree,
+		escape)
 from .kbest import lazykbest
 from .kbest cimport getderiv
 from .grammar import lcfrsproductions, spinal, REMOVEDEC
@@ -716,7 +717,7 @@ cdef fragmentsinderiv_re_(ItemNo v, RankedEdge deriv, Chart chart,
 				'(%s %s)' % (
 				chart.grammar.tolabel[chart.label(v)].split('@')[0],
 				('%d=%s' % (chart.lexidx(child.edge),
-					chart.sent[chart.lexidx(child.edge)])
+					escape(chart.sent[chart.lexidx(child.edge)]))
 					if '@' in chart.grammar.tolabel[chart.label(v)]
 					else yieldranges(chart.indices(v)))))
 	result.append((
@@ -742,7 +743,7 @@ cdef fragmentsinderiv_re_(ItemNo v, RankedEdge deriv, Chart chart,
 				'(%s %d=%s)' % (
 					chart.grammar.tolabel[chart.label(v)],
 					chart.lexidx(child.edge),
-					chart.sent[chart.lexidx(child.edge)]),
+					escape(chart.sent[chart.lexidx(child.edge)])),
 				'rel. freq: %g/%g; weight: %g' % (
 					lexcount,
 					chart.grammar.freqmass[chart.label(v)],
-- 
2.43.0


From c1d00e982c6e1ab514e215684b2020159467afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 042/192] fix: recognize all rule and weight formats when
 merging grammar files

LCFRS weights were matched against bitpar rules with labels such as '.',
and weights in scientific or hexadecimal notation were refused.
---
 discodop/grammar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 073761a..8e48a77 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -13,10 +13,12 @@ from .treebank import LEAVESRE
 from .util import openread, merge as utilmerge
 from functools import reduce  # pylint: disable=redefined-builtin
 
+_WEIGHT = r'-?(?:0x[0-9a-f.]+p[-+]?[0-9]+|[0-9.]+(?:e[-+]?[0-9]+)?)'
 RULERE = re.compile(
-		r'(?P<RULE1>(?P<LHS1>[^ \t]+).*)\t'
-		r'(?P<WEIGHT1>(?P<FREQ1>[-.e0-9]+)(?:\/[0-9]+)?)$'
-		r'|(?P<FREQ2>[-.e0-9]+)\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$')
+		r'(?P<RULE1>(?P<LHS1>[^ \t]+).*[ \t][01]+(?:,[01]+)*)\t'
+		r'(?P<WEIGHT1>(?P<FREQ1>%s)(?:\/%s)?)$'
+		r'|(?P<FREQ2>%s)\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$' % (
+		_WEIGHT, _WEIGHT, _WEIGHT))
 FRONTIERORTERM = re.compile(r"\(([^ ]+) (([0-9]+)=([^ ()]*)(?: [0-9]+=)*)\)")
 REMOVEDEC = re.compile('[@[][^ ()]+')
 
-- 
2.43.0


From 366d3fed0e402b73ff5bf4787a2fc55ce293b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 043/192] fix: write grammar weights without loss of precision;
 label merged rules correctly

sumrules() printed the summed weight of a rule next to the following rule.
---
 discodop/grammar.py | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 8e48a77..c5093c1 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1078,7 +1078,7 @@ def writegrammar(grammar, bitpar=False):
 	rules, lexicon = [], []
 	lexical = OrderedDict()
 	for (r, yf), w in grammar:
-		w = '%g' % w
+		w = formatweight(w)
 		if len(r) == 2 and r[1] == 'Epsilon':
 			lexical.setdefault(yf[0], []).append((r[0], w))
 			continue
@@ -1199,6 +1199,16 @@ def convertweight(weight):
 		return float.fromhex(weight)
 	return float(weight)
 
+def formatweight(weight):
+	"""Convert a number to a string without loss of precision.
+
+	>>> [formatweight(a) for a in (3, 2.0, 0.1, 1234567, 1e-20)]
+	['3', '2', '0.1', '1234567', '1e-20']"""
+	if weight == int(weight) and abs(weight) < 1 << 53:
+		return '%d' % weight
+	return repr(float(weight))
+
+
 
 def stripweight(line):
 	"""Extract rule without weight."""
@@ -1210,6 +1220,7 @@ def stripweight(line):
 
 def sumrules(iterable, n):
 	"""Given a sorted iterable of rules, sum weights of identical rules."""
+	bitpar = False
 	prev = None
 	w1 = 0.0
 	for line in iterable:
@@ -1217,20 +1228,15 @@ def sumrules(iterable, n):
 		rule = match.group('RULE1') or match.group('RULE2')
 		if rule != prev:
 			if prev is not None:
-				if match.group('RULE1') is None:
-					yield '%g\t%s\n' % (w1 / n, rule)
-				else:
-					yield '%s\t%g\n' % (rule, w1 / n)
+				yield ('%s\t%s\n' % (formatweight(w1 / n), prev) if bitpar
+						else '%s\t%s\n' % (prev, formatweight(w1 / n)))
+			bitpar = match.group('RULE1') is None
 			prev = rule
 			w1 = 0.0
-		if match.group('RULE1') is None:
-			w1 += convertweight(match.group('FREQ2'))
-		else:
-			w1 += convertweight(match.group('WEIGHT1'))
-	if match.group('RULE1') is None:
-		yield '%g\t%s\n' % (w1 / n, rule)
-	else:
-		yield '%s\t%g\n' % (rule, w1 / n)
+		w1 += convertweight(match.group('FREQ2') or match.group('WEIGHT1'))
+	if prev is not None:
+		yield ('%s\t%s\n' % (formatweight(w1 / n), prev) if bitpar
+				else '%s\t%s\n' % (prev, formatweight(w1 / n)))
 
 
 def sumlex(iterable, n):
@@ -1241,8 +1247,8 @@ def sumlex(iterable, n):
 		rest = rest.split()
 		if word != prev:
 			if tags:
-				yield '%s\t%s\n' % (prev, '\t'.join(
-						'%s %g' % (a, w1 / n) for a, w1 in tags.items()))
+				yield '%s\t%s\n' % (prev, '\t'.join('%s %s' % (
+						a, formatweight(w1 / n)) for a, w1 in tags.items()))
 			prev = word
 			tags = {}
 		for tag, w2 in zip(rest[::2], rest[1::2]):
@@ -1250,8 +1256,8 @@ def sumlex(iterable, n):
 				tags[tag] = 0.0
 			tags[tag] += convertweight(w2)
 	if tags:
-		yield '%s\t%s\n' % (prev, '\t'.join(
-				'%s %g' % (a, w1 / n) for a, w1 in tags.items()))
+		yield '%s\t%s\n' % (prev, '\t'.join('%s %s' % (
+				a, formatweight(w1 / n)) for a, w1 in tags.items()))
 
 
 def sumfrags(iterable, n):
@@ -1262,12 +1268,12 @@ def sumfrags(iterable, n):
 		frag, w2 = line.rsplit('\t', 1)
 		if frag != prev:
 			if prev is not None:
-				yield '%s\t%g\n' % (prev, w1 / n)
+				yield '%s\t%s\n' % (prev, formatweight(w1 / n))
 			prev = frag
 			w1 = 0.0
 		w1 += convertweight(w2)
 	if prev is not None:
-		yield '%s\t%g\n' % (prev, w1 / n)
+		yield '%s\t%s\n' % (prev, formatweight(w1 / n))
 
 
 def merge(filenames, outfilename, sumfunc, key):
-- 
2.43.0


From 10c2a5f261f851cf1c5524c5ba865e8cf73a61c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 044/192] fix: split lexicon entries on tabs only when merging;
 count weights exactly in grammar statistics

Words with whitespace such as non-breaking spaces were split; plain text
grammars could not be summarized.
---
 discodop/cli.py     |  2 +-
 discodop/grammar.py | 17 ++++++++---------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index d0c573f..cef1c4b 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -429,7 +429,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		if args[1] == 'rules':
 			merge(args[2:-1], args[-1], sumrules, stripweight)
 		elif args[1] == 'lexicon':
-			merge(args[2:-1], args[-1], sumlex, lambda x: x.split(None, 1)[0])
+			merge(args[2:-1], args[-1], sumlex, lambda x: x.split('\t', 1)[0])
 		elif args[1] == 'fragments':
 			merge(args[2:-1], args[-1], sumfrags, lambda x: x.rsplit('\t', 1)[0])
 		return
diff --git a/discodop/grammar.py b/discodop/grammar.py
index c5093c1..366ac19 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1160,18 +1160,17 @@ def grammarstats(filename):
 	"""Print statistics for PLCFRS/bitpar grammar (sorted by LHS)."""
 	print('LHS\t# rules\tfreq. mass')
 	label = cnt = freq = None
-	for line in codecs.getreader('utf8')((gzip.open if filename.endswith('.gz')
-			else open)(filename)):
+	for line in openread(filename):
 		match = RULERE.match(line)
 		if (match.group('LHS1') or match.group('LHS2')) != label:
 			if label is not None:
-				print('%s\t%d\t%d' % (label, int(cnt), int(freq)))
+				print('%s\t%d\t%s' % (label, cnt, formatweight(freq)))
 			cnt = freq = 0
 			label = (match.group('LHS1') or match.group('LHS2'))
 		cnt += 1
-		freq += float((match.group('FREQ1') or match.group('FREQ2')))
+		freq += convertweight(match.group('WEIGHT1') or match.group('FREQ2'))
 	if label is not None:
-		print('%s\t%d\t%g' % (label, cnt, freq))
+		print('%s\t%d\t%s' % (label, cnt, formatweight(freq)))
 
 
 def splitweight(weight):
@@ -1199,6 +1198,7 @@ def convertweight(weight):
 		return float.fromhex(weight)
 	return float(weight)
 
+
 def formatweight(weight):
 	"""Convert a number to a string without loss of precision.
 
@@ -1209,7 +1209,6 @@ def formatweight(weight):
 	return repr(float(weight))
 
 
-
 def stripweight(line):
 	"""Extract rule without weight."""
 	match = RULERE.match(line.strip())
@@ -1220,8 +1219,8 @@ def stripweight(line):
 
 def sumrules(iterable, n):
 	"""Given a sorted iterable of rules, sum weights of identical rules."""
-	bitpar = False
 	prev = None
+	bitpar = False
 	w1 = 0.0
 	for line in iterable:
 		match = RULERE.match(line)
@@ -1230,8 +1229,8 @@ def sumrules(iterable, n):
 			if prev is not None:
 				yield ('%s\t%s\n' % (formatweight(w1 / n), prev) if bitpar
 						else '%s\t%s\n' % (prev, formatweight(w1 / n)))
-			bitpar = match.group('RULE1') is None
 			prev = rule
+			bitpar = match.group('RULE1') is None
 			w1 = 0.0
 		w1 += convertweight(match.group('FREQ2') or match.group('WEIGHT1'))
 	if prev is not None:
@@ -1243,7 +1242,7 @@ def sumlex(iterable, n):
 	"""Given a sorted lexicon iterable, sum weights of word/tag pairs."""
 	prev = tags = None
 	for line in iterable:
-		word, rest = line.split(None, 1)
+		word, rest = line.split('\t', 1)
 		rest = rest.split()
 		if word != prev:
 			if tags:
-- 
2.43.0


From b318bc58b78b49a1a8a3478542cf19dcf4fbf61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 045/192] fix: read unary bitpar rules as unary; do not take
 labels such as '-LRB-' or 'e' for bitpar weights

---
 discodop/_grammar.pxi | 5 +++--
 discodop/grammar.py   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index defd779..06af878 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -10,7 +10,8 @@ LCFRS_NONINT = re.compile(b'\t(?:0x)?[0-9]+[./][0-9]+(?:p-[0-9]+)?\n')
 BITPAR_NONINT = re.compile(b'(?:^|\n)[0-9]+\\.[0-9]+[ \t]')
 LEXICON_NONINT = re.compile(b'[ \t][0-9]+[./][0-9]+[ \t\n]')
 # Detect rule format of bitpar
-BITPARRE = re.compile(rb'^[-.e0-9]+\b')
+BITPARRE = re.compile(
+		rb'^-?(?:0x[0-9a-f.]+p[-+]?[0-9]+|\.?[0-9][0-9.]*(?:e[-+]?[0-9]+)?)\t')
 # Match syntactic category and function tag, without any state splits,
 # for labels that were not introduced by the binarization:
 # e.g., given NN-HD/Acc^name group 1 will be NN-HD/Acc
@@ -416,7 +417,7 @@ cdef class Grammar:
 				fields.erase(fields.begin())
 				rule = fields
 				# NB: leave yf at b'<none>'
-				if rule.size() > 1:
+				if rule.size() > 2:
 					cur.args, cur.lengths = 0b10, 0b10
 				else:
 					cur.args, cur.lengths = 0b0, 0b1
diff --git a/discodop/grammar.py b/discodop/grammar.py
index 366ac19..4ef9f92 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -13,7 +13,7 @@ from .treebank import LEAVESRE
 from .util import openread, merge as utilmerge
 from functools import reduce  # pylint: disable=redefined-builtin
 
-_WEIGHT = r'-?(?:0x[0-9a-f.]+p[-+]?[0-9]+|[0-9.]+(?:e[-+]?[0-9]+)?)'
+_WEIGHT = r'-?(?:0x[0-9a-f.]+p[-+]?[0-9]+|\.?[0-9][0-9.]*(?:e[-+]?[0-9]+)?)'
 RULERE = re.compile(
 		r'(?P<RULE1>(?P<LHS1>[^ \t]+).*[ \t][01]+(?:,[01]+)*)\t'
 		r'(?P<WEIGHT1>(?P<FREQ1>%s)(?:\/%s)?)$'
-- 
2.43.0


From 5204d5794c30ccfe8d834447e43207ec0f3f831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 046/192] fix: refuse malformed and inconsistent rules when
 reading a grammar

Lines with too few fields were read out of bounds, empty components of yield
functions led to undefined shifts, and fan-out conflicts of non-terminals on
the right-hand side went unnoticed.
---
 discodop/_grammar.pxi | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 06af878..a438664 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -412,6 +412,9 @@ cdef class Grammar:
 				break
 			elif fields.size() == 0:
 				continue
+			elif fields.size() < (3 if self.bitpar else 4):
+				raise ValueError('Not enough nonterminals:\n%r'
+						% prev[:buf - prev].decode('utf8'))
 			if self.bitpar:
 				weight = fields[0]
 				fields.erase(fields.begin())
@@ -432,6 +435,10 @@ cdef class Grammar:
 				rhs1fanout = rhs2fanout = 0
 				for a in yf:
 					if a == b',':
+						if m == 0 or (cur.lengths >> (m - 1)) & 1:
+							raise ValueError('empty component in yield '
+									'function: %r\n%r' % (
+									yf, prev[:buf - prev].decode('utf8')))
 						cur.lengths |= 1 << (m - 1)
 						fanout += 1
 						continue
@@ -445,12 +452,16 @@ cdef class Grammar:
 								' (not in set [01,])\n%r' % (
 								a, prev[:buf - prev].decode('utf8')))
 					m += 1
+					if m >= (8 * sizeof(cur.args)):
+						raise ValueError(
+								'Parsing complexity (%d) too high (max %d).\n'
+								'Rule: %r' % (m, (8 * sizeof(cur.args)),
+								prev[:buf - prev].decode('utf8')))
+				if m == 0 or (cur.lengths >> (m - 1)) & 1:
+					raise ValueError('empty component in yield '
+							'function: %r\n%r' % (
+							yf, prev[:buf - prev].decode('utf8')))
 				cur.lengths |= 1 << (m - 1)
-				if m >= (8 * sizeof(cur.args)):
-					raise ValueError(
-							'Parsing complexity (%d) too high (max %d).\n'
-							'Rule: %r' % (m, (8 * sizeof(cur.args)),
-							prev[:buf - prev].decode('utf8')))
 				if rule.size() == 2:
 					# if not YFUNARYRE.match(yf):
 					if rhs1fanout == 0 or rhs2fanout != 0:
@@ -490,6 +501,11 @@ cdef class Grammar:
 					self.maxfanout = rhs1fanout
 			else:
 				cur.rhs1 = dereference(it).second
+				if self.fanout[cur.rhs1] != rhs1fanout:
+					raise ValueError("conflicting fanouts for symbol "
+						"%r.\nprevious: %d; this non-terminal: %d. rule:\n%r"
+						% (rule[1], self.fanout[cur.rhs1],
+						rhs1fanout, prev[:buf - prev].decode('utf8')))
 			if cur.lhs == 0 or cur.rhs1 == 0:
 				raise ValueError('Epsilon symbol may only occur '
 						'in RHS of lexical rules:\n%r' %
@@ -507,6 +523,11 @@ cdef class Grammar:
 						self.maxfanout = rhs2fanout
 				else:
 					cur.rhs2 = dereference(it).second
+					if self.fanout[cur.rhs2] != rhs2fanout:
+						raise ValueError("conflicting fanouts for symbol "
+							"%r.\nprevious: %d; this non-terminal: %d. rule:\n%r"
+							% (rule[2], self.fanout[cur.rhs2],
+							rhs2fanout, prev[:buf - prev].decode('utf8')))
 				if cur.rhs2 == 0:
 					raise ValueError('Epsilon symbol may only occur '
 							'in RHS of lexical rules:\n%r'
-- 
2.43.0


From ee31b775c965a21792133d9db668f12c29a6eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 047/192] fix: refuse weights that are not finite; report POS
 tag with wrong fan-out

---
 discodop/_grammar.pxi | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index a438664..0452c50 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -542,7 +542,7 @@ cdef class Grammar:
 				raise ValueError('Start symbol should only occur on LHS:\n%r'
 						% prev[:buf - prev].decode('utf8'))
 			w = convertweight(weight.c_str())
-			if w <= 0:
+			if not 0 < w < HUGE_VAL:
 				raise ValueError('Expected positive non-zero weight\n%r'
 						% prev[:buf - prev].decode('utf8'))
 			key.lhs, key.rhs1, key.rhs2 = cur.lhs, cur.rhs1, cur.rhs2
@@ -640,9 +640,9 @@ cdef class Grammar:
 					lexrule.lhs = dereference(it).second
 					if self.fanout[lexrule.lhs] != 1:
 						raise ValueError('POS tag %r has fan-out %d, may only'
-								' be 1.' % (self.fanout[lexrule.lhs], tag))
+								' be 1.' % (tag, self.fanout[lexrule.lhs]))
 				w = convertweight(weight.c_str())
-				if w <= 0:
+				if not 0 < w < HUGE_VAL:
 					raise ValueError('weights should be positive '
 							'and non-zero:\n%r'
 							% prev[:buf - prev].decode('utf8'))
-- 
2.43.0


From 877000e8f79f7e7bfddc10ea46118677a41fe3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 048/192] fix: do not drop last line of grammar file when it
 has no newline

---
 discodop/_grammar.pxi | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 0452c50..4330f61 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -1101,12 +1101,13 @@ cdef inline const char *readfields(const char *buf, vector[string] &result):
 	cdef const char *endofline = strchr(buf, b'\n')
 	cdef const char *tmp
 	if endofline is NULL:
-		# NB: if last last line has no end of line, its tokens will be ignored.
-		return NULL
+		if buf[0] == 0:
+			return NULL
+		endofline = buf + strlen(buf)  # last line without newline
 	tmp = strchr(buf, b'\t')
 	while tmp is not NULL and tmp < endofline:
 		result.push_back(string(buf, tmp - buf))
 		buf = tmp + 1
 		tmp = strchr(buf, b'\t')
 	result.push_back(string(buf, endofline - buf))
-	return endofline + 1
+	return endofline + (endofline[0] == b'\n')
-- 
2.43.0


From 992155b4fc5450694937e95c06f1005a60cd8980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 049/192] fix: keep backtransform when pickling a grammar

---
 discodop/_grammar.pxi | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 4330f61..1e373a6 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -1076,7 +1076,8 @@ cdef class Grammar:
 	def __reduce__(self):
 		"""Helper function for pickling."""
 		return (Grammar, (self.rulesfile or self.ruletuples, self.lexiconfile,
-				self.start, self.altweightsfile or self.models))
+				self.start, self.altweightsfile or self.models,
+				self.backtransform))
 
 
 cdef inline Prob convertweight(const char *weight):
-- 
2.43.0


From b0e1b24ce07fefafb25e4b67cd972f2f7058352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 050/192] fix: declare C functions used when reading grammars

---
 discodop/containers.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 80120c5..c8322fe 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -15,7 +15,8 @@ from .util import readbytes
 from .tree import Tree
 cimport cython
 from cython.operator cimport dereference
-from libc.string cimport strchr
+from libc.math cimport HUGE_VAL
+from libc.string cimport strchr, strlen
 from libc.stdio cimport FILE, fopen, fread, fclose
 
 cdef extern from "<algorithm>" namespace "std" nogil:
-- 
2.43.0


From 492f393366088b94de99c0c65018b43311eec3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 051/192] fix: accept fractions as weights of bitpar rules

---
 discodop/_grammar.pxi | 3 ++-
 discodop/grammar.py   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 1e373a6..8c4c55a 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -11,7 +11,8 @@ BITPAR_NONINT = re.compile(b'(?:^|\n)[0-9]+\\.[0-9]+[ \t]')
 LEXICON_NONINT = re.compile(b'[ \t][0-9]+[./][0-9]+[ \t\n]')
 # Detect rule format of bitpar
 BITPARRE = re.compile(
-		rb'^-?(?:0x[0-9a-f.]+p[-+]?[0-9]+|\.?[0-9][0-9.]*(?:e[-+]?[0-9]+)?)\t')
+		rb'^-?(?:0x[0-9a-f.]+p[-+]?[0-9]+|\.?[0-9][0-9.]*(?:e[-+]?[0-9]+)?)'
+		rb'(?:/[0-9.]+)?\t')
 # Match syntactic category and function tag, without any state splits,
 # for labels that were not introduced by the binarization:
 # e.g., given NN-HD/Acc^name group 1 will be NN-HD/Acc
diff --git a/discodop/grammar.py b/discodop/grammar.py
index 4ef9f92..b65aa0c 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -17,8 +17,8 @@ _WEIGHT = r'-?(?:0x[0-9a-f.]+p[-+]?[0-9]+|\.?[0-9][0-9.]*(?:e[-+]?[0-9]+)?)'
 RULERE = re.compile(
 		r'(?P<RULE1>(?P<LHS1>[^ \t]+).*[ \t][01]+(?:,[01]+)*)\t'
 		r'(?P<WEIGHT1>(?P<FREQ1>%s)(?:\/%s)?)$'
-		r'|(?P<FREQ2>%s)\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$' % (
-		_WEIGHT, _WEIGHT, _WEIGHT))
+		r'|(?P<FREQ2>%s(?:\/%s)?)\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$' % (
+		_WEIGHT, _WEIGHT, _WEIGHT, _WEIGHT))
 FRONTIERORTERM = re.compile(r"\(([^ ]+) (([0-9]+)=([^ ()]*)(?: [0-9]+=)*)\)")
 REMOVEDEC = re.compile('[@[][^ ()]+')
 
-- 
2.43.0


From 5f61c36e3845aa7801972c2d09dcd3388863cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 052/192] fix: use the summed weight of rules that are listed
 more than once

---
 discodop/_grammar.pxi | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 8c4c55a..a5fc966 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -330,19 +330,23 @@ cdef class Grammar:
 
 		if init:  # slightly faster way of normalizing than switch()
 			for n in range(self.numrules):
-				self._bylhs[n].prob = fabs(log(self._bylhs[n].prob
+				self._bylhs[n].prob = fabs(log(
+						self.rulecounts[self._bylhs[n].no]
 						/ self.freqmass[self._bylhs[n].lhs]))
 			for n in range(self.numbinary):
-				self._lbinary[n].prob = fabs(log(self._lbinary[n].prob
+				self._lbinary[n].prob = fabs(log(
+						self.rulecounts[self._lbinary[n].no]
 						/ self.freqmass[self._lbinary[n].lhs]))
 			for n in range(self.numbinary):
-				self._rbinary[n].prob = fabs(log(self._rbinary[n].prob
+				self._rbinary[n].prob = fabs(log(
+						self.rulecounts[self._rbinary[n].no]
 						/ self.freqmass[self._rbinary[n].lhs]))
 			for n in range(self.numunary):
-				self._unary[n].prob = fabs(log(self._unary[n].prob
+				self._unary[n].prob = fabs(log(
+						self.rulecounts[self._unary[n].no]
 						/ self.freqmass[self._unary[n].lhs]))
 			for n in range(self.lexical.size()):
-				self.lexical[n].prob = fabs(log(self.lexical[n].prob
+				self.lexical[n].prob = fabs(log(self.lexcounts[n]
 						/ self.freqmass[self.lexical[n].lhs]))
 			self.currentmodel = 'default'
 
-- 
2.43.0


From 56872cb772d04fb9656a328223a6b3f9031920d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 053/192] fix: consider all lexical weights when a word and tag
 are listed more than once

---
 discodop/_grammar.pxi | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index a5fc966..9d2af9b 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -384,6 +384,8 @@ cdef class Grammar:
 			self.models = {}
 			self.altweightsfile = None
 			self.currentmodel = ''
+			if self.mask.size():  # new rules are not in the mask, so blocked
+				self.mask.resize(BITNSLOTS(self.numrules), ~(<uint64_t>0))
 			# ALL weights need to be re-normalized
 			self.switch('default', self.logprob)
 
-- 
2.43.0


From 2f5c981267ebd3bd912e78eb1fd40813b59b8171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 054/192] fix: keep added rules blocked when a mask is active

---
 discodop/_grammar.pxi | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 9d2af9b..f18746d 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -912,6 +912,7 @@ cdef class Grammar:
 				else:
 					try:
 						result[n] = coarse.toid[strlabel]
+						seen.add(result[n])
 						if not selfmap:
 							self.revmap[result[n]].push_back(n)
 					except KeyError:
-- 
2.43.0


From 2f20ee776bed5035817c8d7e03351894a841ebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 055/192] fix: report correctly whether label sets of mapped
 grammars are equal

---
 discodop/_grammar.pxi | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index f18746d..6f0d300 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -972,7 +972,11 @@ cdef class Grammar:
 			key.rhs2 = coarse.toid[striplabelre.sub(
 					'', self.tolabel[rule.rhs2], 1)]
 			key.args, key.lengths = rule.args, rule.lengths
-			m = coarse.rulenos[key]
+			it = coarse.rulenos.find(key)
+			if it == coarse.rulenos.end():
+				raise KeyError('incorrect mapping; no coarse rule for: %s'
+						% self.rulestr(n))
+			m = dereference(it).second
 			rulemapping[m].append(rule.no)
 		if self is coarse:
 			self.selfrulemapping = rulemapping
-- 
2.43.0


From 47fd71be450f992f745555e4f7caf77647089570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 056/192] fix: do not leave all rules masked when a tree cannot
 be parsed with the grammar

---
 discodop/_grammar.pxi       | 22 +++++++++++++---------
 discodop/disambiguation.pyx | 15 +++++++++------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 6f0d300..50b2e06 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -986,25 +986,29 @@ cdef class Grammar:
 	cpdef noderuleno(self, node):
 		"""Get rule no given a node of a continuous tree."""
 		cdef Rule key
-		key.lhs = self.toid.ob[node.label.encode('utf8')]
-		key.rhs1 = self.toid.ob[node[0].label.encode('utf8')]
+		key.lhs = self.toid[node.label]
+		key.rhs1 = self.toid[node[0].label]
 		if len(node) > 1:
-			key.rhs2 = self.toid.ob[node[1].label.encode('utf8')]
+			key.rhs2 = self.toid[node[1].label]
 			key.args, key.lengths = 0b10, 0b10
 		else:
 			key.rhs2 = 0
 			key.args, key.lengths = 0b0, 0b1
-		return self.rulenos[key]
+		it = self.rulenos.find(key)
+		if it == self.rulenos.end():
+			raise KeyError(node)
+		return dereference(it).second
 
 	cpdef getruleno(self, tuple r, tuple yf):
 		"""Get rule no given a (discontinuous) production."""
 		cdef Rule key
-		cdef bytes lhs = r[0].encode('utf8')
-		cdef bytes rhs1 = r[1].encode('utf8')
-		key.lhs, key.rhs1 = self.toid.ob[lhs], self.toid.ob[rhs1]
-		key.rhs2 = self.toid.ob[r[2].encode('utf8')] if len(r) > 2 else 0
+		key.lhs, key.rhs1 = self.toid[r[0]], self.toid[r[1]]
+		key.rhs2 = self.toid[r[2]] if len(r) > 2 else 0
 		getyf(yf, &key.args, &key.lengths)
-		return self.rulenos[key]
+		it = self.rulenos.find(key)
+		if it == self.rulenos.end():
+			raise KeyError((r, yf))
+		return dereference(it).second
 
 	def incrementrulecount(self, int ruleno, int freq):
 		"""Add freq to observed count of a rule.
diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 78c19d4..2b244ac 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -798,8 +798,7 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 			'self mapping; call grammar.getmapping(None, ...)')
 	whitelist.mapping = &(grammar.selfmapping[0])
 	whitelist.splitmapping = NULL
-	if maskrules:
-		grammar.setmask([])  # block all rules
+	allowed = []
 	for treestr in trees:
 		tree = Tree(treestr)
 		for node, (r, yf) in zip(tree.subtrees(),
@@ -825,15 +824,16 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 				except KeyError:
 					return [], "not in grammar: %r %r" % (r, yf), None
 				if grammar.selfrulemapping is None:
-					CLEARBIT(&(grammar.mask[0]), ruleno)
+					allowed.append(ruleno)
 				else:
-					for n in grammar.selfrulemapping[ruleno]:
-						CLEARBIT(&(grammar.mask[0]), n)
+					allowed.extend(grammar.selfrulemapping[ruleno])
 
 	# Finally, parse with the small set of allowed labeled spans & rules.
 	# Do not parse with the PCFG parser even if possible, because that
 	# requires a different way of pruning.
 	# FIXME: two pruning mechanisms; want both?
+	if maskrules:
+		grammar.setmask(allowed)  # block all other rules
 	chart, _ = plcfrs.parse(sent, grammar, tags=tags, whitelist=whitelist)
 	if maskrules:
 		grammar.setmask(None)
@@ -942,7 +942,10 @@ def dopparseprob(tree, sent, Grammar coarse, Grammar fine):
 		if node.bitset not in chart:
 			chart[node.bitset] = {}
 		cell = chart[node.bitset]
-		prod = coarse.getruleno(r, yf)
+		try:
+			prod = coarse.getruleno(r, yf)
+		except KeyError:  # production not in grammar
+			return float('-inf')
 		if len(node) == 1:  # unary node
 			for ruleno in fine.rulemapping[prod]:
 				rule = &(fine.bylhs[0][fine.revrulemap[ruleno]])
-- 
2.43.0


From 213235aca6b1fe38b1e79334c4687210990e6dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 057/192] fix: find best derivation when a POS tag can also be
 produced by a unary rule

---
 discodop/kbest.pyx  | 13 ++++++++++++-
 discodop/plcfrs.pyx | 11 ++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/discodop/kbest.pyx b/discodop/kbest.pyx
index 6d9fef4..af1e081 100644
--- a/discodop/kbest.pyx
+++ b/discodop/kbest.pyx
@@ -32,8 +32,11 @@ cdef RankedEdgeAgenda[Prob] getcandidates(Chart chart, ItemNo v, int k):
 	for e in chart.parseforest[v]:
 		if e.rule is NULL:
 			# there can only be one lexical edge for this combination of
-			# POS tag and terminal, use viterbi probability directly
+			# POS tag and terminal, use viterbi probability directly,
+			# unless it may be due to a unary rule for the same label.
 			prob = chart.subtreeprob(v)
+			if chart.parseforest[v].size() > 1:
+				prob = max(prob, lexicalprob(chart, v, e))
 			left = right = -1
 		else:
 			left = right = 0
@@ -52,6 +55,14 @@ cdef RankedEdgeAgenda[Prob] getcandidates(Chart chart, ItemNo v, int k):
 	return agenda
 
 
+cdef Prob lexicalprob(Chart chart, ItemNo v, Edge e) except -1:
+	"""Return weight of lexical rule, or 0 for an unknown word."""
+	try:
+		return chart.grammar.lexical[chart.lexruleno(v, e)].prob
+	except ValueError:
+		return 0
+
+
 cdef lazykthbest(ItemNo v, int k, int k1, agendas_type& cand, Chart chart,
 		explored_type& explored, int depthlimit):
 	""""Explore up to *k*-best derivations headed by vertex *v*.
diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index b41e078..a8f40cc 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -739,9 +739,10 @@ cdef populatepos(Grammar grammar,
 								lexrule.lhs, length, left + right, gaps]
 						if score > MAX_LOGPROB:
 							continue
-					# NB: do NOT add length of span to score, so that the
-					# scores of POS tags are all strictly smaller than any
-					# unaries on them.
+					else:
+						# add length of span to score (cf. parse_main); a POS
+						# tag may also be produced by a unary rule.
+						score += MAX_LOGPROB
 					newitem.label = lexrule.lhs
 					if LCFRSItem_fused is SmallChartItem:
 						newitem.vec = 1UL << wordidx
@@ -775,6 +776,8 @@ cdef populatepos(Grammar grammar,
 						memset(<void *>newitem.vec, 0, SLOTS * sizeof(uint64_t))
 						SETBIT(newitem.vec, wordidx)
 					score = lexrule.prob - pylog(openclassfactor)
+					if estimatetype == 0:
+						score += MAX_LOGPROB
 					# process_lexedge checks that tag is not already in agenda
 					if process_lexedge[LCFRSItem_fused, LCFRSChart_fused](
 							newitem, lexrule.prob - pylog(openclassfactor),
@@ -798,6 +801,8 @@ cdef populatepos(Grammar grammar,
 						score += outside[lhs, length, left + right, gaps]
 						if score > MAX_LOGPROB:
 							continue
+					else:
+						score += MAX_LOGPROB
 					newitem.label = lhs
 					if LCFRSItem_fused is SmallChartItem:
 						newitem.vec = 1UL << wordidx
-- 
2.43.0


From a827da8aa6398fb38fe4492b24eec954a67ec908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 058/192] fix: agenda: skip superseded heap entries of keys
 that are inserted again

---
 discodop/_containers.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/discodop/_containers.h b/discodop/_containers.h
index 689b0cd..53d6a03 100644
--- a/discodop/_containers.h
+++ b/discodop/_containers.h
@@ -131,8 +131,8 @@ public:
 		// 1. the priority is better; better item will pop from heap first
 		// 2. priority is equal: heap will have a duplicate, but map only
 		//             has one, so other one is ignored.
-		// 3. priority is worse: the better one will pop from heap first,
-		//             so this item will be ignored.
+		// 3. priority is worse: the better one in the heap does not match
+		//             the map and will be skipped.
 		entry_type entry(k, v, ++counter);
 		map[k] = entry;
 		heap.push(entry);
@@ -158,12 +158,11 @@ public:
 		}
 		typename map_type::iterator it;
 		entry_type entry = heap.top();
-		// skip entries which are no longer in the map; (could verify that
-		// priority matches w/map, but heap gives us the best priority so we
-		// are not interested in other priorities for this key)
+		// skip entries which are no longer in the map, or which have been
+		// superseded by an entry with another priority (the heap may contain
+		// stale entries for a key that was removed and inserted again)
 		while (it = map.find(entry.key), it == map.end()
-				// || it->second.value != entry.value
-				) {
+				|| it->second.value != entry.value) {
 			heap.pop();
 			if (heap.empty()) {
 				return noitem;
-- 
2.43.0


From 94b6fdd353eaed20538a69316241e40e79d06f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 059/192] fix: PCFG unary rules: use priority of item instead
 of its position

---
 discodop/pcfg.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 5766d79..6c02a1c 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -748,7 +748,7 @@ cdef inline void applyunaryrules(
 	for itemidx in range(lastidx, chart.items.size()):
 		item = chart.items[itemidx]
 		unaryagenda.setifbetter(
-				chart._label(item), (<Chart>chart).subtreeprob(itemidx))
+				chart._label(item), chart._subtreeprob(item))
 	# 	unaryentry.first = chart._label(item)
 	# 	unaryentry.second = chart._subtreeprob(item)
 	# 	unaryentries.push_back(unaryentry)
-- 
2.43.0


From 5643e6ff7da584df56aa1f93deacbc77a64b1ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 060/192] fix: kbest: probability of lexical edges of words
 found in lower case

---
 discodop/kbest.pyx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/discodop/kbest.pyx b/discodop/kbest.pyx
index af1e081..2825f61 100644
--- a/discodop/kbest.pyx
+++ b/discodop/kbest.pyx
@@ -7,6 +7,7 @@ from operator import itemgetter
 from .containers import Grammar
 
 cimport cython
+from cython.operator cimport dereference
 from libcpp.string cimport string
 from libc.stdio cimport sprintf
 from libc.stdlib cimport abort
@@ -56,11 +57,17 @@ cdef RankedEdgeAgenda[Prob] getcandidates(Chart chart, ItemNo v, int k):
 
 
 cdef Prob lexicalprob(Chart chart, ItemNo v, Edge e) except -1:
-	"""Return weight of lexical rule, or 0 for an unknown word."""
-	try:
-		return chart.grammar.lexical[chart.lexruleno(v, e)].prob
-	except ValueError:
-		return 0
+	"""Return weight of lexical rule, or 0 for an unknown word or tag."""
+	cdef Label label = chart.label(v)
+	word = chart.sent[chart.lexidx(e)]
+	it = chart.grammar.lexicalbyword.find(word.encode('utf8'))
+	if it == chart.grammar.lexicalbyword.end():
+		it = chart.grammar.lexicalbyword.find(word.lower().encode('utf8'))
+	if it != chart.grammar.lexicalbyword.end():
+		for n in dereference(it).second:
+			if chart.grammar.lexical[n].lhs == label:
+				return chart.grammar.lexical[n].prob
+	return 0
 
 
 cdef lazykthbest(ItemNo v, int k, int k1, agendas_type& cand, Chart chart,
-- 
2.43.0


From 70cc6cf1855ef2c13ce30cf21a5b8c67824f9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 061/192] fix: PCFG parser: reject empty sentence instead of
 crashing

---
 discodop/pcfg.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 6c02a1c..c2e23ae 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -423,6 +423,8 @@ def parse(sent, Grammar grammar, tags=None, start=None, whitelist=None,
 		raise ValueError('Not a PCFG! fanout: %d' % grammar.maxfanout)
 	if not grammar.logprob:
 		raise ValueError('Expected grammar with log probabilities.')
+	if not sent:
+		raise ValueError('Cannot parse an empty sentence.')
 	if whitelist is None and grammar.nonterminals < 20000:
 		chart = DenseCFGChart(grammar, sent, start)
 		return parse_grammarloop[DenseCFGChart](
-- 
2.43.0


From e407c7ec37a33bcb17fe9cf30dc1cc5de3ee4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 062/192] fix: estimates: numpy.NAN was removed from numpy

---
 discodop/estimates.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index d36a161..f631f39 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -347,7 +347,7 @@ def getestimates(Grammar grammar, uint32_t maxlen, str rootlabel):
 			* (maxlen + 1) / 1024 ** 2), 'MB')
 	insidescores = np.empty((grammar.nonterminals, (maxlen + 1)), dtype='d')
 	outside = np.empty((grammar.nonterminals, ) + 3 * (maxlen + 1, ), dtype='d')
-	insidescores[...] = np.NAN
+	insidescores[...] = np.nan
 	outside[...] = np.inf
 	print("getting inside estimates")
 	simpleinside(grammar, maxlen, insidescores)
@@ -696,7 +696,7 @@ cpdef testestimates(Grammar grammar, uint32_t maxlen, str rootlabel):
 			# 		exp(insidescores[a][b]))
 	print(len(insidescores) * sum(map(len, insidescores.values())), '\n')
 	insidescores = np.empty((grammar.nonterminals, (maxlen + 1)), dtype='d')
-	insidescores[...] = np.NAN
+	insidescores[...] = np.nan
 	simpleinside(grammar, maxlen, insidescores)
 	insidescores[np.isnan(insidescores)] = np.inf
 	print("inside")
-- 
2.43.0


From 629f249dea08c379c886ade2aea407d3787cd574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 063/192] fix: undefined shift in spans after the 64th word

---
 discodop/containers.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index c8322fe..b8dc100 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -42,7 +42,7 @@ cdef FatChartItem CFGtoFatChartItem(Label label, Idx start, Idx end):
 	cdef FatChartItem fci = FatChartItem(label)
 	cdef short n
 	if BITSLOT(start) == BITSLOT(end):
-		fci.vec[BITSLOT(start)] = (1UL << end) - (1UL << start)
+		fci.vec[BITSLOT(start)] = BITMASK(end) - BITMASK(start)
 	else:
 		fci.vec[BITSLOT(start)] = ~0UL << (start % BITSIZE)
 		for n in range(BITSLOT(start) + 1, BITSLOT(end)):
-- 
2.43.0


From 8ed4f8c1ac55e16aec6b9bb59db5040cc56d0ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 064/192] fix: PLCFRS parser: refuse sentences that do not fit
 in a chart item

---
 discodop/constants.pxi | 2 +-
 discodop/plcfrs.pyx    | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/constants.pxi b/discodop/constants.pxi
index 2626773..3b4b7d3 100644
--- a/discodop/constants.pxi
+++ b/discodop/constants.pxi
@@ -1,5 +1,5 @@
 # The number of unsigned longs in the bitvector of a FatChartItem.
-# The maximum sentence length will be: SLOTS * sizeof(unsigned long) * 8
+# Sentences must be shorter than: SLOTS * sizeof(unsigned long) * 8
 DEF SLOTS = 2
 # These values give a maximum length of 128 bits on 32 and 64 bit systems.
 # IF UNAME_MACHINE == 'x86_64':
diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index a8f40cc..3f923a4 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -350,6 +350,9 @@ def parse(sent, Grammar grammar, tags=None, bint exhaustive=True,
 				sent, grammar, tags, exhaustive, whitelist,
 				splitprune, markorigin, estimates, beam_beta, beam_delta,
 				postagging)
+	if <unsigned>len(sent) >= SLOTS * sizeof(uint64_t) * 8:
+		raise ValueError('Sentence too long: %d words; maximum is %d' % (
+				len(sent), SLOTS * sizeof(uint64_t) * 8 - 1))
 	chart = FatLCFRSChart(grammar, list(sent), start,
 			itemsestimate=itemsestimate)
 	return parse_main[FatLCFRSChart, FatChartItem](
-- 
2.43.0


From f83d7e7c5abf4a4764a54668f2e3f4dc4a5b0bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 065/192] fix: PLCFRS parser: do not advance iterator past the
 end

---
 discodop/plcfrs.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index 3f923a4..aafa572 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -486,7 +486,6 @@ cdef parse_main(LCFRSChart_fused chart, LCFRSItem_fused goal, sent,
 					preincrement(itemidxit)
 				for sibidx in sibvec:
 					sib = chart.items[sibidx]
-					preincrement(itemidxit)
 					if concat[LCFRSItem_fused](rule, &sib, &item):
 						newitem.label = rule.lhs
 						combine_item[LCFRSItem_fused](&newitem, &sib, &item)
-- 
2.43.0


From 5625e539e1f20cbc4cc57bfdf6c60bcefb030e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 066/192] fix: estimates: consider all rules of a label, not
 just the first few

The number of rules with a given child was bounded by the number of
nonterminals.
---
 discodop/estimates.pyx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index f631f39..9c3aef2 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -116,7 +116,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 				or x < insidescores[item.label, item.vec]):
 			insidescores[item.label, item.vec] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -124,7 +124,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -135,7 +135,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 							SmallChartItem(rule.lhs, item.vec + vec),
 							rule.prob + x + insidescores[rule.rhs2, vec])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
@@ -170,7 +170,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 		if x < insidescores[item.label].get(item.vec, INFINITY):
 			insidescores[item.label][item.vec] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -179,7 +179,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -192,7 +192,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 					agenda.setifbetter(SmallChartItem(rule.lhs, left),
 							rule.prob + x + insidescores[rule.rhs2][vec])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
@@ -420,7 +420,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 				or x < insidescores[item.vec][item.label]):
 			insidescores[item.vec][item.label] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -428,7 +428,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -439,7 +439,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 							SmallChartItem(rule.lhs, item.vec + vec),
 							rule.prob + x + insidescores[vec][rule.rhs2])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
-- 
2.43.0


From 8d5bff1ef4dbf5146f3575b17d64e8e8c2615a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 067/192] fix: estimates: gaps of a parent may be to the left
 or right of a child

---
 discodop/estimates.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index 9c3aef2..e841e98 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -288,7 +288,8 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 			for lenA in range(leftfanout, item.length - rightfanout + 1):
 				lenB = item.length - lenA
 				insidescore = insidescores[rule.rhs2, lenB]
-				for lr in range(item.lr, item.lr + lenB + 2):  # FIXME: why 2?
+				# words of B, and gaps next to them, may end up left/right of A
+				for lr in range(item.lr, item.lr + lenB + item.gaps + 1):
 					if addright == 0 and lr != item.lr:
 						continue
 					for ga in range(leftfanout - 1, totlen + 1):
@@ -323,7 +324,8 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 			for lenA in range(rightfanout, item.length - leftfanout + 1):
 				lenB = item.length - lenA
 				insidescore = insidescores[rule.rhs1, lenB]
-				for lr in range(item.lr, item.lr + lenB + 2):  # FIXME: why 2?
+				# words of B, and gaps next to them, may end up left/right of A
+				for lr in range(item.lr, item.lr + lenB + item.gaps + 1):
 					for ga in range(rightfanout - 1, totlen + 1):
 						if (lenA + lr + ga == item.length + item.lr + item.gaps
 								and ga >= addgaps):
-- 
2.43.0


From cb2325a890e6cb35ed67e63968eb26aff449c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 068/192] fix: estimates: only discard items that are
 impossible

Long sentences have parses with probabilities below exp(-300).
---
 discodop/plcfrs.pyx | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index aafa572..820d1b8 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -442,12 +442,12 @@ cdef parse_main(LCFRSChart_fused chart, LCFRSItem_fused goal, sent,
 				score = newprob = prob + rule.prob
 				if estimatetype == SX:
 					score += outside[rule.lhs, left, right, 0]
-					if score > MAX_LOGPROB:
+					if score == INFINITY:
 						continue
 				elif estimatetype == SXlrgaps:
 					score += outside[
 							rule.lhs, length, left + right, gaps]
-					if score > MAX_LOGPROB:
+					if score == INFINITY:
 						continue
 				else:
 					# add length of span to score so that all items of length n
@@ -505,7 +505,7 @@ cdef parse_main(LCFRSChart_fused chart, LCFRSItem_fused goal, sent,
 						if estimatetype == SX:
 							right = lensent - length - left
 							score += outside[rule.lhs, left, right, 0]
-							if score > MAX_LOGPROB:
+							if score == INFINITY:
 								continue
 						elif estimatetype == SXlrgaps:
 							if LCFRSItem_fused is SmallChartItem:
@@ -516,7 +516,7 @@ cdef parse_main(LCFRSChart_fused chart, LCFRSItem_fused goal, sent,
 							right = lensent - length - left - gaps
 							score += outside[
 									rule.lhs, length, left + right, gaps]
-							if score > MAX_LOGPROB:
+							if score == INFINITY:
 								continue
 						else:
 							score += length * MAX_LOGPROB
@@ -568,7 +568,7 @@ cdef parse_main(LCFRSChart_fused chart, LCFRSItem_fused goal, sent,
 						if estimatetype == SX:
 							right = lensent - length - left
 							score += outside[rule.lhs, left, right, 0]
-							if score > MAX_LOGPROB:
+							if score == INFINITY:
 								continue
 						elif estimatetype == SXlrgaps:
 							if LCFRSItem_fused is SmallChartItem:
@@ -579,7 +579,7 @@ cdef parse_main(LCFRSChart_fused chart, LCFRSItem_fused goal, sent,
 							right = lensent - length - left - gaps
 							score += outside[rule.lhs, length,
 									left + right, gaps]
-							if score > MAX_LOGPROB:
+							if score == INFINITY:
 								continue
 						else:
 							score += length * MAX_LOGPROB
@@ -734,12 +734,12 @@ cdef populatepos(Grammar grammar,
 					score = lexrule.prob
 					if estimatetype == SX:
 						score += outside[lexrule.lhs, left, right, 0]
-						if score > MAX_LOGPROB:
+						if score == INFINITY:
 							continue
 					elif estimatetype == SXlrgaps:
 						score += outside[
 								lexrule.lhs, length, left + right, gaps]
-						if score > MAX_LOGPROB:
+						if score == INFINITY:
 							continue
 					else:
 						# add length of span to score (cf. parse_main); a POS
@@ -797,11 +797,11 @@ cdef populatepos(Grammar grammar,
 					score = 0.0
 					if estimatetype == SX:
 						score += outside[lhs, left, right, 0]
-						if score > MAX_LOGPROB:
+						if score == INFINITY:
 							continue
 					elif estimatetype == SXlrgaps:
 						score += outside[lhs, length, left + right, gaps]
-						if score > MAX_LOGPROB:
+						if score == INFINITY:
 							continue
 					else:
 						score += MAX_LOGPROB
-- 
2.43.0


From ea73a376ea6eedde0838b734c7521732b9f6bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 069/192] fix: PLCFRS parser: do not read estimates out of
 bounds for long sentences

---
 discodop/plcfrs.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index 820d1b8..c1458e4 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -385,6 +385,8 @@ cdef parse_main(LCFRSChart_fused chart, LCFRSItem_fused goal, sent,
 			or (LCFRSItem_fused is FatChartItem
 			and LCFRSChart_fused is SmallLCFRSChart)):
 		return
+	if estimates is not None and len(sent) >= estimates[1].shape[1]:
+		estimates = None  # no estimates available for sentences this long
 	if estimates is not None:
 		estimatetypestr, outside = estimates
 		estimatetype = {'SX': SX, 'SXlrgaps': SXlrgaps}[estimatetypestr]
-- 
2.43.0


From 4231143564f36ea3e93f17bc7858d2bd7542715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 070/192] fix: DenseCFGChart: spans of sentences with 256 or
 more words

The index of a cell in such charts does not fit in a short.
---
 discodop/containers.pxd | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/containers.pxd b/discodop/containers.pxd
index ea1743e..e79fa97 100644
--- a/discodop/containers.pxd
+++ b/discodop/containers.pxd
@@ -735,7 +735,8 @@ cdef inline short cellstart(size_t cell, short lensent,
 		Label nonterminals):
 	"""Retrieve start position for a given chart cell."""
 	cell = cell // nonterminals
-	cdef short start = 0, idx = 0
+	cdef short start = 0
+	cdef size_t idx = 0
 	while idx + lensent <= cell:
 		idx += lensent
 		lensent -= 1
@@ -757,7 +758,8 @@ cdef inline short cellend(size_t cell, short lensent,
 		Label nonterminals):
 	"""Retrieve end position for a given chart cell."""
 	cell = cell // nonterminals
-	cdef short start = 0, idx = 0
+	cdef short start = 0
+	cdef size_t idx = 0
 	while idx + lensent <= cell:
 		idx += lensent
 		lensent -= 1
-- 
2.43.0


From 2fa97417902dc9b3a996e24bf6d599b33602695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 071/192] fix: kbest: depth limit rejected derivations of long
 sentences

The limit is meant for cycles, but derivations of a sentence with more
than 200 words can be deeper than that.
---
 discodop/kbest.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/kbest.pyx b/discodop/kbest.pyx
index 2825f61..ce972d0 100644
--- a/discodop/kbest.pyx
+++ b/discodop/kbest.pyx
@@ -294,13 +294,15 @@ def lazykbest(Chart chart, int k, bint derivs=True):
 	cdef vector[pair[RankedEdge, Prob]] tmp
 	cdef ItemNo root = chart.root()
 	cdef int n = 0
+	# prevents cycles, but should allow for the derivations of long sentences
+	cdef int depthlimit = MAX_DEPTH + 4 * len(chart.sent)
 	if root not in chart:
 		raise ValueError('kbest: no complete derivation in chart')
 	chart.rankededges.clear()
 	chart.rankededges.resize(chart.parseforest.size())
-	lazykthbest(root, k, k, cand, chart, explored, MAX_DEPTH)
+	lazykthbest(root, k, k, cand, chart, explored, depthlimit)
 	for entry in chart.rankededges[root]:
-		if explorederivation(root, entry.first, chart, explored, MAX_DEPTH):
+		if explorederivation(root, entry.first, chart, explored, depthlimit):
 			tmp.push_back(entry)
 		n += 1
 		if n >= k:
-- 
2.43.0


From 786ca24ddcd6f89cf1ef8267202e955999643e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 072/192] fix: PLCFRS parser: pruning with split constituents
 without origin markers

The condition was inverted, and the list of components is not available in
this case; use label mapping instead.
---
 discodop/plcfrs.pyx | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index c1458e4..b86361e 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -890,23 +890,15 @@ cdef inline bint checkwhitelist(LCFRSItem_fused newitem, Whitelist whitelist,
 	cdef uint32_t n, cnt
 	cdef Label label
 	cdef int a, b
-	if whitelist is None:
+	if whitelist is None or whitelist.mapping[newitem.label] == 0:
 		return True
 	elif splitprune:  # disc. item to be treated as several split items?
-		b = 0
-		if markorigin:
-			cnt = 0
-			if whitelist.splitmapping[newitem.label].size() == 0:
-				return True
-		else:
-			if whitelist.mapping[newitem.label] != 0:
-				return True
+		b = cnt = 0
+		if not markorigin:
 			if LCFRSItem_fused is SmallChartItem:
-				COMPONENT.label = whitelist.splitmapping[
-						newitem.label][0]
+				COMPONENT.label = whitelist.mapping[newitem.label]
 			elif LCFRSItem_fused is FatChartItem:
-				FATCOMPONENT.label = whitelist.splitmapping[
-						newitem.label][0]
+				FATCOMPONENT.label = whitelist.mapping[newitem.label]
 		if LCFRSItem_fused is SmallChartItem:
 			a = nextset(newitem.vec, b)
 			while a != -1:
@@ -936,7 +928,7 @@ cdef inline bint checkwhitelist(LCFRSItem_fused newitem, Whitelist whitelist,
 						FATCOMPONENT) == 0:
 					return False
 				a = anextset(newitem.vec, b, SLOTS)
-	elif whitelist.mapping[newitem.label] != 0:
+	else:
 		label = newitem.label
 		newitem.label = whitelist.mapping[label]
 		if LCFRSItem_fused is SmallChartItem:
-- 
2.43.0


From a1d432c49d2c1bf8b9002fc7f99ae326118f6beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 073/192] fix: PCFG parser: only use left children from the
 right cell

When a cell is empty, its index is that of a later item; items of other spans
were used, and the end of the list of items was not checked.
---
 discodop/pcfg.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index c2e23ae..6053087 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -573,9 +573,11 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 			for mid in range(left + 1, right):
 				rightcell = cellstruct(mid, right)
 				leftitemidx = cellindex[cellidx(left, mid, lensent, 1)]
-				leftitem = chart.items[leftitemidx]
-				li.dt = leftitem
-				while li.st.end == mid:
+				while leftitemidx < chart.items.size():
+					leftitem = chart.items[leftitemidx]
+					li.dt = leftitem
+					if li.st.start != left or li.st.end != mid:
+						break
 					leftprob = (<Chart>chart).subtreeprob(leftitemidx)
 					rhs1 = chart._label(leftitem)
 					n = 0
@@ -602,8 +604,6 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 						n += 1
 						rule = &(grammar.lbinary[rhs1][n])
 					leftitemidx += 1
-					leftitem = chart.items[leftitemidx]
-					li.dt = leftitem
 
 			applyunaryrules(chart, left, right, cell, lastidx, unaryagenda,
 					NULL, &blocked, whitelist)
-- 
2.43.0


From cb8f172c66ce96275d737a667e8062c4b3c416db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 074/192] fix: CFG charts: look up items of required or blocked
 spans

The sparse chart returned a span instead of an item number, and discontinuous
indices matched the continuous span that they are a part of.
---
 discodop/pcfg.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 6053087..6f6ad32 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -196,6 +196,8 @@ cdef class DenseCFGChart(CFGChart):
 	def itemid1(self, Label labelid, indices, Whitelist whitelist=None):
 		cdef short left = min(indices)
 		cdef short right = max(indices) + 1
+		if right > self.lensent or right - left != len(indices):
+			return 0
 		item = cellidx(left, right, self.lensent,
 				self.grammar.nonterminals) + labelid
 		if whitelist is not None:
@@ -371,11 +373,14 @@ cdef class SparseCFGChart(CFGChart):
 	def itemid1(self, Label labelid, indices, Whitelist whitelist=None):
 		cdef short left = min(indices)
 		cdef short right = max(indices) + 1
+		if right > self.lensent or right - left != len(indices):
+			return 0
 		item = cellstruct(left, right) + labelid
 		if whitelist is not None:
 			return whitelist.cfg[cellidx(left, right, self.lensent, 1)
 					].count(whitelist.mapping[labelid]) != 0 and item
-		return self.itemindex.find(item) != self.itemindex.end() and item
+		it = self.itemindex.find(item)
+		return 0 if it == self.itemindex.end() else dereference(it).second
 
 	cdef SmallChartItem asSmallChartItem(self, ItemNo itemidx):
 		cdef CFGItem item
-- 
2.43.0


From ab2c3462e790107dafa1bb38ec7b24a955a84193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 075/192] fix: inside-outside: lexical probabilities and order
 of items

Lexical probabilities were exponentiated while already being regular
probabilities; the order in which items were added is not bottom-up.
---
 discodop/coarsetofine.pyx | 63 ++++++++++++++++++++++++++-------------
 discodop/containers.pyx   |  7 +++--
 2 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index a4205e6..8b8a31a 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -16,7 +16,6 @@ from .kbest import lazykbest
 from .kbest cimport collectitems, getderiv
 from roaringbitmap import RoaringBitmap
 import numpy as np
-from libc.math cimport exp
 
 include "constants.pxi"
 
@@ -211,37 +210,59 @@ def posteriorthreshold(Chart chart, double threshold):
 	return posterior, msg
 
 
+cdef vector[ItemNo] bottomuporder(Chart chart):
+	"""Return items such that items come after the items they are built from.
+
+	NB: the order in which items were added is not suitable, and neither is
+	the length of items, because of unaries. (Cycles are broken arbitrarily.)"""
+	cdef vector[ItemNo] order, stack
+	cdef vector[char] state  # 0=new, 1=waiting for children, 2=done
+	cdef ItemNo n, item, child
+	cdef Edge edge
+	state.resize(chart.parseforest.size(), 0)
+	for n in range(1, chart.numitems() + 1):
+		stack.push_back(chart.getitemidx(n))
+		while not stack.empty():
+			item = stack.back()
+			if state[item] == 0:
+				state[item] = 1
+				for edge in chart.parseforest[item]:
+					if edge.rule is NULL:
+						continue
+					child = chart._left(item, edge)
+					if state[child] == 0:
+						stack.push_back(child)
+					if edge.rule.rhs2:
+						child = chart._right(item, edge)
+						if state[child] == 0:
+							stack.push_back(child)
+			else:
+				stack.pop_back()
+				if state[item] == 1:
+					state[item] = 2
+					order.push_back(item)
+	return order
+
+
 def getinside(Chart chart):
 	"""Compute inside probabilities for a chart given its parse forest."""
-	# this needs to be bottom up, so need order in which items were added
-	# currently separate list, chart.itemsinorder
-	# NB: sorting items by length is not enough,
-	# unaries have to be in the right order...
-
 	# choices for probs:
 	# - normal => underflow (current)
 	# - logprobs => loss of precision w/addition
 	# - normal, scaled => how?
-	cdef ItemNo n, item, leftitem, rightitem
+	cdef ItemNo item, leftitem, rightitem
 	cdef Edge edge
 	cdef double prob
 	chart.inside.resize(chart.probs.size(), 0.0)
 
 	# traverse items in bottom-up order
-	for n in range(1, chart.numitems() + 1):
-		item = chart.getitemidx(n)
+	for item in bottomuporder(chart):
 		for edge in chart.parseforest[item]:
 			if edge.rule is NULL:
 				try:
 					prob = chart.lexprob(item, edge)
-				except ValueError:
-					# fall back to Viterbi score from chart
-					# if there is a single incoming edge this is correct
-					assert chart.parseforest[item].size() == 1
-					if chart.logprob:
-						prob = exp(-chart.probs[item])
-					else:
-						prob = chart.probs[item]
+				except ValueError:  # POS tag was given
+					prob = 1.0
 			elif edge.rule.rhs2 == 0:
 				leftitem = chart._left(item, edge)
 				prob = (edge.rule.prob
@@ -258,15 +279,17 @@ def getinside(Chart chart):
 
 def getoutside(Chart chart):
 	"""Compute outside probabilities for a chart given its parse forest."""
-	cdef ItemNo n, item, leftitem, rightitem
+	cdef ItemNo item, leftitem, rightitem
 	cdef Edge edge
 	cdef double outsideprob
+	cdef vector[ItemNo] order = bottomuporder(chart)
 	# cdef double sentprob = chart.inside[chart.root()]
 	# traverse items in top-down order
 	chart.outside.resize(chart.probs.size(), 0.0)
 	chart.outside[chart.root()] = 1.0
-	for n in range(chart.numitems(), 0, -1):
-		item = chart.getitemidx(n)
+	while not order.empty():
+		item = order.back()
+		order.pop_back()
 		# can we define outside[item] simply as sentprob - inside[item] ?
 		# chart.outside[item] = sentprob - chart.inside[item]
 		for edge in chart.parseforest[item]:
diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index b8dc100..045f55a 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -125,6 +125,9 @@ cdef class Chart:
 		cdef Label label = self.label(itemidx)
 		cdef string word = self.sent[self.lexidx(edge)].encode('utf8')
 		it = self.grammar.lexicalbyword.find(word)
+		if it == self.grammar.lexicalbyword.end():
+			it = self.grammar.lexicalbyword.find(
+					self.sent[self.lexidx(edge)].lower().encode('utf8'))
 		if it == self.grammar.lexicalbyword.end():
 			raise ValueError('unknown word: %r' % word)
 		# do binary search among rules for word for rule with given lhs
@@ -144,8 +147,8 @@ cdef class Chart:
 		cdef int ruleno = self.lexruleno(itemidx, edge)
 		if ruleno >= 0:
 			prob = self.grammar.lexical[ruleno].prob
-			return exp(-prob) if self.logprob else prob
-		return 0 if self.logprob else 1
+			return exp(-prob) if self.grammar.logprob else prob
+		return 1
 
 	def numitems(self):
 		"""Number of items in chart."""
-- 
2.43.0


From 42b22abd8e74e52c2818a1e48599b79ff5daaee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 076/192] fix: prunechart: refuse sentences that do not fit in
 a chart item

---
 discodop/coarsetofine.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index 8b8a31a..b5e85d7 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -150,7 +150,10 @@ def prunechart(Chart coarsechart, Grammar fine, k,
 		# for span in range(whitelist.cfg.size()):
 		# 	sort(whitelist.cfg[span].begin(), whitelist.cfg[span].end())
 	else:  # index items by label
-		if <unsigned>coarsechart.lensent >= sizeof(sitem.vec) * 8:
+		if <unsigned>coarsechart.lensent >= sizeof(fitem.vec) * 8:
+			raise ValueError('Sentence too long: %d words.'
+					% coarsechart.lensent)
+		elif <unsigned>coarsechart.lensent >= sizeof(sitem.vec) * 8:
 			whitelist.fat.clear()
 			whitelist.fat.resize(coarsechart.grammar.nonterminals)
 			for item in items:
-- 
2.43.0


From 488812b128f7aa5503b4e565755945d2e7cf0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 077/192] fix: testconstraints: allow only required or only
 blocked spans

---
 discodop/disambiguation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 2b244ac..4550eee 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -285,7 +285,7 @@ def testconstraints(treestr, require, block):
 	spans = {(node.label, tuple(sorted(node.leaves())))
 			for node in ImmutableTree(
 				REMOVESTATESPLITS.sub(r'\1 ', treestr)).subtrees()}
-	return spans.issuperset(require) and spans.isdisjoint(block)
+	return spans.issuperset(require or ()) and spans.isdisjoint(block or ())
 
 
 cdef maxconstituentsparse(Chart chart, double labda, set labels=None):
-- 
2.43.0


From 6188dd881f5d2cf129609f509e40f38761b4b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 078/192] fix: shortest derivation: lexical weights are not log
 probabilities

Chart.lexprob() returns a regular probability, but getderivprob() added it to
the negative log probabilities of rules.
---
 discodop/disambiguation.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 4550eee..e2ecc31 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -851,7 +851,11 @@ cdef Prob getderivprob(ItemNo v, RankedEdge deriv, Chart chart, list sent):
 	cdef Prob result
 	cdef ItemNo v1
 	if deriv.edge.rule is NULL:  # is terminal
-		return chart.lexprob(v, deriv.edge)
+		try:
+			result = chart.lexprob(v, deriv.edge)
+		except ValueError:  # POS tag was given
+			result = 1.0
+		return -log(result) if chart.grammar.logprob else result
 	result = deriv.edge.rule.prob
 	v1 = chart.left(v, deriv)
 	result += getderivprob(
-- 
2.43.0


From 1b69a87d35c981667dfa00743c18e163caba6cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 079/192] fix: shortest derivation: round instead of truncate
 number of fragments

Due to rounding errors, derivations with the same number of fragments do not
have exactly the same weight, and truncation was off by one.
---
 discodop/disambiguation.pyx | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index e2ecc31..b11aa09 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -59,6 +59,14 @@ REMOVESTATESPLITS = re.compile(
 		r'(?:\^[^|:\s()]+)? '
 		)
 
+cdef inline long numfragments(Prob prob):
+	"""Number of fragments given weight of derivation in shortest model.
+
+	Each fragment contributes 0.5; rounding is needed because floating point
+	errors accumulate differently depending on the shape of the derivation."""
+	return <long>(prob / log(2) + 0.5)
+
+
 cdef str NONCONSTLABEL = ''
 cdef str NEGATIVECONSTLABEL = '-#-'
 
@@ -154,14 +162,14 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 				if entry.second < maxprob:
 					maxprob = entry.second
 			for entry in chart.rankededges[root]:
-				if entry.second == maxprob:
+				if numfragments(entry.second) == numfragments(maxprob):
 					entries.push_back(entry)
 			chart.rankededges[root] = entries
 		elif chart.derivations:
 			_, maxprob = min(chart.derivations, key=itemgetter(1))
 			chart.derivations = [(deriv, prob)
 					for deriv, prob in chart.derivations
-					if prob == maxprob]
+					if numfragments(prob) == numfragments(maxprob)]
 
 	if not dopreduction:  # Double-DOP
 		for n in range(chart.rankededges[root].size()):
@@ -180,7 +188,7 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 				# probability in a different model.
 				newprob = exp(-getderivprob(
 						root, entry.first, chart, sent))
-				score = (int(prob / log(0.5)), newprob)
+				score = (-numfragments(prob), newprob)
 				if treestr not in derivlen or score > derivlen[treestr]:
 					derivlen[treestr] = score
 					derivs[treestr] = n
@@ -205,7 +213,7 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 			if shortest:
 				entry = chart.rankededges[root][n]
 				newprob = getderivprob(root, entry.first, chart, sent)
-				score = (int(prob / log(0.5)), exp(-newprob))
+				score = (-numfragments(prob), exp(-newprob))
 				if treestr not in derivlen or (not dopreduction
 						and score > derivlen[treestr]):
 					derivlen[treestr] = score
@@ -467,7 +475,7 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 			treestr = recoverfragments(
 					root, entry.first, chart2, backtransform)
 		if treestr in nmostlikelytrees and treestr not in result:
-			result[treestr] = (-abs(int(s / log(0.5))), parsetreeprob[treestr])
+			result[treestr] = (-numfragments(s), parsetreeprob[treestr])
 			if backtransform is None:
 				derivs[treestr] = fragmentsinderiv_str(
 						deriv, chart2, backtransform)
-- 
2.43.0


From 5c505144e5ef0639e2c7e7c4916ef31c1dd93ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 080/192] fix: maximum constituents parse drops words when
 scores are zero

---
 discodop/disambiguation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index b11aa09..2763b0c 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -378,7 +378,7 @@ cdef maxconstituentsparse(Chart chart, double labda, set labels=None):
 						if (rightspan in cells
 								and cells[rightspan][0] != NONCONSTLABEL):
 							score = cells[leftspan][1] + cells[rightspan][1]
-							if score > maxcombscore:
+							if maxleft is None or score > maxcombscore:
 								maxcombscore = score
 								maxleft = leftspan
 				score = maxscore / sentprob
-- 
2.43.0


From a1b259b5bf166f6797f529601d169a4a59222493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 081/192] fix: sl-dop-simple: do not conflate derivations

After removing the binarization of fragment rules, derivations with different
fragments could have the same string, so that their probability was lost or
added to another parse tree. The number of fragments is not affected, since
binarization nodes are not counted.
---
 discodop/disambiguation.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 2763b0c..747ac09 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -517,7 +517,6 @@ cdef sldop_simple(int sldop_n, Chart chart):
 		for n in range(<signed>chart.rankededges[root].size()):
 			entry = chart.rankededges[root][n]
 			deriv = <bytes>getderiv(root, entry.first, chart).decode('utf8')
-			deriv = str(unbinarize(Tree(deriv), childchar='}'))
 			tree = recoverfragments(root, entry.first, chart, backtransform)
 			keys[deriv] = n
 			derivations[deriv] = entry.second
-- 
2.43.0


From 8b4b3d84e9201c3d14d38e31a72cb181cdf4985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 082/192] fix: sl-dop: restore model of grammar when there is
 no parse

---
 discodop/disambiguation.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 747ac09..5116183 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -464,6 +464,7 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 			nmostlikelytrees, sent, chart.grammar, m, backtransform, tags=tags,
 			maskrules=False)
 	if not chart2:
+		chart.grammar.switch(model, logprob=True)
 		return [], 'SL-DOP couldn\'t find parse for tree'
 	result = {}
 	root = chart2.root()
-- 
2.43.0


From 47087d6118f4d08572d5b43b876f031e8ccf7538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 083/192] fix: treeparsing: do not prune POS tags that are part
 of fragments

The labels of terminals in fragments (tag@word) map to themselves, so they were
always pruned, and sl-dop with double-dop either did not find a parse or missed
the shortest derivations.
---
 discodop/disambiguation.pyx | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 5116183..43b417a 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -813,18 +813,25 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 				lcfrsproductions(tree, sent)):
 			leaves = node.leaves()
 			try:
-				label = grammar.toid[node.label]
+				labels = [grammar.toid[node.label]]
 			except KeyError:
 				return [], "'%s' not in grammar" % node.label, None
+			if backtransform is not None and not isinstance(node[0], Tree):
+				# the POS tag & word may be part of a fragment
+				lexlabel = '%s@%s' % (node.label, escape(sent[node[0]]))
+				if lexlabel in grammar.toid:
+					labels.append(grammar.toid[lexlabel])
 			# whitelist based on (label, span)
-			if <unsigned>lensent < sizeof(uint64_t) * 8:
-				item = SmallChartItem(label, sum([1L << n for n in leaves]))
-				whitelist.small[label].insert(item)
-			else:
-				fitem = FatChartItem(label)
-				for n in leaves:
-					SETBIT(fitem.vec, n)
-				whitelist.fat[label].insert(fitem)
+			for label in labels:
+				if <unsigned>lensent < sizeof(uint64_t) * 8:
+					item = SmallChartItem(
+							label, sum([1L << n for n in leaves]))
+					whitelist.small[label].insert(item)
+				else:
+					fitem = FatChartItem(label)
+					for n in leaves:
+						SETBIT(fitem.vec, n)
+					whitelist.fat[label].insert(fitem)
 			# whitelist based on grammar rule
 			if maskrules and isinstance(node[0], Tree):
 				try:
-- 
2.43.0


From f0af5e93e7ba9bba9ecfe709befd03757e20c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 084/192] fix: fragments of derivation: discontinuous
 substitution sites

Report the components of a discontinuous substitution site, as is done for
double-dop, instead of a single span that includes its gaps.
---
 discodop/disambiguation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 43b417a..e937b37 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -774,7 +774,7 @@ def splitfrag(node):
 					else splitfrag(child))
 		else:
 			children.append(Tree(child.label,
-					['%d:%d' % (min(child.leaves()), max(child.leaves()))]))
+					[yieldranges(sorted(child.leaves()))]))
 	return Tree(node.label, children)
 
 
-- 
2.43.0


From b7483d1781b0dc703d6a0ca33bc5c2db7cb156b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 085/192] fix: dopparseprob: unary chains with repeated labels

A node and its single child shared a cell, so that rules were applied to the
result of the same node when a label recurs in a unary chain.
---
 discodop/disambiguation.pyx | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index e937b37..bce4667 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -927,8 +927,10 @@ def dopparseprob(tree, sent, Grammar coarse, Grammar fine):
 	NB: this algorithm could also be used to determine the probability of
 	derivations, but then the input would have to distinguish whether nodes are
 	internal nodes of fragments, or whether they join two fragments."""
-	cdef dict chart = {}  # chart[bitset][label] = prob
-	cdef dict cell  # chart[bitset] = cell; cell[label] = prob
+	# NB: there is a cell for each node, because nodes in a unary chain have the
+	# same span; id() because nodes are compared by value.
+	cdef dict chart = {}  # chart[id(node)] = cell
+	cdef dict cell  # cell[label] = prob
 	cdef ProbRule *rule
 	cdef LexicalRule lexrule
 	cdef object n  # pyint
@@ -940,9 +942,10 @@ def dopparseprob(tree, sent, Grammar coarse, Grammar fine):
 	# A possible alternative is to scale them somehow.
 
 	# add all matching POS tags
-	for n, pos in tree.pos():
+	for node in tree.subtrees(lambda x: not isinstance(x[0], Tree)):
+		n, pos = node[0], node.label
 		word = sent[n]
-		chart[1 << n] = cell = {}
+		chart[id(node)] = cell = {}
 		it = fine.lexicalbyword.find(word.encode('utf8'))
 		if it == fine.lexicalbyword.end():
 			cell[fine.toid[pos]] = -0.0
@@ -958,25 +961,24 @@ def dopparseprob(tree, sent, Grammar coarse, Grammar fine):
 			lcfrsproductions(tree, sent)))[::-1]:
 		if not isinstance(node[0], Tree):
 			continue
-		if node.bitset not in chart:
-			chart[node.bitset] = {}
-		cell = chart[node.bitset]
+		chart[id(node)] = cell = {}
 		try:
 			prod = coarse.getruleno(r, yf)
 		except KeyError:  # production not in grammar
 			return float('-inf')
 		if len(node) == 1:  # unary node
+			leftcell = chart[id(node[0])]
 			for ruleno in fine.rulemapping[prod]:
 				rule = &(fine.bylhs[0][fine.revrulemap[ruleno]])
-				if rule.rhs1 in cell:
+				if rule.rhs1 in leftcell:
+					newprob = -rule.prob + leftcell[rule.rhs1]
 					if rule.lhs in cell:
-						cell[rule.lhs] = logprobadd(cell[rule.lhs],
-								-rule.prob + cell[rule.rhs1])
+						cell[rule.lhs] = logprobadd(cell[rule.lhs], newprob)
 					else:
-						cell[rule.lhs] = (-rule.prob + cell[rule.rhs1])
+						cell[rule.lhs] = newprob
 		elif len(node) == 2:  # binary node
-			leftcell = chart[node[0].bitset]
-			rightcell = chart[node[1].bitset]
+			leftcell = chart[id(node[0])]
+			rightcell = chart[id(node[1])]
 			for ruleno in fine.rulemapping[prod]:
 				rule = &(fine.bylhs[0][fine.revrulemap[ruleno]])
 				if (rule.rhs1 in leftcell and rule.rhs2 in rightcell):
@@ -988,7 +990,7 @@ def dopparseprob(tree, sent, Grammar coarse, Grammar fine):
 						cell[rule.lhs] = newprob
 		else:
 			raise ValueError('expected binary tree without empty nodes.')
-	return chart[tree.bitset].get(fine.toid[tree.label], float('-inf'))
+	return chart[id(tree)].get(fine.toid[tree.label], float('-inf'))
 
 
 def mcrerank(parsetrees, sent, k, trees, vocab):
-- 
2.43.0


From a3639a74fcb29f902c472434a0f265fdb79b49b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 086/192] fix: eval: equivalent words and deleted root
 preterminals with aligned tokens

---
 discodop/eval.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 5719589..adb077c 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -351,9 +351,14 @@ class TreePairResult(object):
 		grootpos = {child[0] for child in gtree
 				if child and isinstance(child[0], int)}
 		# massage the data (in-place modifications)
+		eqword = self.param['EQ_WORD']
+		align = alignsent([eqword.get(a, a) for a in self.csent],
+				[eqword.get(a, a) for a in self.gsent],
+				{n: n for n, _ in self.gpos})
+		gpos = dict(self.gpos)
 		self.ctree = transform(ctree, self.csent, self.cpos,
-				alignsent(self.csent, self.gsent, dict(self.gpos)),
-				self.param, grootpos)
+				{n: gpos[m] for n, m in align.items()}, self.param,
+				{n for n, m in align.items() if m in grootpos})
 		self.gtree = transform(gtree, self.gsent, self.gpos,
 				dict(self.gpos), self.param, grootpos)
 		if len(self.csent) != len(self.gsent):
-- 
2.43.0


From 063704e356674bcc78b6bacd91d269023eb4948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 087/192] fix: eval: apply EQ_LABEL to root label

---
 discodop/eval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/eval.py b/discodop/eval.py
index adb077c..50531b7 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -780,6 +780,7 @@ def transform(tree, sent, pos, gpos, param, grootpos):
 	:returns: an immutable, transformed copy of ``tree``."""
 	leaves = list(range(len(sent)))
 	posnodes = []
+	tree.label = param['EQ_LABEL'].get(tree.label, tree.label)
 	for a in reversed(list(tree.subtrees(
 			lambda n: n and isinstance(n[0], Tree)))):
 		for n, b in list(zip(count(), a))[::-1]:
-- 
2.43.0


From 7c896515cca64d63740fd654d16389acd52e37b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 088/192] fix: eval: skip sentences without remaining tokens in
 leaf ancestor & tree-dist

---
 discodop/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 50531b7..65ad91a 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -570,9 +570,9 @@ class EvalAccumulator(object):
 		self.candpos.extend(pair.cpos)
 		self.goldfun.update((pair.n, a) for a in pair.goldfun.elements())
 		self.candfun.update((pair.n, a) for a in pair.candfun.elements())
-		if pair.lascore is not None:
+		if not pair.lascore.is_nan():
 			self.lascores.append(pair.lascore)
-		if pair.ted is not None:
+		if not Decimal(pair.denom).is_nan():
 			self.dicenoms += pair.ted
 			self.dicedenoms += pair.denom
 		if pair.gdep is not None:
-- 
2.43.0


From 0bc2ef7b9d593f45a49519b162b23d9d0db1af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 089/192] fix: eval: leaf ancestor score of discontinuous trees
 does not imply exact match

---
 discodop/eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 65ad91a..c26031f 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -401,7 +401,9 @@ class TreePairResult(object):
 		if self.param['DEP']:
 			self.cdep = dependencies(self.ctree)
 			self.gdep = dependencies(self.gtree)
-		assert self.lascore != 1 or self.gbrack == self.cbrack, (
+		# NB: this does not necessarily hold for discontinuous trees
+		assert (self.lascore != 1 or self.gbrack == self.cbrack
+				or any(isdisc(a) for a in self.gtree.subtrees())), (
 				'leaf ancestor score 1.0 but no exact match: (bug?)')
 		self.pgbrack = parentedbracketings(self.gtree, labeled=True,
 				dellabel=self.param['DELETE_LABEL'],
-- 
2.43.0


From 225bf7acff379be517664930180a0de9f9c2cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 090/192] fix: eval: count repeated brackets in reported number
 of brackets

---
 discodop/eval.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index c26031f..12095bb 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -152,7 +152,7 @@ class Evaluator(object):
 			else:
 				print('%s  %6.2f  %s  %s  %s' % (
 					cat.rjust(7),
-					100 * sum(acc.goldbcat[cat].values()) / len(acc.goldb),
+					100 * sum(acc.goldbcat[cat].values()) / sum(acc.goldb.values()),
 					nozerodiv(lambda: recall(
 							acc.goldbcat[cat], acc.candbcat[cat])),
 					nozerodiv(lambda: precision(
@@ -250,12 +250,12 @@ class Evaluator(object):
 				'longest sentence:          %6d' % (acc.maxlenseen)]
 			if gdiscbrackets or discbrackets:
 				msg.extend(['gold brackets (disc.):     %6d (%d)' % (
-							len(acc.goldb), gdiscbrackets),
+							sum(acc.goldb.values()), gdiscbrackets),
 						'cand. brackets (disc.):    %6d (%d)' % (
-							len(acc.candb), discbrackets)])
+							sum(acc.candb.values()), discbrackets)])
 			else:
-				msg.extend(['gold brackets:             %6d' % len(acc.goldb),
-					'cand. brackets:            %6d' % len(acc.candb)])
+				msg.extend(['gold brackets:             %6d' % sum(acc.goldb.values()),
+					'cand. brackets:            %6d' % sum(acc.candb.values())])
 			msg.extend([
 					'labeled recall:            %s' % (
 						nozerodiv(lambda: recall(acc.goldb, acc.candb))),
@@ -292,9 +292,9 @@ class Evaluator(object):
 			'longest sentence:          %6d     %6d' % (
 					acc40.maxlenseen, acc.maxlenseen),
 			'gold brackets:             %6d     %6d' % (
-					len(acc40.goldb), len(acc.goldb)),
+					sum(acc40.goldb.values()), sum(acc.goldb.values())),
 			'cand. brackets:            %6d     %6d' % (
-					len(acc40.candb), len(acc.candb))]
+					sum(acc40.candb.values()), sum(acc.candb.values()))]
 		if gdiscbrackets or discbrackets:
 			msg.extend(['disc. gold brackets:       %6d     %6d' % (
 					gdiscbrackets40, gdiscbrackets),
-- 
2.43.0


From d9c66e39594138e5fca8ef2de889044a73b1bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 091/192] fix: eval: category breakdown without gold brackets

---
 discodop/eval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 12095bb..3cede8a 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -150,9 +150,10 @@ class Evaluator(object):
 			if cat is None:
 				print(39 * ' ', end='')
 			else:
-				print('%s  %6.2f  %s  %s  %s' % (
+				print('%s  %s  %s  %s  %s' % (
 					cat.rjust(7),
-					100 * sum(acc.goldbcat[cat].values()) / sum(acc.goldb.values()),
+					nozerodiv(lambda: sum(acc.goldbcat[cat].values())
+							/ sum(acc.goldb.values())),
 					nozerodiv(lambda: recall(
 							acc.goldbcat[cat], acc.candbcat[cat])),
 					nozerodiv(lambda: precision(
-- 
2.43.0


From 63d2369bf201734c9bd608d6f0a6b625d3a88441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 092/192] fix: eval: compare dependencies without their labels

---
 discodop/eval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 3cede8a..45627af 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -400,8 +400,9 @@ class TreePairResult(object):
 			self.ted, self.denom = treedisteval(self.gtree, self.ctree,
 				includeroot=self.gtree.label not in self.param['DELETE_LABEL'])
 		if self.param['DEP']:
-			self.cdep = dependencies(self.ctree)
-			self.gdep = dependencies(self.gtree)
+			# NB: unlabeled dependencies
+			self.cdep = [(a, '-', b) for a, _, b in dependencies(self.ctree)]
+			self.gdep = [(a, '-', b) for a, _, b in dependencies(self.gtree)]
 		# NB: this does not necessarily hold for discontinuous trees
 		assert (self.lascore != 1 or self.gbrack == self.cbrack
 				or any(isdisc(a) for a in self.gtree.subtrees())), (
-- 
2.43.0


From eca846db14dc1b82908570b45d4b87948a9dee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 093/192] fix: eval: do not ignore DISC_ONLY in parameter file

---
 discodop/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 45627af..d0e3184 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -630,7 +630,7 @@ def main():
 	parsesfile = args[1]
 	param = readparam(args[2] if len(args) == 3 else None)
 	param['CUTOFF_LEN'] = int(opts.get('--cutofflen', param['CUTOFF_LEN']))
-	param['DISC_ONLY'] = '--disconly' in opts
+	param['DISC_ONLY'] |= '--disconly' in opts
 	param['DEBUG'] = max(param['DEBUG'],
 			'--verbose' in opts, 2 * ('--debug' in opts))
 	param['TED'] |= '--ted' in opts
-- 
2.43.0


From 1a8792a1f5961dd89417ec3a85c8760e81f87dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 094/192] fix: unknown word model without open class threshold

---
 discodop/lexicon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 415754b..ceeb32a 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -72,9 +72,10 @@ def getunknownwordmodel(tagged_sents, unknownword,
 			tags[tag] += 1
 			wordtags[word, tag] += 1
 	openclasstags = {}
+	closedclasstags = {}
+	wordsforcollapsedtags = defaultdict(set)
 	if openclassthreshold:
 		# consider POS tags with different function tags together
-		wordsforcollapsedtags = defaultdict(set)
 		for tag, ws in wordsfortag.items():
 			match = REMOVESTATESPLITS.match(tag)
 			if match is not None:
-- 
2.43.0


From 5076fc49d5cf3efd33c92aeeb3c81d121a156e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 095/192] fix: only give number classes and signatures from
 training to parser

---
 discodop/lexicon.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index ceeb32a..943587b 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -103,7 +103,12 @@ def getunknownwordmodel(tagged_sents, unknownword,
 	sigs = Counter()
 	for sent in tagged_sents:
 		for n, (word, _) in enumerate(sent):
-			if word not in lexicon:
+			# NB: numbers are always replaced, cf. replaceraretrainwords()
+			if YEARRE.match(word):
+				sigs['1970'] += 1
+			elif NUMBERRE.match(word):
+				sigs['000'] += 1
+			elif word not in lexicon:
 				# NB: sig depends on n and lexicon
 				sig = unknownword(word, n, lexicon)
 				sigs[sig] += 1
@@ -142,9 +147,9 @@ def replaceraretestwords(sent, unknownword, lexicon, sigs):
 	instead. If the returned signature is not part of the grammar, a default
 	one is returned."""
 	for n, word in enumerate(sent):
-		if YEARRE.match(word):
+		if YEARRE.match(word) and ('1970' in sigs or '1970' in lexicon):
 			yield '1970'
-		elif NUMBERRE.match(word):
+		elif NUMBERRE.match(word) and ('000' in sigs or '000' in lexicon):
 			yield '000'
 		elif word in lexicon:
 			yield word
-- 
2.43.0


From a488924cf1278024d1a0dbfd59bde5e73fc87bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 096/192] fix: store packed treebank without trees

---
 discodop/containers.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 045f55a..889ee1c 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -513,7 +513,8 @@ cdef class Ctrees:
 		cdef uint64_t *ptr
 		cdef int offset
 		cdef bytes tmp
-		prodindex = MultiRoaringBitmap(self.prodindex)
+		# NB: an empty index cannot be read back.
+		prodindex = MultiRoaringBitmap(self.prodindex or [None])
 		tmp = prodindex.__getstate__()
 		out = clone(chararray,
 				4 * sizeof(uint64_t)
-- 
2.43.0


From cc5986d56640d01491d054f236c020457dbb64a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 097/192] fix: production of frontier non-terminal: undefined
 shift

---
 discodop/containers.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 889ee1c..946ef50 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -658,6 +658,8 @@ cdef inline copynodes(tree, list prodsintree, Node *result, int *idx):
 cdef inline getyf(tuple yf, uint32_t *args, uint32_t *lengths):
 	cdef int m = 0
 	args[0] = lengths[0] = 0
+	if yf == ():  # frontier non-terminal
+		return
 	for part in yf:
 		for a in part:
 			if a == 1:
-- 
2.43.0


From 1720a98090b52e9e502185dd1320adf33ef4c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 098/192] fix: adding trees to unpickled Ctrees object

---
 discodop/containers.pyx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 946ef50..0502cc7 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -497,16 +497,17 @@ cdef class Ctrees:
 					prodindex=self.prodindex)
 
 	def __setstate__(self, state):
-		self.len = self.max = state['len']
+		self.len = state['len']
 		self.numnodes = state['numnodes']
 		self.numwords = state['numwords']
 		self.maxnodes = state['maxnodes']
 		self.prodindex = state['prodindex']
+		self.alloc(self.len, self.numnodes)
 		self.nodesleft = 0
-		self.nodes = <Node *><char *><bytes>state['nodes']
-		self.trees = <NodeArray *><char *><bytes>state['trees']
-		self.allocated = False
-		self._state = state  # keep reference alive
+		memcpy(self.nodes, <char *><bytes>state['nodes'],
+				self.numnodes * sizeof(self.nodes[0]))
+		memcpy(self.trees, <char *><bytes>state['trees'],
+				self.len * sizeof(self.trees[0]))
 
 	def tofile(self, filename):
 		cdef array out
-- 
2.43.0


From 38db7a73d2263573ae3157513ddccfc1704e05a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 099/192] fix: vocabulary: do not conflate the word Epsilon
 with no word

---
 discodop/containers.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 0502cc7..1e64a85 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -716,7 +716,9 @@ cdef class Vocabulary:
 	- .getlabel(): lookup label/word given prod no (no mutation, arrays only)
 	"""
 	def __init__(self):
-		cdef bytes epsilon = b'Epsilon'
+		# ID 0 is reserved for empty positions in productions; use a label that
+		# cannot be the same as an actual label or word.
+		cdef bytes epsilon = b''
 		self.prods = {}  # bytes objects => prodno
 		self.labels = {epsilon.decode('utf8'): 0}  # str => labelno
 		darray_init(&self.prodbuf, sizeof(char))
@@ -739,7 +741,8 @@ cdef class Vocabulary:
 		cdef Rule rule
 		cdef char *tmp = <char *>&rule
 		rule.lhs = self._getlabelid(r[0])
-		rule.rhs1 = self._getlabelid(r[1]) if len(r) > 1 else 0
+		rule.rhs1 = self._getlabelid(r[1]) if (
+				len(r) > 1 and r[1] != 'Epsilon') else 0
 		rule.rhs2 = self._getlabelid(r[2]) if len(r) > 2 else 0
 		if rule.rhs1 == 0 and len(r) > 1:
 			rule.args = self._getlabelid(yf[0])
@@ -1032,7 +1035,8 @@ cdef class FixedVocabulary(Vocabulary):
 		if res is None:
 			return -1
 		rule.lhs = res
-		res = self.labels.get(r[1], None) if len(r) > 1 else 0
+		res = self.labels.get(r[1], None) if (
+				len(r) > 1 and r[1] != 'Epsilon') else 0
 		if res is None:
 			return -1
 		rule.rhs1 = res
-- 
2.43.0


From efd14d4c5936bdb120bf78e45768677ac8a8c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 100/192] fix: reading brackets: refuse terminals outside of or
 next to nodes

---
 discodop/_fragments.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index c8fe77e..4cfa7bc 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -58,6 +58,7 @@ TREEPARSEMSG = [
 		'unexpected data after terminal',  # 5
 		'missing terminal index',  # 6
 		'stack not empty after end of string',  # 7
+		'terminal without preterminal of its own',  # 8
 		]
 
 
@@ -1082,10 +1083,14 @@ cdef int readtree(
 			terminal = line[start:n]
 			while n < lenline and line[n] in ' \t\n':
 				n += 1
-			if line[n] != ')':
+			if n >= lenline or line[n] != ')':
 				return -5  # unexpected data after terminal
 			n -= 1
+			if not stack:
+				return -8  # terminal without preterminal
 			parent = stack.data.as_shorts[len(stack) - 1]
+			if nodes[parent].left != -1:
+				return -8  # terminal has siblings
 			# if disc:
 			# 	m = terminal.find('=')
 			# 	if m <= 0:
-- 
2.43.0


From 263a3c22c7ce1c4c7940f466ed0dd33d048a8cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 101/192] fix: reading brackets: refuse empty labels

---
 discodop/_fragments.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 4cfa7bc..5e713b7 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -59,6 +59,7 @@ TREEPARSEMSG = [
 		'missing terminal index',  # 6
 		'stack not empty after end of string',  # 7
 		'terminal without preterminal of its own',  # 8
+		'missing label',  # 9
 		]
 
 
@@ -944,7 +945,7 @@ def repl(d):
 
 cdef int readtree(
 		str line, Vocabulary vocab, Node *nodes, array stack,
-		array labels, list children) except -9:
+		array labels, list children) except -99:
 	"""Parse tree in bracket format into pre-allocated array of Node structs.
 
 	Tree will be binarized on the fly, equivalent to
@@ -978,6 +979,8 @@ cdef int readtree(
 				n += 1
 			if n >= lenline:
 				return -1  # unexpected end of string after opening paren
+			elif line[n] in '()':
+				return -9  # no label
 			startlabel = n
 			while n + 1 < lenline and line[n + 1] not in ' \t\n()':
 				n += 1
-- 
2.43.0


From 6679919d925c7147354be980caee266ea9f8537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 102/192] fix: reading brackets: labels of binarized nodes with
 more than 4 children

---
 discodop/_fragments.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 5e713b7..ce34cde 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -963,7 +963,7 @@ cdef int readtree(
 	# :param disc: whether to expect discbracket format.
 	cdef short idx = 0, n = 0, m, y, cur, parent = -1
 	cdef short lenline = len(line), lensent = 0
-	cdef int label, binlabel, binlabel2
+	cdef int label, parentlabel, binlabel, binlabel2
 	cdef str terminal = None
 	cdef bytes prod = None
 	cdef list binchildren, binlabels
@@ -1036,6 +1036,7 @@ cdef int readtree(
 					# collect labels
 					binchildren = children.pop()
 					binlabels = [labels.data.as_ints[m] for m in binchildren]
+					parentlabel = labels.data.as_ints[parent]
 					binlabel = vocab._getlabelid('%s|<%s.%s>' % (
 							vocab.idtolabel(labels.data.as_ints[parent]),
 							vocab.idtolabel(binlabels[0]),
@@ -1057,8 +1058,7 @@ cdef int readtree(
 						else:
 							nodes[idx].right = idx + 1
 							binlabel2 = vocab._getlabelid('%s|<%s.%s>' % (
-									vocab.idtolabel(
-										labels.data.as_ints[parent]),
+									vocab.idtolabel(parentlabel),
 									','.join(vocab.idtolabel(x)
 										for x in binlabels[:m + 1]),
 									','.join(vocab.idtolabel(x)
-- 
2.43.0


From 5258b43f825181198f913235e9c3fd99a57fd9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 103/192] fix: reading brackets: refuse a label without
 children as tree

---
 discodop/_fragments.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index ce34cde..9d263f6 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -1074,6 +1074,8 @@ cdef int readtree(
 						labels.append(label)
 				# else:  # there is no else.
 			else:  # end of stack, should be end of tree
+				if nodes[cur].prod == -1:
+					return 0
 				n += 1
 				while n < lenline and line[n] in ' \t\n':
 					n += 1
-- 
2.43.0


From 370cb0bd59ed9ec97e933247bb975b0d2e742657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 104/192] fix: fragments: refuse productions that do not fit in
 32 bits

---
 discodop/containers.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 1e64a85..2367baa 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -664,13 +664,15 @@ cdef inline getyf(tuple yf, uint32_t *args, uint32_t *lengths):
 	for part in yf:
 		for a in part:
 			if a == 1:
-				args[0] += 1 << m
+				args[0] += <uint32_t>1 << m
 			elif a != 0:
 				raise ValueError(
 						'expected: 0 or 1; got: %r\n'
 						'non-binarized production.' % a)
 			m += 1
-		lengths[0] |= 1 << (m - 1)
+			if m > 32:
+				raise ValueError('production too complex: %r' % (yf, ))
+		lengths[0] |= <uint32_t>1 << (m - 1)
 
 
 cdef inline darray_init(DArray *self, uint8_t itemsize):
-- 
2.43.0


From bfa645a6494044e95ff7d0cfdfee153d28b34c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 105/192] fix: fragments: --complete with multiple processes

---
 discodop/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 5d24097..20dd665 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -206,7 +206,7 @@ def regular(filenames, numproc, limit, encoding):
 	if numproc != 1:
 		pool.close()
 		pool.join()
-		del dowork, pool
+		del pool
 	return fragmentkeys, counts
 
 
-- 
2.43.0


From 833f254a964c06c17e94ea6f6ebb60a6c9fd5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 106/192] fix: fragments: --cover with --nofreq

---
 discodop/fragments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 20dd665..6a1474e 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -199,7 +199,8 @@ def regular(filenames, numproc, limit, encoding):
 		for a in cover:
 			if a not in fragments:
 				fragmentkeys.append(a)
-				counts.append(cover[a])
+				if counts is not None:
+					counts.append(cover[a])
 		logging.info('merged %d cover fragments '
 				'up to depth %d with max %d frontier non-terminals.',
 				len(fragmentkeys) - before, maxdepth, maxfrontier)
-- 
2.43.0


From 56f60224d4b34cdbb772fbc27ce06e4711355c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 107/192] fix: fragments: stop after maximum number of matches

---
 discodop/_fragments.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 9d263f6..f0448d9 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -474,6 +474,8 @@ cpdef exactcountsslice(list bitsets, Ctrees trees1, Ctrees trees2,
 	candidatesarray = clone(uintarray, 0, False)
 	# compare one bitset to each tree for each unique fragment.
 	for n, wrapper in enumerate(bitsets):
+		if nummatches >= maxresults_:
+			break
 		bitset = getpointer(wrapper)
 		a = &(trees1.trees[getid(bitset, SLOTS)])  # fragment is from this tree
 		anodes = &trees1.nodes[a.offset]
-- 
2.43.0


From 4593fc0ccc15d3eba6bf6a4070619790d772e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 108/192] fix: fragments: exact counts when second treebank has
 larger trees

---
 discodop/fragments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 6a1474e..be88b75 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -371,8 +371,11 @@ def exactcountworker(args):
 				indices=PARAMS['indices'])
 		logging.debug('complete matches chunk %d of %d', n + 1, m)
 		return results
+	# NB: size of bitsets is determined by the largest tree in both treebanks.
+	trees2 = PARAMS['trees2'] or trees1
 	results = _fragments.exactcounts(
-			bitsets, trees1, trees1, indices=PARAMS['indices'])
+			bitsets, trees1, trees1, indices=PARAMS['indices'],
+			maxnodes=max(trees1.maxnodes, trees2.maxnodes))
 	if PARAMS['indices']:
 		logging.debug('exact indices chunk %d of %d', n + 1, m)
 	else:
-- 
2.43.0


From 6ef43270ab950ac89fa8afc27de07e1ca4f075bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 109/192] fix: fragments: two terminals option

---
 discodop/_fragments.pyx | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index f0448d9..090ae3a 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -184,7 +184,7 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 					contentwordprods, lexicalprods):
 				if singletb and m <= n:
 					continue
-				elif start2 > m or m > end2:
+				elif start2 > m or m >= end2:
 					continue
 				elif m < 0 or m >= trees2.len:
 					raise ValueError('illegal index %d' % m)
@@ -197,6 +197,10 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 				extractfrompair(a, anodes, trees2, n, m,
 						debug, vocab, inter, minterms, matrix,
 						scratch, SLOTS)
+		if twoterms:
+			inter = {wrapper for wrapper in inter
+					if hastwoterms(anodes, getpointer(wrapper), SLOTS,
+						contentwordprods, lexicalprods)}
 		collectfragments(fragments, inter, anodes, asent, vocab,
 				disc, approx, False, tmp, SLOTS)
 	free(matrix)
@@ -323,7 +327,7 @@ cdef inline int extractat(uint64_t *matrix, uint64_t *result, Node *a, Node *b,
 	elif TESTBIT(&matrix[b[j].left * SLOTS], a[i].left):
 		terms += extractat(matrix, result, a, b, a[i].left, b[j].left, SLOTS)
 	if a[i].right < 0:
-		return 0
+		return terms
 	elif TESTBIT(&matrix[b[j].right * SLOTS], a[i].right):
 		terms += extractat(matrix, result, a, b, a[i].right, b[j].right, SLOTS)
 	return terms
@@ -670,13 +674,32 @@ cdef twoterminals(NodeArray a, Node *anodes,
 		if anodes[i].left >= 0 or anodes[i].prod not in contentwordprods:
 			continue
 		tmp = trees2.prodindex[anodes[i].prod]
+		if tmp is None:  # production does not occur in trees2
+			continue
 		for j in range(a.len):
 			if (i != j and anodes[j].left < 0
-					and anodes[j].prod in lexicalprods):
+					and anodes[j].prod in lexicalprods
+					and trees2.prodindex[anodes[j].prod] is not None):
 				candidates |= tmp & trees2.prodindex[anodes[j].prod]
 	return candidates
 
 
+cdef bint hastwoterms(Node *a, uint64_t *bitset, short SLOTS,
+		set contentwordprods, set lexicalprods):
+	"""Test if fragment has two words, at least one of them a content word."""
+	cdef uint64_t cur = bitset[0]
+	cdef int idx = 0, terms = 0
+	cdef int i = iteratesetbits(bitset, SLOTS, &cur, &idx)
+	cdef bint content = False
+	while i != -1:
+		if a[i].left < 0 and a[i].prod in lexicalprods:
+			terms += 1
+			if a[i].prod in contentwordprods:
+				content = True
+		i = iteratesetbits(bitset, SLOTS, &cur, &idx)
+	return content and terms >= 2
+
+
 def allfragments(Ctrees trees, Vocabulary vocab,
 		unsigned int maxdepth, unsigned int maxfrontier=999, bint disc=True,
 		bint indices=False, start=None, end=None):
-- 
2.43.0


From ab7d9d1c84068bd2ceffd29b9514689b4811c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 110/192] fix: fragments: number of frontier non-terminals with
 unary productions

---
 discodop/_fragments.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 090ae3a..aab7a02 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -780,13 +780,15 @@ cdef traverse(NodeArray tree, Node *nodes, int i, int n, int maxdepth,
 		for lfrag in table[nodes[i].left]:
 			ldepth = getroot(getpointer(lfrag), SLOTS)
 			lfrontiers = getid(getpointer(lfrag), SLOTS)
+			if nodes[i].right >= 0:
+				lfrontiers += 1
 			if (ldepth + 1 <= maxdepth
-					and lfrontiers + 1 <= maxfrontier):
+					and lfrontiers <= maxfrontier):
 				# bitset with current idx + left bitset
 				memset(<void *>scratch, 0, SLOTS * sizeof(uint64_t))
 				SETBIT(scratch, i)
 				setunioninplace(scratch, getpointer(lfrag), SLOTS)
-				setrootid(scratch, ldepth + 1, lfrontiers + 1, SLOTS)
+				setrootid(scratch, ldepth + 1, lfrontiers, SLOTS)
 				table[i].append(wrap(scratch, SLOTS))
 		if nodes[i].right >= 0:  # binary node
 			# left node as frontier with all rfrags
-- 
2.43.0


From 8cc292aea4abeee9e580de4459882ad5dc9d17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 111/192] fix: fragments: --alt --complete --batch converted
 fragments more than once

---
 discodop/fragments.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index be88b75..6b5818c 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -540,8 +540,7 @@ def printfragments(fragments, counts, out=None):
 		if sys.stdout.encoding is None:
 			out = codecs.getwriter('utf8')(out)
 	if PARAMS['alt']:
-		for n, a in enumerate(fragments):
-			fragments[n] = altrepr(a)
+		fragments = [altrepr(a) for a in fragments]
 	if PARAMS['complete']:
 		logging.info('total number of matches: %d',
 				sum(sum(a) for a in counts)
-- 
2.43.0


From 3e626b58f112aa9c46e825119a42a993322c7f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 112/192] fix: treesearch: closing a fragment searcher

---
 discodop/treesearch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 322ca20..4cbfa9a 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -600,10 +600,13 @@ class FragmentSearcher(CorpusSearcher):
 		self.pool = concurrent.futures.ProcessPoolExecutor(self.numproc)
 
 	def close(self):
+		if self.files is None:
+			return
 		if hasattr(self.vocab, 'close'):
 			self.vocab.close()
-		for a in self.files:
-			a.close()
+		for a in self.files.values():
+			if a is not None:
+				a.close()
 		self.vocab = self.files = None
 
 	def counts(self, query, subset=None, start=None, end=None, indices=False,
-- 
2.43.0


From 61fc3f5fdaecb4a140aa859d0414666cbffbafd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 113/192] fix: treesearch: limited query after the same query
 without limit

---
 discodop/treesearch.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 4cbfa9a..beb6487 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -395,7 +395,8 @@ class TgrepSearcher(CorpusSearcher):
 							% (nodenum, tree))
 				x.append((filename, sentno, tree, sent, high))
 			self.cache['trees', query, filename, start, end,
-					nofunc, nomorph, detectdisc, mergedisc] = x, maxresults
+					nofunc, nomorph, detectdisc, mergedisc] = (
+						x, maxresults or sys.maxsize)
 			result.extend(x)
 		return result
 
@@ -441,7 +442,7 @@ class TgrepSearcher(CorpusSearcher):
 					match2 = set()
 				x.append((filename, sentno, sent, match1, match2))
 			self.cache['sents', query, filename,
-					start, end, brackets] = x, maxresults
+					start, end, brackets] = x, maxresults or sys.maxsize
 			result.extend(x)
 		return result
 
@@ -718,7 +719,8 @@ class FragmentSearcher(CorpusSearcher):
 						high = list(high.subtrees()) + high.leaves()
 					x.append((filename, sentno, tree, sent, high))
 			self.cache['trees', query, filename, start, end,
-					nofunc, nomorph, detectdisc, mergedisc] = x, maxresults
+					nofunc, nomorph, detectdisc, mergedisc] = (
+						x, maxresults or sys.maxsize)
 			result.extend(x)
 		return result
 
@@ -770,7 +772,7 @@ class FragmentSearcher(CorpusSearcher):
 						match1, match2 = charindices(xsent, match1, match2)
 					x.append((filename, sentno, sent, match1, match2))
 			self.cache['sents', query, filename,
-					start, end, brackets] = x, maxresults
+					start, end, brackets] = x, maxresults or sys.maxsize
 			result.extend(x)
 		return result
 
@@ -965,7 +967,7 @@ class RegexSearcher(CorpusSearcher):
 				highlight = range(start, end)
 				x.append((filename, sentno, sent, highlight, ()))
 			self.cache['sents', query, filename, start, end, True, True
-					] = x, maxresults
+					] = x, maxresults or sys.maxsize
 			result.extend(x)
 		return result
 
-- 
2.43.0


From 6bd4f24ab57dd1125f43e913bff3978d9e2f9d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 114/192] fix: treesearch: regex sentences were cached under
 the wrong slice

---
 discodop/treesearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index beb6487..0009503 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -963,8 +963,8 @@ class RegexSearcher(CorpusSearcher):
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
-			for sentno, sent, start, end in future.result():
-				highlight = range(start, end)
+			for sentno, sent, mstart, mend in future.result():
+				highlight = range(mstart, mend)
 				x.append((filename, sentno, sent, highlight, ()))
 			self.cache['sents', query, filename, start, end, True, True
 					] = x, maxresults or sys.maxsize
-- 
2.43.0


From d21f85543d87d17581191bbb3b46309a7140cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 115/192] fix: treesearch: preserve order of corpora in batch
 queries

---
 discodop/treesearch.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 0009503..f55f04d 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -302,8 +302,7 @@ class TgrepSearcher(CorpusSearcher):
 						for _, queryno in self._query(
 							queries, x, fmt, start, end, None)).items())],
 					filename)] = filename
-		for future in self._as_completed(jobs):
-			filename = jobs[future]
+		for future, filename in jobs.items():
 			yield filename, future.result()
 
 	def batchsents(self, queries, subset=None, start=None, end=None,
@@ -667,8 +666,7 @@ class FragmentSearcher(CorpusSearcher):
 					cqueries, bitsets, maxnodes, filename, self.vocabpath,
 					start, end, None, indices=False, trees=False,
 					)] = filename
-		for future in self._as_completed(jobs):
-			filename = jobs[future]
+		for future, filename in jobs.items():
 			yield filename, future.result()
 
 	def trees(self, query, subset=None, start=None, end=None, maxresults=10,
-- 
2.43.0


From 3e587dd5a366f08b2aef445248d7d46f3edde953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 116/192] fix: treesearch: accept any iterable of queries for
 fragment batch counts

---
 discodop/treesearch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index f55f04d..94a344c 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -658,6 +658,7 @@ class FragmentSearcher(CorpusSearcher):
 		jobs = {}
 		if self.macros is not None:
 			queries = [query.format(**self.macros) for query in queries]
+		queries = list(queries)
 		cqueries, bitsets, maxnodes = self._parse_query(queries, disc=self.disc)
 		for filename in subset:
 			# NB: not using cache.
-- 
2.43.0


From ccb6343edbd679fe82f3f2956ac23817fa355dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 117/192] fix: treesearch: highlight matches when labels are
 filtered

---
 discodop/treesearch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 94a344c..93f4e09 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -701,6 +701,7 @@ class FragmentSearcher(CorpusSearcher):
 			for matches in future.result():
 				for sentno, treestr, match in matches:
 					treestr = filterlabels(treestr, nofunc, nomorph)
+					match = filterlabels(match, nofunc, nomorph)
 					# FIXME: this highlights the whole subtree, of which
 					# frag may be a subgraph.
 					treestr = treestr.replace(
-- 
2.43.0


From 33754a2030099408daf0c8a55b4847a917b955bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 118/192] fix: treesearch: words with hyphens are not function
 tags

---
 discodop/treesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 93f4e09..efd38d0 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -39,7 +39,7 @@ LEAFINDICES = re.compile(r' ([0-9]+)=')
 LEAFINDICESWORDS = re.compile(r' ([0-9]+)=([^ ()]+)\)')
 ALPINOLEAVES = re.compile('<sentence>(.*)</sentence>')
 MORPH_TAGS = re.compile(r'([/*\w]+)(?:\[[^ ]*\]\d?)?((?:-\w+)?(?:\*\d+)? )')
-FUNC_TAGS = re.compile(r'-\w+')
+FUNC_TAGS = re.compile(r'-\w+(?=[^\s()]* )')
 
 CorpusInfo = namedtuple('CorpusInfo',
 		['len', 'numwords', 'numnodes', 'maxnodes'])
-- 
2.43.0


From 99fefc3218bf1657c1b19591182fd3fd1278461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 119/192] fix: treesearch: regex breakdown with groups

---
 discodop/treesearch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index efd38d0..747a72d 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1139,9 +1139,9 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 					result.append((lineno, sent, mstart, mend))
 			else:
 				if breakdown:
-					matches = pattern.findall(
-							data, startidx, endidx)[:maxresults]
-					result.update(a.decode('utf8') for a in matches)
+					matches = islice(pattern.finditer(
+							data, startidx, endidx), maxresults)
+					result.update(a.group().decode('utf8') for a in matches)
 				else:
 					try:
 						result = pattern.count(data, startidx, endidx)
-- 
2.43.0


From 83dbca742fb20405a7b06731e5c241c4526b73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 120/192] fix: treesearch: batch of regex queries on an empty
 slice

---
 discodop/treesearch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 747a72d..1001ee9 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1104,7 +1104,7 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 	lastline = end is None or end > len(lineindex) - 1
 	if lastline:
 		end = len(lineindex) - 1
-	if start and start > len(lineindex):
+	if len(lineindex) == 1 or start and start >= len(lineindex):
 		return result
 	startidx = lineindex.select(start - 1 if start else 0)
 	endidx = lineindex.select(end)
@@ -1118,8 +1118,6 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 			startidx, endidx = 0, endidx - chunkoffset
 			data = tmp.read(endidx)
 		try:
-			if (start or 0) >= len(lineindex):
-				return result
 			if indices or sents:
 				for match in islice(
 						pattern.finditer(data, startidx, endidx), maxresults):
@@ -1166,7 +1164,9 @@ def _regex_run_batch(patterns, filename, fileno, lineidxpath,
 		result = []
 	else:
 		result = array.array('I')
-	if start and start >= len(lineindex):
+	if len(lineindex) == 1 or start and start >= len(lineindex):
+		if not sents:
+			result.extend([0] * len(patterns))
 		return result
 	with open(filename, 'rb') as tmp:
 		data = mmap.mmap(tmp.fileno(), 0, access=mmap.ACCESS_READ)
-- 
2.43.0


From 210af748a667a2037468e1ff1fdd521445b1b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 121/192] fix: treesearch: recreate indices when the list of
 files changes

---
 discodop/treesearch.py  | 16 ++++++++++++----
 docs/cli/treesearch.rst |  4 ++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 1001ee9..f2de92d 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -11,6 +11,7 @@ import csv
 import sys
 import mmap
 import array
+import hashlib
 import tempfile
 import subprocess
 import multiprocessing
@@ -565,8 +566,7 @@ class FragmentSearcher(CorpusSearcher):
 		super().__init__(files, macros, numproc)
 		self.disc = False
 		newvocab = True
-		path = os.path.dirname(next(iter(sorted(files))))
-		self.vocabpath = os.path.join(path, 'treesearchvocab.idx')
+		self.vocabpath = _indexname('treesearchvocab', files)
 		if os.path.exists(self.vocabpath):
 			self.vocab = FixedVocabulary.fromfile(self.vocabpath)
 			mtime = os.stat(self.vocabpath).st_mtime
@@ -877,8 +877,7 @@ class RegexSearcher(CorpusSearcher):
 				self.macros = dict(line.strip().split('=', 1) for line in tmp)
 		self.fileno = {filename: n for n, filename in enumerate(sorted(files))}
 		maxmtime = max(os.stat(a).st_mtime for a in files)
-		path = os.path.dirname(next(iter(sorted(files))))
-		self.lineidxpath = os.path.join(path, 'treesearchline.idx')
+		self.lineidxpath = _indexname('treesearchline', files)
 		if os.path.exists(self.lineidxpath):
 			mtime = os.stat(self.lineidxpath).st_mtime
 			tmp = MultiRoaringBitmap.fromfile(self.lineidxpath)
@@ -1219,6 +1218,15 @@ def _getoffsets(lineno, lineindex, data):
 	return offset, nextoffset
 
 
+def _indexname(prefix, files):
+	"""Return name of index specific to this list of files."""
+	files = sorted(files)
+	digest = hashlib.sha1('\n'.join(os.path.abspath(a) for a in files
+			).encode('utf8')).hexdigest()[:16]
+	return os.path.join(os.path.dirname(files[0]),
+			'%s.%s.idx' % (prefix, digest))
+
+
 def _indexfile(filename):
 	"""Create bitmap with locations of non-empty lines."""
 	result = RoaringBitmap()
diff --git a/docs/cli/treesearch.rst b/docs/cli/treesearch.rst
index af4fa63..17643a1 100644
--- a/docs/cli/treesearch.rst
+++ b/docs/cli/treesearch.rst
@@ -74,7 +74,7 @@ e.g., to handle punctuation, and include functional or morphological tags.
 
 A cached copy of the treebank is created in an indexed format; given ``filename.mrg``,
 this indexed version is stored as ``filename.mrg.ct`` (in the same directory).
-Another file, ``treesearchvocab.idx``, contains a global index of productions;
+Another file, ``treesearchvocab.*.idx``, contains a global index of productions;
 this index should automatically be recreated when the list of files changes or
 any file is updated.
 For the treesearch web interface, these indexed files need to be created in advance.
@@ -133,7 +133,7 @@ resulting RE will match the second character::
 More information: https://docs.python.org/3/library/re.html#regular-expression-syntax
 
 This query engine creates a cached index of line numbers in all files
-``treesearchline.idx``; this index should be recreated automatically when
+``treesearchline.*.idx``; this index should be recreated automatically when
 the list of files changes or any file is updated.
 Install https://github.com/andreasvc/pyre2
 for faster queries using linear time deterministic finite automata.
-- 
2.43.0


From ac2657b7b5735ece3dc05fe55d33db2f140dae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 122/192] fix: treesearch: fragment queries with words not in
 the treebank

---
 discodop/_fragments.pyx |  2 +-
 discodop/containers.pyx | 20 +++++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index aab7a02..1212143 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -569,7 +569,7 @@ cdef getcandidates(Node *a, uint64_t *bitset, Ctrees trees, short alen,
 		i = iteratesetbits(bitset, SLOTS, &cur, &idx)
 		if i == -1 or i >= alen:  # FIXME. why is 2nd condition necessary?
 			break
-		if a[i].prod >= prodindexlen:
+		if a[i].prod < 0 or a[i].prod >= prodindexlen:
 			return None
 		indices.append(a[i].prod)
 	if isinstance(trees.prodindex, MultiRoaringBitmap):
diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 2367baa..f145cde 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -656,6 +656,11 @@ cdef inline copynodes(tree, list prodsintree, Node *result, int *idx):
 		copynodes(tree[1], prodsintree, result, idx)
 
 
+# a production number for words in queries that do not occur in the treebank
+cdef enum:
+	UNSEENLEXICAL = -3
+
+
 cdef inline getyf(tuple yf, uint32_t *args, uint32_t *lengths):
 	cdef int m = 0
 	args[0] = lengths[0] = 0
@@ -797,7 +802,7 @@ cdef class Vocabulary:
 	cdef bint islexical(self, int prodno):
 		cdef Rule *rule
 		if prodno < 0:
-			return False
+			return prodno == UNSEENLEXICAL
 		rule = <Rule *>(&self.prodbuf.d.aschar[
 				prodno * sizeof(Rule)])
 		return rule.args != 0 and rule.lengths == 0
@@ -1030,12 +1035,17 @@ cdef class FixedVocabulary(Vocabulary):
 				for n in range(self.labelidx.len - 1)}
 
 	cdef int getprod(self, tuple r, tuple yf) except -2:
-		"""Lookup production ID. Return -1 when not seen before."""
+		"""Lookup production ID.
+
+		Return UNSEENLEXICAL (-3) when a lexical production is not seen before,
+		and -1 for other unseen productions."""
 		cdef Rule rule
 		cdef char *tmp = <char *>&rule
+		cdef int unseen = (UNSEENLEXICAL if len(r) > 1 and r[1] == 'Epsilon'
+				else -1)
 		res = self.labels.get(r[0], None)
 		if res is None:
-			return -1
+			return unseen
 		rule.lhs = res
 		res = self.labels.get(r[1], None) if (
 				len(r) > 1 and r[1] != 'Epsilon') else 0
@@ -1052,13 +1062,13 @@ cdef class FixedVocabulary(Vocabulary):
 		if rule.rhs1 == 0 and len(r) > 1:
 			res = self.labels.get(yf[0], None)
 			if res is None:
-				return -1
+				return unseen
 			rule.args = res
 			rule.lengths = 0
 		else:
 			getyf(yf, &rule.args, &rule.lengths)
 		prod = <bytes>tmp[:sizeof(Rule)]
-		return self.prods.get(prod, -1)
+		return self.prods.get(prod, unseen)
 
 
 cdef inline gettree(list result, Node *tree, Vocabulary vocab, int i,
-- 
2.43.0


From a999138131433bf44afecb3b8b51c24a4f673ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:34 +0000
Subject: [PATCH 123/192] fix: treesearch: number of sentences and words in
 text corpora

---
 discodop/treesearch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index f2de92d..1c9fcb6 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1040,13 +1040,13 @@ class RegexSearcher(CorpusSearcher):
 		return result
 
 	def getinfo(self, filename):
-		numlines = len(self.lineindex[self.fileno[filename]])
+		numlines = len(self.lineindex[self.fileno[filename]]) - 1
 		if self.files[filename] is None:
-			with openread(filename) as inp:
-				data = inp.read()
+			data = readbytes(filename)
 		else:
 			_, data = self.files[filename]
-		numwords = data.count(' ') + numlines
+			data = data[:]
+		numwords = data.count(b' ') + numlines
 		return CorpusInfo(
 				len=numlines, numwords=numwords,
 				numnodes=0, maxnodes=None)
-- 
2.43.0


From 6862f04f2fe5bfe6410d0d542eabf3cc4b79f34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:04 +0000
Subject: [PATCH 124/192] fix: writing trees in which a node has more than one
 terminal

---
 discodop/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index f934264..6179296 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -23,7 +23,7 @@ HEAD, COMPLEMENT, MODIFIER = range(3)
 PTBPUNC = {'-LRB-', '-RRB-', '-LCB-', '-RCB-', '-LSB-', '-RSB-', '-NONE-'}
 FRONTIERNTRE = re.compile(r' \)')
 SUPERFLUOUSSPACERE = re.compile(r'\)\s+(?=\))')
-INDEXRE = re.compile(r' ([0-9]+)\)')
+INDEXRE = re.compile(r' ([0-9]+)(?=[\s)])')
 # regex to check if the tree contains any terminals not prefixed by indices
 STRTERMRE = re.compile(r'\s(?![0-9]+=|\s|\))[^()]*\)|\([^\s()]+\s+\)')
 
@@ -1951,7 +1951,7 @@ def discbrackettree(treestr):
 def writebrackettree(tree, sent):
 	"""Return a tree in bracket notation with words as leaves."""
 	return INDEXRE.sub(
-			lambda x: ' %s)' % escape(sent[int(x.group(1))]),
+			lambda x: ' %s' % escape(sent[int(x.group(1))]),
 			str(tree)) + '\n'
 
 
@@ -1959,7 +1959,7 @@ def writediscbrackettree(tree, sent, pretty=False):
 	"""Return tree in bracket notation with leaves as ``index=word``."""
 	treestr = tree.pprint() if pretty else str(tree)
 	return INDEXRE.sub(
-			lambda x: ' %s=%s)' % (x.group(1), escape(sent[int(x.group(1))])),
+			lambda x: ' %s=%s' % (x.group(1), escape(sent[int(x.group(1))])),
 			treestr) + '\n'
 
 
-- 
2.43.0


From 2a321133f2a1c00a97f45b445077dde4f4b87648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:04 +0000
Subject: [PATCH 125/192] fix: treesearch: empty regex match at the end of a
 file

---
 discodop/treesearch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 1c9fcb6..377b9f6 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1122,7 +1122,8 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 						pattern.finditer(data, startidx, endidx), maxresults):
 					mstart = match.start()
 					mend = match.end()
-					lineno = lineindex.rank(mstart + chunkoffset)
+					lineno = min(lineindex.rank(mstart + chunkoffset),
+							len(lineindex) - 1)
 					if not sents:
 						result.append(lineno)
 						continue
@@ -1180,7 +1181,8 @@ def _regex_run_batch(patterns, filename, fileno, lineidxpath,
 							maxresults):
 						mstart = match.start()
 						mend = match.end()
-						lineno = lineindex.rank(mstart)
+						lineno = min(lineindex.rank(mstart),
+								len(lineindex) - 1)
 						offset, nextoffset = _getoffsets(
 								lineno, lineindex, data)
 						sent = data[offset:nextoffset].decode('utf8')
-- 
2.43.0


From 56ba26d586870647d8e98cf915c65dfc8e665731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 126/192] fix: gen: lexical rules of bitpar grammars were lost

---
 discodop/gen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 8e8a213..b1ae424 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -136,13 +136,13 @@ def read_bitpar_grammar(rules, lexicon):
 		a = a.split()
 		word = a[0]
 		tags, weights = a[1::2], a[2::2]
-		weights = map(float, weights)
+		weights = [float(w) for w in weights]
 		if integralweights:
 			if all(int(w) == w for w in weights):
-				weights = map(int, weights)
+				weights = [int(w) for w in weights]
 			else:
 				integralweights = False
-		tags = zip(tags, weights)
+		tags = list(zip(tags, weights))
 		for t, p in tags:
 			ntfd[t] += p
 		grammar.extend((((t, 'Epsilon'), (word,)), p) for t, p in tags)
-- 
2.43.0


From b8d531e864244e6e7ab374b3ef05c335b7005f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 127/192] fix: gen: lexical rules of nonterminals that also
 have phrasal rules

---
 discodop/gen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index b1ae424..5a263bd 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -34,10 +34,10 @@ def gen(grammar, start=1, discount=0.75, prodcounts=None, verbose=False):
 	"""
 	if prodcounts is None:
 		prodcounts = [1] * grammar.numrules
-	if not grammar.bylhs[start]:
-		terminal = chooserule(grammar.lexicalbylhs[start], discount, prodcounts)
-		return (terminal.prob, [[terminal.word]])
-	rule = chooserule(grammar.bylhs[start], discount, prodcounts)
+	rule = chooserule(grammar.bylhs[start]
+			+ grammar.lexicalbylhs.get(start, []), discount, prodcounts)
+	if not rule.rhs1:  # a lexical rule
+		return (rule.prob, [[rule.word]])
 	prodcounts[rule.no] += 1
 	p1, l1 = gen(grammar, rule.rhs1, discount, prodcounts, verbose)
 	assert l1
-- 
2.43.0


From 81f4769db424629a50b7cd597ff438f6b5f23e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 128/192] fix: gen: rounding when choosing a rule

---
 discodop/gen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 5a263bd..c1bd64e 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -60,11 +60,16 @@ def chooserule(rules, discount, prodcounts):
 	"""Given a list of weighted rules, choose one following the distribution."""
 	weights = [rule.prob * discount ** prodcounts[rule.no] for rule in rules]
 	position = random() * sum(weights)
+	result = None
 	for r, w in zip(rules, weights):
 		position -= w
+		if w > 0:
+			result = r  # fall back to last rule in case of rounding
 		if position < 0:
 			return r
-	raise ValueError('random selection out of range.')
+	if result is None:
+		raise ValueError('random selection out of range.')
+	return result
 
 
 def compose(rule, left, right, verbose):
-- 
2.43.0


From 8321f2ade35d05365b28013eb17c3b7e6e6e6583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 129/192] fix: gen: command-line tool could not read its input
 files

---
 discodop/gen.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index c1bd64e..70cd2e2 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -2,11 +2,10 @@
 
 Reads grammar from a text file."""
 import sys
-import gzip
-import codecs
 from collections import namedtuple, defaultdict
 from array import array
 from random import random
+from .util import openread
 
 SHORTUSAGE = '''Generate random sentences with a PLCFRS or PCFG.
 Reads grammar from a text file in PLCFRS or bitpar format.
@@ -264,13 +263,12 @@ def main():
 		print("incorrect number of arguments:", sys.argv[1:], file=sys.stderr)
 		print(SHORTUSAGE)
 		sys.exit(2)
-	rules = (gzip.open if sys.argv[1].endswith(".gz") else open)(sys.argv[1])
-	lexicon = codecs.getreader('utf-8')((gzip.open
-			if sys.argv[2].endswith(".gz") else open)(sys.argv[2]))
 	try:
-		xgrammar = read_lcfrs_grammar(rules, lexicon)
-	except ValueError:
-		xgrammar = read_bitpar_grammar(rules, lexicon)
+		with openread(sys.argv[1]) as rules, openread(sys.argv[2]) as lexicon:
+			xgrammar = read_lcfrs_grammar(rules, lexicon)
+	except (ValueError, IndexError):
+		with openread(sys.argv[1]) as rules, openread(sys.argv[2]) as lexicon:
+			xgrammar = read_bitpar_grammar(rules, lexicon)
 	grammar = splitgrammar(xgrammar)
 	for _ in range(20):
 		p, sent = gen(grammar, start=grammar.toid[start], verbose=verbose)
-- 
2.43.0


From 192bade701fb8af016e9cfb97548ac1657fe6aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:16 +0000
Subject: [PATCH 130/192] fix: gen: words with Unicode whitespace in the
 lexicon

---
 discodop/gen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 70cd2e2..5eb0596 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -1,6 +1,7 @@
 """Generate random sentences with an LCFRS.
 
 Reads grammar from a text file."""
+import re
 import sys
 from collections import namedtuple, defaultdict
 from array import array
@@ -15,6 +16,7 @@ or: %(cmd)s --test
 Grammar is assumed to be in UTF-8; may be gzip'ed (.gz extension).
 ''' % dict(cmd=sys.argv[0])
 
+LEXSEP = re.compile('[ \t]+')  # separators in lexicon files
 Grammar = namedtuple("Grammar", ('numrules', 'unary', 'lbinary', 'rbinary',
 		'bylhs', 'lexicalbyword', 'lexicalbylhs', 'toid', 'tolabel', 'fanout'))
 Rule = namedtuple("Rule",
@@ -107,7 +109,7 @@ def read_lcfrs_grammar(rules, lexicon):
 			for b in a[-2].split(","))), parsefrac(a[-1])) for a in rules]
 	# one word per line, word (tag weight)+
 	grammar += [(((t, 'Epsilon'), (lexentry[0],)), parsefrac(p))
-			for lexentry in (a.strip().split() for a in lexicon)
+			for lexentry in (LEXSEP.split(a.strip(' \t\r\n')) for a in lexicon)
 			for t, p in zip(lexentry[1::2], lexentry[2::2])]
 	return grammar
 
@@ -137,7 +139,7 @@ def read_bitpar_grammar(rules, lexicon):
 		else:
 			raise ValueError("grammar is not binarized")
 	for a in lexicon:
-		a = a.split()
+		a = LEXSEP.split(a.strip(' \t\r\n'))
 		word = a[0]
 		tags, weights = a[1::2], a[2::2]
 		weights = [float(w) for w in weights]
-- 
2.43.0


From b2539082586c6cfdbf45f595dc641486545e3e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:24 +0000
Subject: [PATCH 131/192] fix: gen: option -s removed the next argument

---
 discodop/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 5eb0596..c22b2fd 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -257,7 +257,7 @@ def main():
 	if "-s" in sys.argv:
 		i = sys.argv.index("-s")
 		start = sys.argv.pop(i + 1)
-		sys.argv[i:i + 2] = []
+		sys.argv[i:i + 1] = []
 	verbose = "--verbose" in sys.argv
 	if verbose:
 		sys.argv.remove('--verbose')
-- 
2.43.0


From ca3b6527b3139b1c754f319a4757e980d9cda804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 132/192] fix: estimates: inside estimates of constituents with
 fan-out 3 or more

---
 discodop/estimates.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index e841e98..bbb3106 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -220,12 +220,12 @@ cdef inline uint64_t insideconcat(uint64_t a, uint64_t b, ProbRule rule,
 			subarg = nextunset(a, left) - left
 			result |= (1UL << subarg) - 1UL << resultpos
 			resultpos += subarg
-			left = subarg + 1
+			left += subarg + 1
 		else:
 			subarg = nextunset(b, right) - right
 			result |= (1UL << subarg) - 1UL << resultpos
 			resultpos += subarg
-			right = subarg + 1
+			right += subarg + 1
 		if testbit(rule.lengths, x):
 			resultpos += 1
 			result &= ~(1UL << resultpos)
-- 
2.43.0


From a8c082fb241cd6eded55d701bea2adc3cf6af8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 133/192] fix: estimates: skip cyclic rules in recursive PCFG
 estimates

---
 discodop/estimates.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index bbb3106..105f639 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -588,6 +588,7 @@ cdef pcfginsidesxrec(Grammar grammar, list insidescores, Label state,
 				if inleft == -1:
 					n += 1
 					rule = grammar.bylhs[state][n]
+					continue
 			else:
 				insidescores[split][rule.rhs1] = -1  # mark to avoid cycles.
 				inleft = pcfginsidesxrec(
-- 
2.43.0


From 94600dc2f1e8142836f72600c6298aafd5227697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 134/192] fix: treetransforms: option --markovthreshold had no
 effect

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index cef1c4b..b83bba8 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -332,7 +332,7 @@ where input and output are treebanks; standard in/output is used if not given.
 				yield key, item
 
 		trees = applytransforms(trees)
-		if 'binarize' in opts and '--markovthreshold' in opts:
+		if '--binarize' in opts and '--markovthreshold' in opts:
 			trees = list(trees)
 			h, v = int(opts.get('-h', 999)), int(opts.get('-v', 1))
 			revh = int(opts.get('-H', 0))
-- 
2.43.0


From 197af09ef7e2e846fa7491c05e39baa78c629146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 135/192] fix: treetransforms: option --outputenc had no effect

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index b83bba8..27621da 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -345,7 +345,7 @@ where input and output are treebanks; standard in/output is used if not given.
 		if not opts.get('--headrules'):
 			raise ValueError('need head rules for dependency conversion')
 	cnt = 0
-	encoding = opts.get('outputenc', 'utf8')
+	encoding = opts.get('--outputenc', 'utf8')
 	with io.open(outfilename, 'w', encoding=encoding) as outfile:
 		# copy trees verbatim when only taking slice or converting encoding
 		if (not actions
-- 
2.43.0


From 8366c6d17383ca2b7d3455d1e72cbb4655d920bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 136/192] fix: treetransforms: negative indices for --slice

---
 discodop/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 27621da..7b19a10 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -205,7 +205,6 @@ where input and output are treebanks; standard in/output is used if not given.
 """
 	import io
 	from getopt import gnu_getopt, GetoptError
-	from itertools import islice
 	from . import treebank, treebanktransforms
 	from .treetransforms import (canonicalize, binarize,
 			unbinarize, optimalbinarize, splitdiscnodes, mergediscnodes,
@@ -254,8 +253,10 @@ where input and output are treebanks; standard in/output is used if not given.
 			lemmas=opts.get('--lemmas'))
 	start, end = opts.get('--slice', ':').split(':')
 	start, end = (int(start) if start else None), (int(end) if end else None)
-	# FIXME: support negative indices
-	trees = corpus.itertrees(start, end)
+	if (start or 0) < 0 or (end or 0) < 0:
+		trees = iter(list(corpus.itertrees())[start:end])
+	else:
+		trees = corpus.itertrees(start, end)
 	if '--maxlen' in opts:
 		maxlen = int(opts['--maxlen'])
 		trees = ((key, item) for key, item in trees
@@ -354,7 +355,7 @@ where input and output are treebanks; standard in/output is used if not given.
 					'export', 'bracket', 'discbracket')
 				and set(opts) <= {'--slice', '--inputenc', '--outputenc',
 					'--inputfmt', '--outputfmt'}):
-			for block in islice(corpus.blocks().values(), start, end):
+			for block in list(corpus.blocks().values())[start:end]:
 				outfile.write(block)
 				cnt += 1
 		else:
-- 
2.43.0


From 8ac73e7a2d5535f14e8641196768c80db5594240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 137/192] fix: grammar command: PTSG with fractions as weights
 or bracket fragments

---
 discodop/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 7b19a10..a9ed9e9 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -393,7 +393,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 	from .treetransforms import addfanoutmarkers, canonicalize
 	from .grammar import (treebankgrammar, dopreduction, doubledop, dop1,
 			compiletsg, writegrammar, grammarinfo, grammarstats,
-			splitweight, merge, sumfrags, sumrules, sumlex, stripweight,
+			convertweight, merge, sumfrags, sumrules, sumlex, stripweight,
 			addindices)
 	from .parser import readparam
 	from .runexp import (loadtraincorpus, getposmodel, dobinarization,
@@ -451,11 +451,11 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		elif not prm.postagging:
 			lexmodel = None
 	elif model == 'ptsg':  # read fragments
-		xfragments = {frag: splitweight(weight) for frag, weight
+		xfragments = {frag: convertweight(weight) for frag, weight
 				in (line.split('\t') for line in openread(treebankfile,
 					encoding=opts.get('--inputenc', 'utf8')))}
 		if STRTERMRE.search(next(iter(xfragments))) is not None:
-			xfragments = {addindices(frag): splitweight(weight) for frag, weight
+			xfragments = {addindices(frag): weight for frag, weight
 					in xfragments.items()}
 	else:  # read treebank
 		corpus = READERS[opts.get('--inputfmt', 'export')](
-- 
2.43.0


From 3b7190d8a84daf0341a20eb37c6398744975dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 138/192] fix: grammar command: write backtransform of DOP1
 grammar

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index a9ed9e9..2de4f28 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -515,7 +515,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		rulesfile.write(rules)
 	with codecs.getwriter('utf8')(myopen(lexiconname, 'wb')) as lexiconfile:
 		lexiconfile.write(lexicon)
-	if model in ('doubledop', 'ptsg'):
+	if model in ('doubledop', 'dop1', 'ptsg'):
 		backtransformfile = '%s.backtransform%s' % (grammarfile,
 			'.gz' if '--gzip' in opts else '')
 		with codecs.getwriter('utf8')(myopen(backtransformfile, 'wb')) as bt:
-- 
2.43.0


From 17c08655b5ac543682063792d39e5dcde48a94dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:05 +0000
Subject: [PATCH 139/192] fix: frontier nonterminals of bracket fragments were
 given the word None

---
 discodop/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index b65aa0c..4474522 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1287,7 +1287,7 @@ def merge(filenames, outfilename, sumfunc, key):
 def addindices(frag):
 	"""Convert fragment in bracket to discbracket format."""
 	cnt = count()
-	return LEAVESRE.sub(lambda m: ' %d=%s' % (next(cnt), m.group(1)), frag)
+	return LEAVESRE.sub(lambda m: ' %d=%s' % (next(cnt), m.group(1) or ''), frag)
 
 
 __all__ = ['lcfrsproductions', 'treebankgrammar', 'dopreduction', 'doubledop',
-- 
2.43.0


From 0a435b528dfccb8c763c8ac733dc14b29aecafd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:25 +0000
Subject: [PATCH 140/192] fix: grammar command: failed check of grammar should
 not end in exception

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 2de4f28..28c3f6e 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -531,7 +531,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 	try:
 		from .containers import Grammar
 		print(Grammar(rulesname, lexiconname, start=start).testgrammar()[1])
-	except (ImportError, AssertionError) as err:
+	except (ImportError, AssertionError, ValueError) as err:
 		print(err)
 
 
-- 
2.43.0


From 00e2777efd64047633da91c5b7911f301a71e407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:27 +0000
Subject: [PATCH 141/192] fix: export trees binarized with --optimalbinarize

optimalbinarize() returns immutable trees, which cannot be written in the
default output format nor transformed further.
---
 discodop/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 28c3f6e..23ef91b 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -206,6 +206,7 @@ where input and output are treebanks; standard in/output is used if not given.
 	import io
 	from getopt import gnu_getopt, GetoptError
 	from . import treebank, treebanktransforms
+	from .tree import ParentedTree
 	from .treetransforms import (canonicalize, binarize,
 			unbinarize, optimalbinarize, splitdiscnodes, mergediscnodes,
 			raisediscnodes, introducepreterminals, markovthreshold,
@@ -299,11 +300,11 @@ where input and output are treebanks; standard in/output is used if not given.
 						sent))
 			elif key == '--optimalbinarize':
 				actions.append(lambda tree, sent:
-						(optimalbinarize(
+						(ParentedTree.convert(optimalbinarize(
 							tree, '|',
 							'--headrules' in opts,
 							int(opts.get('-h', 999)),
-							int(opts.get('-v', 1))),
+							int(opts.get('-v', 1)))),
 						sent))
 		elif key == '--splitdisc':
 			actions.append(lambda tree, sent:
-- 
2.43.0


From 1301f4a622435dd36f87de62b483bda843f71dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 142/192] fix: treetransforms: negative indices for --slice
 with standard input

Read the trees lazily; blocks copied verbatim are read separately.
---
 discodop/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 23ef91b..332ff0d 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -255,7 +255,8 @@ where input and output are treebanks; standard in/output is used if not given.
 	start, end = opts.get('--slice', ':').split(':')
 	start, end = (int(start) if start else None), (int(end) if end else None)
 	if (start or 0) < 0 or (end or 0) < 0:
-		trees = iter(list(corpus.itertrees())[start:end])
+		trees = (a for items in map(list, (corpus.itertrees(), ))
+				for a in items[start:end])
 	else:
 		trees = corpus.itertrees(start, end)
 	if '--maxlen' in opts:
-- 
2.43.0


From 28a702392da3f034281d8ca407516619058aa94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 143/192] fix: treetransforms: bracket output of empty trees

A tree without children is false, causing an exception in the conversion of
trees that are empty, e.g., because of --removeempty.
---
 discodop/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 332ff0d..19ac1c0 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -362,8 +362,8 @@ where input and output are treebanks; standard in/output is used if not given.
 				cnt += 1
 		else:
 			if opts.get('--outputfmt', 'export') == 'bracket':
-				trees = ((key, canonicalize(item.tree) and item)
-						for key, item in trees)
+				trees = ((key, item) for key, item in trees
+						if canonicalize(item.tree) is not None)
 			if opts.get('--outputfmt', 'export') == 'export':
 				outfile.write(treebank.EXPORTHEADER)
 			fmt = opts.get('--outputfmt', 'export')
-- 
2.43.0


From 534a0c8fc983daa1eb9c60545b9fe2ca557c4f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 144/192] fix: optimalbinarize: no parent annotation of root
 and POS tags

Like binarize(); otherwise a grammar does not contain the start symbol, and
given POS tags do not match.
---
 discodop/treetransforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index abc1bf5..694d1c7 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -745,7 +745,9 @@ def _optimalbinarize(tree, fun, sep, headdriven, h, v, ancestors):
 	"""Helper function for postorder / bottom-up binarization."""
 	if not isinstance(tree, Tree):
 		return tree
-	parentstr = '^<%s>' % (','.join(ancestors[:v - 1])) if v > 1 else ''
+	parentstr = ''
+	if v > 1 and ancestors and isinstance(tree[0], Tree):
+		parentstr = '^<%s>' % ','.join(ancestors[:v - 1])
 	newtree = ImmutableTree(tree.label + parentstr,
 		[_optimalbinarize(t, fun, sep, headdriven, h, v,
 			(tree.label,) + ancestors) for t in tree])
-- 
2.43.0


From 7d3eaf93fc2146da626ec5c91fbda376b1a30312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 145/192] fix: collapselabels: binarized nodes of the root
 label

---
 discodop/treebanktransforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index b2dbb93..0f54359 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1395,6 +1395,7 @@ def collapselabels(trees, _sents=None, tbmapping=None):
 	# maps labels after binarization and other transformations,
 	# e.g., NP<DT,JJ,NN> => X<X,X,X>
 	mapping = {'Epsilon': 'Epsilon', trees[0].label: trees[0].label}
+	revmapping[trees[0].label] = trees[0].label  # e.g., ROOT|<NP>
 	# collect POS tags, will not be changed
 	for tree in trees:
 		for node in tree.subtrees(lambda n: not isinstance(n[0], Tree)):
-- 
2.43.0


From cd46fad0eb3b2617aeba53cb5342134f7d9dfcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 146/192] fix: parser: multiply probabilities of partial parses
 that are tuples

---
 discodop/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index df11a47..1c1dcf2 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -819,8 +819,12 @@ def probmult(prob1, prob2):
 	"""Multiply probabilities (and optionally number of subtrees)."""
 	if prob1 == 1:
 		return prob2
+	elif isinstance(prob1, tuple) and isinstance(prob2, tuple):
+		return (prob1[0] + prob2[0], prob1[1] * prob2[1])
+	elif isinstance(prob1, tuple):
+		return (prob1[0], prob1[1] * prob2)
 	elif isinstance(prob2, tuple):
-		return (prob1[0] + prob2[1], prob1[1] * prob2[1])
+		return (prob2[0], prob1 * prob2[1])
 	return prob1 * prob2
 
 
-- 
2.43.0


From d963db1ae0deaf9123e1abff418113c6694c1e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:07 +0000
Subject: [PATCH 147/192] fix: parser: fallback to parse of earlier stage left
 markers in tree

The parse of an earlier stage should be postprocessed according to that stage
(e.g., discontinuous nodes may have been split).
---
 discodop/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 1c1dcf2..78e47c9 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -289,7 +289,7 @@ class Parser(object):
 
 		charts = {}  # stage.name => chart
 		prevparsetrees = {}  # stage.name => parsetrees
-		chart = lastsuccessfulparse = None
+		chart = lastsuccessfulparse = lastsuccessfulstage = None
 		totalgolditems = 0
 		partialparse = False
 		# parse with each coarse-to-fine stage
@@ -513,14 +513,16 @@ class Parser(object):
 							''.join(traceback.format_exception(
 								*sys.exc_info())))
 					parsetree, prob, noparse = self.noparse(
-							stage, xsent, tags, lastsuccessfulparse, n)
+							stage, xsent, tags, lastsuccessfulparse,
+							lastsuccessfulstage)
 				else:
-					lastsuccessfulparse = resultstr
+					lastsuccessfulparse, lastsuccessfulstage = resultstr, n
 				msg += probstr(prob) + ' '
 			else:
 				fragments = None
 				parsetree, prob, noparse = self.noparse(
-						stage, xsent, tags, lastsuccessfulparse, n)
+						stage, xsent, tags, lastsuccessfulparse,
+						lastsuccessfulstage)
 				parsetrees = [(lastsuccessfulparse or str(parsetree),
 						prob, None)]
 			elapsedtime = process_time() - begin
-- 
2.43.0


From 76b03c90eceee170ead82932f189913b19aa2e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:07 +0000
Subject: [PATCH 148/192] fix: parser: partial parses

- mark partial parses as fallbacks (noparse).
- use given tags for words that are not part of any constituent.
- words have already been preprocessed; do not apply unknown word model again.
- root label of a part does not have to exist in the grammar of each stage.
- parts should be in the representation of the current stage.
- no binarization with --simple.
---
 discodop/parser.py | 55 +++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 78e47c9..575a4d3 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -242,7 +242,7 @@ class Parser(object):
 		self.cnt = 0
 
 	def parse(self, sent, tags=None, root=None, goldtree=None,
-			require=(), block=()):
+			require=(), block=(), preprocessed=False):
 		"""Parse a sentence and perform postprocessing.
 
 		Yields a dictionary from parse trees to probabilities for each stage.
@@ -257,19 +257,24 @@ class Parser(object):
 			parse trees containing these labeled spans will be returned.
 			For example, ``('NP', [0, 1, 2])``.
 		:param block: optionally, a list of tuples ``(label, indices)``;
-			these labeled spans will be pruned."""
-		if 'PUNCT-PRUNE' in (self.transformations or ()):
+			these labeled spans will be pruned.
+		:param preprocessed: whether tokens have already been escaped and
+			replaced with unknown word signatures."""
+		if not preprocessed and 'PUNCT-PRUNE' in (self.transformations or ()):
 			origsent = sent[:]
 			punctprune(None, sent)
 			if tags:
 				newtags = alignsent(sent, origsent, dict(enumerate(tags)))
 				tags = [newtags[n] for n, _ in enumerate(sent)]
-		if 'PTBbrackets' in (self.transformations or ()):
+		if preprocessed:
+			sent = xsent = list(sent)
+		elif 'PTBbrackets' in (self.transformations or ()):
 			sent = xsent = [ptbescape(token) for token in sent]
 		else:
 			xsent = list(sent)
 			sent = [escape(token) for token in sent]
-		if self.postagging and self.postagging.method == 'unknownword':
+		if (not preprocessed and self.postagging
+				and self.postagging.method == 'unknownword'):
 			sent = list(replaceraretestwords(sent,
 					self.postagging.unknownwordfun,
 					self.postagging.lexicon, self.postagging.sigs))
@@ -311,7 +316,11 @@ class Parser(object):
 			# do parsing; if CTF pruning enabled, require parent stage to
 			# be successful.
 			splitprune = False
-			if sent and (not stage.prune or charts[stage.prune]):
+			if (root is not None and stage.mode not in (
+					'dop-rerank', 'mc-rerank')
+					and root not in stage.grammar.getlabels()):
+				chart = None  # no parse with this root possible
+			elif sent and (not stage.prune or charts[stage.prune]):
 				prevn = 0
 				if stage.prune:
 					prevn = [a.name for a in self.stages].index(stage.prune)
@@ -452,7 +461,7 @@ class Parser(object):
 							if chart.itemid(node.label, node.leaves()))
 					msg += ('%d/%d gold items in derivations\n\t' % (
 							golditems, totalgolditems))
-			elif (sent and not chart
+			elif (sent and chart is not None and not chart
 					and stage.mode not in ('dop-rerank', 'mc-rerank')
 					and not (self.relationalrealizational and stage.split)
 					and not partialparse):  # sentence could not be parsed
@@ -463,17 +472,26 @@ class Parser(object):
 				prob = 1
 				for label, a, b in partition:
 					if label == 'NOPARSE':
-						tmp.append('(NN %d)' % a)
+						tmp.append('(%s %d)' % (tags[a] if tags else 'NN', a))
 					else:
 						parts = list(self.parse(
 								sent[a:b],
 								tags=tags[a:b] if tags else None,
-								root=label))
+								root=label, preprocessed=True))
 						part = parts[-1]
-						parttree, partprob, _partfrags = max(
-								part.parsetrees, key=itemgetter(1))
+						# need a parse with same representation as this stage
+						for prevstage, prevpart in zip(self.stages, parts):
+							if (not prevpart.noparse
+									and prevstage.split == stage.split):
+								part = prevpart
+						if part.noparse:
+							parttree, partprob = part.parsetree.copy(
+									True), part.prob
+						else:
+							parttree, partprob, _partfrags = max(
+									part.parsetrees, key=itemgetter(1))
+							parttree = ParentedTree(parttree)
 						prob = probmult(prob, partprob)
-						parttree = ParentedTree(parttree)
 						for node in parttree.subtrees(
 								lambda n: isinstance(n[0], int)):
 							node[0] += a
@@ -485,12 +503,13 @@ class Parser(object):
 						msg += 'part %s %s\n%s' % (
 								(label, a, b), probstr(partprob), part.msg)
 				tree = ParentedTree('(ROOT %s)' % ' '.join(tmp))
-				from .runexp import dobinarization
-				tree = dobinarization([tree], [sent],
-						self.prm.binarization,
-						self.prm.relationalrealizational, logmsg=False)[0]
+				if self.prm.binarization:
+					from .runexp import dobinarization
+					tree = dobinarization([tree], [sent],
+							self.prm.binarization,
+							self.prm.relationalrealizational, logmsg=False)[0]
 				parsetrees = [(str(tree), prob, None)]
-				partialparse = True
+				partialparse = noparse = True
 			if stage.name in (stage.prune for stage in self.stages):
 				charts[stage.name] = chart
 				prevparsetrees[stage.name] = parsetrees
@@ -501,7 +520,7 @@ class Parser(object):
 				try:
 					resultstr, prob, fragments = max(
 							parsetrees, key=itemgetter(1))
-					parsetree, noparse = self.postprocess(resultstr, xsent, n)
+					parsetree, _ = self.postprocess(resultstr, xsent, n)
 					if not all(a for a in parsetree.subtrees()):
 						raise ValueError('empty nodes in tree: %s' % parsetree)
 					if len(parsetree.leaves()) != len(sent):
-- 
2.43.0


From 5e7803c441762bd7df541f5b47f3a98552a927fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 149/192] fix: parser: no exception without head rules when
 producing dummy parse

---
 discodop/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 575a4d3..98f909d 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -589,7 +589,8 @@ class Parser(object):
 					in enumerate(tags or (len(sent) * ['NN']))])
 			parsetree = ParentedTree(
 					'(%s %s)' % (stage.grammar.start, default))
-			applyheadrules(parsetree, self.headrules)
+			if self.headrules:
+				applyheadrules(parsetree, self.headrules)
 		noparse = True
 		prob = 1.0
 		return parsetree, prob, noparse
-- 
2.43.0


From 6a74af72657ed26d95d85ea1d858096cf1146eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 150/192] fix: collapselabels: preserve fan-out markers

Otherwise labels with different fan-outs are conflated.
---
 discodop/treebanktransforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 0f54359..9777805 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -17,6 +17,7 @@ from .lexicon import YEARRE, FTBREGULARCOMPOUNDPATTERNS, FTBALLOWEDCOMPOUNDS
 FIELDS = tuple(range(6))
 WORD, LEMMA, TAG, MORPH, FUNC, PARENT = FIELDS
 STATESPLIT = '^'
+FANOUTMARKRE = re.compile('(.*?)((?:_[0-9]+)?)$')
 LABELRE = re.compile("[^^|<>,;:_-]+")
 CASERE = re.compile(r'\b(Nom|Acc|Gen|Dat)\b')
 DERE = re.compile("^([Dd]es?|du|d')$")
@@ -1381,10 +1382,11 @@ def collapselabels(trees, _sents=None, tbmapping=None):
 			if node and isinstance(node[0], Tree):
 				# anything not part of the mapping is stripped
 				# (state splits, function tags, &c.)
+				label, fanoutmark = FANOUTMARKRE.match(node.label).groups()
 				mapping[node.label] = LABELRE.sub(
 						lambda x: revmapping.get(x.group(), ''),
 						# lambda x: revmapping[x.group()],
-						node.label).replace('-', '').rstrip('^')
+						label).replace('-', '').rstrip('^') + fanoutmark
 				assert (mapping[node.label]
 						and mapping[node.label][0].isalpha()), node.label
 				node.label = mapping[node.label]
-- 
2.43.0


From 924a08f2f45b3fba13b7a4e7b279d60f3c2aca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:49 +0000
Subject: [PATCH 151/192] fix: parser: partial parses should not contain root
 label as part

---
 discodop/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 98f909d..b4d6993 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -495,7 +495,10 @@ class Parser(object):
 						for node in parttree.subtrees(
 								lambda n: isinstance(n[0], int)):
 							node[0] += a
-						tmp.append(str(parttree))
+						if parttree.label == stage.grammar.start != label:
+							tmp.extend(str(child) for child in parttree)
+						else:
+							tmp.append(str(parttree))
 						if self.verbosity >= 3:
 							print('part:', parttree)
 						# msg += 'part %s %g\n%s' % ((label, a, b), partprob,
-- 
2.43.0


From 3d02bfe94ebe3d0be0004dd026a76ec7961f6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 152/192] fix: inside-outside: charts with cycles of unary
 productions

---
 discodop/coarsetofine.pyx | 128 ++++++++++++++++++++++++--------------
 1 file changed, 80 insertions(+), 48 deletions(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index b5e85d7..19cbe9b 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -17,6 +17,10 @@ from .kbest cimport collectitems, getderiv
 from roaringbitmap import RoaringBitmap
 import numpy as np
 
+# inside-outside probabilities of charts with cycles
+cdef double TOLERANCE = 1e-9
+cdef int MAXITERATIONS = 1000
+
 include "constants.pxi"
 
 ctypedef fused ChartItem_fused:
@@ -213,15 +217,17 @@ def posteriorthreshold(Chart chart, double threshold):
 	return posterior, msg
 
 
-cdef vector[ItemNo] bottomuporder(Chart chart):
+cdef vector[ItemNo] bottomuporder(Chart chart, bint *cyclic):
 	"""Return items such that items come after the items they are built from.
 
 	NB: the order in which items were added is not suitable, and neither is
-	the length of items, because of unaries. (Cycles are broken arbitrarily.)"""
+	the length of items, because of unaries. Cycles are broken arbitrarily;
+	the flag ``cyclic`` is set when there are any."""
 	cdef vector[ItemNo] order, stack
 	cdef vector[char] state  # 0=new, 1=waiting for children, 2=done
 	cdef ItemNo n, item, child
 	cdef Edge edge
+	cyclic[0] = False
 	state.resize(chart.parseforest.size(), 0)
 	for n in range(1, chart.numitems() + 1):
 		stack.push_back(chart.getitemidx(n))
@@ -235,6 +241,8 @@ cdef vector[ItemNo] bottomuporder(Chart chart):
 					child = chart._left(item, edge)
 					if state[child] == 0:
 						stack.push_back(child)
+					elif state[child] == 1:
+						cyclic[0] = True
 					if edge.rule.rhs2:
 						child = chart._right(item, edge)
 						if state[child] == 0:
@@ -255,29 +263,40 @@ def getinside(Chart chart):
 	# - normal, scaled => how?
 	cdef ItemNo item, leftitem, rightitem
 	cdef Edge edge
-	cdef double prob
+	cdef double prob, total
+	cdef bint cyclic, again = True
+	cdef int iteration = 0
+	cdef vector[ItemNo] order = bottomuporder(chart, &cyclic)
 	chart.inside.resize(chart.probs.size(), 0.0)
 
-	# traverse items in bottom-up order
-	for item in bottomuporder(chart):
-		for edge in chart.parseforest[item]:
-			if edge.rule is NULL:
-				try:
-					prob = chart.lexprob(item, edge)
-				except ValueError:  # POS tag was given
-					prob = 1.0
-			elif edge.rule.rhs2 == 0:
-				leftitem = chart._left(item, edge)
-				prob = (edge.rule.prob
-						* chart.inside[leftitem])
-			else:
-				leftitem = chart._left(item, edge)
-				rightitem = chart._right(item, edge)
-				prob = (edge.rule.prob
-						* chart.inside[leftitem]
-						* chart.inside[rightitem])
-			# chart.addprob(item, prob)
-			chart.inside[item] += prob
+	# traverse items in bottom-up order;
+	# with cycles, repeat until probabilities converge
+	while again and iteration < MAXITERATIONS:
+		again = False
+		iteration += 1
+		for item in order:
+			total = 0.0
+			for edge in chart.parseforest[item]:
+				if edge.rule is NULL:
+					try:
+						prob = chart.lexprob(item, edge)
+					except ValueError:  # POS tag was given
+						prob = 1.0
+				elif edge.rule.rhs2 == 0:
+					leftitem = chart._left(item, edge)
+					prob = (edge.rule.prob
+							* chart.inside[leftitem])
+				else:
+					leftitem = chart._left(item, edge)
+					rightitem = chart._right(item, edge)
+					prob = (edge.rule.prob
+							* chart.inside[leftitem]
+							* chart.inside[rightitem])
+				# chart.addprob(item, prob)
+				total += prob
+			if cyclic and total - chart.inside[item] > TOLERANCE * total:
+				again = True
+			chart.inside[item] = total
 
 
 def getoutside(Chart chart):
@@ -285,33 +304,46 @@ def getoutside(Chart chart):
 	cdef ItemNo item, leftitem, rightitem
 	cdef Edge edge
 	cdef double outsideprob
-	cdef vector[ItemNo] order = bottomuporder(chart)
+	cdef bint cyclic, again = True
+	cdef int iteration = 0
+	cdef size_t n
+	cdef vector[double] todo  # outside probs. not yet passed on to children
+	cdef vector[ItemNo] order = bottomuporder(chart, &cyclic)
 	# cdef double sentprob = chart.inside[chart.root()]
-	# traverse items in top-down order
+	# traverse items in top-down order;
+	# with cycles, repeat until there is nothing left to pass on
 	chart.outside.resize(chart.probs.size(), 0.0)
-	chart.outside[chart.root()] = 1.0
-	while not order.empty():
-		item = order.back()
-		order.pop_back()
-		# can we define outside[item] simply as sentprob - inside[item] ?
-		# chart.outside[item] = sentprob - chart.inside[item]
-		for edge in chart.parseforest[item]:
-			if edge.rule is NULL:
-				pass
-			elif edge.rule.rhs2 == 0:
-				leftitem = chart._left(item, edge)
-				chart.outside[leftitem] += (edge.rule.prob
-						* chart.outside[item])
-			else:
-				leftitem = chart._left(item, edge)
-				rightitem = chart._right(item, edge)
-				outsideprob = chart.outside[item]
-				chart.outside[leftitem] += (edge.rule.prob
-						* chart.inside[rightitem]
-						* outsideprob)
-				chart.outside[rightitem] += (edge.rule.prob
-						* chart.inside[leftitem]
-						* outsideprob)
+	todo.resize(chart.probs.size(), 0.0)
+	todo[chart.root()] = 1.0
+	while again and iteration < MAXITERATIONS:
+		again = False
+		iteration += 1
+		for n in range(order.size(), 0, -1):
+			item = order[n - 1]
+			# can we define outside[item] simply as sentprob - inside[item] ?
+			# chart.outside[item] = sentprob - chart.inside[item]
+			outsideprob = todo[item]
+			if outsideprob == 0:
+				continue
+			todo[item] = 0
+			chart.outside[item] += outsideprob
+			if cyclic and outsideprob > TOLERANCE * chart.outside[item]:
+				again = True
+			for edge in chart.parseforest[item]:
+				if edge.rule is NULL:
+					pass
+				elif edge.rule.rhs2 == 0:
+					leftitem = chart._left(item, edge)
+					todo[leftitem] += edge.rule.prob * outsideprob
+				else:
+					leftitem = chart._left(item, edge)
+					rightitem = chart._right(item, edge)
+					todo[leftitem] += (edge.rule.prob
+							* chart.inside[rightitem]
+							* outsideprob)
+					todo[rightitem] += (edge.rule.prob
+							* chart.inside[leftitem]
+							* outsideprob)
 
 
 def doctftest(coarse, fine, sent, tree, k, split, verbose=False):
-- 
2.43.0


From 0c45354b6053faa7c619eb4fb389ad0989e0cb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:28 +0000
Subject: [PATCH 153/192] fix: sl-dop: parse with same root label and POS
 tagging model as chart

---
 discodop/disambiguation.pyx | 20 ++++++++++++++------
 discodop/parser.py          |  3 ++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index bce4667..25c5b70 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -89,7 +89,7 @@ cpdef getderivations(Chart chart, int k, derivstrings=True):
 
 cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 		int k=1000, int sldop_n=7, double mcplambda=1.0, set mcplabels=None,
-		bint ostag=False, set require=None, set block=None):
+		bint ostag=False, set require=None, set block=None, postagging=None):
 	"""Take a list of derivations and optimizes a given objective function.
 
 	1. Rewrites derivations into the intended parse trees.
@@ -122,6 +122,8 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 		For example. ``('NP', [0, 1, 2])``.
 	:param block: optionally, a list of tuples ``(label, indices)``;
 		parse trees with these labeled spans will be pruned.
+	:param postagging: the POS tagging model used to obtain the chart, if any;
+		only needed with ``method='sl-dop'``.
 	:returns:
 		``(parses, msg)``.
 
@@ -149,7 +151,7 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 	cdef ItemNo root = chart.root()
 
 	if method == 'sl-dop':
-		return sldop(chart, sent, tags, k, sldop_n)
+		return sldop(chart, sent, tags, k, sldop_n, postagging)
 	elif method == 'sl-dop-simple':
 		return sldop_simple(sldop_n, chart)
 	elif method == 'mcp':
@@ -420,7 +422,8 @@ def gettree(cells, span):
 			gettree(cells, leftspan), gettree(cells, rightspan))
 
 
-cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
+cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n,
+		postagging=None):
 	"""'Proper' method for sl-dop.
 
 	Parses sentence once more to find shortest derivations, pruning away any
@@ -462,7 +465,8 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 	chart.grammar.switch(u'shortest', logprob=True)
 	shortestderivations, msg, chart2 = treeparsing(
 			nmostlikelytrees, sent, chart.grammar, m, backtransform, tags=tags,
-			maskrules=False)
+			maskrules=False, start=chart.grammar.tolabel[chart.label(root)],
+			postagging=postagging)
 	if not chart2:
 		chart.grammar.switch(model, logprob=True)
 		return [], 'SL-DOP couldn\'t find parse for tree'
@@ -779,7 +783,7 @@ def splitfrag(node):
 
 
 def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
-		maskrules=True):
+		maskrules=True, start=None, postagging=None):
 	"""Assign probabilities to a sequence of trees with a DOP grammar.
 
 	Given a sequence of trees (as strings), parse them with a DOP grammar
@@ -789,6 +793,8 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 		If DOP reduction is used, requires selfrulemapping of grammar which
 		should map to itself; e.g., 'NP@2 => DT@3 NN' should be mapped
 		to 'NP => DT NN' in the same grammar.
+	:param start: the root label; defaults to start symbol of grammar.
+	:param postagging: the POS tagging model, if any.
 	:returns: a tuple ``(derivations, msg, chart)``."""
 	# Parsing & pruning inside the disambiguation module is rather kludgy,
 	# but the problem is that we need to get probabilities of trees,
@@ -849,7 +855,9 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 	# FIXME: two pruning mechanisms; want both?
 	if maskrules:
 		grammar.setmask(allowed)  # block all other rules
-	chart, _ = plcfrs.parse(sent, grammar, tags=tags, whitelist=whitelist)
+	chart, _ = plcfrs.parse(
+			sent, grammar, tags=tags, start=start, whitelist=whitelist,
+			postagging=postagging)
 	if maskrules:
 		grammar.setmask(None)
 
diff --git a/discodop/parser.py b/discodop/parser.py
index b4d6993..5e1d5be 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -440,7 +440,8 @@ class Parser(object):
 						mcplabels=stage.mcplabels,
 						ostag=stage.dop == 'ostag',
 						require=set(require or ()),
-						block=set(block or ()))
+						block=set(block or ()),
+						postagging=self.postagging)
 				msg += 'disambiguation: %s, %gs\n\t' % (
 						msg1, process_time() - begindisamb)
 				if self.verbosity >= 3:
-- 
2.43.0


From e7c9b2696fadb2e35e16a7031029b2c5870d49f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 154/192] fix: estimates: productions where the first child is
 not leftmost

---
 discodop/estimates.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index 105f639..e39d0d3 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -238,7 +238,7 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 	cdef Item item
 	cdef ProbRule rule
 	cdef double x, insidescore, current, score
-	cdef int n, totlen, addgaps, addright, leftfanout, rightfanout
+	cdef int n, totlen, addgaps, addleft, addright, leftfanout, rightfanout
 	cdef int lenA, lenB, lr, ga
 	cdef size_t i
 	cdef bint stopaddleft, stopaddright
@@ -270,9 +270,11 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 				rule = grammar.bylhs[item.state][i]
 				continue
 			# X -> A B
-			addgaps = addright = 0
+			addgaps = addleft = addright = 0
+			while testbit(rule.args, addleft):
+				addleft += 1
 			stopaddright = False
-			for n in range(bitlength(rule.lengths) - 1, -1, -1):
+			for n in range(bitlength(rule.lengths) - 1, addleft - 1, -1):
 				if testbit(rule.args, n):
 					if stopaddright:
 						addgaps += 1
@@ -290,7 +292,7 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 				insidescore = insidescores[rule.rhs2, lenB]
 				# words of B, and gaps next to them, may end up left/right of A
 				for lr in range(item.lr, item.lr + lenB + item.gaps + 1):
-					if addright == 0 and lr != item.lr:
+					if addleft == addright == 0 and lr != item.lr:
 						continue
 					for ga in range(leftfanout - 1, totlen + 1):
 						if (lenA + lr + ga == item.length + item.lr + item.gaps
-- 
2.43.0


From 729c0f9cad48849fd07751a34f02aead58c10f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:40 +0000
Subject: [PATCH 155/192] fix: parser: --prob with fallback parses and with
 shortest derivations

---
 discodop/parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 5e1d5be..9215015 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -841,6 +841,13 @@ def probstr(prob):
 	return 'p=%.4g' % prob
 
 
+def probcomment(prob):
+	"""Render probability (and optionally number of subtrees) as comment."""
+	if isinstance(prob, tuple):
+		return 'subtrees=%d prob=%.16g' % (abs(prob[0]), prob[1])
+	return 'prob=%.16g' % prob
+
+
 def probmult(prob1, prob2):
 	"""Multiply probabilities (and optionally number of subtrees)."""
 	if prob1 == 1:
@@ -987,13 +994,11 @@ def worker(args):
 	output = ''
 	if result.noparse:
 		msg += '\nNo parse for "%s"' % ' '.join(sent)
-		if PARAMS.printprob:
-			output += 'prob=%.16g\n' % result.prob
 		output += writetree(
 				result.parsetree, sent,
 				key if PARAMS.numparses == 1 else ('%s-1' % key),
 				PARAMS.fmt, morphology=PARAMS.morphology,
-				comment=('prob=%.16g' % result.prob)
+				comment=probcomment(result.prob)
 					if PARAMS.printprob else None)
 	else:
 		tmp = []
@@ -1006,7 +1011,7 @@ def worker(args):
 					tree, sent,
 					key if PARAMS.numparses == 1 else ('%s-%d' % (key, k)),
 					PARAMS.fmt, morphology=PARAMS.morphology,
-					comment=('prob=%.16g' % prob)
+					comment=probcomment(prob)
 						if PARAMS.printprob else None))
 		output += ''.join(tmp)
 	sec = process_time() - begin
-- 
2.43.0


From 7c8cef806c1346e7b52764ab38acf511ad850d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:40 +0000
Subject: [PATCH 156/192] fix: parser: token per line with sentence ids; input
 without sentences

---
 discodop/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 9215015..cc5ba1b 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -959,7 +959,8 @@ def readinputbitparstyle(infile):
 		if not line:
 			yield ' '.join(sent)
 			sent = []
-		sent.append(line)
+		else:
+			sent.append(line)
 	if sent:
 		yield ' '.join(sent)
 
@@ -1048,7 +1049,7 @@ def doparsing(parser, infile, out, printprob, oneline, usetags, numparses,
 			times.append(sec)
 			sys.stderr.flush()
 			out.flush()
-	print('average time per sentence', sum(times) / len(times),
+	print('average time per sentence', sum(times) / max(len(times), 1),
 			'\nunparsed sentences:', unparsed,
 			'\nfinished',
 			file=sys.stderr)
-- 
2.43.0


From 524a3d79051e5e1bda7fd4890e4a8dfc5af97bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:42 +0000
Subject: [PATCH 157/192] fix: alternative weights: do not share an open file
 among worker processes

---
 discodop/_grammar.pxi | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 50b2e06..f91c3e8 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -770,7 +770,10 @@ cdef class Grammar:
 						self.revrulemap[self._unary[n].no]].prob
 		else:
 			if self.models is None and self.altweightsfile:
-				self.models = np.load(self.altweightsfile)  # FIXME: keep open?
+				# load everything: an open file would be shared (with its
+				# position) by worker processes forked after this point.
+				with np.load(self.altweightsfile) as models:
+					self.models = {a: models[a] for a in models.files}
 			model = self.models[name]
 			if len(model) != <signed>numweights:
 				raise ValueError('length mismatch: %d grammar rules, '
-- 
2.43.0


From 9524e9c5e004c90b5d7cfad8a6f0e001f6967767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 158/192] fix: Ctrees: trees with more nodes or words than
 16-bit indices can address

---
 discodop/_fragments.pyx | 20 ++++++++++++++++----
 discodop/containers.pyx | 12 ++++++++++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 1212143..eed50ed 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -41,6 +41,10 @@ cdef extern from "macros.h":
 	uint64_t TESTBIT(uint64_t a[], int b) nogil
 
 # a template to create arrays of this type
+# Node structs use 16-bit indices for nodes and terminals.
+cdef enum:
+	MAXNODES = 32767
+
 cdef array ulongarray = array('L')
 cdef array uintarray = array('I')
 cdef array intarray = array('i')
@@ -988,8 +992,9 @@ cdef int readtree(
 	:param children: provide empty list.
 	"""
 	# :param disc: whether to expect discbracket format.
-	cdef short idx = 0, n = 0, m, y, cur, parent = -1
-	cdef short lenline = len(line), lensent = 0
+	cdef short idx = 0, m, y, cur, parent = -1
+	cdef short lensent = 0
+	cdef Py_ssize_t n = 0, start, startlabel, lenline = len(line)
 	cdef int label, parentlabel, binlabel, binlabel2
 	cdef str terminal = None
 	cdef bytes prod = None
@@ -1155,9 +1160,13 @@ cdef inline copynodes(tree, list prodsintree, Node *result, int *idx):
 		raise ValueError('Expected Tree node, got %s\n%r' % (type(tree), tree))
 	elif not 1 <= len(tree) <= 2:
 		raise ValueError('trees must be non-empty and binarized\n%s' % tree)
+	elif n >= MAXNODES:
+		raise ValueError('tree too large; max nodes: %d' % MAXNODES)
 	result[n].prod = prodsintree[n]
 	idx[0] += 1
 	if isinstance(tree[0], int):  # a terminal index
+		if not 0 <= tree[0] <= MAXNODES:
+			raise ValueError('terminal index out of range: %d' % tree[0])
 		result[n].left = -tree[0] - 1
 	else:  # non-terminal
 		result[n].left = idx[0]
@@ -1231,8 +1240,8 @@ def readtreebank(treebankfile, Vocabulary vocab,
 	:returns: tuple of Ctrees object and list of sentences."""
 	cdef Ctrees ctrees
 	cdef Node *scratch
-	cdef short maxnodes = 512
-	cdef short binfactor = 2  # conservative estimate to accommodate binarization
+	cdef int maxnodes = 512
+	cdef int binfactor = 2  # conservative estimate to accommodate binarization
 	cdef int cnt, n
 	cdef str line
 	cdef array stack, labels
@@ -1270,6 +1279,9 @@ def readtreebank(treebankfile, Vocabulary vocab,
 		data = openread(treebankfile, encoding=encoding)
 		for n, line in enumerate(islice(data, limit), 1):
 			cnt = line.count('(')
+			if cnt * binfactor > MAXNODES:
+				raise ValueError('line %d: tree too large: %d nodes; '
+						'max: %d' % (n, cnt, MAXNODES // binfactor))
 			if cnt > maxnodes:
 				maxnodes = 2 * cnt
 				scratch = <Node *>realloc(scratch,
diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index f145cde..af143be 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -371,6 +371,9 @@ cdef class Ctrees:
 		cdef Node *dest
 		if not self.max:
 			raise ValueError('alloc() has not been called (max=0).')
+		if cnt > MAXNODES:
+			raise ValueError('tree too large: %d nodes; max: %d' % (
+					cnt, MAXNODES))
 		if self.len >= self.max or self.nodesleft < cnt:
 			self.realloc(self.len + 1, cnt)
 		prodsintree = {n: source[n].prod for n in range(cnt)}
@@ -640,9 +643,13 @@ cdef inline copynodes(tree, list prodsintree, Node *result, int *idx):
 		raise ValueError('Expected Tree node, got %s\n%r' % (type(tree), tree))
 	elif not 1 <= len(tree) <= 2:
 		raise ValueError('trees must be non-empty and binarized\n%s' % tree)
+	elif n >= MAXNODES:
+		raise ValueError('tree too large; max nodes: %d' % MAXNODES)
 	result[n].prod = prodsintree[n]
 	idx[0] += 1
 	if isinstance(tree[0], int):  # a terminal index
+		if not 0 <= tree[0] <= MAXNODES:
+			raise ValueError('terminal index out of range: %d' % tree[0])
 		result[n].left = -tree[0] - 1
 	else:  # non-terminal
 		result[n].left = idx[0]
@@ -656,6 +663,11 @@ cdef inline copynodes(tree, list prodsintree, Node *result, int *idx):
 		copynodes(tree[1], prodsintree, result, idx)
 
 
+# Node structs use 16-bit indices for nodes and terminals.
+cdef enum:
+	MAXNODES = 32767
+
+
 # a production number for words in queries that do not occur in the treebank
 cdef enum:
 	UNSEENLEXICAL = -3
-- 
2.43.0


From 60cb1e0c7d533535042c8cdc06de49a825894fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 159/192] fix: productions with fan-out larger than 32: check
 before shift

---
 discodop/containers.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index af143be..5e5d51d 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -680,15 +680,17 @@ cdef inline getyf(tuple yf, uint32_t *args, uint32_t *lengths):
 		return
 	for part in yf:
 		for a in part:
-			if a == 1:
+			if m >= 32:
+				raise ValueError('production too complex: %r' % (yf, ))
+			elif a == 1:
 				args[0] += <uint32_t>1 << m
 			elif a != 0:
 				raise ValueError(
 						'expected: 0 or 1; got: %r\n'
 						'non-binarized production.' % a)
 			m += 1
-			if m > 32:
-				raise ValueError('production too complex: %r' % (yf, ))
+		if m == 0:
+			raise ValueError('empty component: %r' % (yf, ))
 		lengths[0] |= <uint32_t>1 << (m - 1)
 
 
-- 
2.43.0


From 14d94a8f8dc128e570f68f69b4b56bd70949c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 160/192] fix: memory errors when using closed or read-only
 treebanks and vocabularies

---
 discodop/_fragments.pyx |  4 ++--
 discodop/containers.pyx | 47 +++++++++++++++++++++++++++++++----------
 2 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index eed50ed..00afb75 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -175,8 +175,8 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 	end2 = min(end2 or trees2.len, trees2.len)
 	# loop over tree pairs to extract fragments from
 	for n in range(start1, min(end1 or trees1.len, trees1.len)):
-		a = trees1.trees[n]
 		asent = trees1.extractsent(n, vocab)
+		a = trees1.trees[n]
 		anodes = &trees1.nodes[a.offset]
 		if adjacent:
 			m = n + 1
@@ -728,8 +728,8 @@ def allfragments(Ctrees trees, Vocabulary vocab,
 	if scratch is NULL:
 		raise MemoryError('allocation error')
 	for n in range(start_, end_):
-		tree = trees.trees[n]
 		sent = trees.extractsent(n, vocab)
+		tree = trees.trees[n]
 		nodes = &trees.nodes[tree.offset]
 		# for each node, list of bitsets wrapped in bytes
 		table = [[] for _ in range(tree.len)]
diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 5e5d51d..c93e8d2 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -342,6 +342,9 @@ cdef class Ctrees:
 		"""Increase size of array (handy with incremental binarization)."""
 		# based on Python's listobject.c list_resize()
 		cdef numnodes
+		if not self.allocated and self.trees is not NULL:
+			raise ValueError('cannot add trees to a read-only treebank; '
+					'load with fromfilemut().')
 		if numtrees > self.max:
 			# overallocate to get linear-time amortized behavior
 			numtrees += (numtrees >> 3) + (3 if numtrees < 9 else 6)
@@ -429,7 +432,7 @@ cdef class Ctrees:
 		:param node: if given, extract specific subtree instead of whole tree.
 		"""
 		result = []
-		if n < 0 or n >= self.len:
+		if n < 0 or n >= self.len or not -1 <= node < self.trees[n].len:
 			raise IndexError
 		gettree(result, &(self.nodes[self.trees[n].offset]),
 				vocab, self.trees[n].root if node == -1 else node, disc)
@@ -464,6 +467,11 @@ cdef class Ctrees:
 	def close(self):
 		"""Close any open files and free memory."""
 		if isinstance(self._state, tuple):
+			# the memory map is not available after this
+			self.trees = self.nodes = NULL
+			self.len = self.max = self.maxnodes = 0
+			self.numnodes = self.numwords = 0
+			self.prodindex = None
 			self._state[1].close()
 			os.close(self._state[0])
 			self._state = None
@@ -728,6 +736,13 @@ cdef inline darray_extend(DArray *self, bytes data):
 	self.len += n
 
 
+cdef inline Rule *getrule(DArray *prodbuf, int prodno) except NULL:
+	"""Get production given its number."""
+	if prodno < 0 or prodno >= prodbuf.len // sizeof(Rule):
+		raise IndexError('production number out of range: %d' % prodno)
+	return <Rule *>(&prodbuf.d.aschar[prodno * sizeof(Rule)])
+
+
 cdef class Vocabulary:
 	"""A mapping of productions, labels, words to integers.
 
@@ -797,8 +812,7 @@ cdef class Vocabulary:
 		cdef Rule *rule
 		if prodno < 0:
 			return '<UNKNOWN>'
-		rule = <Rule *>(&self.prodbuf.d.aschar[
-				prodno * sizeof(Rule)])
+		rule = getrule(&self.prodbuf, prodno)
 		return self.labelbuf.d.aschar[self.labelidx.d.asint[rule.lhs]:
 				self.labelidx.d.asint[rule.lhs + 1]].decode('utf8')
 
@@ -806,8 +820,7 @@ cdef class Vocabulary:
 		cdef Rule *rule
 		if prodno < 0:
 			return '<UNKNOWN>'
-		rule = <Rule *>(&self.prodbuf.d.aschar[
-				prodno * sizeof(Rule)])
+		rule = getrule(&self.prodbuf, prodno)
 		if rule.args == 0:
 			return None
 		return self.labelbuf.d.aschar[self.labelidx.d.asint[rule.args]:
@@ -817,8 +830,7 @@ cdef class Vocabulary:
 		cdef Rule *rule
 		if prodno < 0:
 			return prodno == UNSEENLEXICAL
-		rule = <Rule *>(&self.prodbuf.d.aschar[
-				prodno * sizeof(Rule)])
+		rule = getrule(&self.prodbuf, prodno)
 		return rule.args != 0 and rule.lengths == 0
 
 	def prodrepr(self, int prodno):
@@ -827,8 +839,7 @@ cdef class Vocabulary:
 		cdef str yf = ''
 		if prodno < 0:
 			return '<UNKNOWN>'
-		rule = <Rule *>(&self.prodbuf.d.aschar[
-				prodno * sizeof(Rule)])
+		rule = getrule(&self.prodbuf, prodno)
 		fanout = bit_popcount(<uint64_t>rule.lengths)
 		for n in range(8 * sizeof(rule.args)):
 			yf += '1' if (rule.args >> n) & 1 else '0'
@@ -859,7 +870,8 @@ cdef class Vocabulary:
 		cdef FILE *out = fopen(filename.encode('utf8'), b'wb')
 		cdef size_t written = 0
 		cdef uint32_t header[3]
-		header[:] = [len(self.prods), len(self.labels) + 1, self.labelbuf.len]
+		header[:] = [self.prodbuf.len // sizeof(Rule), self.labelidx.len,
+				self.labelbuf.len]
 		if out is NULL:
 			raise ValueError('could not open file.')
 		try:
@@ -929,7 +941,10 @@ cdef class Vocabulary:
 		"""Helper function for pickling."""
 		cdef bytes bheader, prodbuf, labelidx, labelbuf
 		cdef uint32_t header[3]
-		header[:] = [len(self.prods), len(self.labels) + 1, self.labelbuf.len]
+		if self.labelidx.len == 0:
+			raise ValueError('vocabulary has been closed.')
+		header[:] = [self.prodbuf.len // sizeof(Rule), self.labelidx.len,
+				self.labelbuf.len]
 		bheader = (<char *>header)[:sizeof(header)]
 		prodbuf = (<char *>self.prodbuf.d.ptr)[:self.prodbuf.len]
 		labelidx = (<char *>self.labelidx.d.ptr)[
@@ -1029,6 +1044,8 @@ cdef class FixedVocabulary(Vocabulary):
 		"""Close open files, if any."""
 		if self.state:
 			if self.state[0] == 'mmap':
+				# the memory map is not available after this
+				self.prodbuf.len = self.labelidx.len = self.labelbuf.len = 0
 				self.state[2].close()
 				os.close(self.state[1])
 			self.state = None
@@ -1041,6 +1058,8 @@ cdef class FixedVocabulary(Vocabulary):
 
 	def makeindex(self):
 		"""Build dictionaries; necessary for getprod()."""
+		if self.labelidx.len == 0:
+			raise ValueError('vocabulary has been closed.')
 		self.prods = {<bytes>self.prodbuf.d.aschar[n * sizeof(Rule):
 				(n + 1) * sizeof(Rule)]: n
 				for n in range(self.prodbuf.len // sizeof(Rule))}
@@ -1048,6 +1067,12 @@ cdef class FixedVocabulary(Vocabulary):
 				self.labelidx.d.asint[n + 1]].decode('utf8'): n
 				for n in range(self.labelidx.len - 1)}
 
+	cdef int _getprodid(self, bytes prod) except -2:
+		raise ValueError('cannot add production to FixedVocabulary.')
+
+	cdef int _getlabelid(self, str label) except -1:
+		raise ValueError('cannot add label to FixedVocabulary.')
+
 	cdef int getprod(self, tuple r, tuple yf) except -2:
 		"""Lookup production ID.
 
-- 
2.43.0


From 9e897acef84fabb7ae66f1f7f15584a349e4daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 161/192] fix: truncated treebank, vocabulary, and grammar
 files

---
 discodop/_grammar.pxi   | 25 ++++++++++++++++++++-----
 discodop/containers.pyx | 23 ++++++++++++++++++++++-
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index f91c3e8..0ef135e 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -121,6 +121,7 @@ cdef class Grammar:
 		cdef ProbRule *ruleptr
 		cdef uint64_t *header
 		cdef size_t idx, n
+		cdef uint32_t value
 		cdef string word
 		cdef size_t buflen = (4 * sizeof(uint64_t)  # header
 				+ sum(label.size() + 1 for label in self.tolabel.ob)
@@ -169,10 +170,11 @@ cdef class Grammar:
 			idx += word.size() + 1
 		# for each word #rules, lex rulenos
 		for it in self.lexicalbyword:
-			(<uint32_t *>&ptr[idx])[0] = it.second.size()
+			value = it.second.size()
+			memcpy(&ptr[idx], &value, sizeof(uint32_t))
 			idx += sizeof(uint32_t)
-			for n in it.second:
-				(<uint32_t *>&ptr[idx])[0] = n
+			for value in it.second:
+				memcpy(&ptr[idx], &value, sizeof(uint32_t))
 				idx += sizeof(uint32_t)
 		assert idx == buflen, (idx, buflen)
 		buf.frombytes(pickle.dumps(self.tblabelmapping))
@@ -191,6 +193,7 @@ cdef class Grammar:
 		cdef char *ptr
 		cdef uint64_t *header
 		cdef size_t idx, n
+		cdef uint32_t numlexrules, lexruleno
 		cdef string word
 		cdef ProbRule cur
 		cdef Rule key
@@ -214,6 +217,10 @@ cdef class Grammar:
 		ptr = <char *>data
 		header = <uint64_t *>ptr
 		idx = 4 * sizeof(uint64_t)
+		if len(data) < idx or len(data) < (idx + header[0] * sizeof(Prob)
+				+ header[1] * sizeof(ProbRule)
+				+ header[2] * sizeof(LexicalRule)):
+			raise ValueError('truncated file: %r' % filename)
 		ob.nonterminals = header[0]
 		ob.fanout.push_back(0)
 		ob.fanout.resize(ob.nonterminals, 1)
@@ -262,23 +269,31 @@ cdef class Grammar:
 		ob.tolabel.ob.resize(header[0])
 		ob.toid.ob.reserve(header[0])
 		for n in range(header[0]):
+			if idx >= len(data):
+				raise ValueError('truncated file: %r' % filename)
 			ob.tolabel.ob[n] = string(&ptr[idx])
 			ob.toid.ob[ob.tolabel.ob[n]] = n
 			idx += ob.tolabel.ob[n].size() + 1
 		ob.start = ob.tolabel[1]
 		# copy words
 		for n in range(header[3]):
+			if idx >= len(data):
+				raise ValueError('truncated file: %r' % filename)
 			word = string(&ptr[idx])
 			idx += word.size() + 1
 			words.push_back(word)
 		ob.lexicalbyword.reserve(header[3])
 		for n in range(header[3]):
-			numlexrules = (<uint32_t *>&ptr[idx])[0]
+			if len(data) < idx + sizeof(uint32_t):
+				raise ValueError('truncated file: %r' % filename)
+			memcpy(&numlexrules, &ptr[idx], sizeof(uint32_t))
 			idx += sizeof(uint32_t)
+			if len(data) < idx + numlexrules * sizeof(uint32_t):
+				raise ValueError('truncated file: %r' % filename)
 			word = words[n]
 			ob.lexicalbyword[word].reserve(numlexrules)
 			for _ in range(numlexrules):
-				lexruleno = (<uint32_t *>&ptr[idx])[0]
+				memcpy(&lexruleno, &ptr[idx], sizeof(uint32_t))
 				idx += sizeof(uint32_t)
 				ob.lexicalbyword[word].push_back(lexruleno)
 				ob.lexicallhs.insert(ob.lexical[lexruleno].lhs)
diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index c93e8d2..9d2cea1 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -566,12 +566,21 @@ cdef class Ctrees:
 		result = getbufptr(buf, &ptr, &size, &buffer)
 		if result != 0:
 			raise ValueError('could not get buffer from mmap.')
+		if size < <Py_ssize_t>(4 * sizeof(uint64_t)):
+			PyBuffer_Release(&buffer)
+			ob.close()
+			raise ValueError('truncated file: %r' % filename)
 		header = <uint64_t *>ptr
 		ob.len = ob.max = header[0]
 		ob.numnodes, ob.numwords, ob.maxnodes = header[1], header[2], header[3]
 		ob.nodesleft = 0
 		ob.prodindex = MultiRoaringBitmap.frombuffer(buf, 4 * sizeof(uint64_t))
 		prodidxsize = ob.prodindex.bufsize()
+		if size < <Py_ssize_t>(4 * sizeof(uint64_t) + prodidxsize
+				+ ob.len * sizeof(NodeArray) + ob.numnodes * sizeof(Node)):
+			PyBuffer_Release(&buffer)
+			ob.close()
+			raise ValueError('truncated file: %r' % filename)
 		ob.trees = <NodeArray *>&(ptr[4 * sizeof(uint64_t) + prodidxsize])
 		ob.nodes = <Node *>&ob.trees[ob.len]
 		PyBuffer_Release(&buffer)
@@ -587,6 +596,8 @@ cdef class Ctrees:
 		cdef uint64_t *header = NULL
 		with open(filename, 'rb') as inp:
 			buf = inp.read()
+		if len(buf) < <Py_ssize_t>(4 * sizeof(uint64_t)):
+			raise ValueError('truncated file: %r' % filename)
 		ptr = <char *>buf
 		header = <uint64_t *>ptr
 		ob.len = ob.max = header[0]
@@ -595,6 +606,9 @@ cdef class Ctrees:
 		ob.nodesleft = 0
 		prodindex = MultiRoaringBitmap.frombuffer(buf, 4 * sizeof(uint64_t))
 		prodidxsize = prodindex.bufsize()
+		if len(buf) < <Py_ssize_t>(4 * sizeof(uint64_t) + prodidxsize
+				+ ob.len * sizeof(NodeArray) + ob.numnodes * sizeof(Node)):
+			raise ValueError('truncated file: %r' % filename)
 		memcpy(ob.trees,
 				&(ptr[4 * sizeof(uint64_t) + prodidxsize]),
 				ob.len * sizeof(NodeArray))
@@ -1010,7 +1024,14 @@ cdef class FixedVocabulary(Vocabulary):
 		result = getbufptr(buf, &ptr, &size, &buffer)
 		if result != 0:
 			raise ValueError('could not get buffer from mmap.')
-		ob._setptr(ptr)
+		if size >= <Py_ssize_t>(3 * sizeof(uint32_t)):
+			ob._setptr(ptr)
+		if ob.labelidx.len == 0 or size < <Py_ssize_t>(3 * sizeof(uint32_t)
+				+ ob.prodbuf.len + ob.labelidx.len * sizeof(uint32_t)
+				+ ob.labelbuf.len):
+			PyBuffer_Release(&buffer)
+			ob.close()
+			raise ValueError('truncated file: %r' % filename)
 		PyBuffer_Release(&buffer)
 		return ob
 
-- 
2.43.0


From 0c4b621a1ec5675172f7e983756aedc714024564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:23 +0000
Subject: [PATCH 162/192] fix: fragments: check size of bitsets, and tree they
 refer to

---
 discodop/_fragments.pyx | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 00afb75..3cf82e9 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -111,6 +111,22 @@ cdef inline void setrootid(uint64_t *data, short root, uint32_t id,
 	tail.root = root
 
 
+cdef checkbitset(bytes wrapper, Ctrees trees, short SLOTS):
+	"""Raise exception if this is not a bitset for one of these trees."""
+	if len(wrapper) != SLOTS * <int>sizeof(uint64_t) + <int>sizeof(BitsetTail):
+		raise ValueError('bitset has incorrect size; different maxnodes?')
+	elif getid(getpointer(wrapper), SLOTS) >= <uint32_t>trees.len:
+		raise ValueError('bitset refers to non-existent tree.')
+
+
+cdef checkmaxnodes(maxnodes, Ctrees trees):
+	"""Raise exception if a bitset for ``maxnodes`` cannot hold each tree."""
+	if maxnodes > MAXNODES or BITNSLOTS(<int>maxnodes + 1) < BITNSLOTS(
+			trees.maxnodes + 1):
+		raise ValueError('maxnodes=%d, but treebank has trees of %d nodes.' % (
+				maxnodes, trees.maxnodes))
+
+
 cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 		Ctrees trees2=None, int start2=0, int end2=0,
 		bint approx=True, bint debug=False,
@@ -165,6 +181,7 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 	if singletb:  # if trees2 not given, consider all (n,m) s.t. n<m in trees1
 		trees2 = trees1
 	if maxnodes:
+		checkmaxnodes(maxnodes, trees1)
 		SLOTS = BITNSLOTS(maxnodes + 1)
 	else:
 		SLOTS = BITNSLOTS(max(trees1.maxnodes, trees2.maxnodes) + 1)
@@ -394,6 +411,7 @@ cpdef exactcounts(list bitsets, Ctrees trees1, Ctrees trees2,
 				for _ in bitsets]
 	# compare one bitset to each tree for each unique fragment.
 	for n, wrapper in enumerate(bitsets):
+		checkbitset(wrapper, trees1, SLOTS)
 		bitset = getpointer(wrapper)
 		a = &(trees1.trees[getid(bitset, SLOTS)])  # fragment is from this tree
 		anodes = &trees1.nodes[a.offset]
@@ -484,6 +502,7 @@ cpdef exactcountsslice(list bitsets, Ctrees trees1, Ctrees trees2,
 	for n, wrapper in enumerate(bitsets):
 		if nummatches >= maxresults_:
 			break
+		checkbitset(wrapper, trees1, SLOTS)
 		bitset = getpointer(wrapper)
 		a = &(trees1.trees[getid(bitset, SLOTS)])  # fragment is from this tree
 		anodes = &trees1.nodes[a.offset]
@@ -636,8 +655,12 @@ cpdef completebitsets(Ctrees trees, Vocabulary vocab,
 		list tmp = []
 		int n, i
 		short SLOTS = BITNSLOTS(maxnodes + 1)
-		uint64_t *scratch = <uint64_t *>malloc((SLOTS + 2) * sizeof(uint64_t))
+		uint64_t *scratch
 		Node *nodes
+	checkmaxnodes(maxnodes, trees)
+	scratch = <uint64_t *>malloc((SLOTS + 2) * sizeof(uint64_t))
+	if scratch is NULL:
+		raise MemoryError('allocation error')
 	start, end, unused_step = slice(start, end).indices(trees.len)
 	for n in range(<int>start, <int>end):
 		memset(<void *>scratch, 0, SLOTS * sizeof(uint64_t))
-- 
2.43.0


From 3fe4dbf0b914765c5967012c04b4546050922ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 163/192] fix: number of items of an empty chart

---
 discodop/containers.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 9d2cea1..c106f96 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -152,7 +152,7 @@ cdef class Chart:
 
 	def numitems(self):
 		"""Number of items in chart."""
-		return self.parseforest.size() - 1
+		return max(<Py_ssize_t>self.parseforest.size() - 1, 0)
 
 	def itemid(self, str label, indices, Whitelist whitelist=None):
 		"""Get integer ID for labeled span in the chart (0 if non-existent)."""
-- 
2.43.0


From 11fa020bd8e928b5d8c7fc53e2c311c65f80b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:28 +0000
Subject: [PATCH 164/192] fix: coarse-to-fine: do not index an empty mapping

---
 discodop/coarsetofine.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index 19cbe9b..63a28d2 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -171,8 +171,8 @@ def prunechart(Chart coarsechart, Grammar fine, k,
 				label = coarsechart.label(item)
 				sitem = coarsechart.asSmallChartItem(item)
 				whitelist.small[label].insert(sitem)
-	whitelist.mapping = &(fine.mapping[0])
-	whitelist.splitmapping = &(fine.splitmapping[0])
+	whitelist.mapping = fine.mapping.data()
+	whitelist.splitmapping = fine.splitmapping.data()
 	return whitelist, msg
 
 
-- 
2.43.0


From 39ccd0be8e9cfde4e50b1bb6e31041612e30f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 165/192] fix: DrawTree: do not place a branch inside that of
 another node

Two nodes with horizontal branches in the same row could end up with the
branch of one drawn on top of that of the other.
---
 discodop/tree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 6179296..3a1c449 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1160,7 +1160,8 @@ class DrawTree(object):
 				if len(children[m]) == 1:  # place unaries directly above child
 					return rowidx, next(iter(children[m]))[1]
 				elif all(a is None or a == vertline for a
-						in row[min(candidates):max(candidates) + 1]):
+						in row[min(candidates):max(candidates) + 1]) and not any(
+						a < minidx and maxidx < b for a, b in branches[rowidx]):
 					# find free column
 					for n in range(scale):
 						i = j = center + n
@@ -1206,6 +1207,7 @@ class DrawTree(object):
 		positions = tree.treepositions()
 		maxdepth = max(map(len, positions)) + 1
 		childcols = defaultdict(set)
+		branches = defaultdict(list)  # row => horizontal extents of branches
 		matrix = [[None] * (len(sent) * scale)]
 		nodes = {}
 		ids = {a: n for n, a in enumerate(positions)}
@@ -1264,6 +1266,8 @@ class DrawTree(object):
 				# block positions where children of this node branch out
 				for _, x in childcols[m]:
 					matrix[rowidx][x] = corner
+				branches[rowidx].append((min(x for _, x in childcols[m]),
+						max(x for _, x in childcols[m])))
 				# assert m == () or matrix[rowidx][i] in (None, corner), (
 				# 		matrix[rowidx][i], m, str(tree), ' '.join(sent))
 				# node itself
-- 
2.43.0


From 92c25627ca162c78a356f356c13c3e65607b13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:23 +0000
Subject: [PATCH 166/192] fix: osTAG reduction: a substitution site PRP$ is not
 a spine node

Only labels decorated with an address can be marked as spinal; a label such
as PRP$ that ends in "$" of itself was turned into a symbol without rules.
---
 discodop/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 4474522..ca81abb 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -664,7 +664,7 @@ def preterminal(node, sent):
 
 def spinal(node):
 	"""Return True if node is a spinal node."""
-	return node.label.endswith('$')
+	return node.label.endswith('$') and '@' in node.label
 
 
 def spinallabel(node, sent, adjsite):
-- 
2.43.0


From 9f8fb3ffc5c4384e382a83afedcc8b515368ccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 167/192] fix: runexp: stages with dop='ostag' no longer crash

The variable xgrammar is only assigned with the other DOP models.
---
 discodop/runexp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/runexp.py b/discodop/runexp.py
index ffc3dcb..ca2d762 100644
--- a/discodop/runexp.py
+++ b/discodop/runexp.py
@@ -414,8 +414,9 @@ def getgrammars(trees, sents, stages, testmaxwords, resultdir,
 			else:
 				raise ValueError('unrecognized DOP model: %r' % stage.dop)
 			nodes = sum(len(list(a.subtrees())) for a in traintrees)
-			msg = grammar.grammarinfo(xgrammar)
+			msg = ''
 			if rules is None:
+				msg = grammar.grammarinfo(xgrammar)
 				rules, lex = grammar.writegrammar(xgrammar)
 			rulesfile = '%s/%s.rules.gz' % (resultdir, stage.name)
 			lexiconfile = '%s/%s.lex.gz' % (resultdir, stage.name)
-- 
2.43.0


From eeb46654fd41dd84ab9f9a32e9d9c50c6d0fb503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:00 +0000
Subject: [PATCH 168/192] fix: osTAG reduction: undo escaping of words in extra
 lexical rules

The lexicon contains plain words, while the words in extrarules have escaped
parentheses; unknown word models assigned no weight to such words.
---
 discodop/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index ca81abb..8f29c2a 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -600,7 +600,7 @@ def ostagreduction(inittrees, auxtrees, packedgraph=False, extrarules=None):
 
 	if extrarules is not None:
 		for ((lhs, _), (token, )), weight in extrarules.items():
-			lexicalrules[token][lhs] += weight
+			lexicalrules[unescape(token)][lhs] += weight
 	# NB: assumes normalization is taken care of in Grammar() constructor
 	rulesstr = ''.join('%s\t%d\n' % (rule, weight)
 			for rule, weight in rules.items())
-- 
2.43.0


From b516e3a5f693bfec7d756387c20dce16105abdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 169/192] fix: parser: look up words with parentheses
 unescaped, as in the lexicon

---
 discodop/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index cc5ba1b..c38c1c6 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -21,7 +21,7 @@ from . import plcfrs, pcfg, disambiguation
 from . import grammar, treetransforms, treebanktransforms
 from .containers import Grammar, Vocabulary, Ctrees
 from .coarsetofine import prunechart
-from .tree import ParentedTree, escape, ptbescape
+from .tree import ParentedTree, ptbescape
 from .eval import alignsent
 from .lexicon import replaceraretestwords, UNKNOWNWORDFUNC, UNK
 from .treebank import writetree, handlefunctions
@@ -272,7 +272,7 @@ class Parser(object):
 			sent = xsent = [ptbescape(token) for token in sent]
 		else:
 			xsent = list(sent)
-			sent = [escape(token) for token in sent]
+			sent = ['' if token is None else token for token in sent]
 		if (not preprocessed and self.postagging
 				and self.postagging.method == 'unknownword'):
 			sent = list(replaceraretestwords(sent,
-- 
2.43.0


From c6e842d19f469cbb08f5098078390c5ea347efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 170/192] fix: markovthreshold: reduce instead of drop parent
 annotation

---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 694d1c7..bcdbf2d 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -26,7 +26,7 @@ from .util import OrderedSet, PyAgenda
 
 # e.g., 'VP_2*0' group 1: 'VP_2'; group 2: '0'; group 3: ''
 SPLITLABELRE = re.compile(r'(.*)\*(?:([0-9]+)([^!]+![^!]+)?)?$')
-MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*)>(\^<.*>)?(.*)?$')
+MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*?)>(?:\^<(.*)>)?(.*)?$')
 
 
 def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
-- 
2.43.0


From b387a7b9f11b988403e74a5516d8ea4787dfd6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:48 +0000
Subject: [PATCH 171/192] fix: packed DOP reduction: share only subtrees with
 equal yields

DiscTree equality compares labels and words; two discontinuous subtrees can
be equal in that sense while their terminals are ordered or separated
differently, and hence have different productions. Sharing identifiers
among such subtrees gives an addressed node several productions.
---
 discodop/grammar.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 8f29c2a..4e20501 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -831,7 +831,7 @@ class TreeDecorator(object):
 	Adds unique identifiers to each internal non-terminal of a tree.
 
 	:param memoize: if ``True``, identifiers will be reused for equivalent
-		subtrees (including all terminals).
+		subtrees (including all terminals, and their relative order).
 	:param n: the initial sentence number.
 	"""
 
@@ -872,13 +872,26 @@ class TreeDecorator(object):
 		"""Traverse subtrees not yet seen."""
 		if isinstance(tree, int):
 			return tree
-		elif tree not in self.packedgraphs:
+		key = self._packedkey(tree)
+		if key not in self.packedgraphs:
 			self.ids += 1
-			self.packedgraphs[tree] = ImmutableTree(("%s@%d-%d" % (
+			self.packedgraphs[key] = ImmutableTree(("%s@%d-%d" % (
 					tree.label, self.n, self.ids)),
 					[self._recdecorate(child) for child in tree])
-			return self.packedgraphs[tree]
-		return self._copyexceptindices(tree, self.packedgraphs[tree])
+			return self.packedgraphs[key]
+		return self._copyexceptindices(tree, self.packedgraphs[key])
+
+	@staticmethod
+	def _packedkey(tree):
+		"""Key that is equal for subtrees with identical productions.
+
+		:returns: tuple with the tree (compared by its labels and words), the
+			order of its terminals, and the gaps in its yield."""
+		leaves = tree.leaves()
+		order = sorted(range(len(leaves)), key=leaves.__getitem__)
+		gaps = tuple(leaves[b] - leaves[a] > 1
+				for a, b in zip(order, order[1:]))
+		return tree, tuple(order), gaps
 
 	def _copyexceptindices(self, tree1, tree2):
 		"""Copy the nonterminals from tree2, but take indices from tree1."""
@@ -948,7 +961,8 @@ class SpinedTreeDecorator(TreeDecorator):
 		"""Traverse subtrees not yet seen."""
 		if isinstance(tree, int):
 			return tree
-		elif tree not in self.packedgraphs:
+		key = self._packedkey(tree)
+		if key not in self.packedgraphs:
 			self.ids += 1
 			if isinstance(tree[0], Tree) or tree.sent[tree[0]] is not None:
 				result = ImmutableTree(("%s@%d-%d" % (
@@ -956,9 +970,9 @@ class SpinedTreeDecorator(TreeDecorator):
 						[self._recdecorate(child) for child in tree])
 			else:
 				result = ImmutableTree(tree.label, tree)
-			self.packedgraphs[tree] = result
+			self.packedgraphs[key] = result
 			return result
-		return self._copyexceptindices(tree, self.packedgraphs[tree])
+		return self._copyexceptindices(tree, self.packedgraphs[key])
 
 
 class UniqueIDs(object):
-- 
2.43.0


From d3f58176a2d73b64b1d113b4a820cb222205e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:31 +0000
Subject: [PATCH 172/192] fix: LaTeX drawings of binarized labels with parent
 annotation lost a letter

---
 discodop/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 3a1c449..8a89d91 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1879,7 +1879,7 @@ def latexlabel(label):
 		if '^' in siblings:
 			siblings, parents = siblings.rsplit('^', 1)
 			newlabel = '$ \\textsf{%s}_\\textsf{%s}^\\textsf{%s} $' % (
-					cat, siblings[1:-1], parents)
+					cat, siblings.strip('<>'), parents.strip('<>'))
 		else:
 			newlabel = '$ \\textsf{%s}_\\textsf{%s} $' % (
 					cat, siblings)
-- 
2.43.0


From 0a2faa55ea903279e6ec551fa1af42ff6b195fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:31 +0000
Subject: [PATCH 173/192] fix: tikzqtree output showed indices instead of words

---
 discodop/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 8a89d91..5c96f70 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1769,7 +1769,12 @@ class DrawTree(object):
 		"""
 		reserved_chars = re.compile('([#$%&~_{}])')
 
-		pprint = self.tree.pprint(indent=6, brackets=('[.', ' ]'))
+		tree = self.tree.copy(True)
+		for node in tree.subtrees():
+			for n, child in enumerate(node):
+				if not isinstance(child, Tree):
+					node[n] = self.sent[child]
+		pprint = tree.pprint(indent=6, brackets=('[.', ' ]'))
 		escaped = re.sub(reserved_chars, r'\\\1', pprint)
 		return '\n'.join([
 			'% ' + writebrackettree(self.tree, self.sent).rstrip(),
-- 
2.43.0


From 23b6f169b3069439200080880f3aeeed630126ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 174/192] fix: store inferred head when binarization has a tail
 marker

---
 discodop/heads.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index e8d1c6a..e9f7a78 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -171,8 +171,10 @@ def markmodifiers(tree, modifierrules):
 def saveheads(tree, tailmarker):
 	"""Infer head from binarization and store."""
 	if tailmarker:
-		for node in tree.subtrees(lambda n: tailmarker in n.label):
-			node.type = HEAD
+		# the artificial node with the tail marker introduces the head.
+		for node in tree.subtrees(lambda n: '|<' in n.label
+				and tailmarker in n.label[n.label.rindex('>') + 1:]):
+			node[-1].type = HEAD
 	else:
 		# assume head-outward binarization; the last binarized node has the head.
 		for node in tree.subtrees(lambda n: '|<' in n.label
-- 
2.43.0


From 762d644665aa254d5e446d873c3c6be50ddce746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:53 +0000
Subject: [PATCH 175/192] fix: Tiger XML reader: keep function of a node
 defined after its parent

---
 discodop/treebank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 13ef987..fe9ab58 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -399,7 +399,9 @@ class TigerXMLCorpusReader(CorpusReader):
 				ntid = nt.get('id').split('_')[-1]
 				fields[WORD] = '#' + ntid
 				fields[TAG] = nt.get('cat')
-				fields[LEMMA] = fields[MORPH] = fields[FUNC] = '--'
+				fields[LEMMA] = fields[MORPH] = '--'
+				if fields[FUNC] is None:  # no preceding edge to this node
+					fields[FUNC] = '--'
 			for edge in nt:
 				idref = edge.get('idref')
 				nodes.setdefault(idref, 6 * [None])
-- 
2.43.0


From 88350602a40b8ada5ed2bdb522f43dd77db14158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:53 +0000
Subject: [PATCH 176/192] fix: skiptrain: also skip sentences before the
 training set

---
 discodop/runexp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/runexp.py b/discodop/runexp.py
index ca2d762..b81473e 100644
--- a/discodop/runexp.py
+++ b/discodop/runexp.py
@@ -92,7 +92,8 @@ def startexp(
 				* len(testsettb.blocks()))
 	if prm.testcorpus.skiptrain:
 		prm.testcorpus.skip += (  # pylint: disable=maybe-no-member
-				prm.traincorpus.numsents)  # pylint: disable=maybe-no-member
+				prm.traincorpus.skip  # pylint: disable=maybe-no-member
+				+ prm.traincorpus.numsents)
 
 	test_blocks = OrderedDict()
 	test_trees = OrderedDict()
-- 
2.43.0


From f5b0178fce5e9257ed080f8c9bd3b4b6786dd45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:53 +0000
Subject: [PATCH 177/192] fix: partial parses have the root label of the
 grammar

---
 discodop/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index c38c1c6..39d7034 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -506,7 +506,8 @@ class Parser(object):
 						# 		''.join(part.msg for part in parts))
 						msg += 'part %s %s\n%s' % (
 								(label, a, b), probstr(partprob), part.msg)
-				tree = ParentedTree('(ROOT %s)' % ' '.join(tmp))
+				tree = ParentedTree('(%s %s)' % (
+						stage.grammar.start, ' '.join(tmp)))
 				if self.prm.binarization:
 					from .runexp import dobinarization
 					tree = dobinarization([tree], [sent],
-- 
2.43.0


From 9d36c5f4231f738d35274a288c66c7f908790aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:50 +0000
Subject: [PATCH 178/192] fix: grammar param: do not duplicate root label of
 parameter file

---
 discodop/cli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 19ac1c0..38defe8 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -493,8 +493,12 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 				prm.numproc, lexmodel, trees[0].label)
 		paramfile = os.path.join(resultdir, 'params.prm')
 		with openread(args[1]) as inp:
-			with io.open(paramfile, 'w', encoding='utf8') as out:
-				out.write("top='%s',\n%s" % (trees[0].label, inp.read()))
+			paramlines = inp.readlines()
+		if paramlines[0].startswith("top='"):
+			paramlines = paramlines[1:]
+		with io.open(paramfile, 'w', encoding='utf8') as out:
+			out.write("top='%s',\n" % trees[0].label)
+			out.writelines(paramlines)
 		return  # grammars have already been written
 	if opts.get('--dopestimator', 'rfe') != 'rfe':
 		xgrammar = [(rule, w) for (rule, _), w in
-- 
2.43.0


From ebbe09ad08e45e796953483fcac595a2e1d3500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:50 +0000
Subject: [PATCH 179/192] fix: ftbundocompounds: reverse transform keeps
 compounds which were not undone

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 9777805..63542ba 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1336,7 +1336,7 @@ def reversetransform(tree, sent, transformations):
 				raise ValueError('load FTB compounds before applying '
 						'this transform.')
 			for sbtree in tree.subtrees(lambda n: len(n) > 1
-					and ' '.join(sent[m] for m in n.leaves()) in FTBCOMPOUNDS):
+					and not n.label.startswith('MW') and ' '.join(sent[m] for m in n.leaves()) in FTBCOMPOUNDS):
 				if sbtree.label == 'PP':
 					sbtree.label = 'MWADV'
 				elif sbtree.label in ('COORD', 'ADV', 'PRO'):
-- 
2.43.0


From cd346021d356245b9994be35f40d30b495d59227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:50 +0000
Subject: [PATCH 180/192] fix: ftbmakegoldpos: keep other POS tags in compounds
 such as P+D

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 63542ba..c5b27af 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -867,7 +867,7 @@ def ftbtransforms(name, tree, sent):
 						'ET': 'ET',
 						'I': 'I',
 						'PREF': 'PREF'
-					}[t.label]
+					}.get(t.label, t.label)
 	elif name == 'ftbraisecompl':
 		# Candito et al (LREC 2010). Statistical French dependency parsing:
 		# treebank conversion and first results.
-- 
2.43.0


From b84fe9edf5d192f35d5ca5a4115bbb75cd0bf95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:50 +0000
Subject: [PATCH 181/192] fix: comparison of trees is a consistent order

---
 discodop/tree.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 5c96f70..e63538e 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -125,26 +125,26 @@ class Tree(object):
 	def __lt__(self, other):
 		if not isinstance(other, Tree):
 			return False
-		return (self.label < other.label
-				or self.children < other.children)
+		return ((self.label, self.children)
+				< (other.label, other.children))
 
 	def __le__(self, other):
 		if not isinstance(other, Tree):
 			return False
-		return (self.label <= other.label
-				or self.children <= other.children)
+		return ((self.label, self.children)
+				<= (other.label, other.children))
 
 	def __gt__(self, other):
 		if not isinstance(other, Tree):
 			return True
-		return (self.label > other.label
-				or self.children > other.children)
+		return ((self.label, self.children)
+				> (other.label, other.children))
 
 	def __ge__(self, other):
 		if not isinstance(other, Tree):
-			return False
-		return (self.label >= other.label
-				or self.children >= other.children)
+			return True
+		return ((self.label, self.children)
+				>= (other.label, other.children))
 
 	# === Delegated list operations ==============================
 	def append(self, child):
-- 
2.43.0


From bb77d6eb07e775c3903bfa47cc4cc75f67632f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:50 +0000
Subject: [PATCH 182/192] fix: eval --debug: sentences without any tokens left
 to evaluate

---
 discodop/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index d0e3184..afd9779 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -477,7 +477,7 @@ class TreePairResult(object):
 					' '.join(candpaths[leaf][::-1])))
 		if self.param['LA']:
 			print('leaf-ancestor score: %6.3g' % self.lascore)
-		if self.param['TED']:
+		if self.param['TED'] and self.gpos:
 			print('Tree-dist: %g / %g = %g' % (
 				self.ted, self.denom, 1 - self.ted / Decimal(self.denom)))
 			newtreedist(self.gtree, self.ctree, True)
-- 
2.43.0


From b264eeb8b720c556b42cd7287fa5ac00a19893a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:50 +0000
Subject: [PATCH 183/192] fix: eval --debug: show the words of dependencies

---
 discodop/eval.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index afd9779..6b3bde6 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -485,11 +485,9 @@ class TreePairResult(object):
 			print('Sentence:', ' '.join(self.gsent))
 			print('dependencies gold', ' ' * 35, 'cand')
 			for (a, _, b), (c, _, d) in zip(self.gdep, self.cdep):
-				# use original sentences because we don't delete
-				# punctuation for dependency evaluation
 				print('%15s -> %15s           %15s -> %15s' % (
-					self.gsentorig[a - 1][0], self.gsentorig[b - 1][0],
-					self.csentorig[c - 1][0], self.csentorig[d - 1][0]))
+					self.gsent[a - 1], self.gsent[b - 1] if b else 'ROOT',
+					self.csent[c - 1], self.csent[d - 1] if d else 'ROOT'))
 		print()
 
 	def scores(self):
-- 
2.43.0


From 1d63137ad03c8ceeedca4baef726c4c37992782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:47 +0000
Subject: [PATCH 184/192] fix: reversetransform: merge nested S levels
 bottom-up

When an S level to be merged was itself a child of another one, its children
had already been moved, and sbar[0] raised an IndexError.
---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index c5b27af..1815435 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1201,7 +1201,7 @@ def reversetransform(tree, sent, transformations):
 					pp.children.sort(key=lambda n: n.label == 'NP')
 					pp[-1][:], pp[-1:] = [], pp[-1][:]
 		elif name == 'SBAR':  # merge extra S level
-			for sbar in list(tree.subtrees(lambda n: n.label == 'SBAR'
+			for sbar in list(tree.postorder(lambda n: n.label == 'SBAR'
 					or (n.label == 'S' and len(n) == 2
 						and labels(n) == ['PTKANT', 'S']))):
 				sbar.label = 'S'
-- 
2.43.0


From 97e1f524fc99738dd1502c04e5f81191791faaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:34 +0000
Subject: [PATCH 185/192] fix: dlevel: return level 1 for subject coindexed
 from main clause

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 1815435..803f16a 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1609,7 +1609,7 @@ def dlevel(tree, lang='nl'):
 			vcid = node.source[WORD].lstrip('#')
 			for sib in node.parent:
 				if function(sib) == 'su' and hassecedge(sib, 'su', vcid):
-					return 2
+					return 1
 	# 0: simple sentence
 	return 0
 
-- 
2.43.0


From 9f3e973bc574377157fe9889f738715c88c75e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:34 +0000
Subject: [PATCH 186/192] fix: externaltagging: write input for taggers as text

---
 discodop/lexicon.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 943587b..b756d57 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -380,11 +380,10 @@ def externaltagging(usetagger, model, sents, overridetag, tagmap):
 		if not os.path.exists('tree-tagger/bin/tree-tagger'):
 			raise ValueError(TREETAGGERHELP)
 		infile, inname = tempfile.mkstemp(text=True)
-		with os.fdopen(infile, 'w') as infile:
+		with os.fdopen(infile, 'w', encoding='utf8') as infile:
 			for tagsent in sents.values():
 				sent = map(itemgetter(0), tagsent)
-				infile.write('\n'.join(w.encode('utf-8')
-					for w in sent) + '\n<S>\n')
+				infile.write('\n'.join(sent) + '\n<S>\n')
 		filtertags = ''
 		if not model:
 			model = 'tree-tagger/lib/german-par-linux-3.2-utf8.bin'
@@ -402,11 +401,10 @@ def externaltagging(usetagger, model, sents, overridetag, tagmap):
 		if not os.path.exists('stanford-postagger-full-2012-07-09'):
 			raise ValueError(STANFORDTAGGERHELP)
 		infile, inname = tempfile.mkstemp(text=True)
-		with os.fdopen(infile, 'w') as infile:
+		with os.fdopen(infile, 'w', encoding='utf8') as infile:
 			for tagsent in sents.values():
 				sent = map(itemgetter(0), tagsent)
-				infile.write(' '.join(w.encode('utf-8')
-					for w in sent) + '\n')
+				infile.write(' '.join(sent) + '\n')
 		if not model:
 			model = 'models/german-hgc.tagger'
 		tagger = Popen(args=(
-- 
2.43.0


From c22ec64c0f908ff873e6110666f1c6fd1ea228cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:34 +0000
Subject: [PATCH 187/192] fix: unknownwordftb: recognize backslash as
 punctuation

---
 discodop/lexicon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index b756d57..b103064 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -326,10 +326,10 @@ POSSIBLEPLURAL = re.compile("(s|ux)$")
 VERBSUFFIX = re.compile("(ir|er|re|ez|ont|ent|ant|ais|ait|ra|era|eras"
 		"|é|és|ées|isse|it)$")
 ADVSUFFIX = re.compile("(iment|ement|emment|amment)$")
-HASPUNC = re.compile("([\u0021-\u002F\u003A-\u0040\u005B\u005C\u005D"
+HASPUNC = re.compile(r"([\u0021-\u002F\u003A-\u0040\u005B\u005C\u005D"
 		"\u005E-\u0060\u007B-\u007E\u00A1-\u00BF\u2010-\u2027\u2030-\u205E"
 		"\u20A0-\u20B5])+")
-ISPUNC = re.compile("([\u0021-\u002F\u003A-\u0040\u005B\u005C\u005D"
+ISPUNC = re.compile(r"([\u0021-\u002F\u003A-\u0040\u005B\u005C\u005D"
 		"\u005E-\u0060\u007B-\u007E\u00A1-\u00BF\u2010-\u2027\u2030-\u205E"
 		"\u20A0-\u20B5])+$")
 
-- 
2.43.0


From 9ed797d9dd3c9d0058f6fdca6b2a7f945087e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:18 +0000
Subject: [PATCH 188/192] fix: openread: do not block when compressed file is
 not read completely

---
 discodop/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/util.py b/discodop/util.py
index 81e7419..17c7c76 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -59,8 +59,11 @@ def genericdecompressor(cmd, filename, encoding='utf8'):
 		# filling up and blocking the child process.
 		yield proc.stdout if encoding is None else codecs.getreader(
 				encoding)(proc.stdout)
+		# if not all output was read, end the process by closing the pipe.
+		complete = proc.stdout.closed or not proc.stdout.read(1)
+		proc.stdout.close()
 		retcode = proc.wait()
-		if retcode:  # FIXME: retcode 2 means warning. allow warnings?
+		if retcode and complete:  # FIXME: retcode 2 means warning. allow warnings?
 			raise ValueError('non-zero exit code %s from compressor %s:\n%r'
 					% (retcode, cmd, proc.stderr.read()))
 
-- 
2.43.0


From 581075153baacc70d9406adbdca3eed91876ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:17 +0000
Subject: [PATCH 189/192] fix: split-PCFG: keep binarization markers after
 parent annotation until tree is unbinarized

---
 discodop/disambiguation.pyx | 4 ++--
 discodop/parser.py          | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 25c5b70..feb7255 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -344,8 +344,8 @@ cdef maxconstituentsparse(Chart chart, double labda, set labels=None):
 				collapseunary(
 					unbinarize(
 						mergediscnodes(unbinarize(
-							Tree(treestr),
-							childchar=':', expandunary=False)),
+							Tree(treestr), childchar=':',
+							parentchar=' ', expandunary=False)),
 						expandunary=False),
 					joinchar='+',
 					collapsepos=True,
diff --git a/discodop/parser.py b/discodop/parser.py
index 39d7034..750e722 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -563,7 +563,8 @@ class Parser(object):
 		parsetree = ParentedTree(treestr)
 		if self.stages[stage].split:
 			treetransforms.mergediscnodes(treetransforms.unbinarize(
-					parsetree, childchar=':', expandunary=False))
+					parsetree, childchar=':', parentchar=' ',
+					expandunary=False))
 		# when possible, infer head from binarization
 		if (self.binarization and self.binarization.headrules
 				and self.binarization.rightmostunary):
-- 
2.43.0


From 949832ba0276187eeb919f3f4198698877ec937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:17 +0000
Subject: [PATCH 190/192] fix: required and blocked spans: apply with all
 objectives and to discontinuous constituents

---
 discodop/coarsetofine.pyx   |  5 +++++
 discodop/disambiguation.pyx | 23 ++++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index 63a28d2..ba6537a 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -94,6 +94,9 @@ def prunechart(Chart coarsechart, Grammar fine, k,
 		root = coarsechart.root()
 		require1 = []
 		for strlabel, indices in require:
+			if (isinstance(coarsechart, CFGChart)
+					and max(indices) - min(indices) + 1 != len(indices)):
+				continue  # discontinuous constituent has been split
 			matchingitems = getmatchingitems(coarsechart, strlabel, indices)
 			if not matchingitems:
 				raise ValueError('could not fulfill constraint '
@@ -179,6 +182,8 @@ def prunechart(Chart coarsechart, Grammar fine, k,
 def getmatchingitems(Chart chart, str strlabel, indices):
 	matchingitems = []
 	for n in chart.grammar.tblabelmapping.get(strlabel, []):
+		if '*' in chart.grammar.tolabel[n]:
+			continue  # component of a discontinuous constituent
 		item = chart.itemid1(n, indices)
 		if item != 0:
 			matchingitems.append(item)
diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index feb7255..aab7312 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -23,7 +23,7 @@ from .kbest import lazykbest
 from .kbest cimport getderiv
 from .grammar import lcfrsproductions, spinal, REMOVEDEC
 from .treetransforms import (addbitsets, unbinarize, canonicalize,
-		collapseunary, mergediscnodes, binarize)
+		collapseunary, mergediscnodes, binarize, removefanoutmarkers)
 from .bit import pyintnextset, pyintbitcount
 
 cimport cython
@@ -151,11 +151,13 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 	cdef ItemNo root = chart.root()
 
 	if method == 'sl-dop':
-		return sldop(chart, sent, tags, k, sldop_n, postagging)
+		return applyconstraints(sldop(
+				chart, sent, tags, k, sldop_n, postagging), require, block)
 	elif method == 'sl-dop-simple':
-		return sldop_simple(sldop_n, chart)
+		return applyconstraints(sldop_simple(sldop_n, chart), require, block)
 	elif method == 'mcp':
-		return maxconstituentsparse(chart, mcplambda, mcplabels)
+		return applyconstraints(maxconstituentsparse(
+				chart, mcplambda, mcplabels), require, block)
 	elif method == 'shortest':
 		# filter out all derivations which are not shortest
 		if not dopreduction:
@@ -283,6 +285,12 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 			len(chart.derivations) if dopreduction
 				else chart.rankededges[root].size(),
 			len(mpdtrees) or len(derivlen) or mpptrees.size())
+	return applyconstraints((results, msg), require, block)
+
+
+def applyconstraints(parses, require, block):
+	"""Only keep parse trees that satisfy constraints."""
+	results, msg = parses
 	if require or block:
 		results = [(treestr, score, frags) for treestr, score, frags in results
 				if testconstraints(treestr, require, block)]
@@ -292,9 +300,14 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 
 def testconstraints(treestr, require, block):
 	"""Test if tree satisfies constraints of required/blocked labeled spans."""
+	tree = Tree(treestr)
+	if '*' in treestr:  # split-PCFG; restore discontinuous nodes
+		mergediscnodes(unbinarize(
+				tree, childchar=':', parentchar=' ', expandunary=False))
+	removefanoutmarkers(unbinarize(tree, expandunary=False))
 	spans = {(node.label, tuple(sorted(node.leaves())))
 			for node in ImmutableTree(
-				REMOVESTATESPLITS.sub(r'\1 ', treestr)).subtrees()}
+				REMOVESTATESPLITS.sub(r'\1 ', str(tree))).subtrees()}
 	return spans.issuperset(require or ()) and spans.isdisjoint(block or ())
 
 
-- 
2.43.0


From e4b9410b9c7bab9fdaba0afcd61e3c7eb44c4422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:34 +0000
Subject: [PATCH 191/192] fix: required spans: match incomplete split
 constituents; block only complete ones

---
 discodop/coarsetofine.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index ba6537a..ab7e438 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -141,7 +141,9 @@ def prunechart(Chart coarsechart, Grammar fine, k,
 		itemset = set(items).difference([item
 				for strlabel, indices in block
 					for item in getmatchingitems(coarsechart, strlabel, indices)
-				])
+					# do not block components of discontinuous constituents
+					if '*' not in coarsechart.grammar.tolabel[
+						coarsechart.label(item)]])
 		msg += '; applied \'block\' constraints; %d of %d items left' % (
 				len(itemset), items.size())
 		items = [n for n in itemset]
@@ -182,8 +184,6 @@ def prunechart(Chart coarsechart, Grammar fine, k,
 def getmatchingitems(Chart chart, str strlabel, indices):
 	matchingitems = []
 	for n in chart.grammar.tblabelmapping.get(strlabel, []):
-		if '*' in chart.grammar.tolabel[n]:
-			continue  # component of a discontinuous constituent
 		item = chart.itemid1(n, indices)
 		if item != 0:
 			matchingitems.append(item)
-- 
2.43.0


From e82834a249b02773da67b42398ff2ddf0449d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:24 +0000
Subject: [PATCH 192/192] fix: constraints: match spans in tree as is as well
 as in unbinarized tree

---
 discodop/disambiguation.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index aab7312..b334be8 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -300,14 +300,17 @@ def applyconstraints(parses, require, block):
 
 def testconstraints(treestr, require, block):
 	"""Test if tree satisfies constraints of required/blocked labeled spans."""
+	trees = [] if '*' in treestr else [treestr]  # as is
 	tree = Tree(treestr)
 	if '*' in treestr:  # split-PCFG; restore discontinuous nodes
 		mergediscnodes(unbinarize(
 				tree, childchar=':', parentchar=' ', expandunary=False))
-	removefanoutmarkers(unbinarize(tree, expandunary=False))
+	trees.append(str(removefanoutmarkers(unbinarize(
+			tree, expandunary=False))))
 	spans = {(node.label, tuple(sorted(node.leaves())))
-			for node in ImmutableTree(
-				REMOVESTATESPLITS.sub(r'\1 ', str(tree))).subtrees()}
+			for treestr in trees
+				for node in ImmutableTree(
+					REMOVESTATESPLITS.sub(r'\1 ', treestr)).subtrees()}
 	return spans.issuperset(require or ()) and spans.isdisjoint(block or ())
 
 
-- 
2.43.0

