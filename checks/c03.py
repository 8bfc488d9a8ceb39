"""C03: drawings show every node and token once, in consistent places."""
import re
import unicodedata
import html as htmllib
import xml.etree.ElementTree as ET
from collections import Counter
from discodop.tree import DrawTree, ParentedTree, Tree
import g

PLAN = dict(
	mods=['bit'],
	rule='random continuous/discontinuous trees (1-16 tokens, unary chains, '
	'arity up to 6) with hostile labels and tokens; the grid layout and the '
	'text, HTML, ANSI, SVG and LaTeX renderings are checked against the model '
	'tree; nontrivial: 3 or more tokens; counted by tree and sentence',
	require={'layouts': 300, 'discontinuous layouts': 100, 'svg parsed': 300,
		'text parsed': 600, 'latex labels': 20000,
		'latex binarized labels': 3000, 'qtree parsed': 600,
		'secondary edges': 600},
)
LINES = set('\u2500\u2502\u250c\u2510\u252c\u2534\u253c\u2514\u2518\u251c\u2524')
LABELCH = ['S', 'NP', 'VP-SBJ', 'PP-A&B', 'X<Y', 'NP|<DT-NN>', 'A>', '"Q"',
		'$.', 'Ü', 'P@1', "it's", 'SBAR', 'VVFIN', 'NP-A|<B>', 'VP|<NP-VB>^<S,ROOT>', '-LRB-', 'A-<i>']
TOKENS = [a for a in g.HOSTILE if len(a) <= 14 and a != '\\'] + g.WORDS


def gen(rng, ctx):
	n = g.size(rng, 7, 16)
	m = g.randtree(rng, n, disc=0.6, maxar=6, unary=0.2)
	m = relabel(rng, m)
	sent = [rng.choice(TOKENS) for _ in range(n)]
	return rng, m, sent


def relabel(rng, m):
	if not isinstance(m, tuple):
		return m
	return (rng.choice(LABELCH), tuple(relabel(rng, c) for c in m[1]))


def shuffle(rng, m):
	if not isinstance(m, tuple):
		return m
	kids = [shuffle(rng, c) for c in m[1]]
	rng.shuffle(kids)
	return (m[0], tuple(kids))


def unesc(tok):
	"""documented display form of a token (PTB/bracket escapes undone)."""
	single = {'-LCB-': '{', '-RCB-': '}', '-LSB-': '[', '-RSB-': ']'}
	if tok in single:
		return single[tok]
	for a, b in (('-LRB-', '('), ('-RRB-', ')'), ('#LRB#', '('),
			('#RRB#', ')'), ('\\/', '/')):
		tok = tok.replace(a, b)
	return tok


def layout(d, m, sent, ctx):
	ctx.ev('layouts')
	n = len(sent)
	ids = set(d.nodes)
	ctx.ok(ids == set(d.coords), 'coords', 'nodes %s coords %s', d.nodes,
			d.coords)
	inner = [a for a in ids if isinstance(d.nodes[a], Tree)]
	toks = [a for a in ids if not isinstance(d.nodes[a], Tree)]
	ctx.eq(len(inner), len(g.nodes(m)), 'number of nodes')
	ctx.eq(len(toks), n, 'number of tokens')
	ctx.eq(sorted(repr(g.canon(g.tomodel(d.nodes[a]))) for a in inner),
			sorted(repr(g.canon(a)) for a in g.nodes(m)), 'set of nodes')
	ctx.eq(len(set(d.coords.values())), len(ids), 'distinct cells')
	ctx.ok(all(r >= 0 and c >= 0 for r, c in d.coords.values()), 'negative',
			'%s', d.coords)
	# edges: one per non-root node, to its actual parent
	root = [a for a in ids if a not in d.edges]
	ctx.ok(len(root) == 1 and g.canon(g.tomodel(d.nodes[root[0]]))
			== g.canon(m), 'root', 'nodes without edge: %s', root)
	ctx.eq(d.coords[root[0]][0], 0, 'root row')
	ctx.eq(set(d.edges), ids - set(root), 'edges')
	for c, p in d.edges.items():
		ctx.ok(d.coords[p][0] < d.coords[c][0], 'parent above child',
				'%s %s', d.coords[p], d.coords[c])
	# the tree described by the edges
	kids = {a: [] for a in inner}
	for c, p in d.edges.items():
		ctx.ok(p in kids, 'edge to token', 'edge to token')
		kids[p].append(c)
	# identify leaf index of each token by column order
	bottom = max(r for r, _ in d.coords.values())
	order = sorted(toks, key=lambda a: d.coords[a][1])
	index = {a: i for i, a in enumerate(order)}
	for a in order:
		ctx.eq(d.nodes[a], unesc(sent[index[a]]), 'token order')
		ctx.eq(d.coords[a][0], bottom, 'token row')
	ctx.eq(len({d.coords[a][1] for a in toks}), n, 'token columns')

	def build(a):
		if a in index:
			return index[a]
		return (d.nodes[a].label, tuple(build(c) for c in kids[a]))
	ctx.eq(g.canon(build(root[0])), g.canon(m), 'edges describe another tree')
	# a node is horizontally within the columns of its children
	for a in inner:
		cols = [d.coords[c][1] for c in kids[a]]
		ctx.ok(min(cols) <= d.coords[a][1] <= max(cols), 'column',
				'node %s at %s, children %s', a, d.coords[a], cols)
		if len(cols) == 1:
			ctx.ok(d.coords[a][1] == cols[0], 'unary column', '%s %s',
					d.coords[a], cols)


def texttokens(s, ascii):
	toks = []
	for a in s.split():
		if all(c in ('_|.' if ascii else LINES) for c in a):
			if ascii and a != '|' and not re.match(r'^[_|.]*$', a):
				toks.append(a)
			continue
		toks.append(a)
	return toks


def width(s):
	"""number of columns that the label takes, or None if unclear"""
	if any(unicodedata.combining(c) or unicodedata.east_asian_width(c) in 'WF'
			or unicodedata.category(c).startswith(('C', 'M')) for c in s):
		return None
	return len(s)


def traced(d, text, ctx):
	"""Follow the lines in the Unicode text rendering."""
	ids = list(d.coords)
	widths = {}
	for a in ids:
		w = width(d.labels[a])
		if w is None:
			return
		col = d.coords[a][1]
		widths[col] = max(widths.get(col, 3), w)
	ncol = max(widths) + 1
	starts, x = [], 0
	for c in range(ncol):
		starts.append(x)
		x += widths.get(c, 3) + 1
	lines = text.rstrip('\n').split('\n')
	rows = sorted({r for r, _ in d.coords.values()})
	if len(lines) != 2 * len(rows) - 1 or any('\n' in d.labels[a]
			or '\t' in d.labels[a] or set(d.labels[a]) & LINES for a in ids):
		ctx.ok(False, 'lines', '%d lines for %d rows', len(lines), len(rows))
		return
	lineno = {r: 2 * i for i, r in enumerate(rows)}
	cells = {d.coords[a]: a for a in ids}
	kids, passing = {}, set()
	for c, p in d.edges.items():
		kids.setdefault(p, []).append(c)
		passing.update((r, d.coords[c][1]) for r in rows
				if d.coords[p][0] < r < d.coords[c][0])

	def cell(i, c):
		line = lines[i].ljust(x)
		return line[starts[c]:starts[c] + widths.get(c, 3)]

	def vert(i, c):
		"""the vertical line in the middle of a cell, if any."""
		a = [b for b in cell(i, c) if b in LINES and b != '\u2500']
		return a
	ctx.ev('text traced')
	for r in rows:
		i = lineno[r]
		for c in range(ncol):
			a = cells.get((r, c))
			if a is not None:
				ctx.eq(cell(i, c).strip(), d.labels[a], 'label not in its cell')
				mid = len(cell(i, c)) - len(cell(i, c).lstrip()) \
						- (len(cell(i, c)) - len(cell(i, c).rstrip()))
				ctx.ok(abs(mid) <= 1, 'label not centered', '%r', cell(i, c))
			elif (r, c) in passing:
				ctx.eq(cell(i, c).strip(), '\u2502', 'passing line interrupted')
			else:
				ctx.eq(cell(i, c).strip(), '', 'line to nowhere')
		if r == rows[-1]:
			continue
		down, up = set(), set()
		for c in range(ncol):
			a = cells.get((r, c))
			if a is not None and a in kids:
				up.add(c)
				down.update(d.coords[b][1] for b in kids[a])
		for c in range(ncol):
			got = vert(i + 1, c)
			b = cell(i + 1, c)
			if got:
				pos = [k for k, y in enumerate(b) if y == got[0]][0]
				ctx.ok(len(got) == 1 and abs(2 * pos + 1 - len(b)) <= 2,
						'vertical not in the middle', '%r', b)
			if (r, c) in passing:
				ctx.eq(got, ['\u2502'], 'passing line through branches')
			elif c in down and c in up:
				ctx.ok(got and got[0] in '\u2502\u253c\u250c\u2510', 'branch up and down',
						'%r', b)
			elif c in down:
				ctx.ok(got and got[0] in '\u250c\u2510\u252c', 'branch to child',
						'%r\n%s', b, text)
			elif c in up:
				ctx.ok(got and got[0] == '\u2534', 'branch to parent', '%r', b)
			else:
				ctx.eq(got, [], 'stray vertical line')
		# horizontal extent
		line = lines[i + 1].ljust(x)
		horz = set()
		for c in range(ncol):
			a = cells.get((r, c))
			if a is None or a not in kids:
				continue
			cols = [d.coords[b][1] for b in kids[a]]
			if min(cols) == max(cols):
				continue
			lo = starts[min(cols)] + [k for k, y in enumerate(
					cell(i + 1, min(cols))) if y in LINES
					and y != '\u2500'][0]
			hi = starts[max(cols)] + [k for k, y in enumerate(
					cell(i + 1, max(cols))) if y in LINES
					and y != '\u2500'][0]
			horz.update(range(lo + 1, hi))
			for k in range(lo + 1, hi):
				ctx.ok(line[k] != ' ' or '\u2502' in line[max(0, k - 2):k + 3],
						'gap in branch', '%r', line)
		for k, y in enumerate(line):
			ctx.ok(y != '\u2500' or k in horz, 'stray horizontal line', '%d %r\n%s',
					k, line, text)


def spans(leaves):
	res = []
	for a in sorted(leaves):
		if res and res[-1][1] == a - 1:
			res[-1][1] = a
		else:
			res.append([a, a])
	return ','.join(str(a) if a == b else '%d-%d' % (a, b) for a, b in res)


def svglines(d, x, ns, ctx):
	"""The lines in the SVG connect each node with its children."""
	ids = list(d.coords)
	texts = x.findall('.//%stext' % ns)
	pos = sorted((float(a.get('y')), float(a.get('x')),
			''.join(a.itertext())) for a in texts)
	ys = sorted({a[0] for a in pos})
	rows = sorted({r for r, _ in d.coords.values()})
	xs = sorted({a[1] for a in pos})
	cols = sorted({c for _, c in d.coords.values()})
	if len(ys) != len(rows) or len(xs) != len(cols):
		ctx.ok(False, 'svg grid', '%s %s', len(ys), len(xs))
		return
	at = {a: (xs[cols.index(d.coords[a][1])], ys[rows.index(d.coords[a][0])])
			for a in ids}
	ctx.eq(pos, sorted((at[a][1], at[a][0], d.labels[a]) for a in ids),
			'svg labels at coordinates')
	box = [float(a) for a in x.get('viewBox').split()]
	ctx.ok(all(box[0] < a < box[0] + box[2] and box[1] < b < box[1] + box[3]
			for a, b in at.values()), 'outside of svg', '%s %s', box, pos)
	horz, vert = [], []
	for a in x.findall('.//%spolyline' % ns):
		if 'stroke:white' in a.get('style'):
			continue
		(x1, y1), (x2, y2) = [[float(b) for b in p.split(',')]
				for p in a.get('points').split()]
		if y1 == y2:
			horz.append((min(x1, x2), max(x1, x2), y1))
		else:
			ctx.eq(x1, x2, 'diagonal line')
			vert.append((x1, min(y1, y2), max(y1, y2)))
		ctx.ok(all(box[0] < b < box[0] + box[2] for b in (x1, x2)) and all(
				box[1] < b < box[1] + box[3] for b in (y1, y2)),
				'line outside of svg', '%s', (x1, y1, x2, y2))
	kids = {}
	for c, p in d.edges.items():
		kids.setdefault(p, []).append(c)
	ctx.ev('svg lines')
	wanth, wantv = [], []
	for p in kids:
		px, py = at[p]
		nexty = min(at[c][1] for c in kids[p])
		want = (min(at[c][0] for c in kids[p]), max(at[c][0] for c in kids[p]))
		# the branch of this node: the level is just below the label
		cand = [h for h in horz if h[:2] == want and py < h[2] < nexty]
		ctx.ok(cand, 'no branch', 'node at %s, %s: %s', px, py, horz)
		if not cand:
			continue
		h = min(cand, key=lambda a: a[2])
		horz.remove(h)
		stems = [v for v in vert if v[0] == px and v[2] == h[2]
				and py - 1 <= v[1]]
		ctx.ok(stems, 'node not connected to its branch', '%s %s', h, vert)
		if stems:
			vert.remove(stems[0])
		for c in kids[p]:
			cx, cy = at[c]
			lines = [v for v in vert if v[0] == cx and v[1] == h[2]
					and cy - 20 <= v[2] <= cy]
			ctx.ok(lines, 'child not connected', '%s %s %s', at[c], h, vert)
			if lines:
				vert.remove(lines[0])
	ctx.ok(not horz and not vert, 'stray lines', '%s %s', horz, vert)


def check(case, ctx):
	rng, m, sent = case
	n = len(sent)
	disc = any(g.fanout(a) > 1 for a in g.nodes(m))
	if n >= 3:
		ctx.nontrivial(repr((m, sent)))
	ctx.sample(g.tostr(m, lambda i: '%d=%s' % (i, sent[i])))
	inp = shuffle(rng, m) if rng.random() < 0.3 else m
	t = g.totree(inp, rng.choice([Tree, ParentedTree]))
	hl = ()
	if rng.random() < 0.3:
		hl = [rng.choice(list(t.subtrees())), rng.randrange(n)]
	d = DrawTree(t, sent, highlight=hl)
	ctx.eq(g.tomodel(t), inp, 'drawing changed the tree')
	layout(d, m, sent, ctx)
	ctx.ev('discontinuous layouts' if disc else 'continuous layouts')
	shown = [unesc(a) for a in sent]
	want = Counter([a[0] for a in g.nodes(m)] + shown)
	# text renderings
	uni = d.text(unicodelines=True, maxwidth=None)
	plain = d.text(maxwidth=None)
	traced(d, uni, ctx)
	for s, asc in ((uni, False), (plain, True)):
		ctx.ev('text parsed')
		toks = Counter(texttokens(s, asc))
		exp = Counter({k: v for k, v in want.items()
				if not all(c in ('_|.' if asc else LINES) for c in k)})
		ctx.eq(toks, exp, 'labels/tokens in text')
		last = s.rstrip('\n').split('\n')[-1]
		ctx.eq(last.split(), shown, 'tokens in order on last line')
		ctx.eq(s.split('\n')[0].split(), [m[0]], 'root on first line')
	for func in (None, '-'):
		h = d.text(unicodelines=True, html=True, funcsep=func, maxwidth=None)
		ctx.eq(htmllib.unescape(re.sub(r'</?(font|span)\b[^<>]*>', '', h)),
				uni, 'html differs from text')
		a = d.text(unicodelines=True, ansi=True, funcsep=func, maxwidth=None)
		ctx.eq(re.sub('\x1b\\[[0-9;]*m', '', a), uni, 'ansi differs from text')
		# svg
		s = d.svg(funcsep=func)
		try:
			x = ET.fromstring(s)
		except ET.ParseError as err:
			ctx.fail('svg not well-formed', '%s\n%s', err, s)
		ctx.ev('svg parsed')
		ns = '{http://www.w3.org/2000/svg}'
		texts = x.findall('.//%stext' % ns)
		strings = [''.join(a.itertext()) for a in texts]
		ctx.eq(Counter(strings), want, 'svg labels')
		pos = [(float(a.get('y')), float(a.get('x'))) for a in texts]
		ctx.eq(len(set(pos)), len(pos), 'svg positions distinct')
		y = max(pos)[0]
		ctx.eq([strings[i] for i in sorted(range(len(pos)),
				key=lambda i: pos[i]) if pos[i][0] == y], shown,
				'svg token order')
		svglines(d, x, ns, ctx)
	# labels that wrap, and markup with node properties
	for s, asc in ((d.text(unicodelines=True), False), (d.text(), True)):
		ctx.eq(sorted(''.join(a for a in s if not a.isspace() and a not in
				('_|.' if asc else LINES))), sorted(''.join(b for a in want
				for b in a * want[a] if not b.isspace() and b not in (
				'_|.' if asc else LINES))), 'wrapped labels')
	if not any(set(a[0]) & set('"<>&') for a in g.nodes(m)):
		d.highlight = set(d.nodes)
		h = d.text(unicodelines=True, html=True, nodeprops='t1', maxwidth=None,
				funcsep='-', morphsep='/')
		ctx.eq(htmllib.unescape(re.sub(r'</?(font|span)\b[^<>]*>', '', h)),
				uni, 'markup differs from text')
		got = Counter(re.findall(r'<span class=[np] data-id="t1_(\d+)" '
				'data-s="([^"]*)">', h))
		ctx.eq(got, Counter((str(a), '%s %s' % (d.nodes[a].label,
				spans(d.nodes[a].leaves()))) for a in d.nodes
				if isinstance(d.nodes[a], Tree)), 'labeled spans')
		ctx.ev('labeled spans')
	# latex
	for s in (d.tikznode(), d.tikzmatrix()):
		ctx.ev('latex parsed')
		ids = re.findall(r'(?:^|\s)\\?node \(n(\d+)\) \{', s, re.M)
		ctx.eq(sorted(map(int, ids)), sorted(d.nodes), 'tikz nodes')
		edges = re.findall(r'\\draw \(n(\d+)\) -- .*-\| \(n(\d+)\);', s)
		ctx.eq(sorted((int(b), int(a)) for a, b in edges),
				sorted(d.edges.items()), 'tikz edges')
	func = rng.choice([None, '-'])
	for s in (d.tikznode(funcsep=func), d.tikzmatrix(funcsep=func)):
		latexlabels(d, s, ctx)
	if not disc and inp == g.canon(m):
		qtree(d, m, shown, ctx)
	if rng.random() < 0.3:
		secedges(rng, m, sent, ctx)


def latexlabels(d, s, ctx):
	"""The LaTeX code contains the label or token of each node."""
	parts = re.split(r'(?:^|(?<=\s))\\?node \(n(\d+)\) \{', s, flags=re.M)
	for n, part in zip(parts[1::2], parts[2::2]):
		node = d.nodes[int(n)]
		if not isinstance(node, Tree):
			ctx.ok(re.match(r'\s*\\textcolor\{\w+\}\{' + re.escape(node)
					+ r'\}\s*\}', part), 'tikz token', '%r in %r', node, part)
			continue
		part = re.split(r'\s\}(?:;| &|\s*$)', part, flags=re.M)[0]
		part = re.sub(r'\\textcolor\{\w+\}|\\textsf', '', part)
		if '|' in node.label:
			# punctuation may be replaced by typesetting
			part, want = [re.sub(r'\W|_', '', a) for a in (part, node.label)]
			ctx.ev('latex binarized labels')
		else:
			part = part.replace('$<$', '<').replace('$>$', '>').replace(
					'\\', '').replace('{', '').replace('}', '').strip()
			want = node.label
		ctx.eq(part, want, 'tikz label')
		ctx.ev('latex labels')


def qtree(d, m, shown, ctx):
	"""The tree described by the qtree code."""
	bad = set('[]\\')
	if any(bad & set(a) or len(a.split()) != 1 for a in shown):
		return
	s = d.tikzqtree()
	s = s[s.index('\\Tree ') + 6:s.rindex('\\end{tikzpicture}')]
	s = re.sub(r'\\([#$%&~_{}])', r'\1', s)
	stack = [('', [])]
	n = 0
	for a in s.split():
		if a.startswith('[.'):
			stack.append((a[2:], []))
		elif a == ']':
			label, kids = stack.pop()
			stack[-1][1].append((label, tuple(kids)))
		else:
			ctx.ok(n < len(shown) and a == shown[n], 'qtree token',
					'%r: %r, expected %r', n, a, shown)
			stack[-1][1].append(n)
			n += 1
	ctx.ev('qtree parsed')
	ctx.eq(stack, [('', [g.canon(m)])], 'qtree', (s, shown))


def secedges(rng, m, sent, ctx):
	"""Secondary edges are shown as coindexation."""
	t = g.totree(m, ParentedTree)
	nodes = list(t.subtrees())
	num = {}
	for k, a in enumerate(nodes):
		if rng.random() < 0.8:
			phrasal = isinstance(a[0], Tree)
			num[k] = 500 + k
			a.source = ['#%d' % (500 + k) if phrasal else 'w', '--', a.label,
					'--', '--', '0']
	want = [a.label for a in nodes]
	targets = {}
	phrasal = [k for k in num if isinstance(nodes[k][0], Tree)]
	for k in num:
		if rng.random() < 0.4 and k not in targets:
			edges = []
			for _ in range(rng.choice([1, 1, 2, 3])):
				lab = rng.choice(['SB', 'OA', 'CC'])
				j = rng.choice(phrasal + [900])
				if j != 900 and (j == k or nodes[j].source[6:]):
					continue  # a node gets one kind of annotation here
				nodes[k].source += [lab, '%d' % (500 + j)]
				if j != 900:  # otherwise: edge to missing node
					edges.append('%s:%d' % (lab, j))
					targets[j] = None
					want[j] = '%s=%d' % (nodes[j].label, j)
			if edges:
				want[k] = '%s[%s]' % (nodes[k].label, ','.join(edges))
	d = DrawTree(t, sent, secedge=True)
	ctx.eq(Counter(b for a, b in d.labels.items()
			if isinstance(d.nodes[a], Tree)), Counter(want), 'secondary edges')
	x = ET.fromstring(d.svg())
	got = Counter(''.join(a.itertext()) for a in
			x.findall('.//{http://www.w3.org/2000/svg}text'))
	ctx.eq(got, Counter(want + [unesc(a) for a in sent]), 'secondary edges svg')
	ctx.ev('secondary edges', sum('[' in a and ':' in a for a in want))
	d = DrawTree(t, sent)
	ctx.eq(Counter(b for a, b in d.labels.items()
			if isinstance(d.nodes[a], Tree)), Counter(a.label for a in nodes),
			'labels without secondary edges')


def genstr(rng, ctx):
	"""drawing directly from strings and without a sentence"""
	n = g.size(rng, 5, 10)
	disc = rng.random() < 0.5
	m = g.randtree(rng, n, disc=0.8 if disc else 0)
	sent = [rng.choice(g.WORDS) for _ in range(n)]
	return rng, m, sent


def checkstr(case, ctx):
	rng, m, sent = case
	cont = all(g.fanout(a) == 1 for a in g.nodes(m))
	ctx.nontrivial(repr((m, sent)))
	d = DrawTree(g.tostr(m, lambda i: '%d=%s' % (i, sent[i])))
	layout(d, m, sent, ctx)
	if cont:
		layout(DrawTree(g.tostr(m, lambda i: sent[i])), m, sent, ctx)
	layout(DrawTree(g.tostr(m), sent), m, sent, ctx)
	layout(DrawTree(g.totree(m, ParentedTree)), m, [str(i)
			for i in range(len(sent))], ctx) if cont else None
	# string leaves without sentence
	if cont:
		t = Tree.parse(g.tostr(m, lambda i: sent[i]), parse_leaf=None)
		layout(DrawTree(t), m, sent, ctx)
	# abbreviated labels: same layout
	m2 = longlabels(m)
	d2 = DrawTree(g.totree(m2, ParentedTree), sent, abbr=True)
	layout(d2, abbrlabels(m2), sent, ctx)
	# a frontier nonterminal: drawn with a placeholder
	if cont and len(sent) > 1:
		k = rng.randrange(len(sent))
		t = Tree.parse(g.tostr(m, lambda i: '' if i == k else sent[i]),
				parse_leaf=None)
		d = DrawTree(t)
		ctx.ev('frontier drawn')
		ctx.eq(len(d.nodes), len(g.nodes(m)) + len(sent), 'frontier nodes')
		want = Counter([a[0] for a in g.nodes(m)]
				+ [a for i, a in enumerate(sent) if i != k] + ['...'])
		got = Counter(texttokens(d.text(unicodelines=True), False))
		ctx.eq(got, want, 'frontier text')


def longlabels(m):
	if not isinstance(m, tuple):
		return m
	return (m[0] + ('LONGER' if len(m[1]) > 1 else ''),
			tuple(longlabels(c) for c in m[1]))


def abbrlabels(m):
	if not isinstance(m, tuple):
		return m
	return (m[0] if len(m[0]) <= 5 else m[0][:4] + '\u2026',
			tuple(abbrlabels(c) for c in m[1]))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'draw': (gen, check, 4000 * k), 'str': (genstr, checkstr, 1200 * k)}
