"""C06: treebank formats round-trip."""
import os
from discodop.tree import Tree, ParentedTree
from discodop.treebank import (writetree, READERS, EXPORTHEADER,
		AlpinoCorpusReader)
import g
import xmlw

PLAN = dict(
	mods=['bit'],
	rule='corpora of 1-8 random trees (1-14 tokens, discontinuous where the '
	'format allows it, hostile words) written by writetree and read back by '
	'the corpus reader, with random annotations, encodings and reader '
	'options; nontrivial: at least 3 nodes and 2 tokens; counted by tree, '
	'words and format',
	require={'export trees': 500, 'bracket trees': 300,
		'discbracket trees': 300, 'discontinuous trees': 200,
		'hostile words': 500, 'secondary edges': 100, 'comments': 100,
		'reader options': 300, 'alpino trees': 30, 'xml trees': 350,
		'xml secondary edges': 350, 'converted secondary edges': 250},
)
FUNCS = ['SB', 'HD', 'OA', 'MO', 'NK', '--', 'SB']
MORPHS = ['Nom.Sg', '3.Pl.Pres', 'Masc.Akk', '--', 'a/b', 'x(y)', '*']
ENC = ['utf8', 'utf8', 'utf8', 'utf-8', 'iso-8859-1', 'utf-16', 'cp1252']
BAD = {'%%', '#500'}


def escaped(x):
	return x.replace('(', '[').replace(')', ']')


def words(rng, n, enc, none=False):
	result = []
	while len(result) < n:
		x = rng.random()
		if x < 0.5:
			w = rng.choice(g.WORDS)
		elif x < 0.85:
			w = rng.choice(g.HOSTILE)
		else:
			w = ''.join(rng.choice('ab()[]{}/=\'"`#-_.,;:!?%&*+<>@^|~\\'
					'éüß0123') for _ in range(rng.randint(1, 8)))
		if none and rng.random() < 0.05:
			w = None
		if w is not None:
			if '%%' in w or '#LRB#' in w or '#RRB#' in w:
				continue
			if len(w) == 4 and w[0] == '#' and w[1:].isdigit():
				continue  # indistinguishable from an export node id
			if w.startswith('#FRONTIER#'):
				continue
			try:
				w.encode(enc)
			except UnicodeEncodeError:
				continue
		result.append(w)
	return result


def label(rng, m, root=True):
	"""Richer labels."""
	if not isinstance(m, tuple):
		return m
	lab = m[0]
	if not root:
		x = rng.random()
		if x < 0.1:
			lab += rng.choice(['-SBJ', '-LOC-PRD', '=2', '-1', '-TMP=3'])
		elif x < 0.13:
			lab = rng.choice(['-NONE-', '$,', '$[', '.', '``', 'PRP$', 'É',
					"''", ',', '#', 'A|B', 'X/Y', 'N:2'])
	return (lab, tuple(label(rng, c, False) for c in m[1]))


def annotate(rng, t):
	"""Give random annotations in the source attribute to all nodes; returns
	list (in preorder) of (lemma, morph, func, [(label, target preorder)])"""
	nodes = list(t.subtrees())
	ids = rng.sample(range(500, 1000), len(nodes))
	phrasal = [i for i, a in enumerate(nodes)
			if a is not t and isinstance(a[0], Tree)]
	info = []
	for i, node in enumerate(nodes):
		if node is t:
			info.append(None)
			continue
		isph = isinstance(node[0], Tree)
		lemma = '--' if isph else rng.choice(['be', 'go', 'x(y)', '--', 'é',
				'word'])
		morph, func = rng.choice(MORPHS), rng.choice(FUNCS)
		sec = []
		if phrasal:
			while rng.random() < 0.15:
				sec.append((rng.choice(FUNCS[:5]), rng.choice(phrasal)))
		source = ['#%d' % ids[i] if isph else 'dummy', lemma, node.label,
				morph, func, '0']
		for rel, target in sec:
			source += [rel, str(ids[target])]
		node.source = rng.choice([tuple, list])(source)
		info.append((lemma, morph, func, sec))
	return info


def gencorpus(rng, ctx, fmt):
	enc = rng.choice(ENC)
	corpus = []
	for n in range(rng.choice([1, 1, 2, 3, 8])):
		size = g.size(rng)
		root = 'ROOT' if fmt == 'export' else rng.choice(['ROOT', 'S', 'TOP'])
		m = g.randtree(rng, size, disc=0 if fmt in ('bracket', ) else 0.5,
				root=root)
		if rng.random() < 0.5:
			m = label(rng, m)
		sent = words(rng, size, enc, none=fmt != 'export')
		comment = None
		if fmt != 'bracket' and rng.random() < 0.3:
			comment = rng.choice(['a comment', 'n=1 prob=0.5', 'x', '(a b)',
					'50% #BOS 3'])
			if fmt == 'discbracket' and rng.random() < 0.3:
				comment += '\tx y\t(z 1)'
		corpus.append((m, sent, comment))
	return rng, fmt, enc, corpus


def compare(ctx, fmt, got, sent, m, wsent, info):
	ctx.eq(g.tomodel(got), m, fmt + ' tree', (wsent, info))
	ctx.eq(sent, wsent, fmt + ' sentence', (m, info))
	# leaves and links are real
	for node in got.subtrees():
		for i, c in enumerate(node):
			if isinstance(c, Tree):
				ctx.ok(c.parent is node and c.parent_index == i,
						fmt + ' links', '%s', got)


def write(ctx, rng, fmt, enc, corpus, name, keys):
	trees = []
	text = ''
	if fmt == 'export' and rng.random() < 0.3:
		text += '#FORMAT 4\n'
		if rng.random() < 0.5:
			text += EXPORTHEADER
	infos = []
	for (m, sent, comment), key in zip(corpus, keys):
		t = g.totree(m, ParentedTree)
		info = None
		if fmt == 'export' and rng.random() < 0.7:
			info = annotate(rng, t)
			ctx.ev('secondary edges', sum(len(a[3]) for a in info[1:]))
		before = str(t), list(sent)
		out = writetree(t, sent, key, fmt, comment=comment)
		ctx.ok((str(t), sent) == before, 'writing modifies',
				'writetree modified its input: %s', t)
		text += out
		infos.append(info)
		trees.append(t)
		ctx.ev(fmt + ' trees')
		if g.fanout(m) and any(g.fanout(a) > 1 for a in g.nodes(m)):
			ctx.ev('discontinuous trees')
		ctx.ev('hostile words', sum(w not in g.WORDS for w in sent))
		if len(g.nodes(m)) > 2 and len(sent) > 1:
			ctx.nontrivial((fmt, m, sent))
		ctx.ev('comments', bool(comment))
	with open(name, 'w', encoding=enc) as f:
		f.write(text)
	ctx.sample(text)
	return text, infos


def check(case, ctx):
	rng, fmt, enc, corpus = case
	name = 'corpus.' + fmt
	keys = [str(a) for a in range(1, len(corpus) + 1)]
	if fmt == 'export' and rng.random() < 0.5:
		keys = ['%s%d' % (rng.choice(['s', 'x_', 'a|']), a)
				for a in rng.sample(range(99), len(corpus))]
	text, infos = write(ctx, rng, fmt, enc, corpus, name, keys)
	reader = READERS[fmt](name, encoding=enc)
	if fmt != 'export':
		keys = [int(a) for a in keys]
	items = list(reader.itertrees())
	ctx.eq([k for k, _ in items], keys, fmt + ' keys', text)
	for (m, sent, comment), info, (key, item) in zip(corpus, infos, items):
		wsent = list(sent)
		if fmt == 'bracket':
			wsent = [w or '' for w in wsent]
			comment = None
		compare(ctx, fmt, item.tree, item.sent, m, wsent, text)
		ctx.eq(item.comment, comment, fmt + ' comment', text)
		if fmt == 'export':
			checkannot(ctx, item.tree, m, sent, info, text)
		else:
			checkfunc(ctx, item.tree, fmt, text)


def checkfunc(ctx, tree, fmt, text):
	"""Function tags following a hyphen are recorded."""
	for node in tree.subtrees():
		lab = node.label
		x = lab.find('-')
		func = '--'
		if x > 0 and not lab[x + 1:].isdigit():
			func = lab[x + 1:].rstrip('=0123456789')
		ctx.eq(node.source[4], func, fmt + ' function tag', (lab, text))


def checkannot(ctx, tree, m, sent, info, text):
	nodes = list(tree.subtrees())
	ids = {}
	for i, node in enumerate(nodes[1:], 1):
		src = node.source
		if isinstance(node[0], Tree):
			ids[src[0][1:]] = i
			ctx.ok(src[0][0] == '#', 'export node id', '%r: %s', src, text)
		else:
			ctx.eq(src[0], sent[node[0]], 'export word field', text)
	ctx.eq(len(ids), sum(isinstance(a[0], Tree) for a in nodes[1:]),
			'export node ids not unique', text)
	for i, node in enumerate(nodes[1:], 1):
		src = node.source
		lemma, morph, func, sec = info[i] if info else ('--', '--', '--', [])
		ctx.eq(src[1], lemma, 'export lemma', text)
		ctx.eq(src[3], morph, 'export morphology', text)
		ctx.eq(src[4], func, 'export function', text)
		parent = node.parent
		ctx.eq(src[5], '0' if parent is tree else parent.source[0][1:],
				'export parent', text)
		got = [(a, ids.get(b)) for a, b in zip(src[6::2], src[7::2])]
		ctx.eq(got, sec, 'export secondary edges', text)


def applyopts(m, sent, info, func, morph, lem):
	"""Expected tree and sentence for the documented reader options."""
	sent = list(sent)
	cnt = [0]

	def rec(m):
		i = cnt[0]
		cnt[0] += 1
		lemma, mor, fu, _ = (info and info[i]) or ('--', '--', '--', [])
		lemma, mor = escaped(lemma), escaped(mor)
		lab = m[0]
		if g.preterminal(m):
			leaf = m[1][0]
			kids = (leaf, )
			if lem == 'add':
				sent[leaf] += '/' + lemma
			elif lem == 'replace':
				sent[leaf] = lemma
			elif lem == 'between':
				kids = ((lemma, kids), )
			if morph == 'add':
				lab += '/' + mor
			elif morph == 'replace':
				lab = mor
			elif morph == 'between':
				kids = ((mor, kids), )
		else:
			kids = tuple(rec(c) for c in m[1])
		if func == 'remove':
			for char in '-=':
				if lab.find(char) > 0:
					lab = lab[:lab.find(char)]
		elif i and func == 'add' and fu != '--':
			lab += '-' + fu
		elif i and func == 'replace':
			lab = fu
		elif i and func == 'between':
			return ('-' + fu, ((lab, kids), ))
		return (lab, kids)
	return rec(m), sent


def genopts(rng, ctx):
	fmt = rng.choice(['export', 'export', 'export', 'bracket', 'discbracket'])
	rng, fmt, enc, corpus = gencorpus(rng, ctx, fmt)
	func = rng.choice([None, 'leave', 'add', 'replace', 'remove', 'between'])
	morph = rng.choice([None, 'no', 'add', 'replace', 'between'])
	lem = rng.choice([None, 'no', 'add', 'replace', 'between'])
	if fmt != 'export':
		func, morph, lem = rng.choice([None, 'leave', 'remove']), None, None
	if func == 'remove' and (morph or lem == 'between'):
		# function tags would be removed from tags, morphology alike
		morph = lem = None
	if lem == 'between' or morph == 'between':
		if func in ('replace', 'between'):
			func = None
	return rng, fmt, enc, corpus, func, morph, lem, rng.random() < 0.3


def checkopts(case, ctx):
	rng, fmt, enc, corpus, func, morph, lem, ensureroot = case
	name = 'opts.' + fmt
	keys = [str(a) for a in range(1, len(corpus) + 1)]
	text, infos = write(ctx, rng, fmt, enc, corpus, name, keys)
	reader = READERS[fmt](name, encoding=enc, functions=func,
			morphology=morph, lemmas=lem,
			ensureroot='TOP' if ensureroot else None)
	items = list(reader.itertrees())
	ctx.eq(len(items), len(corpus), 'count', text)
	ctx.ev('reader options')
	desc = (fmt, func, morph, lem)
	for (m, sent, _), info, (_, item) in zip(corpus, infos, items):
		if fmt == 'bracket':
			sent = [w or '' for w in sent]
		em, es = applyopts(m, sent, info, func, morph, lem)
		if ensureroot and em[0] != 'TOP':
			em = ('TOP', (em, ))
		ctx.eq(g.tomodel(item.tree), em, 'tree with reader options',
				(desc, text))
		ctx.eq(item.sent, es, 'sentence with reader options', (desc, text))


def genmorph(rng, ctx):
	"""Morphology in labels is moved to the export field when writing."""
	n = g.size(rng)
	m = g.randtree(rng, n, disc=0.4)
	return rng, m, g.randsent(rng, n), rng.choice(['add', 'replace', None])


def checkmorph(case, ctx):
	rng, m, sent, how = case
	ctx.ev('reader options')

	def mark(m):
		if g.preterminal(m):
			return (m[0] + ('/sg.nom' if rng.random() < 0.7 else ''), m[1])
		return (m[0], tuple(mark(c) for c in m[1]))
	m = mark(m)
	out = writetree(g.totree(m, ParentedTree), sent, '1', 'export',
			morphology=how)
	with open('m.export', 'w') as f:
		f.write(out)
	item = next(READERS['export']('m.export').itertrees())[1]

	def strip(m):
		if g.preterminal(m):
			return (m[0].split('/')[0] if how == 'add' else m[0], m[1])
		return (m[0], tuple(strip(c) for c in m[1]))
	em = strip(m)
	ctx.eq(g.tomodel(item[0] if isinstance(item, tuple) else item.tree), em,
			'tree, writing with morphology', (how, out))
	want = {a[1][0]: a[0] for a in g.nodes(m) if g.preterminal(a)}
	for node in item.tree.subtrees(lambda x: isinstance(x[0], int)):
		lab = want[node[0]]
		exp = '--'
		if how == 'replace':
			exp = lab
		elif how == 'add' and '/' in lab:
			exp = lab.split('/')[1]
		ctx.eq(node.source[3], exp, 'morphology field when writing',
				(how, out))
	if how == 'add':  # and back
		again = next(READERS['export']('m.export', morphology='add'
				).itertrees())[1].tree
		ctx.eq({a[1][0]: a[0] if '/' in a[0] else a[0] + '/--'
				for a in g.nodes(m) if g.preterminal(a)},
				{a[0]: a.label for a in again.subtrees(
					lambda x: isinstance(x[0], int))}, 'morphology add', out)


def genalpino(rng, ctx):
	return gencorpus(rng, ctx, 'alpino')


def checkalpino(case, ctx):
	rng, fmt, enc, corpus = case
	os.makedirs('alp', exist_ok=True)
	for a in os.listdir('alp'):
		os.unlink('alp/' + a)
	infos = []
	for n, (m, sent, comment) in enumerate(corpus):
		sent[:] = [w or 'x' for w in sent]
		t = g.totree(m, ParentedTree)
		info = None
		if rng.random() < 0.5:
			info = annotate(rng, t)
		infos.append(info)
		ctx.ev('alpino trees')
		with open('alp/%d.xml' % n, 'w', encoding='utf8') as f:
			f.write(writetree(t, sent, str(n), 'alpino', comment=comment))
	reader = AlpinoCorpusReader('alp/*.xml')
	items = list(reader.itertrees())
	ctx.eq([k for k, _ in items], ['alp/%d' % n for n in range(len(corpus))],
			'alpino keys')

	def low(m):
		return (m[0].lower(), tuple(low(c) for c in m[1])) if isinstance(
				m, tuple) else m
	for (m, sent, _), info, (_, item) in zip(corpus, infos, items):
		ctx.eq(low(g.tomodel(item.tree)), low(m), 'alpino tree', sent)
		ctx.eq(item.sent, sent, 'alpino sentence', m)
		if info:
			for i, node in enumerate(item.tree.subtrees()):
				if i:
					ctx.eq(node.source[4], info[i][2], 'alpino function', m)
					if isinstance(node[0], int):
						ctx.eq(tuple(node.source[:2]) + (node.source[3], ),
								(sent[node[0]], info[i][0], info[i][1]),
								'alpino annotation', m)


def genxml(rng, ctx):
	fmt = rng.choice(['alpino', 'tiger', 'ftb'])
	corpus = []
	for n in range(rng.choice([1, 1, 2, 4])):
		size = g.size(rng)
		m = g.randtree(rng, size, disc=0 if fmt == 'ftb' else 0.5,
				root=dict(alpino='TOP', tiger='VROOT', ftb='SENT')[fmt])
		if fmt == 'alpino':
			m = xmlcase(m)
		elif fmt == 'ftb':
			m = compounds(rng, m)
		sent = [w for w in words(rng, size, 'utf8')]
		comment = rng.choice([None, 'Q#1|a b|1|2', 'x < y & z'])
		corpus.append((m, sent, comment if fmt == 'alpino' else None))
	return rng, fmt, corpus


def xmlcase(m):
	if not isinstance(m, tuple):
		return m
	return (m[0].lower() if g.preterminal(m) else m[0].upper(),
			tuple(xmlcase(c) for c in m[1]))


def compounds(rng, m):
	if not isinstance(m, tuple) or g.preterminal(m):
		return m
	lab = m[0]
	if lab != 'SENT' and all(map(g.preterminal, m[1])) and (
			rng.random() < 0.5):
		lab = 'MW' + rng.choice('NVD')
	return (lab, tuple(compounds(rng, c) for c in m[1]))


def checkxml(case, ctx):
	"""XML files written independently of the library."""
	rng, fmt, corpus = case
	os.makedirs('xml', exist_ok=True)
	for a in os.listdir('xml'):
		os.unlink('xml/' + a)
	infos, text, keys = [], '', []
	for n, (m, sent, comment) in enumerate(corpus, 1):
		if fmt == 'alpino':
			x, info = xmlw.alpino(rng, m, sent, comment=comment,
					header=rng.random() < 0.5)
			with open('xml/%d.xml' % n, 'w', encoding='utf8') as f:
				f.write(x)
			keys.append('xml/%d' % n)
		elif fmt == 'tiger':
			x, info = xmlw.tiger(rng, m, sent, 's%d' % n)
			keys.append('s%d' % n)
		else:
			x, info = xmlw.ftb(rng, m, sent, str(n))
			keys.append('c-%d' % n)
		text += x
		infos.append(info)
	if fmt != 'alpino':
		enc = rng.choice(['utf-8', 'utf-8', 'iso-8859-1', 'utf-16'])
		head, tail = (('<corpus id="x"><head><meta /></head><body>\n',
				'</body></corpus>') if fmt == 'tiger'
				else ('<text>\n', '</text>\n'))
		with open('xml/c.xml', 'wb') as f:
			f.write(('<?xml version="1.0" encoding="%s"?>\n%s%s%s' % (
					enc, head, text, tail)).encode(enc, 'xmlcharrefreplace'))
	reader = READERS[fmt]('xml/*.xml')
	items = list(reader.itertrees())
	ctx.eq([k for k, _ in items], keys, 'xml keys', text)
	for (m, sent, comment), info, key, (_, item) in zip(
			corpus, infos, keys, items):
		ctx.ev('xml trees')
		if len(g.nodes(m)) > 2 and len(sent) > 1:
			ctx.nontrivial((fmt, m, sent))
		compare(ctx, fmt, item.tree, item.sent, m, sent, text)
		if fmt != 'ftb':  # attributes of the sentence
			ctx.eq(item.comment, comment, fmt + ' comment', text)
		xmlannot(ctx, fmt, item.tree, info, sent, text)
		# convert to export format
		if any('%%' in w or w[0] == '#' for w in sent):
			continue
		out = writetree(item.tree, item.sent, '1', 'export',
				comment=item.comment if fmt != 'ftb' else None)
		with open('conv.export', 'w', encoding='utf8') as f:
			f.write(out)
		again, = READERS['export']('conv.export').trees().values()
		model = g.tomodel(item.tree)
		if fmt == 'tiger':  # root label is always ROOT
			again.label = m[0]
		ctx.eq((again.label, g.tomodel(again)[1]), (again.label, model[1]),
				fmt + ' converted tree', text)
		nodes = list(again.subtrees())
		ids = {a.source[0][1:]: k for k, a in enumerate(nodes)
				if k and isinstance(a[0], Tree)}
		for k, (x, node) in enumerate(zip(info, nodes)):
			if not k:
				continue
			ctx.eq(node.source[4], x['func'] or '--',
					fmt + ' converted function', (text, out))
			if 'lemma' in x:
				ctx.eq((node.source[1], node.source[3]), (x['lemma'],
						x['morph']), fmt + ' converted morphology',
						(text, out))
			sec = [(a, b) for a, b in x['sec'] if b]
			ctx.ev('converted secondary edges', len(sec))
			ctx.eq(sorted((a, ids.get(b)) for a, b in zip(node.source[6::2],
					node.source[7::2])), sorted(sec),
					fmt + ' converted secondary edges', (text, out))


def xmlannot(ctx, fmt, tree, info, sent, text):
	nodes = list(tree.subtrees())
	ctx.eq(len(nodes), len(info), fmt + ' nodes', text)
	ids = {}
	for k, (x, node) in enumerate(zip(info, nodes)):
		if fmt == 'alpino':
			ids[x['id']] = k
		elif fmt == 'tiger' and k and isinstance(node[0], Tree):
			ids[int(node.source[0][1:])] = k
	for k, (x, node) in enumerate(zip(info, nodes)):
		if not k:
			continue
		src = node.source
		ctx.eq(src[4], x['func'], fmt + ' function', text)
		if 'lemma' in x:
			ctx.eq((src[1], src[3]), (x['lemma'], x['morph']),
					fmt + ' annotation', text)
			if fmt != 'ftb':
				ctx.eq(src[0], x['word'], fmt + ' word field', text)
		sec = [(a, ids.get(int(b))) for a, b in zip(src[6::2], src[7::2])]
		ctx.ev('xml secondary edges', len(sec))
		ctx.eq(sec, [tuple(a) for a in x['sec']], fmt + ' secondary edges',
				text)


def streams(ctx):
	k = 20 if ctx.thorough else 1

	def s(fmt):
		return lambda rng, ctx: gencorpus(rng, ctx, fmt)
	return dict(
			export=(s('export'), check, 700 * k),
			bracket=(s('bracket'), check, 400 * k),
			discbracket=(s('discbracket'), check, 400 * k),
			options=(genopts, checkopts, 600 * k),
			morphology=(genmorph, checkmorph, 150 * k),
			alpino=(genalpino, checkalpino, 100 * k),
			xml=(genxml, checkxml, 500 * k))
