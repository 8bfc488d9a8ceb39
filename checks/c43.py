"""C43: the measure of syntactic complexity follows its definition."""
import contextlib
import io
import os
import tempfile
from discodop.tree import ParentedTree
from discodop.treebanktransforms import dlevel
from discodop.treebank import writetree, NegraCorpusReader

PLAN = dict(
	mods=['bit', 'containers'],
	rule='random trees with the categories, functions, morphological features '
	'and secondary edges of Alpino; about half of them random, the others '
	'grown around one criterion or a near miss of it; each also with state '
	'splits and features on labels, with children reversed, and after a round '
	'trip through the export format; nontrivial: level above 0; counted by tree',
	require={'trees': 2000, 'read back from export': 800,
		'criteria combined': 300, 'level 0': 60, 'level 1': 60, 'level 2': 60,
		'level 3': 60, 'level 4': 60, 'level 5': 60, 'level 6': 60,
		'level 7': 60},
)
CATS = ('SMAIN SV1 SSUB NP PP AP CONJ DU MWU INF TI OTI CP WHSUB WHREL REL '
		'PPART ADVP').split()
FUNCS = ('su obj1 obj2 mod vc hd det cnj crd body cmp predc obcomp sup '
		'-- mwp nucl sat').split()
POS = ['ww', 'vg', 'n', 'lid', 'vnw', 'vz', 'adj', 'bw', 'let']
NONFINITE = ('TI', 'OTI', 'INF')


class N:
	"""Node of a blueprint."""
	def __init__(self, label, func, children=(), feats=(), lemma='x'):
		self.label, self.func, self.children = label, func, list(children)
		self.feats, self.lemma, self.sec, self.id = feats, lemma, [], None
		self.parent = None

	def link(self):
		for c in self.children:
			c.parent = self
			c.link()

	def walk(self):
		yield self
		for c in self.children:
			yield from c.walk()


def leaf(rng, pos=None, func=None, feats=None, lemma=None):
	pos = pos or rng.choice(POS)
	if feats is None:
		feats = {'ww': rng.choice([('pv', 'tgw', 'ev'), ('inf', 'vrij'),
				('vd', 'prenom'), ('pv',), ('inf', 'nom')]),
				'vg': rng.choice([('neven',), ('onder',)])}.get(
				pos, rng.choice([(), ('soort', 'ev'), ('onderwerp',), ('pvx',)]))
	return N(pos, func or rng.choice(FUNCS), (), feats,
			lemma or rng.choice(['dat', 'omdat', 'x', 'Dat', 'en']))


def random(rng, depth):
	if depth == 0 or rng.random() < 0.25:
		if rng.random() < 0.7:
			return leaf(rng, rng.choice(['n', 'lid', 'vz', 'adj', 'vnw']))
		return leaf(rng)
	return N(rng.choice(CATS if rng.random() < 0.3 else ['NP', 'PP', 'AP', 'DU',
			'CONJ', 'PPART']), rng.choice(FUNCS[:-6] if rng.random() < 0.3 else
			['hd', 'det', 'cnj', 'obj1', 'su', 'mod', 'body']),
			[random(rng, depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))])


def pick(rng, want, others):
	"""What a criterion wants, or a near miss."""
	return want if rng.random() < 0.85 else rng.choice(others)


def criterion(rng):
	"""A subtree that meets a criterion, or almost."""
	x = rng.randrange(14)
	w = lambda: leaf(rng, 'n', 'hd')
	f = lambda a: pick(rng, a, FUNCS)
	c = lambda a: pick(rng, a, CATS)
	if x == 0:
		return N('SMAIN', 'cnj', [leaf(rng, 'ww', 'hd', pick(rng, ('pv', 'ev'),
				[('inf', )])) for _ in range(rng.choice([2, 3, 4]))]
				+ [leaf(rng, 'vg', 'crd', ('neven', ))
				for _ in range(rng.choice([0, 0, 1]))])
	if x == 1:
		return N(c('NP'), f('su'), [w(), N(c('REL'), f('mod'), [w()])])
	if x == 2:
		return N(rng.choice(['CP', 'WHSUB', 'WHREL', 'TI', 'OTI', 'INF', 'SSUB',
				'REL']), f('su'), [w(), w()])
	if x == 3:
		return N(c('NP'), f('su'), [w(), leaf(rng, 'ww', 'mod', ('vd', ))])
	if x == 4:
		return N('CP', f('mod'), [leaf(rng, pick(rng, 'vg', POS), 'cmp',
				pick(rng, ('onder', ), [('neven', ), ()])), w()])
	if x == 5:
		return N('CP', f('obcomp'), [w(), w()])
	if x in (6, 7, 8, 9):
		vc = N(rng.choice(NONFINITE + ('PPART', )), f('vc'), [w(), w()])
		sib = N('NP', f('obj1' if x < 8 else 'su'), [w()])
		if rng.random() < 0.3:
			sib = leaf(rng, 'n', sib.func)
		for _ in range(rng.choice([1, 1, 2])):
			sib.sec.append((f('su'), vc if rng.random() < 0.85 else None))
		ch = [sib, w(), vc]
		if rng.random() < 0.3:  # the same function or category again
			ch.append(N('NP', sib.func, [w()]))
		if rng.random() < 0.2:
			ch.append(N(rng.choice(NONFINITE), 'vc', [w()]))
		if rng.random() < 0.15:  # not a sibling
			ch = [N('NP', 'mod', [sib, w()]), vc]
		rng.shuffle(ch)
		return N('SMAIN', 'body', ch)
	if x == 10:
		return N(c('NP'), f('obj1'), [w(), N(c('REL'), f('mod'), [w()])])
	if x == 11:
		return N(c('NP'), f('obj1'), [w(), leaf(rng, 'ww', 'mod', ('vd', ))])
	if x == 12:
		return N(rng.choice(['CP', 'WHSUB', 'SSUB']), f('vc'), [w(), w()])
	return N(rng.choice(['NP', 'CONJ']), 'mod', [leaf(rng, 'n', f('sup')), leaf(
			rng, pick(rng, 'vg', POS), 'crd', pick(rng, ('neven', ),
			[('onder', ), ('neven', 'x')])), w()])


def gen(rng, ctx):
	if rng.random() < 0.15:
		body = [random(rng, rng.choice([1, 2, 3]))]
	else:
		body = [N('NP', 'obj2', [leaf(rng, 'lid', 'det'), leaf(rng, 'n', 'hd')])]
		body += [criterion(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
		while rng.random() < 0.3:
			body = [N(rng.choice(['SMAIN', 'DU', 'PP']), rng.choice(
					['body', 'hd', 'cnj']), body)]
	rng.shuffle(body)
	root = N('top', '--', body)
	for a in root.walk():
		if a.func == 'sup' and a.label in ('ww', 'REL', 'CP', 'WHSUB'):
			a.func = 'hd'  # a provisional subject is never a verb or clause
	return rng, root


def oracle(root):
	"""Levels whose criterion is met."""
	nodes = list(root.walk())
	levels = {0}
	pairs = [(a, a.parent) for a in nodes if a.parent is not None]
	words = [a for a in nodes if not a.children]
	finite = [a for a in words if a.label == 'ww' and 'pv' in a.feats]
	coord = [a for a in words if a.label == 'vg' and 'neven' in a.feats]
	if len(finite) - len(coord) > 2:
		levels.add(7)
	for func, level in [('su', 6), ('obj1', 3)]:
		if any(p.func == func and (a.label == 'REL' and a.func == 'mod'
				or a.label == 'ww' and p.label == 'NP') for a, p in pairs):
			levels.add(level)
	if any(a.func == 'su' and a.label in ('CP', 'WHSUB', 'WHREL', 'TI', 'OTI',
			'INF') for a in nodes):
		levels.add(6)
	if any(a.label == 'vg' and 'onder' in a.feats and a.lemma != 'dat'
			for a in words):
		levels.add(5)
	if any(a.func == 'obcomp' for a in nodes):
		levels.add(4)
	for func, level in [('obj1', 4), ('su', 1)]:
		if any(vc.func == 'vc' and vc.label in NONFINITE and sib.func == func
				and ('su', vc) in sib.sec for vc, p in pairs
				for sib in p.children):
			levels.add(level)
	if any(a.func == 'sup' or a.func == 'vc' and a.label in ('CP', 'WHSUB')
			for a in nodes):
		levels.add(3)
	if coord:
		levels.add(2)
	return levels


def build(root, rng, decorate=False, reverse=False):
	"""Turn blueprint into tree with export-style fields and its tokens."""
	root.link()
	if reverse is None:
		reverse = False
	ids = 499
	for node in reversed(list(root.walk())):
		if node.children and node.parent is not None:
			ids += 1
			node.id = ids
	sent = []

	def rec(node):
		if not node.children:
			t = ParentedTree(node.label, [len(sent)])
			sent.append('w%d' % len(sent))
			word = sent[-1]
			morph = '%s(%s)' % (node.label, ','.join(node.feats))
			tag = node.label
			style = rng.randrange(3) if decorate else 0
			if style == 1:
				morph = morph.replace('(', '[').replace(')', ']')
			elif style == 2:
				morph = morph.replace(',', '.')
		else:
			ch = [rec(a) for a in node.children]
			t = ParentedTree(node.label, ch[::-1] if reverse else ch)
			word = '#%d' % (node.id or 0)
			tag, morph = node.label, '--'
		func = node.func
		if decorate:
			t.label += rng.choice(['', '^X', '-y', '-y^Z'])
			if func != '--':
				func += rng.choice(['', '-XX'])
		t.source = [word, node.lemma if not node.children else '--', tag, morph,
				func, str(node.parent.id or 0) if node.parent else '0']
		for f, target in node.sec:
			t.source.extend([f, str(target.id if target else 999)])
		return t
	return rec(root), sent


def check(case, ctx):
	rng, root = case
	tree, sent = build(root, rng)
	levels = oracle(root)
	want = max(levels)
	ctx.ev('trees')
	ctx.ev('level %d' % want)
	ctx.ev('criteria combined', len(levels) > 2)
	before = repr(tree)
	ctx.eq(dlevel(tree), want, 'd-level', (tree, levels, [
			a.source for a in tree.subtrees()]))
	ctx.eq(repr(tree), before, 'tree changed by measuring it')
	if want:
		ctx.nontrivial((str(tree), want))
		ctx.sample((str(tree), want))
	for opts in (dict(decorate=True), dict(reverse=True),
			dict(decorate=True, reverse=True)):
		tree2, _ = build(root, rng, **opts)
		ctx.eq(dlevel(tree2), want, 'd-level with other labels or order',
				(tree2, opts, [a.source for a in tree2.subtrees()]))
	if rng.random() < 0.5 and sum(1 for _ in root.walk()) < 400:
		tree, sent = build(root, rng)
		with contextlib.redirect_stderr(io.StringIO()):
			block = writetree(tree, sent, '1', 'export', morphology='no')
		with tempfile.TemporaryDirectory() as tmp:
			fn = os.path.join(tmp, 'x.export')
			with open(fn, 'w', encoding='utf8') as out:
				out.write(block)
			for item in NegraCorpusReader(fn).itertrees():
				item = item[1]
		ctx.ev('read back from export')
		ctx.eq(dlevel(item.tree), want, 'd-level after reading export',
				(block, ))
	if rng.random() < 0.05:
		try:
			dlevel(tree, lang='en')
		except NotImplementedError:
			ctx.ev('other languages')
		else:
			ctx.fail('level for unsupported language', '%r', tree)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'trees': (gen, check, 6000 * k)}
