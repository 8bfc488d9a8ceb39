"""C14: treebank transformations keep tokens and undo cleanly."""
import os
import re
from discodop.tree import Tree, ParentedTree, HEAD
from discodop.treebanktransforms import (transform, reversetransform,
		rrtransform, rrbacktransform, expandpresets, collapselabels)
from discodop.treebank import handlefunctions, handlemorphology
import g

PLAN = dict(
	mods=['bit', 'containers'],
	rule='random trees (1-11 tokens, discontinuous, with function tags, '
	'morphology, lemmas and heads) over the label sets of the German, English, '
	'French and Dutch treebanks, times single transformations, presets and '
	'sequences; nontrivial: the transformation changed the tree; counted by '
	'tree and transformation',
	require={'transformed': 4000, 'reversed exactly': 2000, 'presets': 300,
		'rr-transform': 800, 'rr adjunctions': 300, 'functions': 300,
		'morphology': 300, 'state splits': 2000, 'exact annotation': 3000,
		'exact structure': 1500, 'restructured': 900,
		'transformations': 60, 'compounds undone': 700,
		'compounds kept': 500, 'compounds restored': 400, 'detailed tags': 500},
)
PHRASE = {
	'de': 'S NP VP PP CS CNP VZ AP AVP PN DL CVP CAP',
	'en': 'S NP VP PP SBAR ADJP ADVP WHNP QP SQ PRN',
	'fr': 'SENT NP VN VPinf VPpart PP COORD Srel Ssub AP MWN MWADV MWP',
	'nl': 'SMAIN NP PP INF CONJ MWU SSUB PPART SV1 DU',
}
TAGS = {
	'de': 'NN NE VVFIN VAFIN VVINF PTKVZ ART APPR KOUS PRELS PTKANT PPER CARD '
	'ADJA ADJD ADV KON PWS $, $.',
	'en': "NN NNS VB VBD VBZ VBG TO MD IN CC DT RB POS JJ , . ''",
	'fr': 'N V P D A C CL ADV PRO PONCT ET',
	'nl': 'n vnw verb let det adj prep bw vg',
}
FUNCS = {
	'de': 'SB HD OC MO NK AC CJ CP DM SVP PNC RC CD OA --',
	'en': 'SBJ TMP ADV LOC-CLR PRD -- -- --',
	'fr': 'SUJ OBJ MOD A-OBJ -- -- --',
	'nl': 'hd su obj1 mod cnj crd vc body det -- --',
}
WORDS = {
	'de': 'in von auf und weder als oder entweder sowohl der Hund 1999 , . ?',
	'en': "% but & is 's has was not the dog 1999 2001 , . ! of",
	'fr': "de du d' - la France 1999 , .",
	'nl': 'de het van kat , . ! 1999 zit',
}
# name -> (language, kind); kind: label (only adds state splits), reversible,
# tokens (only checked for keeping tokens)
SPLITS = {
	'de': 'S-RC VP-GF NP lexPrep adjAttach relPath whFeat nounSeq properChunks '
	'markAP subConjType VPfeat noHead noSubj',
	'en': 'S-WH VP-HD S-INF MARK-UNARY splitIN splitIN4 splitPercent splitPoss '
	'splitCC unaryDT unaryRB splitAux splitAux2 splitVP splitVP3 splitSGapped '
	'splitTMP splitBaseNP dominatesV splitNPADV markDitransV',
	'fr': 'markinf markpart markvn coord1 de2 de3 markp1 mwadvs mwadvsel1 '
	'mwadvsel2 mwnsel1 mwnsel2 mwnsel3',
	'nl': 'nlpercolatemorph nlmwuhead',
}
GENERIC = 'MARK-YEAR PUNCT PARENT TAGPA NP-PP APPEND-MORPH'
REVERSIBLE = {
	'de': 'DP SBAR PP-NP addUnary addCase elimNKCJ VP-FIN_NEGRA POS-PART',
	'en': '', 'fr': '',
	'nl': 'nladdunary nlelimcnj nlselectmorph',
}
GENREV = 'FANOUT FUNC-NODE MORPH-NODE LEMMA-NODE APPEND-FUNC'
TOKENS = {'de': 'NEST', 'en': 'VP-FIN_WSJ PTBbrackets', 'fr': 'ftbraisecompl',
		'nl': ''}
# labels / tags / functions for which transformations do something
TRIGGER = {
	'DP': 'NP NP PN / ART / NK', 'SBAR': 'S S NP / KOUS NN / CP CP SB',
	'PP-NP': 'PP PP NP PN / APPR NN ART / AC NK NK MO',
	'addUnary': 'S VP DL NP PN / NN PPER PDS PRELS CARD / SB',
	'elimNKCJ': 'NP PP CNP CS S / NN KON / NK CJ CD HD',
	'VP-FIN_NEGRA': 'S S VP CS NP / VVFIN VAFIN NN PTKVZ / HD OA SVP DM SB',
	'POS-PART': 'S VP NP / VVFIN PTKVZ NN / SVP HD SB',
	'NEST': 'NP NP PP / NN ADJA / MO MO NK', 'S-RC': 'S NP / NN / RC',
	'lexPrep': 'PP S / APPR KON / CD', 'relPath': 'S NP PP / PRELS PWS / RC RC',
	'adjAttach': 'S NP PP AVP AVP VP / ADV ADJD / MO',
	'whFeat': 'NP PP / PWS PWAT / NK', 'nounSeq': 'NP NP / NN NN / NK',
	'properChunks': 'NP / NE NN / PNC', 'markAP': 'AP AP NP / ADJD NN / NK',
	'subConjType': 'S S / KOUS NN / SB OC MO RE', 'VPfeat': 'VP VP NP/ VVINF / OC',
	'noHead': 'S NP / NN / HD PNC AC SB', 'noSubj': 'S CS / VVIMP NN / CJ SB EP',
	'nladdunary': 'SMAIN PP INF NP / n vnw verb / su', 'nlelimcnj':
	'CONJ NP / n let vg / cnj cnj crd', 'VP-FIN_WSJ': 'S VP NP / VBD MD NN / SBJ',
	'splitTMP': 'NP PP / NN / TMP', 'markDitransV': 'VP NP / VBD NN / SBJ',
}
PRESETS = {'de': ['negra', 'fraser2013tiger'], 'en': ['wsj', 'km2003wsj',
		'km2003simple'], 'fr': ['green2013ftb'], 'nl': ['alpino', 'lassy',
		'lassy-func']}
for d in (PHRASE, TAGS, FUNCS, WORDS, SPLITS, REVERSIBLE, TOKENS):
	for k in d:
		d[k] = d[k].split()
GENERIC, GENREV = GENERIC.split(), GENREV.split()
ADDUNARY = {'NN', 'PPER', 'PDS', 'PIS', 'PRELS', 'CARD', 'PN'}


def gen(rng, ctx):
	lang = rng.choice(['de', 'de', 'en', 'fr', 'nl'])
	n = rng.randint(1, 11)
	k = rng.choice([3, 5, 99])
	labels = rng.sample(PHRASE[lang], min(k, len(PHRASE[lang])))
	tags = rng.sample(TAGS[lang], min(rng.choice([4, 6, 99]), len(TAGS[lang])))
	funcs = FUNCS[lang]
	focus = rng.choice(sorted(set(SPLITS[lang] + GENERIC + REVERSIBLE[lang]
			+ GENREV + TOKENS[lang])))
	if (REVERSIBLE[lang] or TOKENS[lang]) and rng.random() < 0.4:
		focus = rng.choice(REVERSIBLE[lang] + TOKENS[lang])
	if focus in TRIGGER and rng.random() < 0.7:
		a, b, c = [x.split() for x in TRIGGER[focus].split('/')]
		labels, tags = a + labels[:1], b + tags[:2]
		funcs = c + rng.sample(funcs, 2)
	m = g.randtree(rng, n, disc=0.4, labels=labels, tags=tags,
			maxar=rng.choice([3, 5]), root=None, unary=0.15)
	if g.preterminal(m) or rng.random() < 0.5:
		m = (labels[0], (m, ))
	m = ('ROOT', (m, ))
	ann = [(rng.choice(funcs), rng.choice(['--', 'Nom.Sg', 'Acc.Pl.*',
			'N(soort,ev,basis,pv)', 'WW(inf,vrij)', 'LID(bep)']),
			rng.choice(['--', 'lem', 'l(x)', 'été']), rng.random())
			for _ in g.nodes(m)]
	sent = [rng.choice(WORDS[lang]) for _ in range(n)]
	return rng, lang, m, ann, sent, focus


def make(m, ann, heads=True):
	tree = g.totree(m, ParentedTree)
	for i, (node, (func, morph, lemma, p)) in enumerate(zip(
			tree.subtrees(), ann)):
		pre = not isinstance(node[0], Tree)
		node.source = ['w%d' % node[0] if pre else '#%d' % (500 + i),
				lemma if pre else '--', node.label, morph if pre else '--',
				func if i else '--', '0']
		if heads and not pre:
			node[int(p * len(node))].type = HEAD
	return tree


def wellformed(ctx, tree, n, desc):
	seen = set()
	ctx.eq(sorted(tree.leaves()), list(range(n)), 'tokens', (str(tree), desc))
	ctx.ok(tree.parent is None, 'root', '%r', desc)
	for node in tree.subtrees():
		ctx.ok(node.children, 'empty constituent', '%s %r', str(tree), desc)
		ctx.ok(id(node) not in seen, 'node occurs twice', '%s %r', str(tree),
				desc)
		seen.add(id(node))
		mins = []
		for i, c in enumerate(node.children):
			if isinstance(c, Tree):
				ctx.ok(c.parent is node and c.parent_index == i, 'parent link',
						'%s %r', str(tree), desc)
				mins.append(min(c.leaves()))
			else:
				mins.append(c)
				ctx.eq(len(node), 1, 'preterminal', (str(tree), desc))
		ctx.eq(mins, sorted(mins), 'linear precedence', (str(tree), desc))


def kids(m):
	return [c for c in m[1] if isinstance(c, tuple)]


def blocked(name, m, ann):
	"""Whether an exact reversal is not to be expected: the tree already
	contains the configuration that marks a transformed constituent."""
	nodes = g.nodes(m)
	func = {id(x): a[0] for x, a in zip(nodes, ann)}
	heads = {id(x): a[3] for x, a in zip(nodes, ann)}
	for x in nodes:
		labs = [c[0] for c in kids(x)]
		if name == 'PP-NP' and x[0] == 'PP' and ('NP' in labs or 'NN' in labs):
			return True
		elif name == 'SBAR' and (x[0] == 'SBAR' or (
				x[0] == 'S' and labs == ['PTKANT', 'S']) or (
				x[0] == 'S' and labs[:1] == ['S'])):
			return True  # NB: complementizers are not clauses
		elif name == 'addUnary' and x[0] in ('S', 'VP', 'ROOT', 'DL') and any(
				c[0] == 'NP' and len(c[1]) == 1 and kids(c)
				and kids(c)[0][0] in ADDUNARY for c in kids(x)):
			return True
		elif name == 'nladdunary' and x[0] in ('SMAIN', 'PP', 'INF') and any(
				c[0] == 'NP' and len(c[1]) == 1 and kids(c)
				and kids(c)[0][0] in ('n', 'vnw') for c in kids(x)):
			return True
		elif name == 'VP-FIN_NEGRA':
			# S with VP that has a finite verb counts as introduced
			if x[0] == 'S' and any(c[0] == 'VP' and any(
					d[0].endswith('FIN') for d in kids(c)) for c in kids(x)):
				return True
			if any(c[0].endswith('FIN') and func[id(c)] not in ('HD AC DA MO '
					'NG OA OA2 OC OG PD VO SVP').split() for c in kids(x)):
				return True
			if any(func[id(c)] == 'DM' for c in kids(x)):
				return True  # discourse markers: not undone
		elif name == 'POS-PART':
			particles = [c for c in kids(x) if func[id(c)] == 'SVP']
			if len(particles) > 1 or any(c[0] != 'PTKVZ' for c in particles):
				return True
			if x[0].startswith('V') and len(x[1]) == 2 and 'PTKVZ' in labs:
				return True
			if particles and not kids(x)[int(heads[id(x)] * len(x[1]))][
					0].startswith('V'):
				return True
	return False


def functionsok(name, m, ann):
	"""Whether functions are restored as well."""
	nodes = g.nodes(m)
	if name in ('FUNC-NODE', 'APPEND-FUNC'):
		return True
	if name == 'elimNKCJ':
		func = {id(x): a[0] for x, a in zip(nodes, ann)}
		for x in nodes:
			for c in kids(x):
				f = func[id(c)]
				if (f == 'NK') != (x[0] in ('NP', 'PP') and f in ('NK', 'HD')):
					return False
				if (x[0] in ('CS', 'CNP', 'CVP', 'CAP', 'CAVP', 'CAC')
						) != (f == 'CJ') and f != 'CD':
					return False
				if f == 'CJ' and func[id(x)] in ('CD', '--'):
					return False  # looks like conjunction or punctuation
		return True
	return False


def exact(name, m, ann, sent):
	"""Independent definition of simple annotations; maps node to suffix."""
	parent = {id(c): x for x in g.nodes(m) for c in kids(x)}
	result = []
	punct = set('.,():-";?/!*&`[]<>{}|=') | {'--', '..', '...', '....', "''",
			'``', ',,'}
	for x, (func, morph, lemma, _) in zip(g.nodes(m), ann):
		pre = g.preterminal(x)
		word = sent[x[1][0]] if pre else None
		p = parent.get(id(x))
		func = '--' if p is None else func
		s = ''
		if name == 'MARK-YEAR':
			s = '^year' if pre and re.match('(19|20)[0-9][0-9]$', word) else ''
		elif name == 'PUNCT':
			s = '^' + word if pre and word in ('.', '?', '!') else ''
		elif name == 'PARENT':
			s = '^' + p[0] if p and not pre else ''
		elif name == 'TAGPA':
			s = '^' + p[0] if pre and word not in punct else ''
		elif name == 'NP-PP':
			s = '^NP' if p and x[0] == 'PP' and p[0] == 'NP' else ''
		elif name == 'S-RC':
			s = '^RC' if x[0] == 'S' and func == 'RC' else ''
		elif name in ('NP', 'VP-GF'):
			s = '^' + func.split('-')[0] if x[0] == name[:2] else ''
		elif name == 'MARK-UNARY':
			s = '^U' if len(x[1]) == 1 and not pre else ''
		elif name == 'splitPercent':
			s = '^%' if word == '%' else ''
		elif name in ('unaryDT', 'unaryRB'):
			s = '^U' if x[0] == name[-2:] and len(p[1]) == 1 else ''
		elif name == 'splitBaseNP':
			s = '^B' if x[0] == 'NP' and all(map(g.preterminal, x[1])) else ''
		elif name == 'dominatesV':
			s = '^v' if x[0] == 'VP' and any(y[0][0] == 'V' or y[0] == 'MD'
					for y in g.nodes(x) if g.preterminal(y)) else ''
		elif name == 'APPEND-MORPH':
			s = '^' + morph.replace('(', '[').replace(')', ']') if pre else ''
		elif name == 'APPEND-FUNC':
			s = '-' + func if func != '--' else ''
		elif name == 'FANOUT':
			f = g.fanout(x)
			s = '_%d' % f if f > 1 else ''
		elif name == 'whFeat':
			s = '^wh' if x[0] in ('NP', 'PP') and any(c[0] in ('PWAT', 'PWS',
					'PWAV') for c in kids(x)) else ''
		elif name == 'properChunks':
			s = '^name' if p and p[0] == 'NP' and dict(zip(map(id, g.nodes(m)),
					[a[0] for a in ann]))[id(p)] == 'PNC' else ''
		else:
			return german(name, m, ann, sent)
		result.append(x[0] + s)
	return result


def canon(x):
	return x if not isinstance(x, tuple) else (x[0], tuple(sorted(
			map(canon, x[1]), key=lambda c: min(g.leaves(c))
			if isinstance(c, tuple) else c)))


def german(name, m, ann, sent):
	"""Independent definition of state splits; maps node to new label."""
	nodes = g.nodes(m)
	func = {id(x): '' if a[0] == '--' or x is m else a[0].split('-')[0]
			for x, a in zip(nodes, ann)}
	head = {id(x): kids(x)[int(a[3] * len(x[1]))]
			for x, a in zip(nodes, ann) if not g.preterminal(x)}
	parent = {id(c): x for x in nodes for c in kids(x)}
	suffix = {id(x): '' for x in nodes}

	def add(x, s):
		suffix[id(x)] += '^' + s
	for x in nodes:
		lab, f, ch = x[0], func[id(x)], kids(x)
		pre = g.preterminal(x)
		if name == 'lexPrep':
			word = sent[x[1][0]].lower() if pre else ''
			if pre and (lab == 'APPR' and word in ('in von auf durch um unter '
					'unters unterm').split() or lab == 'KON' and f == 'CD'
					and (word in 'sowohl als weder entweder noch'.split()
					or word == 'oder' and 'entweder' in [w.lower()
					for w in sent[:x[1][0]]])):
				add(x, word)
		elif name == 'adjAttach':
			if lab in ('PP', 'AVP', 'ADV', 'ADJD'):
				p = parent[id(x)][0]
				a = dict(S='V', VP='V', NP='N', PP='N').get(p, '0')
				add(x, a)
				if lab == 'AVP' and not pre:
					add(head[id(x)], a)
		elif name == 'relPath':
			if lab == 'S' and f == 'RC':
				pron = [y for y in g.nodes(x) if y[0] in ('PRELS', 'PRELAT',
						'PWAV', 'PWS')]
				y = parent[id(pron[0])] if pron else x
				while y is not x:
					add(y, 'rel')
					y = parent[id(y)]
				add(x, 'rel' if pron else 'norel')
		elif name == 'nounSeq':
			labs = [c[0] for c in ch]
			if lab == 'NP':
				for n in range(len(ch) - 1):
					if labs[n:n + 2] == ['NN', 'NN']:
						add(ch[n], 'seq')
						break
		elif name == 'markAP':
			if lab == 'AP':
				if any(y[0] == 'ADJD' for y in g.nodes(x)):
					add(x, 'pred')
				if not pre and head[id(x)][0] in ('NN', 'NP'):
					add(x, 'nom')
		elif name == 'subConjType':
			kous = [c for c in ch if c[0] == 'KOUS']
			if lab == 'S' and f in ('SB', 'OC', 'MO', 'RE') and kous:
				add(kous[0], f)
		elif name == 'VPfeat':
			if lab == 'VP' and f == 'OC' and not pre:
				add(x, head[id(x)][0])
		elif name == 'noHead':
			if x is not m and not pre and not {func[id(c)] for c in ch} & set(
					'HD PNC AC AVC NMC PH PD ADC UC DH'.split()):
				add(x, 'nohead')
		elif name == 'noSubj':
			if lab == 'S' and f == 'CJ' and not pre and not any(
					func[id(c)] in ('SB', 'EP') or c[0] in ('VVIMP', 'VAIMP')
					for c in ch):
				add(x, 'nosubj')
		else:
			return None
	return [x[0] + suffix[id(x)] for x in nodes]


def restructured(name, m, ann):
	"""Independent definition of transformations of the structure."""
	nodes = g.nodes(m)
	func = {id(x): '' if a[0] == '--' or x is m else a[0].split('-')[0]
			for x, a in zip(nodes, ann)}
	head = {id(x): kids(x)[int(a[3] * len(x[1]))]
			for x, a in zip(nodes, ann) if not g.preterminal(x)}

	def rec(x):
		if not isinstance(x, tuple) or g.preterminal(x):
			return x
		lab, ch = x[0], list(x[1])
		fs, labs = [func[id(c)] for c in ch], [c[0] for c in ch]
		new = [rec(c) for c in ch]
		if name == 'DP' and lab == 'NP' and labs[0] == 'ART':
			if len(ch) > 1 and labs[1] != 'PN':
				new[1:] = [('NP', tuple(new[1:]))]
			lab = 'DP'
		elif name == 'SBAR' and lab == 'S' and fs[0] == 'CP' and len(ch) > 1:
			return ('SBAR', (new[0], ('S', tuple(new[1:]))))
		elif name == 'addUnary' and lab in ('S', 'VP', 'ROOT', 'DL'):
			new = [('NP', (y, )) if c[0] in ADDUNARY and not (
					c[0] == 'PN' and len(c[1]) == 1) else y
					for c, y in zip(ch, new)]
		elif name == 'PP-NP' and lab == 'PP':
			pp = [f == 'AC' for f in fs]
			if 'AC' in fs and 'NK' in fs:
				first, last = fs.index('AC'), len(fs) - 1 - fs[::-1].index('AC')
				for i in range(len(fs)):
					if (i < first and first < fs.index('NK')) or (i > last
							and last > len(fs) - 1 - fs[::-1].index('NK')):
						pp[i] = True
			rest = [y for y, a in zip(new, pp) if not a]
			if any(pp) and rest and (len(rest) > 1 or labs[
					pp.index(False)] not in ('NP', 'PN')):
				new = [y for y, a in zip(new, pp) if a] + [('NP', tuple(rest))]
		elif name == 'POS-PART' and 'SVP' in fs:
			svp = len(fs) - 1 - fs[::-1].index('SVP')
			hd = [c is head[id(x)] for c in ch].index(True)
			if hd != svp and labs[hd] != lab:
				new[hd] = (labs[hd], (new[hd], new[svp]))
				del new[svp]
		elif name == 'NEST' and lab == 'NP' and 'MO' in fs:
			mods = [i for i, f in enumerate(fs) if f == 'MO']
			if mods[0] == 0:
				mods.reverse()
			# the last one is attached highest
			todo, outer = list(range(len(ch))), []
			while mods and len(todo) > 1:
				outer.append(mods.pop())
				todo.remove(outer[-1])
			result = (lab, tuple(new[i] for i in todo))
			for i in reversed(outer):
				result = (lab, (result, new[i]))
			return result
		return (lab, tuple(new))
	if name not in ('DP', 'SBAR', 'addUnary', 'PP-NP', 'POS-PART', 'NEST'):
		return None
	return canon(rec(m))


def check(case, ctx):
	rng, lang, m, ann, sent, focus = case
	which = rng.random()
	kinds = dict.fromkeys(SPLITS[lang] + GENERIC, 'split')
	kinds.update(dict.fromkeys(REVERSIBLE[lang] + GENREV, 'reversible'))
	kinds.update(dict.fromkeys(TOKENS[lang], 'tokens'))
	if which < 0.6:
		names = [focus]
	elif which < 0.75:
		names = [rng.choice(PRESETS[lang])]
		ctx.ev('presets')
	else:  # state splits with a reversible transformation
		names = rng.sample(SPLITS[lang] + GENERIC, rng.randint(2, 3))
		if rng.random() < 0.5 and which < 0.9:
			names.insert(0, rng.choice(GENREV))
			if names[0].endswith('NODE'):
				# intervening nodes
				names[1:] = [rng.choice(GENREV[:1])] if rng.random() < 0.5 \
						else []
	desc = (names, m, [a[:3] for a in ann], sent)
	tree = make(m, ann)
	if any(a in ('S-INF', 'VP-HD', 'splitIN', 'splitIN4', 'markp1', 'wsj',
			'km2003wsj', 'km2003simple', 'green2013ftb') for a in names):
		if any(g.preterminal(c) for c in m[1]):
			return
	newsent = list(sent)
	result = transform(tree, newsent, expandpresets(names))
	ctx.ok(result is tree, 'in place', '%r', desc)
	if names != ['PTBbrackets']:
		ctx.eq(newsent, sent, 'sentence', desc)
	ctx.ev('transformed')
	ctx.sigs_t = getattr(ctx, 'sigs_t', set())
	for a in expandpresets(names):
		if a not in ctx.sigs_t:
			ctx.sigs_t.add(a)
			ctx.ev('transformations')
	wellformed(ctx, tree, len(sent), desc)
	t = g.tomodel(tree)
	if t != m:
		ctx.nontrivial((m, tuple(names)))
	allkinds = {kinds.get(a, 'preset') for a in names}
	if allkinds == {'split'}:
		ctx.ev('state splits')
		ctx.eq(len(g.nodes(t)), len(g.nodes(m)), 'structure', (t, desc))
		for a, b in zip(g.nodes(t), g.nodes(m)):
			ctx.eq([g.leaves(a), len(a[1])], [g.leaves(b), len(b[1])],
					'structure', (t, desc))
			ctx.ok(a[0] == b[0] or a[0].startswith(b[0] + '^'),
					'state split', '%r %r %r', a[0], b[0], desc)
	if len(names) == 1:
		labels = exact(names[0], m, ann, sent)
		if labels is not None:
			ctx.ev('exact annotation')
			ctx.eq([a[0] for a in g.nodes(t)], labels, 'annotation', desc)
		if names[0] in ('FUNC-NODE', 'MORPH-NODE', 'LEMMA-NODE'):
			ctx.ev('exact annotation')
			ctx.eq(t, inserted(names[0], m, dict(zip(map(id, g.nodes(m)),
					ann)), True), 'inserted nodes', desc)
		want = restructured(names[0], m, ann)
		if want is not None:
			ctx.ev('exact structure')
			ctx.ev('restructured', want != canon(m))
			ctx.ev('restructured ' + names[0], want != canon(m))
			ctx.eq(t, want, 'structure ' + names[0], desc)
	# reverse
	back = tree if rng.random() < 0.5 else tree.copy(True)
	asparse = rng.random() < 0.4
	if asparse:  # as parser output
		back = g.totree(t, ParentedTree)
	back = reversetransform(back, sent, expandpresets(names))
	wellformed(ctx, back, len(sent), (t, desc))
	b = g.tomodel(back)
	for x in g.nodes(b):
		ctx.ok('^' not in x[0][1:], 'state split remains', '%r %r', x[0], desc)
	if 'tokens' not in allkinds and 'preset' not in allkinds and not any(
			blocked(a, m, ann) for a in names):
		ctx.ev('reversed exactly')
		ctx.ev('reversed ' + (names[0] if kinds[names[0]] == 'reversible'
				else 'splits'))
		ctx.eq(b, m, 'reversed', (t, desc))
		if len(names) == 1 and functionsok(names[0], m, ann) and not (
				asparse and names[0] == 'elimNKCJ'):
			ctx.eq([x.source[4] if x.source else '--'
					for x in back.subtrees()][1:], [a[0] for a in ann][1:],
					'functions restored', (t, desc))
	elif names[0] in ('negra', 'wsj', 'km2003wsj', 'km2003simple', 'alpino',
			'green2013ftb'):
		ctx.eq(b, m, 'preset reversed', (t, desc))
	if rng.random() < 0.15:
		functions(ctx, rng, m, ann, sent)


def inserted(name, x, ann, top=False):
	if not isinstance(x, tuple):
		return x
	func, morph, lemma, _ = ann[id(x)]
	kids = tuple(inserted(name, c, ann) for c in x[1])
	if name == 'FUNC-NODE':
		if not top and func != '--':
			return ('-' + func, ((x[0], kids), ))
	elif g.preterminal(x):
		if name == 'MORPH-NODE':
			return (morph.replace('(', '[').replace(')', ']'), ((x[0], kids), ))
		return (x[0], ((lemma.replace('(', '#LRB#').replace(')', '#RRB#'),
				kids), ))
	return (x[0], kids)


def functions(ctx, rng, m, ann, sent):
	"""Function tags and morphology when reading a treebank."""
	pos, root = rng.random() < 0.5, rng.random() < 0.5
	action = rng.choice([None, 'leave', 'add', 'replace', 'remove', 'between'])
	tree = make(m, ann, False)
	ctx.ev('functions')
	handlefunctions(action, tree, pos=pos, root=root)

	def apply(x, top=False):
		if not isinstance(x, tuple):
			return x
		func = '--' if top else lookup[id(x)][0]
		new = (x[0], tuple(apply(c) for c in x[1]))
		if action == 'remove':
			return (re.match('.[^-=]*', x[0]).group(), new[1])
		if (top and not (root and action != 'between')) or (
				not pos and g.preterminal(x)):
			return new
		if action == 'add':
			return (x[0] + ('-' + func if func != '--' else ''), new[1])
		elif action == 'replace':
			return (func, new[1])
		elif action == 'between':
			return ('-' + func, (new, ))
		return new
	lookup = dict(zip(map(id, g.nodes(m)), ann))
	ctx.eq(g.tomodel(tree), apply(m, True), 'handlefunctions',
			(action, pos, root, m))
	if action == 'add':
		handlefunctions('remove', tree)
		ctx.eq(g.tomodel(tree), m, 'functions removed', (pos, root, m))
	# morphology
	action = rng.choice([None, 'no', 'add', 'replace', 'between'])
	lemmas = rng.choice([None, None, 'between', 'add', 'replace'])
	tree = make(m, ann, False)
	newsent = list(sent)
	ctx.ev('morphology')
	for node in list(tree.subtrees(lambda n: not isinstance(n[0], Tree))):
		handlemorphology(action, lemmas, node, node.source, newsent)
	wants = list(sent)

	def brack(s):
		return s.replace('(', '[').replace(')', ']').replace(' ', '_')

	def morph(x):
		if not g.preterminal(x):
			return (x[0], tuple(morph(c) for c in x[1]))
		_, mo, lemma, _ = lookup[id(x)]
		mo, lemma = brack(mo), brack(lemma)
		i = x[1][0]
		new = i
		if lemmas == 'add':
			wants[i] += '/' + lemma
		elif lemmas == 'replace':
			wants[i] = lemma
		elif lemmas == 'between':
			new = (lemma, (i, ))
		if action == 'add':
			return (x[0] + '/' + mo, (new, ))
		elif action == 'replace':
			return (mo, (new, ))
		elif action == 'between':
			return (x[0], ((mo, (new, )), ))
		return (x[0], (new, ))
	want = morph(m)
	ctx.eq((g.tomodel(tree), newsent), (want, wants), 'handlemorphology',
			(action, lemmas, m))


# relational-realizational


def genrr(rng, ctx):
	rng, lang, m, ann, sent = gen(rng, ctx)[:5]
	adj = rng.choice([None, 'MO', 'mod', 'HD'])
	ignore = rng.choice([None, (), ('HD', ), ('SB', 'NK', 'hd')])
	cats = rng.choice([None, (), ('NP', 'NN', 'n')])
	levels = rng.choice([0, 0, 1, 2, 3])
	perc = rng.choice([None, {'Nom', 'ev', 'Sg', 'inf'}])
	return (rng, m, ann, sent, adj, ignore, cats, levels, perc,
			rng.random() < 0.7, rng.random() < 0.7)


def checkrr(case, ctx):
	rng, m, ann, sent, adj, ignore, cats, levels, perc, left, right = case
	ann = [(a[0].split('-')[0] or '--', ) + a[1:] for a in ann]
	tree = make(m, ann)
	for node in tree.subtrees():
		if '-' in node.label:
			return
	desc = (m, ann, adj, ignore, cats, levels, perc, left, right)
	kw = {}
	if ignore is not None:
		kw['ignorefunctions'] = ignore
	if cats is not None:
		kw['ignorecategories'] = cats
	new = rrtransform(tree, morphlevels=levels, percolatefeatures=perc,
			adjunctionlabel=adj, adjleft=left, adjright=right, **kw)[0]
	ctx.ev('rr-transform')
	ctx.eq(g.tomodel(tree), m, 'original tree unchanged', desc)
	lookup = dict(zip(map(id, g.nodes(m)), ann))
	ign, ignc = ignore or (), cats or ()
	got = g.tomodel(new)

	def arg(c):
		f = lookup[id(c)][0]
		return f != adj and f not in ign and c[0] not in ignc

	def unify(feats):
		sep = '.' if any('.' in f for f in feats) else ','
		r = set()
		for f in feats:
			if '[' in f:
				f = f[f.index('[') + 1:f.index(']')]
			r |= set(f.split(sep))
		if perc:
			r &= perc
		return sep.join(sorted(r - {'*', '--'}))

	def rr(x):
		"""Returns new tree, features, levels"""
		_, morph, _, _ = lookup[id(x)]
		if g.preterminal(x):
			mo = morph.replace('(', '[').replace(')', ']')
			return ('%s/%s' % (x[0], mo), x[1]), (
					mo if levels else None), levels
		res = [rr(c) for c in x[1]]
		funcs = ','.join(sorted(lookup[id(c)][0] for c in x[1] if arg(c)))
		ch = []
		for n, (c, r) in enumerate(zip(x[1], res)):
			f = lookup[id(c)][0]
			if f == adj:
				ctx.ev('rr adjunctions')
				prv = [lookup[id(d)][0] for d in x[1][:n] if arg(d)]
				nxt = [lookup[id(d)][0] for d in x[1][n + 1:] if arg(d)]
				a = prv[-1] if prv and left else ''
				b = nxt[0] if nxt and right else ''
				if a or b:
					f = '%s:%s' % (a, b)
			ch.append(('%s/%s' % (f, x[0]), (r[0], )))
		feats = [r[1] for r in res if r[1] and r[2]]
		lvls = [r[2] for r in res if r[1] and r[2]]
		mo, lvl = None, 0
		if feats and x[0] != 'ROOT':
			mo, lvl = unify(feats), max(lvls) - 1
		return ('%s-%s' % (x[0], mo) if mo else x[0], (
				('%s/<%s>' % (x[0], funcs), tuple(ch)), )), mo, lvl
	ctx.eq(got, rr(m)[0], 'rr-transform', desc)
	back = rrbacktransform(new, adj)
	ctx.eq(g.tomodel(back), m, 'rr-backtransform', (got, desc))
	ctx.eq([a.source[4] for a in back.subtrees()][1:], [a[0] for a in ann][1:],
			'functions after rr-backtransform', (got, desc))
	ctx.eq([a.source[3] for a in back.subtrees()
			if not isinstance(a[0], Tree)], [a[1] for a, x in zip(ann,
			g.nodes(m)) if g.preterminal(x)],
			'morphology after rr-backtransform', (got, desc))
	ctx.nontrivial((m, adj, ignore, cats, levels))


def gencollapse(rng, ctx):
	from discodop.treebanktransforms import MAPPINGS
	tb = rng.choice(['ptb', 'negra', 'alpino'])
	level = rng.choice(sorted(MAPPINGS[tb]))
	mapping = MAPPINGS[tb][level]
	fine = [a for b in mapping.values() for a in b if a.isalpha()]
	trees = [g.randtree(rng, rng.randint(1, 8), disc=0.3, labels=rng.sample(
			fine, 4), tags=['N.', 'V1', 'd'], root='TOP') for _ in range(3)]
	deco = rng.random() < 0.5
	return rng, mapping, trees, deco


def checkcollapse(case, ctx):
	rng, mapping, trees, deco = case

	def decorate(x, top=False):
		if g.preterminal(x):
			return x
		lab = x[0]
		if deco and not top and rng.random() < 0.4:
			lab += rng.choice(['^S', '_2', '-SBJ', '|<N.>', '|<N.,V1>'])
		return (lab, tuple(decorate(c) for c in x[1]))
	trees = [decorate(a, True) for a in trees]
	ambiguous = {b for b in sum(map(list, mapping.values()), [])
			if sum(b in c for c in mapping.values()) > 1}
	rev = {b: a for a in mapping for b in mapping[a]}
	new, m = collapselabels([g.totree(a, Tree) for a in trees], None, mapping)
	ctx.ev('collapsed')
	for a, b in zip(trees, new):
		b = g.tomodel(b)
		ctx.eq(len(g.nodes(b)), len(g.nodes(a)), 'structure collapsed', (a, b))
		for n, (x, y) in enumerate(zip(g.nodes(a), g.nodes(b))):
			ctx.eq(g.leaves(x), g.leaves(y), 'structure collapsed', (a, b))
			if n and not g.preterminal(x):
				base = re.match('[A-Z]+', x[0]).group()
				if base not in ambiguous:
					ctx.ok(y[0].startswith(rev[base]), 'collapsed label',
							'%r %r', x[0], y[0])
				if base == x[0] and base not in ambiguous:
					ctx.eq(y[0], rev[base], 'collapsed label', a)
			else:
				ctx.eq(y[0], x[0], 'label kept', a)
			ctx.eq(m[x[0]], y[0], 'mapping', (x[0], a))


COMPOUNDS = {
	# regular patterns, as sequences of tags
	'N': ['N A', 'N P N', 'D N', 'A N', 'N P+D N A', 'N P D N',
		'N A P N P+D N', 'A A N', 'N P A N C P N'],
	'V': ['V N', 'V P N', 'V D N', 'V V N', 'V D A N'],
	'ADV': ['P N', 'P D N', 'P+D N', 'P A N', 'P N P N', 'P A N P N A'],
}
OTHERCOMPOUNDS = {
	# irregular or not converted
	'N': ['N PONCT N', 'ET ET', 'N CL', 'PRO N N', 'N N'],
	'V': ['CL V', 'V ADV', 'V PONCT V'],
	'ADV': ['ADV ADV', 'N PONCT N', 'ADV P N'],
	'P': ['P P', 'P N P', 'ADV P'],
	'A': ['A A', 'A C A', 'A P'],
	'C': ['P C', 'ADV C', 'C C'],
	'D': ['P D', 'D D'],
	'PRO': ['PRO PRO', 'D PRO'],
}
UNDONE = {'N': 'NP', 'V': 'VP', 'ADV': 'PP'}
ENRICHED = {  # Crabbe & Candito (2008)
	'A-int-ms': 'ADJWH', 'A-qual-fs': 'ADJ', 'ADV-int': 'ADVWH', 'ADV': 'ADV',
	'ADV-neg': 'ADV', 'C-S': 'CS', 'C-C': 'CC', 'CL-obj-3fs': 'CLO',
	'CL-refl-3ms': 'CLR', 'CL-suj-1ms': 'CLS', 'D-ind-ms': 'DETWH',
	'D-def-fs': 'DET', 'ET': 'ET', 'I': 'I', 'N-P-ms': 'NPP', 'N-C-ms': 'NC',
	'N-card-mp': 'NC', 'P': 'P', 'PONCT-S': 'PONCT', 'PREF': 'PREF',
	'PRO-int-ms': 'PROWH', 'PRO-rel-fs': 'PROREL', 'PRO-pers-1fs': 'PRO',
	'V-G': 'VPR', 'V-K-ms': 'VPP', 'V-S-3s': 'VS', 'V-W': 'VINF',
	'V-Y-2p': 'VIMP', 'V-P-3s': 'V', 'V-F-1s': 'V',
}


def genftb(rng, ctx):
	words = []

	def tok(tag):
		words.append(rng.choice(WORDS['fr'] + ['Mer', 'Paris', '-', 'grand']))
		return (tag, (len(words) - 1, ))

	def rec(d):
		x = rng.random()
		if x < 0.35:
			table = rng.choice([COMPOUNDS, COMPOUNDS, OTHERCOMPOUNDS])
			base = rng.choice(sorted(table))
			return ('MW' + base, tuple(tok(a) for a in rng.choice(
					table[base]).split()))
		elif x < 0.6 or d > 3:
			return tok(rng.choice(TAGS['fr']))
		return (rng.choice(PHRASE['fr'][1:9]), tuple(rec(d + 1)
				for _ in range(rng.choice([1, 2, 2, 3, 4]))))
	m = ('ROOT', (('SENT', tuple(rec(0) for _ in range(rng.randint(1, 4)))), ))
	return rng, m, words


def checkftb(case, ctx):
	from discodop import treebanktransforms
	rng, m, sent = case
	tree = g.totree(m, ParentedTree)
	# not ambiguous: each compound occurs as a constituent only once
	mw = [x for x in g.nodes(m) if x[0].startswith('MW')]
	text = {' '.join(sent[i] for i in g.leaves(x)) for x in mw}
	if any(' '.join(sent[i] for i in g.leaves(x)) in text for x in g.nodes(m)
			if len(x[1]) > 1 and not x[0].startswith('MW')):
		return
	morph = {}
	for node in tree.subtrees():
		node.source = ['--'] * 6
		if isinstance(node[0], Tree):
			node[rng.randrange(len(node))].type = HEAD
		else:
			morph[node[0]] = node.source[3] = rng.choice(sorted(ENRICHED))
	desc = (m, sent)
	heads = {tuple(x.leaves()) for x in tree.subtrees() if x.type == HEAD
			and x.label == 'MWV'}
	treebanktransforms.FTBCOMPOUNDS.clear()
	if os.path.exists('mw.txt'):
		os.unlink('mw.txt')
	try:
		treebanktransforms.getftbcompounds([tree], [sent], 'mw.txt')
		ctx.eq(treebanktransforms.FTBCOMPOUNDS, text, 'compounds', desc)
		if rng.random() < 0.5:  # as read back by parser
			treebanktransforms.FTBCOMPOUNDS.clear()
			treebanktransforms.getftbcompounds(None, None, 'mw.txt')
			ctx.eq(treebanktransforms.FTBCOMPOUNDS, text, 'compounds', desc)
		newsent = list(sent)
		transform(tree, newsent, ['ftbundocompounds'])
		ctx.ev('undone compounds')
		ctx.eq(newsent, sent, 'sentence', desc)
		wellformed(ctx, tree, len(sent), desc)
		t = g.tomodel(tree)
		got = {(x[0], tuple(g.leaves(x))) for x in g.nodes(t)}
		for x in g.nodes(m):
			lab = x[0]
			if lab.startswith('MW') and lab[2:] in COMPOUNDS and ' '.join(
					y[0] for y in x[1]) in COMPOUNDS[lab[2:]] and (
					lab != 'MWV' or tuple(g.leaves(x)) in heads):
				lab = UNDONE[lab[2:]]
				ctx.ev('compounds undone')
			elif lab.startswith('MW'):
				ctx.ok(x in g.nodes(t), 'compound changed', '%r %r %r', x, t,
						desc)
				ctx.ev('compounds kept')
			ctx.ok((lab, tuple(g.leaves(x))) in got, 'constituent lost',
					'%r %r %r', x, t, desc)
		if t != m:
			ctx.nontrivial((m, 'ftbundocompounds'))
		back = g.totree(t, ParentedTree) if rng.random() < 0.5 else tree
		if text:
			reversetransform(back, list(sent), ['ftbundocompounds'])
			wellformed(ctx, back, len(sent), desc)
			ctx.eq(g.tomodel(back), m, 'compounds restored', (t, desc))
			ctx.ev('compounds restored')
	finally:
		treebanktransforms.FTBCOMPOUNDS.clear()
	# detailed part-of-speech tags
	tree = g.totree(m, ParentedTree)
	for node in tree.subtrees():
		node.source = ['--'] * 6
		if not isinstance(node[0], Tree):
			node.source[3] = morph[node[0]]
	transform(tree, list(sent), ['ftbmakegoldpos'])

	def convert(x, mw=False):
		if g.preterminal(x):
			if mw or not x[0].startswith('MW'):
				return (ENRICHED[morph[x[1][0]]], x[1])
		return (x[0], tuple(convert(c) for c in x[1]))
	ctx.ev('detailed tags')
	want = [x for x in g.nodes(convert(m)) if g.preterminal(x)]
	inside = {i for x in mw for i in g.leaves(x)}
	got = [x for x in g.nodes(g.tomodel(tree)) if g.preterminal(x)]
	ctx.eq(sorted(x for x in got if x[1][0] not in inside),
			sorted(x for x in want if x[1][0] not in inside), 'detailed tags',
			(morph, desc))
	ctx.eq([(len(x[1]), g.leaves(x)) for x in g.nodes(g.tomodel(tree))],
			[(len(x[1]), g.leaves(x)) for x in g.nodes(m)],
			'structure changed', (g.tomodel(tree), desc))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'transforms': (gen, check, 40000 * k), 'rr': (genrr, checkrr,
			2000 * k), 'collapse': (gencollapse, checkcollapse, 400 * k),
			'ftb': (genftb, checkftb, 1500 * k)}
