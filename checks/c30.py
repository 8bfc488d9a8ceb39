"""C30: enumeration of fragments with a limit on depth and frontiers."""
import contextlib
import io
import logging
import random
from collections import Counter
from discodop.tree import Tree, ParentedTree
from discodop.treetransforms import binarize
from discodop import _fragments, fragments, grammar
import g
import fr
from checks import c29

logging.disable(logging.CRITICAL)
PLAN = dict(
	mods=['bit', 'containers', '_fragments'], variant='plain',
	rule='treebanks of 1-6 binarized trees of up to 8 words, continuous and '
	'discontinuous, depth limits 1-5 and beyond the height of the trees, '
	'frontier limits 0-4 and none; intervals of trees; through the functions '
	'and the command line; '
	'nontrivial: a treebank with at least 10 fragments some of which occur more '
	'than once and some excluded by each limit',
	require={'treebanks': 1000, 'fragments': 80000, 'counts': 80000,
		'excluded by depth': 5000, 'excluded by frontiers': 5000,
		'index sets': 20000, 'intervals': 1000, 'cover fragments': 10000,
		'productions covered': 3000, 'discontinuous fragments': 1500,
		'unary productions': 500, 'all subtrees': 80, 'command line': 60},
)


def gencase(rng, ctx):
	disc = rng.choice([0, 0, 0.5, 1])
	labels = g.LABELS[:rng.choice([1, 2, 4])]
	tags = g.TAGS[:rng.choice([1, 2, 4])]
	words = rng.sample(g.WORDS, rng.choice([1, 2, 10]))
	unary = rng.choice([0, 0.1, 0.4])
	bank = []
	for _ in range(rng.choice([1, 1, 2, 3, 6])):
		if bank and rng.random() < 0.3:
			bank.append(rng.choice(bank))
			continue
		n = rng.choice([1, 2, 3, 4, 5, 6, 8])
		m = g.randtree(rng, n, disc=disc, labels=labels, tags=tags,
				maxar=rng.choice([2, 3, 5]), unary=unary)
		bank.append((m, [w if ' ' not in w else 'x' for w in
				g.randsent(rng, n, words=words, hostile=rng.choice([0, 0.2]))]))
	kw = rng.choice([dict(dot=True), dict(horzmarkov=1), dict(horzmarkov=0),
			dict(vertmarkov=2, horzmarkov=1), dict(factor='left')])
	return dict(a=bank, kw=kw, disc=disc > 0 or rng.random() < 0.3,
			depth=rng.choice([1, 1, 2, 2, 3, 4, 5, 30]),
			width=rng.choice([0, 1, 2, 3, 4, 999, 999]),
			seed=rng.randrange(10 ** 9))


def enumerate_(ta, depth, width, disc, ctx=None):
	"""{text: (fragment, [(tree, node), ...])}"""
	result = {}
	for n, a in enumerate(ta):
		for i in range(len(a)):
			for nodes in fr.allfrags(a, i, depth):
				f = fr.abstract(a, i, nodes)
				if fr.frontiers(f) > width:
					if ctx:
						ctx.ev('excluded by frontiers')
					continue
				t = fr.text(a, i, nodes, disc)
				result.setdefault(t, (f, []))[1].append((n, i))
			if ctx and any(fr.depth(fr.abstract(a, i, x)) > depth
					for x in [subtree(a, i)]):
				ctx.ev('excluded by depth')
	return result


def subtree(a, i):
	return frozenset([i]).union(*(subtree(a, c) for c in a.ch[i]))


def size(a, i, depth):
	if not depth:
		return 0
	result = 1
	for c in a.ch[i]:
		result *= 1 + size(a, c, depth - 1)
	return result


def check(case, ctx):
	rng = random.Random(case['seed'])
	a = c29.binbank(case['a'], case['kw'])
	ta = [fr.T(*x) for x in a]
	disc, depth, width = case['disc'], case['depth'], case['width']
	if sum(size(x, i, depth) for x in ta for i in range(len(x))) > 4000:
		depth = 2
	ca, _, vocab = c29.pack(a)
	want = enumerate_(ta, depth, width, disc, ctx)
	ctx.ev('treebanks')
	ctx.ev('fragments', len(want))
	if depth >= 30 and width == 999:
		ctx.ev('all subtrees')
	ctx.ev('unary productions', sum(len(x) == 1 and not t.ch[i] == ()
			for t in ta for i, x in enumerate(t.ch)))
	ctx.ev('discontinuous fragments', sum(c29.isdiscfrag(f)
			for f, _ in want.values()))
	# cross-check of the reference: occurrences by matching
	for t in rng.sample(sorted(want), min(5, len(want))):
		f, occ = want[t]
		ctx.eq(sorted(fr.occurrences(f, ta)), sorted(occ), 'reference', t)
	args = (ca, vocab, depth) + (() if width == 999 and rng.random() < 0.5
			else (width, ))
	got = _fragments.allfragments(*args, disc=disc)
	ctx.eq(got, {t: len(o) for t, (_, o) in want.items()}, 'fragments',
			'fragments up to depth %d, %d frontiers' % (depth, width))
	ctx.ev('counts', len(got))
	x = _fragments.allfragments(*args, disc=disc, indices=True)
	ctx.eq({t: list(o) for t, o in x.items()},
			{t: [n for n, _ in o] for t, (_, o) in want.items()}, 'indices',
			'indices of fragments')
	ctx.ev('index sets', len(x))
	start = rng.randint(0, len(ta) - 1)
	end = rng.randint(start + 1, len(ta))
	x = _fragments.allfragments(*args, disc=disc, indices=True, start=start,
			end=end)
	sub = {t: [n for n, _ in o if start <= n < end]
			for t, (_, o) in want.items()}
	ctx.eq({t: list(o) for t, o in x.items()},
			{t: o for t, o in sub.items() if o}, 'interval',
			('fragments in interval of trees', start, end))
	ctx.ev('intervals')
	if len(want) >= 10 and max(len(o) for _, o in want.values()) > 1:
		ctx.nontrivial((len(want), depth, width, disc))
		ctx.sample(dict(trees=len(ta), depth=depth, frontiers=width,
				fragments=len(want)))
	# functions for lists of trees
	trees = [g.totree(m, ParentedTree) for m, _ in a]
	sents = [sent for _, sent in a]
	fragments.PARAMS['disc'] = disc
	full = enumerate_(ta, depth, width, True)
	fragments.PARAMS['disc'] = True
	x = fragments.allfragments(trees, sents, depth, width)
	ctx.eq({t: list(o) for t, o in x.items()},
			{t: [n for n, _ in o] for t, (_, o) in full.items()}, 'all',
			'all fragments')
	ctx.ev('counts', len(x))
	# cover fragments
	common = fr.common(ta, None, disc)
	for indices in (True, False):
		x = fragments.recurringfragments(trees, sents, 1, disc, indices,
				depth, width)
		w = {t: [n for n, _ in fr.occurrences(f, ta)]
				for t, (f, _) in common.items()}
		w.update((t, [n for n, _ in o]) for t, (_, o) in want.items())
		if indices:
			x = {t: list(o) for t, o in x.items()}
		else:
			w = {t: len(o) for t, o in w.items()}
		ctx.eq(x, w, 'cover', 'recurring and cover fragments')
		ctx.ev('cover fragments', len(w))
	x = fragments.recurringfragments(trees, sents, 1, disc, False, 1)
	prods = Counter((f[0] if width else f[0]) for n, t in enumerate(ta)
			for f in ((p, ) for p in t.prod))
	texts = {}
	for t in ta:
		for i in range(len(t)):
			texts[t.prod[i]] = fr.text(t, i, frozenset([i]), disc)
	for p, cnt in prods.items():
		# without indices, productions with different yield functions are the
		# same fragment
		if disc:
			ctx.eq(x.get(texts[p]), cnt, 'productions', ('production', p))
		else:
			ctx.ok(texts[p] in x, 'productions', 'production %s', p)
		ctx.ev('productions covered')


def gencli(rng, ctx):
	case = gencase(rng, ctx)
	case['fmt'] = 'discbracket' if any(not c29.contin(m)
			for m, _ in case['a']) else rng.choice(['bracket', 'discbracket'])
	case['numproc'] = rng.choice([1, 1, 2])
	case['indices'] = rng.random() < 0.3
	return case


def checkcli(case, ctx):
	c29.writebank('A', case['a'], case['fmt'])
	ta = c29.readbank('A', case['fmt'])
	disc, depth, width = (case['fmt'] == 'discbracket', case['depth'],
			case['width'])
	if sum(size(x, i, depth) for x in ta for i in range(len(x))) > 4000:
		depth = 2
	argv = ['A', '--quiet', '--fmt=' + case['fmt'], '--numproc=%d'
			% case['numproc'], '--cover=%d' % depth
			+ ('' if width == 999 else ',%d' % width)]
	if case['indices']:
		argv.append('--indices')
	out = io.TextIOWrapper(io.BytesIO(), encoding='utf8')
	with contextlib.redirect_stdout(out):
		fragments.main(argv)
	out.flush()
	got = Counter(out.buffer.getvalue().decode('utf8').splitlines())
	w = {t: [n for n, _ in fr.occurrences(f, ta)]
			for t, (f, _) in fr.common(ta, None, disc).items()}
	w.update((t, [n for n, _ in o])
			for t, (_, o) in enumerate_(ta, depth, width, disc).items())
	ctx.eq(got, Counter('%s\t%s' % (t, o if case['indices'] else len(o))
			for t, o in w.items()), 'command line', argv)
	ctx.ev('command line')
	ctx.ev('counts', len(w))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {
		'enum': (gencase, check, 6000 * k),
		'cli': (gencli, checkcli, 600 * k),
	}
