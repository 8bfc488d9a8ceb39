"""C16: treebank grammars conserve counts."""
import json
import math
import os
import subprocess
import sys
from collections import Counter, defaultdict
from discodop.tree import Tree, ParentedTree
from discodop.grammar import treebankgrammar, sortgrammar, writegrammar
from discodop.containers import Grammar
from discodop import plcfrs, pcfg, kbest
import numpy as np
import g
import lc

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest'],
	rule='random treebanks (1-12 trees, continuous or discontinuous, small and '
	'hostile vocabularies, with extra rules); nontrivial: a rule that occurs '
	'more than once; counted by treebank',
	require={'treebanks': 1000, 'rules': 15000, 'recurring rules': 3000,
		'extra rules': 500, 'trees derivable': 700, 'hash seeds': 4,
		'lexical entries': 5000, 'left-hand sides': 5000, 'reordered': 500},
)


def gen(rng, ctx):
	trees, sents = g.randtreebank(rng, rng.randint(1, 12), maxlen=7,
			disc=rng.choice([0, 0.5]), maxar=rng.choice([2, 4]),
			words=rng.choice([g.WORDS, g.WORDS[:4], [w for w in g.HOSTILE
			if not w.isspace()]]))
	return rng, trees, sents


def count(trees, sents):
	return Counter(r for m, s in zip(trees, sents) for r in lc.treerules(m, s))


def sortkeys(rules):
	return [(yf[0] if r[1] == 'Epsilon' else '', '}<' in r[0], r[0])
			for (r, yf), _ in rules]


def check(case, ctx):
	rng, trees, sents = case
	ctx.ev('treebanks')
	desc = (trees, sents)
	cls = rng.choice([Tree, ParentedTree])
	ts = [g.totree(m, cls) for m in trees]
	extra = None
	want = count(trees, sents)
	if max(want.values()) > 1:
		ctx.nontrivial(desc)
	ctx.ev('recurring rules', sum(1 for a in want.values() if a > 1))
	full = want.copy()
	if rng.random() < 0.4:
		extra = {}
		for _ in range(rng.randint(1, 5)):
			if rng.random() < 0.5:
				r = rng.choice(sorted(want))
			else:
				r = (rng.choice(g.TAGS), 'Epsilon'), (rng.choice(
						['_UNK', 'zzz']), )
			extra[r] = rng.choice([1, 2, 0.5])
			ctx.ev('extra rules')
		for r in extra:
			full[r] += extra[r]
	gram = (treebankgrammar(ts, [list(s) for s in sents], extrarules=extra)
			if extra is not None or rng.random() < 0.5
			else treebankgrammar(ts, sents))
	ctx.ev('rules', len(gram))
	ctx.eq(len({r for r, _ in gram}), len(gram), 'duplicate rules', desc)
	ctx.eq(dict(gram), dict(full), 'frequencies', (desc, extra))
	mass, nodes = defaultdict(float), Counter(
			x[0] for m in trees for x in g.nodes(m))
	for r, w in gram:
		mass[r[0][0]] += w
	for r in extra or ():
		mass[r[0][0]] -= extra[r]
	for a in nodes:
		ctx.ev('left-hand sides')
		ctx.ok(abs(mass[a] - nodes[a]) < 1e-9, 'mass of left-hand side',
				'%r %r %r %r', a, mass[a], nodes[a], desc)
	keys = sortkeys(gram)
	ctx.eq(keys, sorted(keys), 'order of rules', desc)
	# order independent of the order of trees up to ties
	order = list(range(len(ts)))
	rng.shuffle(order)
	gram2 = treebankgrammar([ts[i] for i in order], [sents[i] for i in order])
	ctx.ev('reordered')
	ctx.eq(sorted(gram2), sorted(want.items()), 'order of trees', desc)
	# sorting with alternate weights
	shuf = list(gram)
	rng.shuffle(shuf)
	alt = {'a': np.array([hash(repr(r)) % 1000 for r, _ in shuf], dtype=float),
			'b': np.arange(len(shuf), dtype=float)}
	res, alt2 = sortgrammar(shuf, alt)
	ctx.eq(sortkeys(res), keys, 'sorted order', desc)
	ctx.eq(sorted(res), sorted(gram), 'sorted rules', desc)
	ctx.eq([hash(repr(r)) % 1000 for r, _ in res], list(map(int, alt2['a'])),
			'alternate weights aligned', desc)
	ctx.eq([shuf[int(i)] for i in alt2['b']], res, 'alternate weights order',
			desc)
	ctx.eq(sortgrammar(shuf), res, 'stable with and without weights', desc)
	# lexicon
	rules, lexicon = writegrammar(gram)
	pairs = {}
	for line in lexicon.splitlines():
		word, *rest = line.split('\t')
		ctx.ok(word not in pairs, 'word listed twice', '%r %r', word, desc)
		pairs[word] = {}
		for a in rest:
			tag, w = a.rsplit(' ', 1)
			ctx.ev('lexical entries')
			ctx.ok(tag not in pairs[word], 'tag listed twice', '%r %r', line,
					desc)
			pairs[word][tag] = float(w)
	expect = defaultdict(dict)
	for (r, yf), w in full.items():
		if r[1] == 'Epsilon':
			expect[yf[0].replace('#LRB#', '(').replace('#RRB#', ')')][r[0]] = w
	ctx.eq(pairs, dict(expect), 'lexicon', desc)
	ctx.eq(len(rules.splitlines()), sum(1 for r, _ in full if r[1] != 'Epsilon'),
			'number of rules written', desc)


def gen2(rng, ctx):
	disc = rng.random() < 0.5
	trees, sents = g.randtreebank(rng, rng.randint(1, 5), maxlen=5,
			disc=0.7 if disc else 0, maxar=3, unary=0.05,
			words=[w for w in g.HOSTILE[:20] + g.WORDS[:5]])
	trees = [lc.binarized(rng, m) for m in trees]
	return rng, trees, sents


def check2(case, ctx):
	"""Every training tree is derivable, with the product of its rules."""
	rng, trees, sents = case
	gram = treebankgrammar([g.totree(m, Tree) for m in trees], sents)
	want = count(trees, sents)
	mass = Counter()
	for r, w in want.items():
		mass[r[0][0]] += w
	gr = Grammar(gram, start='ROOT')
	cont = gr.maxfanout == 1
	ref = lc.LC(gram)
	for m, s in zip(trees, sents):
		edges = lc.chart(ref, list(map(lc.esc, s)), limit=5000)
		if edges is None or lc.cyclic(edges, ('ROOT', (1 << len(s)) - 1)) or (
				lc.count(edges, ('ROOT', (1 << len(s)) - 1)) > 3000):
			ctx.ev('too ambiguous')
			continue
		prob = sum(math.log(want[r] / mass[r[0][0]])
				for r in lc.treerules(m, s))
		chart, msg = (pcfg if cont and rng.random() < 0.5 else plcfrs).parse(
				list(s), gr)
		ctx.ok(chart, 'training sentence not parsed', '%r %r', m, case[1:])
		found = {lc.parsetree(d): p for d, p in kbest.lazykbest(chart, 5000)}
		ctx.eq(len(found), lc.count(edges, ('ROOT', (1 << len(s)) - 1)), 'number of derivations', (s, gram))
		ctx.ok(m in found, 'training tree not derived', '%r %r %r', m, found,
				case[1:])
		ctx.ok(abs(-found[m] - prob) < 1e-7 * max(1, abs(prob)),
				'probability of training tree', '%r %r %r %r', m, found[m], prob,
				case[1:])
		ctx.ev('trees derivable')


SCRIPT = r'''
import sys, json
sys.path[:0] = [sys.argv[1]]
from discodop.tree import Tree
from discodop.grammar import *
out = []
for trees, sents in json.load(open(sys.argv[2])):
	ts = [Tree(a) for a in trees]
	gram = treebankgrammar(ts, sents)
	red = dopreduction(ts, sents)[0]
	packed = dopreduction(ts, sents, packedgraph=True)[0]
	out.append([repr(gram), repr(red), repr(packed),
			writegrammar(gram), writegrammar(gram, bitpar=True)])
json.dump(out, sys.stdout)
'''


def gen3(rng, ctx):
	return [(lambda x: ([g.tostr(m) for m in x[0]], x[1]))(g.randtreebank(
			rng, rng.randint(1, 6), maxlen=6, disc=0.4)) for _ in range(30)]


def check3(case, ctx):
	import discodop
	stage = os.path.dirname(os.path.dirname(discodop.__file__))
	with open('banks.json', 'w') as out:
		json.dump(case, out)
	results = []
	for seed in ('0', '1', '2', '77'):
		ctx.ev('hash seeds')
		results.append(json.loads(subprocess.run([sys.executable, '-c', SCRIPT,
				stage, 'banks.json'], env=dict(os.environ, PYTHONHASHSEED=seed),
				check=True, capture_output=True).stdout))
	for r in results[1:]:
		for a, b, c in zip(results[0], r, case):
			ctx.eq(b, a, 'order depends on hashing', c)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'treebanks': (gen, check, 1500 * k),
			'derivability': (gen2, check2, 500 * k),
			'hashing': (gen3, check3, 2 if k == 1 else 8)}
