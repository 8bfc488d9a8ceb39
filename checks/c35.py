"""C35: generated sentences are licensed by the grammar."""
import gzip
import io
import math
import os
import random
import sys
from collections import Counter
from contextlib import redirect_stdout, redirect_stderr
from discodop import gen as G
from discodop.tree import Tree
from discodop.treetransforms import addbitsets
from discodop.grammar import writegrammar, treebankgrammar
import g
import gg
import lc

PLAN = dict(
	mods=['bit'],
	rule='random grammars (PCFG and LCFRS with fan-out up to 3, unaries, '
	'recursion, tags with both words and phrasal rules, skewed weights and '
	'counts) and treebank grammars; sampled sentences are recognized by an '
	'exhaustive reference chart, with the set of probabilities of all '
	'derivations; frequencies of sentences are compared with the exact '
	'distribution of the truncated derivation space; grammar files are written '
	'in both formats, plain and compressed, and read back; nontrivial: '
	'sentences of at least 3 words; counted by grammar and sentence',
	require={'sentences': 10000, 'recognized': 10000, 'probabilities': 10000,
		'ambiguous': 300, 'discontinuous': 500, 'mixed nonterminals': 500,
		'frequencies': 600, 'samples': 100000, 'choices': 100,
		'discounted choices': 30, 'rare rules': 30, 'rounding': 50,
		'files': 150, 'weights not normalized': 15, 'bitpar files': 50, 'gzip files': 50,
		'command line': 60, 'command line sentences': 1200, 'rules read': 1000,
		'words read': 500, 'recursive frequencies': 10, 'fractions': 4, 'treebank grammars': 30},
	assumptions='derivations of grammars that terminate; for frequencies the '
	'probability of a false alarm is below 1e-8 per comparison (and seeds are '
	'fixed)',
)
CAP = 20
ODD = ['a\xa0b', '(', ')', "d'", 'Épee', '-', 'x/y', '1/2', '0.5', '12', '"',
	'a\u3000b', '\u2028z', '#', '%', '日本']


def terminating(rules):
	"""Give weights such that expansion terminates: expected depth is small."""
	by = {}
	for (r, yf), w in rules:
		by.setdefault(r[0], []).append((r, yf, w))
	h = {}
	for _ in range(len(by) + 1):
		for a, opts in by.items():
			for r, yf, w in opts:
				x = 1 if r[1] == 'Epsilon' else 1 + max(
						h.get(b, math.inf) for b in r[1:])
				if x < h.get(a, math.inf):
					h[a] = x
	return by, h


def subcritical(rules):
	"""Whether the branching process dies out quickly."""
	by, h = terminating(rules)
	if any(not math.isfinite(h.get(a, math.inf)) for a in by):
		return False
	size = {a: 0. for a in by}
	for n in range(300):
		new = {}
		for a, opts in by.items():
			t = sum(w for _, _, w in opts)
			new[a] = 1 + sum(w / t * sum(size.get(b, 0) for b in r[1:]
					if b != 'Epsilon') for r, _, w in opts)
		if max(new.values()) > 60:
			return False
		done = max(abs(new[a] - size[a]) for a in by) < 1e-6
		size = new
		if done:
			return True
	return False


def gengrammar(rng, ctx):
	while True:
		if rng.random() < 0.2:
			trees, sents = g.randtreebank(rng, rng.randint(1, 5), maxlen=7,
					disc=rng.choice([0, 0.8]), maxar=2)
			trees = [g.totree(lc.binarized(rng, m), Tree) for m in trees]
			rules = treebankgrammar([addbitsets(t) for t in trees], sents)
			ctx.ev('treebank grammars')
			if any(len(r) > 3 for (r, _), _ in rules):
				continue
			root = [t.label for t in trees]
			if len(set(root)) > 1:
				continue
			start = root[0]
		else:
			rules = gg.grammar(rng, disc=rng.random() < 0.5,
					unarycycles=False, acyclic=True)
			start = 'ROOT'
			if rng.random() < 0.5:
				rules = [(r, w * (rng.choice([5, 30]) if r[0][1] == 'Epsilon'
					else 1)) for r, w in rules]
		if rng.random() < 0.3:
			old = sorted({yf[0] for (r, yf), _ in rules if r[1] == 'Epsilon'})
			ren = dict(zip(old, rng.sample(ODD, min(len(ODD), len(old)))))
			rules = [((r, (ren.get(yf[0], yf[0]), ) if r[1] == 'Epsilon'
					else yf), w) for (r, yf), w in rules]
		if rng.random() < 0.2:
			from fractions import Fraction
			tot = Counter()
			for (r, yf), w in rules:
				tot[r[0]] += Fraction(w)
			if all(float(w) == int(w) for _, w in rules):
				rules = [(r, Fraction(w) / tot[r[0][0]]) for r, w in rules]
		if subcritical(rules):
			return rules, start


class Ref:
	"""The reference: rules, and all probabilities of derivations."""
	def __init__(self, rules):
		self.by = {}
		self.mult = {}
		for n, ((r, yf), w) in enumerate(rules):
			self.by.setdefault(r[0], []).append((n, r, yf, float(w)))

	def recognize(self, start, sent):
		"""Set of the probabilities of all derivations of sent."""
		n = len(sent)
		self.capped = False
		chart = {}  # (label, spans) => set of probabilities

		def add(agenda, item, p):
			probs = chart.setdefault(item, set())
			p = float('%.9g' % p)
			if p not in probs and len(probs) < CAP:
				probs.add(p)
				agenda.append((item, p))
				self.capped |= len(probs) == CAP
		agenda = []
		unary, left, right = {}, {}, {}
		for a, opts in self.by.items():
			for _, r, yf, w in opts:
				if r[1] == 'Epsilon':
					for i, word in enumerate(sent):
						if yf[0] == word:
							add(agenda, (a, ((i, i + 1), )), w)
				elif len(r) == 2:
					unary.setdefault(r[1], []).append((a, yf, w))
				else:
					left.setdefault(r[1], []).append((a, r[2], yf, w))
					right.setdefault(r[2], []).append((a, r[1], yf, w))
		bylab = {}
		steps = 0
		while agenda:
			(b, sp), p = agenda.pop()
			if steps > 200000:
				return None
			bylab.setdefault(b, set()).add(sp)
			for a, yf, w in unary.get(b, ()):
				add(agenda, (a, sp), w * p)
			for a, c, yf, w in left.get(b, ()):
				steps += len(bylab.get(c, ()))
				for sp2 in list(bylab.get(c, ())):
					new = combine(yf, sp, sp2)
					if new is not None:
						steps += len(chart[c, sp2])
						for p2 in list(chart[c, sp2]):
							add(agenda, (a, new), w * p * p2)
			for a, c, yf, w in right.get(b, ()):
				steps += len(bylab.get(c, ()))
				for sp2 in list(bylab.get(c, ())):
					new = combine(yf, sp2, sp)
					if new is not None:
						steps += len(chart[c, sp2])
						for p2 in list(chart[c, sp2]):
							add(agenda, (a, new), w * p * p2)
		return chart.get((start, ((0, n), )), set())

	def dist(self, start, discount, minp=1e-4, budget=20000):
		"""Probabilities of yields with discounted weights; mass below minp is
		left out. Returns {yield: lower bound}, missing mass."""
		out = Counter()
		steps = [0]

		def expand(a, counts, p):
			"""Yield (yield, probability) pairs."""
			opts = self.by[a]
			ws = [w * discount ** (1 + counts.get(n, 0))
					for n, _, _, w in opts]
			t = sum(ws)
			for (n, r, yf, _), w in zip(opts, ws):
				q = p * w / t
				steps[0] += 1
				if q < minp or steps[0] > budget:
					continue
				if r[1] == 'Epsilon':
					yield ((yf[0], ), ), q
					continue
				new = dict(counts)
				new[n] = new.get(n, 0) + 1
				for y1, q1 in expand(r[1], new, q):
					if len(r) == 2:
						yield y1, q1
						continue
					for y2, q2 in expand(r[2], new, q1):
						its = (iter(y1), iter(y2))
						yield tuple(tuple(x for b in c for x in next(its[b]))
								for c in yf), q2
		for y, p in expand(start, {}, 1.):
			out[y] += p
		return out, 1 - sum(out.values())


def combine(yf, sp1, sp2):
	its = [list(sp1), list(sp2)]
	pos = [0, 0]
	out = []
	for comp in yf:
		cur = None
		for b in comp:
			if pos[b] >= len(its[b]):
				return None
			x = its[b][pos[b]]
			pos[b] += 1
			if cur is None:
				cur = x
			elif cur[1] != x[0]:
				return None
			else:
				cur = (cur[0], x[1])
		if out and out[-1][1] >= cur[0]:
			return None
		out.append(cur)
	if pos[0] != len(its[0]) or pos[1] != len(its[1]):
		return None
	return tuple(out)


def checksentence(ref, start, p, sent, rules, ctx, key, tol=1e-4):
	probs = ref.recognize(start, sent)
	if probs is None:
		ctx.ev('too many items')
		return
	ctx.ev('recognized')
	ctx.ok(probs, key + ' not licensed', 'not in the language: %r\n%s\n%r',
			sent, start, rules)
	if ref.capped:
		ctx.ev('too many probabilities')
		return
	ctx.ev('probabilities')
	if len(probs) > 1:
		ctx.ev('ambiguous')
	ctx.ok(any(abs(p - q) <= tol * q for q in probs),
			key + ' probability', 'probability %r of %r is not one of %r\n%r',
			p, sent, sorted(probs)[:20], rules)


def load(rules):
	return G.splitgrammar([((r, yf), float(w)) for (r, yf), w in rules])


def gensent(rng, ctx):
	rules, start = gengrammar(rng, ctx)
	return rules, start, rng.choice([1, 0.75, 0.75, 0.3]), rng.random()


def checksent(case, ctx):
	rules, start, discount, seed = case
	ref = Ref(rules)
	grammar = load(rules)
	random.seed('c35 %r' % seed)
	disc = any(len(yf) > 1 for (r, yf), _ in rules if r[1] != 'Epsilon')
	lexlhs = {r[0] for (r, _), _ in rules if r[1] == 'Epsilon'}
	mixed = any(r[0] in lexlhs for (r, _), _ in rules if r[1] != 'Epsilon')
	words = {yf[0] for (r, yf), _ in rules if r[1] == 'Epsilon'}
	seen = {}
	for n in range(60):
		out = G.gen(grammar, start=grammar.toid[start], discount=discount)
		ctx.ev('sentences')
		p, sent = out
		ctx.ok(len(sent) == 1 and sent[0], 'one component', '%r', out)
		ctx.ok(all(w in words for w in sent[0]), 'ends in words', '%r', sent)
		sent = list(sent[0])
		if len(sent) > 12:
			ctx.ev('long sentence')
			continue
		if disc:
			ctx.ev('discontinuous')
		if mixed:
			ctx.ev('mixed nonterminals')
		k = (tuple(sent), '%.9g' % p)
		if k in seen:
			ctx.ev('recognized')
			ctx.ev('probabilities')
			continue
		seen[k] = 1
		checksentence(ref, start, p, sent, rules, ctx, 'gen')
		if len(sent) >= 3:
			ctx.nontrivial((start, tuple(sent), len(rules)))
	ctx.sample((start, discount, list(seen)[:3]))


def far(obs, n, q):
	return abs(obs - n * q) > 6.5 * math.sqrt(n * q * (1 - q)) + 4


def genfreq(rng, ctx):
	rules, start = gengrammar(rng, ctx)
	return rules, start, rng.choice([1, 1, 0.75, 0.3]), rng.random()


def checkfreq(case, ctx):
	rules, start, discount, seed = case
	ref = Ref(rules)
	dist, missing = ref.dist(start, discount)
	grammar = load(rules)
	random.seed('c35 freq %r' % seed)
	n = 1500
	obs = Counter()
	for _ in range(n):
		p, sent = G.gen(grammar, start=grammar.toid[start], discount=discount)
		obs[tuple(map(tuple, sent))] += 1
		ctx.ev('samples')
	if missing > 0.05:
		ctx.ev('recursive frequencies')
	for y, q in sorted(dist.items(), key=lambda x: -x[1])[:40]:
		# the true probability is between q and q + missing
		ctx.ev('frequencies')
		hi = min(1, q + missing)
		ctx.ok(not (obs[y] < n * q and far(obs[y], n, q))
				and not (obs[y] > n * hi and far(obs[y], n, hi)),
				'frequency', '%r: %d of %d, expected a probability of %g-%g;'
				' start=%s discount=%g\n%r', y, obs[y], n, q, hi, start,
				discount, rules)
	rest = sum(c for y, c in obs.items() if y not in dist)
	ctx.ok(not (rest > n * missing and far(rest, n, max(0, missing))),
			'frequency of the rest', '%d of %d outside of %r', rest, n, missing)


def genchoice(rng, ctx):
	n = rng.randint(1, 6)
	ws = [rng.choice([rng.random(), rng.randint(1, 20), 1000, 1e-7, 1e-12])
			for _ in range(n)]
	if n > 1 and rng.random() < 0.3:
		ws[rng.randrange(n)] = 0
	if not any(ws):
		ws[0] = 1
	return ws, rng.choice([1, 0.75, 0.2]), [
			rng.choice([1, 1, 2, 4]) for _ in ws], rng.random()


def checkchoice(case, ctx):
	ws, discount, counts, seed = case
	rules = [G.LexicalRule(2, 0, 0, 'w%d' % i, w, i) for i, w in enumerate(ws)]
	d = [w * discount ** c for w, c in zip(ws, counts)]
	random.seed('c35 choice %r' % seed)
	n = 4000
	obs = Counter()
	for _ in range(n):
		r = G.chooserule(rules, discount, list(counts))
		obs[r.no] += 1
		ctx.ev('samples')
	ctx.ev('choices')
	if discount < 1 and len(set(counts)) > 1:
		ctx.ev('discounted choices')
	for i, w in enumerate(d):
		q = w / sum(d)
		if w == 0:
			ctx.ok(obs[i] == 0, 'weight zero chosen', '%r', case)
		if 0 < q < 1e-3:
			ctx.ev('rare rules')
		ctx.ok(not far(obs[i], n, q), 'choice frequency',
				'%d of %d for %g: %r', obs[i], n, q, case)
	# every value that random() returns leads to a rule with a weight
	if hasattr(G, 'random') and callable(G.random):
		old = G.random
		try:
			for x in (0., 2 ** -53, 0.5, 1 - 2 ** -53, 1 - 2 ** -52):
				G.random = lambda: x
				r = G.chooserule(rules, discount, list(counts))
				ctx.ev('rounding')
				ctx.ok(ws[r.no] > 0, 'weight zero chosen', '%r %r', x, case)
		finally:
			G.random = old


def genfile(rng, ctx):
	rules, start = gengrammar(rng, ctx)
	bitpar = all(len(yf) == 1 and (r[1] == 'Epsilon' or yf[0] == tuple(
			range(len(r) - 1))) for (r, yf), _ in rules) and rng.random() < 0.7
	return rules, start, bitpar, rng.random() < 0.4, rng.random()


def table(rules):
	return sorted((r, yf if r[1] == 'Epsilon' else tuple(map(tuple, yf)),
			float('%.9g' % float(w))) for (r, yf), w in rules)


def checkfile(case, ctx):
	rules, start, bitpar, gz, seed = case
	if bitpar and any(hasattr(w, 'numerator') and not isinstance(w, int)
			for _, w in rules):
		rules = [(r, float(w)) for r, w in rules]
	if any(hasattr(w, 'numerator') and not isinstance(w, int)
			for _, w in rules):
		ctx.ev('fractions')
	if bitpar and 0.5 < seed < 0.8:
		# weights that are not integers are kept, also if they do not sum to one
		integral = int(seed * 1000) % 3  # which weights are integers
		rules = [((r, yf), int(seed * 1000) % 4 + 1
				if (r[1] == 'Epsilon') + 1 == integral
				else float(w) * (0.5 + n % 4)) for n, ((r, yf), w)
				in enumerate(rules)]
		ctx.ev('weights not normalized')
		scaled = True
	else:
		scaled = False
	text = ['', '']
	style = int(seed * 100) % 3
	lexical = {}
	for (r, yf), w in rules:
		w = ('%d/%d' % (w.numerator, w.denominator) if not bitpar
				and hasattr(w, 'numerator') and not isinstance(w, int)
				else repr(w))
		if r[1] == 'Epsilon':
			lexical.setdefault(yf[0], []).append((r[0], w))
		elif bitpar:
			text[0] += '\t'.join((w, ) + r) + '\n'
		else:
			text[0] += '\t'.join(r + (','.join(''.join(map(str, a))
					for a in yf), w)) + '\n'
	for word, x in lexical.items():
		text[1] += '%s\t%s\n' % (word, '\t'.join('%s%s%s' % (
				t, '\t ' [style > 0], w) for t, w in x))
	if seed < 0.5 and not any('/' in repr(w) for _, w in rules) and not any(
			yf[0] in '()' for (r, yf), _ in rules if r[1] == 'Epsilon'):
		text = writegrammar(rules, bitpar=bitpar)
	names = ['g.rules', 'g.lex']
	for i, t in enumerate(text):
		if gz and (seed > 0.25 or i == 0):
			names[i] += '.gz'
			with gzip.open(names[i], 'wt', encoding='utf8', newline='') as f:
				f.write(t)
			ctx.ev('gzip files')
		else:
			with open(names[i], 'w', encoding='utf8', newline='') as f:
				f.write(t)
	ctx.ev('files')
	if bitpar:
		ctx.ev('bitpar files')
	func = G.read_bitpar_grammar if bitpar else G.read_lcfrs_grammar
	got = func(io.StringIO(text[0]), io.StringIO(text[1]))
	got = [(r, w) for r, w in got]
	want = [((r, yf), w) for (r, yf), w in rules]
	if bitpar and all(float(w) == int(w) for _, w in rules):
		tot = Counter()
		for (r, _), w in rules:
			tot[r[0]] += w
		want = [(r, w / tot[r[0][0]]) for r, w in want]
	a, b = table(got), table(want)
	ctx.ev('rules read', len(a))
	ctx.ev('words read', sum(r[1] == 'Epsilon' for (r, _), _ in got))
	ctx.eq([x[:2] for x in a], [x[:2] for x in b], 'rules read',
			('bitpar' if bitpar else 'lcfrs', text))
	ctx.ok(all(abs(x[2] - y[2]) <= 1e-8 * abs(y[2]) for x, y in zip(a, b)),
			'weights read', '%r\n%r', a, b)
	# loaded grammar has all the rules
	grammar = G.splitgrammar(got)
	back = []
	for i, rs in enumerate(grammar.bylhs):
		for r in rs:
			back.append(((tuple(grammar.tolabel[x] for x in
					(r.lhs, r.rhs1) + ((r.rhs2, ) if r.rhs2 else ())),
					G.arraytoyf(r.args, r.lengths)), r.prob))
	for rs in grammar.lexicalbylhs.values():
		for r in rs:
			back.append((((grammar.tolabel[r.lhs], 'Epsilon'), (r.word, )),
					r.prob))
	a = table(back)
	ctx.eq([x[:2] for x in a], [x[:2] for x in b], 'rules loaded', (text, ))
	ctx.ok(all(abs(x[2] - y[2]) <= 1e-7 * abs(y[2]) for x, y in zip(a, b)),
			'weights loaded', '%r\n%r', a, b)
	byword = sorted(r.word for rs in grammar.lexicalbyword.values()
			for r in rs)
	ctx.eq(byword, sorted(x[1][0] for x in b if x[0][1] == 'Epsilon'),
			'words loaded', (text, ))
	if scaled:
		return  # sampling might not terminate
	# the command-line tool
	if start != 'ROOT' or seed > 0.7:
		argv = ['gen', '-s', start, names[0], names[1]]
	else:
		argv = ['gen'] + names
	verbose = 0.2 < seed < 0.3
	if verbose:
		argv[1:1] = ['--verbose']
	random.seed('c35 cli %r' % seed)
	out, err = io.StringIO(), io.StringIO()
	oldargv = sys.argv
	try:
		sys.argv = argv
		with redirect_stdout(out), redirect_stderr(err):
			G.main()
	except SystemExit as ex:
		ctx.fail('command line exits', 'SystemExit(%r) %r %s', ex.code, argv,
				err.getvalue() + out.getvalue())
	finally:
		sys.argv = oldargv
	ctx.ev('command line')
	lines = out.getvalue().split('\n')[:-1]
	if verbose:
		lines = [a for a in lines if a.startswith('[') and ' + [' not in a]
	ctx.eq(len(lines), 20, 'command line: sentences', (lines, argv))
	ref = Ref(want)
	words = {yf[0] for (r, yf), _ in want if r[1] == 'Epsilon'}
	for line in lines:
		ctx.ev('command line sentences')
		p, sent = line[1:].split('] ', 1)
		sent = sent.split(' ')
		ctx.ok(all(w in words for w in sent), 'command line: words', '%r', line)
		if len(sent) <= 10:
			checksentence(ref, start, float(p), sent, want, ctx,
					'command line', tol=1e-3 if float(p) > 1e-300 else 2)
	for name in names:
		os.unlink(name)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {
		'sentences': (gensent, checksent, 300 * k),
		'frequencies': (genfreq, checkfreq, 120 * k),
		'choices': (genchoice, checkchoice, 150 * k),
		'files': (genfile, checkfile, 250 * k),
	}
