"""C21: context-free parsing finds all and only the grammar's parses."""
import math
import re
from collections import defaultdict
from discodop.containers import Grammar
from discodop import plcfrs, pcfg, kbest
from discodop._vfchart import contents
import g
import gg
import lc

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', '_vfchart'],
	rule='random PCFGs (with unary cycles, uniform and skewed weights) and '
	'derivable, nearly derivable, and random sentences, parsed with the dense '
	'and sparse chart and the general parser, with random tags and start '
	'symbols; long sentences of up to 70 words. nontrivial: a sentence with at '
	'least two derivations or a unary cycle; counted by grammar and sentence',
	require={'sentences': 2500, 'parsed': 3000, 'no parse': 2500,
		'dense': 2000, 'sparse': 60, 'general': 2000, 'with tags': 300,
		'unseen tags': 150, 'state splits': 60, 'other start': 300,
		'unknown words': 150, 'lower-cased': 120, 'cycles': 150,
		'ambiguous': 400, 'items compared': 20000, 'edges compared': 25000,
		'long sentences': 12, 'empty sentences': 10, 'beam': 200},
)
VOCAB = gg.VOCAB + ['Éa', 'x']
LABELS = gg.LABELS + ['T', 'T@2', 'T-x', 'T^y', 'TT', 'T/z', 'T.']


def close(a, b):
	return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


class Ref:
	"""Reference for one sentence: all items with their best log
	probability, by exhaustive iteration over spans."""
	def __init__(self, rules, words, tags):
		mass = defaultdict(float)
		for (r, _), w in rules:
			mass[r[0]] += w
		self.prob = {}
		for (r, yf), w in rules:
			key = (r[0], yf[0]) if r[1] == 'Epsilon' else r
			self.prob[key] = self.prob.get(key, 0) + math.log(w / mass[r[0]])
		self.lex = defaultdict(dict)
		tagset = set()
		for (r, yf), w in rules:
			if r[1] == 'Epsilon':
				self.lex[yf[0]][r[0]] = math.log(w / mass[r[0]])
				tagset.add(r[0])
		self.words, self.missing = words, None
		self.cand = []
		for i, w in enumerate(words):
			c = self.lex.get(w)
			if c is None:
				c = self.lex.get(w.lower(), {})
			tag = tags[i] if tags else None
			if tag is not None:
				ok = lambda t: t == tag or (t.startswith(tag)
						and t[len(tag)] in '-@^/')
				c = {t: p for t, p in c.items() if ok(t)} or {
						t: 0 for t in tagset if ok(t)}
			self.cand.append(c)
			if not c and self.missing is None:
				self.missing = i
		self.binary = defaultdict(list)
		self.unary = defaultdict(list)
		for (r, _), _ in rules:
			if r[1] != 'Epsilon':
				if len(r) == 3:
					self.binary[r[1]].append(r)
				else:
					self.unary[r[1]].append(r)
		self.best, self.edges = {}, defaultdict(set)
		self.chart()

	def chart(self):
		n = len(self.words)
		best = {}
		for span in range(1, n + 1):
			for i in range(n - span + 1):
				j = i + span
				cell = {}
				if span == 1:
					for t, p in self.cand[i].items():
						cell[t] = p
						self.edges[t, i, j].add(i)
				for k in range(i + 1, j):
					left, right = best[i, k], best[k, j]
					if not left or not right:
						continue
					for b, p in left.items():
						for r in self.binary.get(b, ()):
							if r[2] in right:
								x = p + right[r[2]] + self.prob[r]
								if x > cell.get(r[0], -math.inf):
									cell[r[0]] = x
								self.edges[r[0], i, j].add((r, k))
				todo = list(cell)
				while todo:
					b = todo.pop()
					for r in self.unary.get(b, ()):
						self.edges[r[0], i, j].add((r, ))
						x = cell[b] + self.prob[r]
						if x > cell.get(r[0], -math.inf) + 1e-13:
							cell[r[0]] = x
							todo.append(r[0])
				best[i, j] = cell
		self.best = best

	def get(self, a):
		return self.best.get((0, len(self.words)), {}).get(a)

	def treeprob(self, t):
		"""Log probability of a derivation; None if not licensed."""
		res = 0
		for x in g.nodes(t):
			if not isinstance(x[1][0], tuple):
				p = self.cand[x[1][0]].get(x[0])
			else:
				p = self.prob.get((x[0], ) + tuple(c[0] for c in x[1]))
			if p is None:
				return None
			res += p
		return res


def gencase(rng, ctx):
	n = rng.choice([1, 2, 3, 4, 6, 9, 14])
	return rng, gg.grammar(rng, size=n, labels=LABELS, vocab=VOCAB[:rng.choice(
			[2, 4, 7])], unary=rng.choice([0.1, 0.3, 0.6]))


def make(rules, sparse=False, start='ROOT'):
	r = list(rules)
	if sparse:
		# more than 20,000 labels which are not used by the sentence
		r.extend((('ZZ%d' % n, 'Epsilon'), ('filler%d' % n, )) and
				((('ZZ%d' % n, 'Epsilon'), ('filler', )), 1)
				for n in range(20001))
	return Grammar(r, start=start)


def compare(name, chart, msg, ref, start, parsed, desc, ctx, exhaustive=True,
		gr=None):
	n = len(ref.words)
	want = ref.get(start)
	ctx.ev(name)
	ctx.ev('parsed' if parsed else 'no parse')
	ctx.eq(bool(chart), want is not None, 'parsed', (name, desc))
	if not parsed:
		ctx.ok(msg.startswith('no parse'), 'silent failure', '%r %r', msg, desc)
	if not bool(chart):
		return
	d = kbest.lazykbest(chart, 1)
	ctx.ok(len(d) == 1, 'no derivation', '%r %r', name, desc)
	s, cost = d[0]
	t = lc.parsetree(s)
	ctx.ok(t[0] == start, 'start symbol', '%r %r %r', s, name, desc)
	ctx.eq(g.leaves(t), list(range(n)), 'yield', (name, s, desc))
	p = ref.treeprob(t)
	ctx.ok(p is not None, 'not licensed', '%r %r %r', name, s, desc)
	ctx.ok(close(p, -cost), 'stated probability', '%r want %r: %r %r %r', -cost,
			p, name, s, desc[1:] + desc[:1])
	ctx.ok(close(want, -cost), 'not the best', '%r want %r: %r %r %r', -cost,
			want, name, s, desc)


def items(name, chart, ref, gr, rulenos, desc, ctx, exhaustive):
	"""Compare the whole chart."""
	got = contents(chart)
	seen = set()
	for (a, idx), (cost, edges) in got.items():
		i, j = idx[0], idx[-1] + 1
		ctx.eq(list(idx), list(range(i, j)), 'span', (name, a, desc))
		p = ref.best.get((i, j), {}).get(a)
		ctx.ok(p is not None, 'underivable item', '%r %r %r', name, (a, idx), desc)
		ctx.ev('items compared')
		ctx.ok(close(p, -cost) or (-cost < p and name == 'general'
				and not exhaustive), 'item probability', '%r want %r: %r %r %r', -cost,
				p, name, (a, idx), desc)
		seen.add((a, i, j))
		mine = set()
		for e in edges:
			if e[0] is None:
				mine.add(e[1])
				continue
			no, left, right = e
			r = rulenos[no]
			ctx.eq((r[0], left[0], ) + ((right[0], ) if right else ()), r,
					'labels of edge', (name, e, desc))
			if right:
				mine.add((r, left[1][-1] + 1))
				ctx.eq(left[1] + right[1], idx, 'spans of edge', (name, e, desc))
			else:
				mine.add((r, ))
				ctx.eq(left[1], idx, 'span of unary edge', (name, e, desc))
		ctx.ev('edges compared', len(mine))
		ctx.eq(len(mine), len(edges), 'edge listed twice', (name, a, idx, desc))
		want = ref.edges[a, i, j]
		if exhaustive:
			ctx.eq(mine, want, 'edges', (name, a, idx, desc))
		else:
			ctx.ok(mine <= want, 'edges', '%r %r %r', mine - want, name, desc)
	if exhaustive:
		ctx.eq(seen, {(a, i, j) for (i, j), c in ref.best.items() for a in c},
				'items', (name, desc))




def check(case, ctx):
	rng, rules = case
	labels = sorted({r[0] for (r, _), _ in rules})
	gr = make(rules)
	rulenos = {gr.getruleno(r, yf): r for (r, yf), _ in rules
			if r[1] != 'Epsilon'}
	lexlabels = sorted({r[0] for (r, _), _ in rules if r[1] == 'Epsilon'})
	sparse = make(rules, sparse=True) if rng.random() < 0.04 else None
	if sparse is not None:
		sprules = {sparse.getruleno(r, yf): r for (r, yf), _ in rules
				if r[1] != 'Epsilon'}
	for _ in range(10 if sparse is not None else 4):
		sent = gg.sentence(rng, rules, rng.choice([4, 7, 10]), VOCAB, 0.05)
		low = {w for (r, yf), _ in rules if r[1] == 'Epsilon' for w in yf}
		if rng.random() < 0.15:
			i = rng.randrange(len(sent))
			sent[i] = sent[i].upper()
			ctx.ev('lower-cased', sent[i] not in low and sent[i].lower() in low)
		tags = None
		if rng.random() < 0.3:
			tags = [None if rng.random() < 0.4 else rng.choice(lexlabels + ['T',
					'NP'] + ['QQ'] * (rng.random() < 0.2)) for _ in sent]
			if rng.random() < 0.5:
				# tags that a known word has
				for i, w in enumerate(sent):
					c = [r[0] for (r, yf), _ in rules if r[1] == 'Epsilon'
							and yf[0] == w]
					if c and tags[i]:
						tags[i] = rng.choice(c)
						if rng.random() < 0.3:
							tags[i] = re.split('[-@^/]', tags[i])[0]
			ctx.ev('with tags', any(tags))
		if rng.random() < 0.02:
			sent, tags = [], None
			ctx.ev('empty sentences')
		start = rng.choice(labels) if rng.random() < 0.2 else 'ROOT'
		ctx.ev('other start', start != 'ROOT')
		ref = Ref(rules, sent, tags)
		parsed = ref.get(start) is not None
		desc = (rules, sent, tags, start)
		ctx.ev('sentences')
		ctx.ev('unknown words', ref.missing is not None and tags is None)
		if tags:
			ctx.ev('unseen tags', any(
					t and c and w not in self_words(ref, t)
					for w, t, c in zip(sent, tags, ref.cand)))
			ctx.ev('state splits', any(t and any(a != t for a in c)
					for t, c in zip(tags, ref.cand)))
		amb = parsed and any(len(e) > 1 for e in ref.edges.values())
		cyc = any(len(r[0][0]) == 2 for r in rules) and hascycle(ref)
		ctx.ev('ambiguous', amb)
		ctx.ev('cycles', cyc)
		if parsed and (amb or cyc):
			ctx.nontrivial((sent, rules))
		kw = {} if start == 'ROOT' else {'start': start}
		tg = tags
		run = []
		run.append(('dense', pcfg.parse, gr, rulenos, {}, True))
		run.append(('general', plcfrs.parse, gr, rulenos, {}, False))
		if rng.random() < 0.5:
			run.append(('general', plcfrs.parse, gr, rulenos,
					{'exhaustive': False}, False))
		else:
			run.append(('general', plcfrs.parse, gr, rulenos,
					{'exhaustive': True}, True))
		if sparse is not None:
			run.append(('sparse', pcfg.parse, sparse, sprules, {}, True))
		for name, f, gra, nos, opts, exh in run:
			try:
				chart, msg = f(list(sent), gra, tags=tg, **opts, **kw)
			except (ValueError, AssertionError):
				if sent:
					raise
				continue
			compare(name, chart, msg, ref, start, parsed, desc, ctx)
			if ref.missing is not None or not sent:
				continue
			# the general parser stops when the root is found
			items(name, chart, ref, gra, nos, desc, ctx,
					exh and (name != 'general'))
			if name == 'general':
				continue
		if sent and rng.random() < 0.2:
			beam = rng.choice([0.5, 2.0, 1e4])
			delta = rng.choice([2, 50])
			which = sparse if sparse is not None else gr
			chart, msg = pcfg.parse(list(sent), which, tags=tg, beam_beta=beam,
					beam_delta=delta, **kw)
			ctx.ev('beam')
			if not parsed:
				ctx.ok(not chart, 'beam parse', '%r', desc)
			elif beam > 1e3:
				compare('beam', chart, msg, ref, start, parsed, desc, ctx)
			elif chart:
				s, cost = kbest.lazykbest(chart, 1)[0]
				p = ref.treeprob(lc.parsetree(s))
				ctx.ok(p is not None and close(p, -cost), 'beam parse',
						'%r %r %r %r', s, p, -cost, desc)
				ctx.eq(g.leaves(lc.parsetree(s)), list(range(len(sent))),
						'yield', desc)


def self_words(ref, tag):
	return {w for w, d in ref.lex.items() if any(t == tag or (
			t.startswith(tag) and t[len(tag)] in '-@^/') for t in d)}


def hascycle(ref):
	for (i, j), cell in ref.best.items():
		for a in cell:
			seen, todo = set(), [a]
			while todo:
				b = todo.pop()
				for r in ref.unary.get(b, ()):
					if r[0] == a:
						return True
					if r[0] not in seen:
						seen.add(r[0])
						todo.append(r[0])
	return False


def genlong(rng, ctx):
	return rng, gg.grammar(rng, size=rng.choice([1, 2, 3]), vocab=VOCAB[:2],
			labels=LABELS, unary=0.15)


def checklong(case, ctx):
	rng, rules = case
	gr = make(rules)
	rulenos = {gr.getruleno(r, yf): r for (r, yf), _ in rules
			if r[1] != 'Epsilon'}
	n = rng.choice([62, 63, 64, 65, 70, 40])
	s = []
	while len(s) < n:
		s.extend(gg.sample(rng, rules, 30) or [rng.choice(VOCAB[:2])])
	s = s[:n]
	ref = Ref(rules, s, None)
	desc = (rules, s)
	ctx.ev('long sentences')
	for name, f in [('dense', pcfg.parse), ('general', plcfrs.parse)]:
		if name == 'general' and sum(map(len, ref.edges.values())) > 200000:
			continue
		chart, msg = f(list(s), gr)
		compare(name, chart, msg, ref, 'ROOT', ref.get('ROOT') is not None, desc,
				ctx)
		if ref.missing is None:
			items(name, chart, ref, gr, rulenos, desc, ctx, name == 'dense')


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'random': (gencase, check, 700 * k),
		'long': (genlong, checklong, 16 * k)}
