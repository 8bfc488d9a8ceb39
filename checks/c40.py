"""C40: augmenting the grammars of a running parser with new trees."""
import contextlib
import gzip
import io
import logging
import os
import re
import shutil
from collections import Counter
from discodop import parser, runexp
from discodop.tree import ParentedTree
from discodop.treebank import EXPORTHEADER, writetree
import g

REPO = os.environ.get('VF_REPO', '/repo')
PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'coarsetofine',
		'disambiguation', '_fragments', 'estimates'],
	rule='random treebank; grammars extracted from its first part, rest added '
	'in 1-3 batches; after each batch rules and counts are compared with those '
	'of a parser trained on all trees so far, and sentences are parsed by '
	'both; nontrivial: new rules added; counted by parameters and treebank',
	require={'histories': 120, 'batches': 220, 'grammars': 200, 'parses': 1100,
		'fragment counts': 2500, 'rules added': 1500},
)
WORDS = ['the', 'cat', 'sat', 'on', 'mat', 'a', 'dog', 'saw', 'red', 'Big',
		'(', ')', 'a=b', '1/2', '5=x', 'Ünïcode', '*', '[']
LABELS = ['NP', 'VP', 'PP', 'S', 'AP']
TAGS = ['NN', 'DT', 'VB', 'IN', '$,']


class Errors(logging.Handler):
	def __init__(self):
		logging.Handler.__init__(self, logging.ERROR)
		self.msgs = []

	def emit(self, record):
		self.msgs.append(record.getMessage())


@contextlib.contextmanager
def quiet():
	"""Restore logging configuration; collect errors that are logged."""
	root = logging.getLogger('')
	old, level = root.handlers[:], root.level
	h = Errors()
	root.handlers[:] = [h]
	out = io.StringIO()
	try:
		with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
			yield h
	finally:
		for x in root.handlers:
			if x not in old and x is not h:
				x.close()
		root.handlers[:] = old
		root.setLevel(level)


def gen(rng, ctx):
	disc = rng.choice([0, 0.4])
	pcfg = dict(name='pcfg', mode='pcfg')
	if disc:
		pcfg.update(split=True, markorigin=rng.random() < 0.6)
	plcfrs = dict(name='plcfrs', mode='plcfrs')
	k = rng.choice([0, 0, 1000, 50])
	kind = rng.choice(['plcfrs', 'pcfg', 'ctf', 'dop', 'dop', 'ctfdop'])
	dop = dict(name='dop', mode='plcfrs', dop='doubledop', objective='mpp',
			m=1000, maxdepth=rng.choice([1, 1, 2]))
	stages = dict(plcfrs=[plcfrs], pcfg=[pcfg],
			ctf=[pcfg, dict(plcfrs, prune='pcfg', k=k)],
			dop=[dop], ctfdop=[plcfrs, dict(dop, prune='plcfrs', k=k)])[kind]
	b = dict(method='default', factor=rng.choice(['right', 'left']),
			v=rng.choice([1, 2]), h=rng.choice([0, 1, 2, 99]),
			dot=rng.random() < 0.2, rightmostunary=rng.random() < 0.2,
			leftmostunary=rng.random() < 0.2)
	if kind == 'dop':
		dop['maxdepth'] = dop['maxdepth'] or 1
	vocab = rng.sample(WORDS, rng.choice([3, 6, 10]))
	trees, sents = g.randtreebank(rng, rng.randint(3, 10), maxlen=6, disc=disc,
			maxar=4, words=vocab, labels=rng.sample(LABELS, rng.randint(1, 5)),
			tags=rng.sample(TAGS, rng.randint(1, 5)))
	cuts = sorted(rng.sample(range(1, len(trees)), rng.randint(1, min(3,
			len(trees) - 1)))) + [len(trees)]
	post = None
	if rng.random() < 0.2:
		post = dict(method='unknownword', model='4', unknownthreshold=1,
				openclassthreshold=rng.choice([0, 50]), simplelexsmooth=True)
	return rng, kind, dict(postagging=post, stages=stages, binarization=b,
			corpusfmt='export', verbosity=0, numproc=1,
			evalparam=os.path.join(REPO, 'proper.prm')), trees, sents, cuts


def train(prm, trees, sents, dirname, loadtrees=False):
	text = EXPORTHEADER
	for n, (m, s) in enumerate(zip(trees, sents), 1):
		text += writetree(g.totree(m, ParentedTree), s, str(n), 'export')
	fn = dirname + '.export'
	with open(fn, 'w', encoding='utf8') as f:
		f.write(text)
	prm = dict(prm, traincorpus=dict(path=fn, numsents=len(trees)),
			testcorpus=dict(path=fn, numsents=1, skiptrain=False))
	with open(dirname + '.prm', 'w', encoding='utf8') as f:
		f.write(',\n'.join('%s=%r' % a for a in prm.items()))
	with quiet() as log:
		params = parser.readparam(dirname + '.prm')
		top = runexp.startexp(params, resultdir=dirname)
		with open(dirname + '/params.prm', 'w', encoding='utf8') as f:
			f.write("top='%s',\n" % top)
			f.write(open(dirname + '.prm', encoding='utf8').read())
		params = parser.readparam(dirname + '/params.prm')
		params.update(resultdir=dirname)
		parser.readgrammars(dirname, params.stages, params.postagging,
				params.transformations, top=params.top)
		return parser.Parser(params, loadtrees=loadtrees), log.msgs


def rules(gr):
	"""Listing of phrasal and lexical rules with counts."""
	res = Counter()
	for n in range(gr.numrules):
		f = [a for a in gr.rulestr(n).split(' ') if a]
		res[tuple(f[1:-2])] += float(f[-2].split('/')[0])
	s = str(gr)
	for line in s[s.index('lexicon:\n') + 9:s.rindex('\nlabels:\n')
			].split('\n'):
		_, t, _, w = line.split(' ', 3)
		w, c = w.rsplit('    ', 1)
		res[t, w.rstrip(' ')] += float(c.split('/')[0])
	return res


def fragments(ctx, stage, before, desc):
	"""Compare fragments and counts with those of a retrained parser."""
	want = {}
	for line in gzip.open('y/%s.fragments.gz' % stage.name, 'rt',
			encoding='utf8'):
		frag, cnt = line.rstrip('\n').rsplit('\t', 1)
		want[frag] = float(cnt)
	counts = byno(stage.grammar)
	ctx.ok(set(stage.fragments) >= set(want), 'missing fragments', '%r %r',
			set(want) - set(stage.fragments), desc)
	ctx.eq(len(set(stage.fragments.values())), len(stage.fragments),
			'rules shared by fragments', desc)
	for f, cnt in want.items():
		no = stage.fragments[f]
		if no in counts and not re.match(r'\(\S+ \d+=\S+\)$', f):
			ctx.ev('fragment counts')
			# count may lag behind if fragment is not maximal in new trees
			ctx.ok(before.get(f, 0) <= counts[no] <= cnt, 'fragment count',
					'%r: %r, retrained %r, before %r; %r', f, counts[no], cnt,
					before.get(f), desc)
			ctx.ev('counts exact', counts[no] == cnt)


def byno(gr):
	res = {}
	for n in range(gr.numrules):
		f = [a for a in gr.rulestr(n).split(' ') if a]
		res[int(f[-1].strip('[]'))] = float(f[-2].split('/')[0])
	return res


def check(case, ctx):
	rng, kind, prm, trees, sents, cuts = case
	for name in os.listdir('.'):
		shutil.rmtree(name) if os.path.isdir(name) else os.unlink(name)
	desc = (prm, trees, sents, cuts)
	unk = bool(prm['postagging'])
	p, msgs = train(prm, trees[:cuts[0]], sents[:cuts[0]], 'x', loadtrees=True)
	ctx.eq(msgs, [], 'errors', desc)
	for a, b in zip(cuts, cuts[1:]):
		before = []
		for s in p.prm.stages:
			counts = byno(s.grammar)
			before.append({f: counts[n] for f, n in s.fragments.items()
					if n in counts} if s.dop else rules(s.grammar))
		new = [g.totree(m, ParentedTree) for m in trees[a:b]]
		newsents = [list(s) for s in sents[a:b]]
		with quiet() as log:
			p.augmentgrammar(new, newsents)
		ctx.eq(log.msgs, [], 'errors', desc)
		ctx.eq([g.tomodel(t) for t in new], trees[a:b], 'input modified', desc)
		ctx.eq(newsents, sents[a:b], 'input modified', desc)
		ctx.ev('batches')
		new = set()
		shutil.rmtree('y', ignore_errors=True)
		q, msgs = train(prm, trees[:b], sents[:b], 'y')
		ctx.eq(msgs, [], 'errors', desc)
		for s1, s2, old in zip(p.prm.stages, q.prm.stages, before):
			got, want = rules(s1.grammar), rules(s2.grammar)
			if not s1.dop:
				ctx.ev('grammars')
				if not unk:
					ctx.eq(got, want, 'rules', (s1.name, desc))
				ctx.ok(all(got[a] >= old[a] for a in old),
						'rule lost', '%r', (s1.name, desc))
				ctx.ev('rules added', len(set(got) - set(old)))
				new |= set(got) - set(old)
			else:
				if not unk:
					fragments(ctx, s1, old, desc)
		todo = list(range(b))
		rng.shuffle(todo)
		for i in todo[:4]:
			with quiet() as log:
				r1 = list(p.parse(list(sents[i])))
				r2 = list(q.parse(list(sents[i])))
			ctx.eq(log.msgs, [], 'errors', desc)
			for x, y, s in zip(r1, r2, p.prm.stages):
				ctx.ev('parses')
				d = (s.name, i, str(x.parsetree), str(y.parsetree), x.prob, y.prob, desc)
				k = s.k if s.prune else 0
				if k == 0 or not unk:
					ctx.ok(not x.noparse or k != 0 and y.noparse,
						'sentence not parsed', '%r', d)
				ctx.eq(sorted(x.parsetree.leaves()), list(range(len(sents[i]))),
						'tokens', d)
				if not s.dop and k == 0 and not unk:
					ctx.ok(abs(x.prob - y.prob) <= 1e-9 * y.prob, 'probability',
							'%r', d)
		if new:
			ctx.nontrivial(desc)
		for s in p.prm.stages:
			s.grammar.switch('default', logprob=True)
			ctx.ok(s.grammar.testgrammar(epsilon=1e-9)[0], 'not normalized',
					'%r %r', s.grammar.testgrammar(), (s.name, desc))
	ctx.ev('histories')
	ctx.ev('kind ' + kind)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'augment': (gen, check, 300 * k)}
