"""C42: predicted function tags go to the constituents they are meant for."""
import contextlib
import copy
import gzip
import pickle
import os
import shutil
import sys
import types
from collections import Counter, defaultdict
from discodop import functiontags, parser, runexp
from discodop.tree import Tree, ParentedTree, HEAD, COMPLEMENT, MODIFIER
from discodop.treebank import NegraCorpusReader, writetree
from checks import c41
import g

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'coarsetofine',
		'disambiguation', '_fragments', 'estimates'],
	rule='random trees with random heads and function tags (none, one or '
	'several per constituent; with and without tags on preterminals) times '
	'a stand-in for the classifier of scikit-learn that records its '
	'arguments and memorizes the training data; features, training pairs and '
	'the tags that end up in the trees are compared with an independent '
	'implementation; also as part of complete experiments; nontrivial: more '
	'than one constituent with a function tag; counted by treebank',
	require={'training pairs': 20000, 'applied': 20000, 'multiple tags': 300,
		'single tags': 300, 'tags on preterminals': 300, 'restored': 5000,
		'large treebanks': 12, 'no attributes': 2000, 'discontinuous': 300, 'no head': 2000,
		'PP': 1000, 'experiments': 25, 'experiment predictions': 400,
		'experiment reruns': 10, 'exact parses': 60},
)
FUNC = 4
LABELS = ['S', 'NP', 'VP', 'PP', 'PP^NP', 'PP-X', 'PPX', 'CONJP']
TAGS = ['NN', 'VB', 'PP', 'IN']
FUNCS = ['SB', 'HD', 'MO', 'OA', 'PRD']
CALLS = []  # recorded (features, predictions) of each call to predict()
FITS = []  # recorded (features, targets) of each call to fit()


def key(feats):
	return tuple(sorted(feats.items()))


class Pipeline:
	def __init__(self, steps):
		self.steps = steps

	def fit_transform(self, x, y=None):
		return [dict(a) for a in x]

	def transform(self, x):
		return [dict(a) for a in x]


class Dummy:
	def __init__(self, *args, **kwargs):
		pass


class LabelEncoder:
	def fit_transform(self, y):
		y = list(y)
		assert all(isinstance(a, str) for a in y), y
		self.classes_ = sorted(set(y))
		return [self.classes_.index(a) for a in y]

	def inverse_transform(self, y):
		return [self.classes_[a] for a in y]


class MultiLabelBinarizer:
	def fit_transform(self, y):
		y = [set(a) for a in y]
		self.classes_ = sorted(set().union(*y))
		return [tuple(int(c in a) for c in self.classes_) for a in y]

	def inverse_transform(self, y):
		return [tuple(c for c, b in zip(self.classes_, a) if b) for a in y]


class Memory:
	"""Classifier that remembers the training data."""
	def __init__(self, *args, **kwargs):
		pass

	def fit(self, x, y):
		assert len(x) == len(y), (len(x), len(y))
		FITS.append((x, y))
		count = defaultdict(Counter)
		for a, b in zip(x, y):
			count[key(a)][b] += 1
		self.mem = {a: min(b, key=lambda c: (-b[c], c))
				for a, b in count.items()}
		self.targets = sorted(set(y))
		return self

	def predict(self, x):
		result = [self.mem.get(key(a)) for a in x]
		# reproducible choice for unseen features
		result = [self.targets[sum(map(ord, repr(key(a)))) % len(self.targets)]
				if b is None else b for a, b in zip(x, result)]
		CALLS.append((x, result))
		return result


class GridSearchCV(Memory):
	def __init__(self, estimator, param_grid=None, scoring=None):
		self.best_estimator_ = estimator
		self.best_score_ = 1.0
		self.cv_results_ = {}


def dump(obj, filename, compress=0):
	with gzip.open(filename, 'wb') as out:
		pickle.dump(obj, out)


def load(filename):
	with gzip.open(filename, 'rb') as inp:
		return pickle.load(inp)


@contextlib.contextmanager
def standin():
	"""Make stand-ins for scikit-learn and joblib available."""
	def mod(name, **attrs):
		result = types.ModuleType(name)
		result.__dict__.update(attrs)
		return result
	mods = dict(
			linear_model=mod('sklearn.linear_model', SGDClassifier=Memory),
			multiclass=mod('sklearn.multiclass', OneVsRestClassifier=Memory),
			pipeline=mod('sklearn.pipeline', Pipeline=Pipeline),
			preprocessing=mod('sklearn.preprocessing', StandardScaler=Dummy,
				MultiLabelBinarizer=MultiLabelBinarizer,
				LabelEncoder=LabelEncoder),
			feature_extraction=mod('sklearn.feature_extraction',
				DictVectorizer=Dummy),
			model_selection=mod('sklearn.model_selection',
				GridSearchCV=GridSearchCV),
			metrics=mod('sklearn.metrics', make_scorer=Dummy,
				jaccard_score=None))
	new = {'sklearn.' + a: b for a, b in mods.items()}
	new['sklearn'] = mod('sklearn', **mods)
	new['joblib'] = mod('joblib', dump=dump, load=load)
	old = {a: sys.modules.get(a) for a in new}
	sys.modules.update(new)
	del CALLS[:], FITS[:]
	try:
		yield
	finally:
		for a, b in old.items():
			if b is None:
				del sys.modules[a]
			else:
				sys.modules[a] = b


# --- independent features; nodes are dicts
def model(t, parent=None, idx=0):
	"""A tree of dicts with parent links, independent of discodop."""
	x = dict(label=t.label, head=t.type == HEAD, parent=parent, idx=idx,
			tags=[] if not t.source or t.source[FUNC] in ('--', '', None)
			else t.source[FUNC].split('-'))
	if isinstance(t[0], int):
		x['token'], x['yield'], x['ch'] = t[0], [t[0]], []
	else:
		x['ch'] = [model(c, x, n) for n, c in enumerate(t)]
		x['yield'] = sorted(i for c in x['ch'] for i in c['yield'])
	return x


def walk(x):
	yield x
	for c in x['ch']:
		yield from walk(c)


def headpos(children):
	for c in children:
		if c['head']:
			return c if 'token' in c else headpos(c['ch'])
	return None


def headof(x):
	return x if 'token' in x else headpos(x['ch'])


def lab(x):
	return x['label'] if x else ''


def describe(x, sent, prefix=''):
	head, alt = headof(x), None
	if (x['label'] == 'PP' or x['label'].startswith(('PP^', 'PP-'))) and x['ch']:
		alt = headpos(x['ch'][1:])
	return {prefix + a: b for a, b in dict(
			cat=x['label'], hwp=lab(head), ahc=lab(alt), yis=len(x['yield']),
			hwf=sent[head['token']] if head else '',
			ahf=sent[alt['token']] if alt else '').items()}


def features(x, sent):
	par = x['parent']
	sibs = par['ch']
	head = next((c for c in sibs if c['head']), None)
	word = headof(head) if head else None
	result = dict(hsc=lab(head), hsp=lab(word),
			hsf=sent[word['token']] if word else '', moc=par['label'],
			grc=lab(par['parent']), ohs=x['idx'] - head['idx'] if head else -1)
	result.update(describe(x, sent))
	if x['idx'] > 0:
		result.update(describe(sibs[x['idx'] - 1], sent, 'p'))
	if x['idx'] + 1 < len(sibs):
		result.update(describe(sibs[x['idx'] + 1], sent, 'n'))
	return result


def targets(m, posfunc):
	return [x for x in walk(m) if x['parent'] and (posfunc or x['ch'])]


# --- workload
def gen(rng, ctx):
	multi = rng.random() < 0.5
	posfunc = rng.random() < 0.5
	items = []
	words = rng.sample(g.WORDS, rng.choice([2, 5, 8]))
	disc = rng.choice([0, 0.5])
	size = rng.randint(1, 8)
	if rng.random() < 0.01:
		size = rng.choice([90, 300, 600])
	for _ in range(size):
		n = rng.randint(1, 9 if size < 9 else 3)
		m = ('ROOT', (g.randtree(rng, n, disc=disc, labels=LABELS, tags=TAGS), ))
		items.append((m, g.randsent(rng, n, words=words)))
	return rng, items, multi, posfunc


def annotate(rng, t, multi, posfunc, none=0.3):
	for node in t.subtrees():
		if not isinstance(node[0], int) and rng.random() < 0.8:
			rng.choice(list(node)).type = HEAD
		for c in node:
			if isinstance(c, Tree) and c.type != HEAD:
				c.type = rng.choice([COMPLEMENT, MODIFIER])
		if rng.random() < 0.1:
			continue
		k = 0
		if rng.random() > none and (posfunc or not isinstance(node[0], int)):
			k = rng.choice([1, 1, 2, 3]) if multi else 1
		node.source = ['w', 'l', node.label, 'm',
				'-'.join(rng.sample(FUNCS, k)) or rng.choice(['--', '', None]),
				'0'] + rng.choice([[], ['X', '7']])
		if rng.random() < 0.1:
			node.source = tuple(node.source)


def same(a, b):
	"""Everything except function tags is the same."""
	if isinstance(a, int) or isinstance(b, int):
		return a == b
	sa, sb = list(a.source or ['--'] * 6), list(b.source or ['--'] * 6)
	sa[FUNC] = sb[FUNC] = None
	return (a.label == b.label and a.type == b.type and sa == sb
			and len(a) == len(b) and all(map(same, a, b)))


def check(case, ctx):
	rng, items, multi, posfunc = case
	trees = [g.totree(m, ParentedTree) for m, _ in items]
	sents = [s for _, s in items]
	late = len(trees) > 9 and rng.randint(0, len(trees) - 1)
	for n, t in enumerate(trees):
		annotate(rng, t, multi and n >= late, posfunc and n >= late)
	models = [model(t) for t in trees]
	desc = [(str(t), s, [(x['label'], x['tags']) for x in walk(m)])
			for t, s, m in zip(trees, sents, models)]
	posfunc = any(x['tags'] for m in models for x in walk(m) if not x['ch'])
	want = [(key(features(x, s)), frozenset(x['tags']))
			for m, s in zip(models, sents) for x in targets(m, posfunc)]
	if not want:
		return
	multi = any(len(b) > 1 for _, b in want)
	before = pickle.dumps(trees)
	with standin():
		fc, msg = functiontags.trainfunctionclassifier(trees, sents, 1)
		ctx.ok(pickle.dumps(trees) == before, 'training changed trees', '%r',
				desc)
		ctx.eq(len(FITS), 1, 'number of classifiers', desc)
		feats, got = FITS[0]
		got = fc[2].inverse_transform(got)
		got = [frozenset(b if isinstance(b, tuple) else () if b == '--'
				else (b, )) for b in got]
		got = [(key(a), b) for a, b in zip(feats, got)]
		ctx.eq(Counter(got), Counter(want), 'training pairs', desc)
		ctx.ev('training pairs', len(want))
		ctx.ev('large treebanks', len(trees) > 50)
		ctx.ev('multiple tags', multi)
		ctx.ev('single tags', not multi)
		ctx.ev('tags on preterminals', posfunc)
		ctx.ev('PP', sum('ahf' in dict(a) and dict(a)['ahf'] != ''
				for a, _ in want))
		ctx.ev('no head', sum(dict(a)['hwf'] == '' for a, _ in want))
		ctx.ev('discontinuous', any(g.fanout(x) > 1 for m, _ in items
				for x in g.nodes(m)))
		if sum(bool(b) for _, b in want) > 1:
			ctx.nontrivial(desc)
			ctx.sample(desc)
		mem = defaultdict(set)
		for a, b in want:
			mem[a].add(b)
		for t, s, m in list(zip(trees, sents, models))[-10:]:
			t1 = t.copy(True)
			kind = rng.choice(['same', 'none', 'other'])
			for node in t1.subtrees():
				if kind == 'none':
					node.source = None
				elif kind == 'other' and node.source:
					node.source = list(node.source)
					node.source[FUNC] = rng.choice(FUNCS + ['--'])
			ctx.ev('no attributes', len(list(t1.subtrees()))
					if kind == 'none' else 0)
			apply(ctx, fc, t1, s, posfunc, mem, m, desc)
		# a tree that was not in the training data
		n = rng.randint(1, 7)
		t = g.totree(('ROOT', (g.randtree(rng, n, disc=0.3, labels=LABELS,
				tags=TAGS), )), ParentedTree)
		annotate(rng, t, multi, True)
		apply(ctx, fc, t, g.randsent(rng, n), posfunc, mem, None, desc)


def apply(ctx, fc, t, sent, posfunc, mem, gold, desc):
	"""Predictions end up in the right nodes; nothing else changes."""
	old, m = t.copy(True), model(t)
	del CALLS[:]
	functiontags.applyfunctionclassifier(fc, t, sent)
	d = (str(t), sent, desc)
	ctx.ok(same(old, t), 'more than function tags changed', '%r', d)
	new = model(t)
	want = Counter(key(features(x, sent)) for x in targets(m, posfunc))
	ctx.eq(Counter(key(a) for x, _ in CALLS for a in x), want,
			'features of tree', d)
	pred = {}
	for x, y in CALLS:
		for a, b in zip(x, fc[2].inverse_transform(y)):
			pred[key(a)] = set(b if isinstance(b, tuple) else
					() if b == '--' else (b, ))
	golds = list(walk(gold)) if gold else None
	for n, (x, y) in enumerate(zip(walk(m), walk(new))):
		if x['parent'] and (posfunc or x['ch']):
			k = key(features(x, sent))
			ctx.ev('applied')
			ctx.eq(set(y['tags']), pred[k], 'function tags of constituent', d)
			ctx.eq(len(y['tags']), len(pred[k]), 'repeated tags', d)
			if golds and len(mem[k]) == 1:
				ctx.ev('restored')
				ctx.eq(set(y['tags']), set(golds[n]['tags']),
						'function tags not restored', d)
		else:
			ctx.eq(y['tags'], x['tags'], 'other function tags changed', d)


# --- experiments
def genexp(rng, ctx):
	words = rng.sample(g.WORDS, rng.choice([4, 8]))
	labels = rng.sample(['S', 'NP', 'VP', 'PP', 'AP'], 3)
	tags = rng.sample(['NN', 'VB', 'IN', 'DT'], 3)
	disc = rng.choice([0, 0.4])
	items = c41.corpus(rng, 'export', rng.randint(3, 8), words, disc, labels,
			tags)
	return rng, items, rng.random() < 0.4, rng.random() < 0.6, disc


def checkexp(case, ctx):
	rng, items, multi, posfunc, disc = case
	for name in os.listdir('.'):
		shutil.rmtree(name) if os.path.isdir(name) else os.unlink(name)
	with open('x.export', 'w', encoding='utf8') as f:
		for n, (m, s) in enumerate(items, 1):
			t = g.totree(m, ParentedTree)
			annotate(rng, t, multi, posfunc, none=0.1)
			for node in t.subtrees():
				if isinstance(node[0], int):
					w, tag = s[node[0]], node.label
				else:
					w, tag = '--', node.label
				src = list(node.source or ['--'] * 6)
				node.source = [w, '--', tag, '--', src[FUNC] or '--', '0']
			f.write(writetree(t, s, str(n), 'export'))
	with open('heads', 'w') as f:
		for a in ['ROOT', 'S', 'NP', 'VP', 'PP', 'AP']:
			f.write('%s %s %s\n' % (a, rng.choice(['left', 'right']),
					' '.join(rng.sample(['NN', 'VB', 'IN', 'NP', 'VP'], 3))))
	with open('eval.prm', 'w') as f:
		f.write('')
	prm = dict(stages=c41.stages(rng, disc), corpusfmt='export', verbosity=1,
			numproc=1, evalparam='eval.prm', predictfunctions=True,
			binarization=dict(method='default', h=rng.choice([1, 99]), v=1,
				headrules='heads', rightmostunary=rng.random() < 0.5,
				leftmostunary=rng.random() < 0.5,
				tailmarker=rng.choice(['', '$'])),
			traincorpus=dict(path='x.export', numsents=99, maxwords=40),
			testcorpus=dict(path='x.export', skiptrain=False, numsents=99, maxwords=40))
	if not prm['binarization']['rightmostunary']:
		prm['binarization']['tailmarker'] = ''
	with open('x.prm', 'w', encoding='utf8') as f:
		f.write(',\n'.join('%s=%r' % x for x in prm.items()))
	with open('x.export', encoding='utf8') as f:
		desc = (prm, f.read(), open('heads').read())
	params = parser.readparam('x.prm')
	rerun = False
	while True:
		with standin():
			with c41.logged() as log:
				runexp.startexp(params, resultdir='x', rerun=rerun)
			ctx.eq(log.msgs, [], 'errors logged', desc)
			calls = CALLS[:]
			fc = load('x/funcclassifier.pickle')
		predictions(ctx, prm, items, calls, fc, desc)
		if rerun or rng.random() < 0.5:
			break
		rerun = True
		ctx.ev('experiment reruns')
		with open('x/params.prm', 'w') as f:
			f.write(open('x.prm').read())
		os.unlink('x/output.log')
		params = parser.readparam('x.prm')
	ctx.ev('experiments')


def predictions(ctx, prm, items, calls, fc, desc):
	"""The trees in the results of an experiment have predicted tags."""
	calls = [(x, [set(b if isinstance(b, tuple) else () if b == '--' else (b, ))
			for b in fc[2].inverse_transform(y)]) for x, y in calls]
	posfunc = fc[3]
	last = prm['stages'][-1]['name']
	gold = [x.tree for _, x in NegraCorpusReader('x/gold.export').itertrees()]
	for num, stage in enumerate(prm['stages']):
		res = [x for _, x in NegraCorpusReader(
				'x/%s.export' % stage['name']).itertrees()]
		ctx.eq(len(res), len(items), 'number of results', desc)
		for n, x in enumerate(res):
			m = model(x.tree)
			want = Counter((a['label'], len(a['yield']), frozenset(a['tags']))
					for a in targets(m, posfunc))
			got = [c for c in calls if want == Counter(
					(a['cat'], a['yis'], frozenset(b)) for a, b in zip(*c))]
			d = (stage['name'], n, x.tree, x.sent, desc)
			ctx.ev('experiment predictions')
			if 'NOPARSE' in str(x.tree):
				continue
			ctx.ok(got, 'tags in results not those predicted',
					'want %r\nrecorded %r\n%r', want, calls, d)
			ctx.ev('exact parses', x.tree == gold[n])


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'functions': (gen, check, 4000 * k),
			'experiment': (genexp, checkexp, 150 * k)}
