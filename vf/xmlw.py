"""Independent writers of the XML treebank formats, with annotation.

Each function returns the XML text and a list with for every node of the model
in preorder a dictionary with what the reader should report."""
from xml.sax.saxutils import escape, quoteattr

FUNCS = ['su', 'hd', 'obj1', 'mod', 'SBJ', '--']


def preterminal(m):
	return not isinstance(m[1][0], tuple)


def leaves(m):
	if not isinstance(m, tuple):
		return [m]
	return [b for a in m[1] for b in leaves(a)]


def alpino(rng, m, sent, indices=True, comment=None, header=True):
	nodes, phrasal = [], []

	def collect(m):
		nodes.append(m)
		if not preterminal(m):
			phrasal.append(len(nodes) - 1)
			for a in m[1]:
				collect(a)
	collect(m)
	info = [dict(func=rng.choice(FUNCS), sec=[]) for _ in nodes]
	empty = {k: [] for k in phrasal}  # index nodes inside phrasal nodes
	index = {}
	if indices:
		for _ in range(rng.choice([0, 1, 1, 2, 4])):
			k = rng.randrange(len(nodes))
			p = rng.choice(phrasal)
			if k == 0:
				continue
			index.setdefault(k, len(index) + 1)
			empty[p].append((rng.choice(FUNCS), k, rng.random() < 0.5))
	cnt, pos = [0], [0]
	ids = {}
	order = []
	lines = []

	def attr(**kw):
		return ' '.join('%s=%s' % (a, quoteattr(str(b))) for a, b in
				kw.items())

	def emptynode(depth, rel, k, p):
		lines.append('%s<node %s />' % ('  ' * depth, attr(id=cnt[0],
				begin=0, end=1, index=index[k], rel=rel)))
		cnt[0] += 1
		order.append((k, rel, p))

	def rec(m, depth):
		k = pos[0]
		pos[0] += 1
		ids[k] = cnt[0]
		cnt[0] += 1
		lv = leaves(m)
		kw = dict(begin=min(lv), end=max(lv) + 1, id=ids[k],
				rel=info[k]['func'])
		if k in index:
			kw['index'] = index[k]
		if preterminal(m):
			lemma, tag = 'lem%d' % rng.randrange(9), 'T(%d,x)' % rng.randrange(9)
			info[k].update(word=sent[m[1][0]], lemma=lemma, morph=tag)
			kw.update({'word': sent[m[1][0]], 'pos': m[0],
					rng.choice(['lemma', 'root']): lemma,
					rng.choice(['postag', 'frame']): tag})
			lines.append('%s<node %s />' % ('  ' * depth, attr(**kw)))
			return
		kw['cat'] = m[0].lower()
		lines.append('%s<node %s>' % ('  ' * depth, attr(**kw)))
		for rel, j, before in empty[k]:
			if before:
				emptynode(depth + 1, rel, j, k)
		for a in m[1]:
			rec(a, depth + 1)
		for rel, j, before in empty[k]:
			if not before:
				emptynode(depth + 1, rel, j, k)
		lines.append('%s</node>' % ('  ' * depth))
	rec(m, 1)
	for k, rel, p in order:
		info[k]['sec'].append((rel, p))
	head = ['<?xml version="1.0" encoding="UTF-8"?>'] if header else []
	tail = ['  <sentence>%s</sentence>' % escape(' '.join(sent))]
	if comment:
		tail.append('  <comments>\n    <comment>%s</comment>\n  </comments>'
				% escape(comment))
	for k, x in enumerate(info):
		x['id'] = 500 + ids[k]
	return '\n'.join(head + ['<alpino_ds version="1.3">'] + lines + tail
			+ ['</alpino_ds>']) + '\n', info


def ftb(rng, m, sent, nb):
	"""NB: a node with label MWX becomes a compound."""
	info = []

	def rec(m):
		x = dict(func='' if rng.random() < 0.3 else rng.choice(FUNCS), sec=[])
		info.append(x)
		fct = ' fct=%s' % quoteattr(x['func']) if x['func'] else ''
		if preterminal(m):
			x.update(word=sent[m[1][0]], lemma='l%d' % rng.randrange(9),
					morph='N-C-%d' % rng.randrange(9))
			return '<w %s="%s" lemma="%s" ee="%s"%s>%s%s%s</w>' % (rng.choice(
					['cat', 'catint']), m[0], x['lemma'], x['morph'], fct,
					rng.choice(['', ' ']), escape(sent[m[1][0]]),
					rng.choice(['', '\n']))
		if m[0].startswith('MW') and all(preterminal(a) for a in m[1]):
			return '<w cat="%s" compound="yes"%s>%s</w>' % (m[0][2:], fct,
					''.join(map(rec, m[1])))
		return '<%s%s>%s</%s>' % (m[0], fct, rng.choice(['', '\n  ']).join(
				map(rec, m[1])), m[0])
	return '<SENT nb="%s" textid="1">%s</SENT>\n' % (
			nb, ''.join(map(rec, m[1]))), [dict(func='', sec=[])] + info


def tiger(rng, m, sent, sentid):
	terms, nts = [], []
	cnt = [500]
	info, ids = [], {}
	phrasal = []

	def number(m):
		k = len(info)
		info.append(dict(func=rng.choice(FUNCS), sec=[]))
		if preterminal(m):
			i = m[1][0]
			info[k].update(word=sent[i], lemma='l%d' % rng.randrange(9),
					morph='m.%d' % rng.randrange(9))
			ids[k] = str(i + 1)
			terms.append((i, '<t id="%s_%d" word=%s lemma="%s" pos="%s" '
					'morph="%s" />' % (sentid, i + 1, quoteattr(sent[i]),
					info[k]['lemma'], m[0], info[k]['morph'])))
			return
		ids[k] = 'VROOT' if k == 0 else str(cnt[0])
		cnt[0] += k > 0
		if k:
			phrasal.append(k)
		for a in m[1]:
			number(a)
	number(m)
	sec = {k: [] for k in phrasal}
	if phrasal:
		for _ in range(rng.choice([0, 1, 2, 3])):
			k, p = rng.randrange(1, len(info)), rng.choice(phrasal)
			sec[p].append((rng.choice(FUNCS), k))
	pos = [0]

	def rec(m):
		k = pos[0]
		pos[0] += 1
		if preterminal(m):
			return
		kids = []
		slot = len(nts)
		nts.append(None)
		for a in m[1]:
			kids.append(pos[0])
			rec(a)
		edges = ['<edge label="%s" idref="%s_%s" />' % (info[j]['func'],
				sentid, ids[j]) for j in kids]
		for rel, j in sec.get(k, ()):
			edges.insert(rng.randint(0, len(edges)),
					'<secedge label="%s" idref="%s_%s" />' % (rel, sentid,
					ids[j]))
		nts[slot] = (k, '<nt id="%s_%s" cat="%s">%s</nt>\n' % (sentid, ids[k],
				m[0], ''.join(edges)), edges)
	rec(m)
	order = nts[:]
	rng.shuffle(order)  # order of nonterminals is free
	where = {v: k for k, v in ids.items()}
	for k, _, edges in order:
		for e in edges:
			if e.startswith('<secedge'):
				label, idref = e.split('"')[1], e.split('"')[3]
				info[where[idref[len(sentid) + 1:]]]['sec'].append((label, k))
	return ('<s id="%s">\n<graph root="%s_VROOT">\n<terminals>\n%s\n'
			'</terminals>\n<nonterminals>\n%s</nonterminals>\n</graph>\n'
			'</s>\n' % (sentid, sentid, '\n'.join(a for _, a in sorted(terms)),
			''.join(a for _, a, _ in order))), info
