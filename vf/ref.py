"""Reference for one sentence: verdicts and best probabilities per item."""
import math
import g
import lc


def close(a, b):
	return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def istag(t, tag):
	return t == tag or (t.startswith(tag) and t[len(tag)] in '-@^/')


class Ref:
	def __init__(self, rules, words, tags, limit=60000, edges=None):
		self.lc = lc.LC(rules)
		tagset = {r[0] for (r, _), _ in rules if r[1] == 'Epsilon'}
		self.cand = []
		for i, w in enumerate(words):
			c = self.lc.lex.get(w)
			if c is None:
				c = self.lc.lex.get(w.lower(), [])
			if tags and tags[i]:
				c = [(t, p) for t, p in c if istag(t, tags[i])] or [
						(t, 1.0) for t in sorted(tagset) if istag(t, tags[i])]
			self.cand.append(c)
		self.words = words
		self.missing = not all(self.cand)
		self.edges = edges if edges is not None else lc.chart(self.lc, words,
				[(lambda cand, c=c: c) for c in self.cand], limit=limit)
		self.best = None if self.edges is None else lc.viterbi(self.edges)

	def get(self, a):
		return self.best.get((a, (1 << len(self.words)) - 1))

	def treeprob(self, t):
		res = 0
		for x in g.nodes(t):
			if not isinstance(x[1][0], tuple):
				p = dict(self.cand[x[1][0]]).get(x[0])
			else:
				p = self.lc.prob.get(lc.noderule(self.lc, x, self.words))
			if not p:
				return None
			res += math.log(p)
		return res
