"""Worker-side monitoring framework: cases, verdicts, counters.

A check module defines ``PLAN`` (see run.py) and a function per stream:
``def gen(rng, ctx) -> case`` and ``def check(case, ctx)``.  The oracle calls
``ctx.fail(key, message)`` when an observed execution refutes the property.
"""
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter


class Violation(Exception):
	"""Raised by an oracle: the observed execution refutes the property."""

	def __init__(self, key, msg):
		super().__init__('%s: %s' % (key, msg))
		self.key, self.msg = key, msg


class Skip(Exception):
	"""The generated case is outside of the domain of the property."""


def short(obj, limit=1500):
	s = obj if isinstance(obj, str) else repr(obj)
	return s if len(s) <= limit else s[:limit] + '...<%d chars>' % len(s)


class Ctx:
	"""Per-worker monitor state."""

	def __init__(self, pid, seed, tier, shard, nshards, outfile, crumbfile,
			datadir, tmpdir, cpulimit=90):
		self.pid, self.seed, self.tier = pid, seed, tier
		self.shard, self.nshards = shard, nshards
		self.outfile, self.crumbfile = outfile, crumbfile
		self.datadir, self.tmpdir = datadir, tmpdir
		self.cpulimit = cpulimit
		self.events = Counter()
		self.evaluations = 0
		self.skipped = 0
		self.sigs = set()
		self.samples = []
		self.violations = []
		self.errors = []
		self.stream = self.index = None
		self._crumb = os.open(crumbfile, os.O_CREAT | os.O_WRONLY, 0o644)

	@property
	def thorough(self):
		return self.tier == 'thorough'

	# -- events ----------------------------------------------------------
	def ev(self, name, n=1):
		"""Count something that a monitor observed."""
		self.events[name] += n

	def nontrivial(self, sig):
		"""Record that the current case is nontrivial; sig identifies it."""
		if not isinstance(sig, (str, bytes)):
			sig = repr(sig)
		if isinstance(sig, str):
			sig = sig.encode('utf8', 'surrogatepass')
		self.sigs.add(hashlib.blake2b(sig, digest_size=8).hexdigest())

	def sample(self, obj):
		if len(self.samples) < 3:
			self.samples.append(short(obj, 600))

	def fail(self, key, msg, *args):
		try:
			text = msg % args if args else msg
		except (TypeError, ValueError):
			text = '%s %r' % (msg, args)
		raise Violation(key, text)

	def ok(self, cond, key, msg, *args):
		self.events['oracle evaluations'] += 1
		if not cond:
			self.fail(key, msg, *[short(a) for a in args])

	def eq(self, got, want, key, msg=''):
		self.events['oracle evaluations'] += 1
		if got != want:
			self.fail(key, '%s\ngot:      %s\nexpected: %s' % (
					msg, short(got), short(want)))

	# -- running -----------------------------------------------------------
	def rng(self, stream, i):
		return random.Random('%s/%s/%s/%d' % (self.pid, self.seed, stream, i))

	def _setcrumb(self, stream, i):
		os.pwrite(self._crumb, ('%s %d' % (stream, i)).encode().ljust(80), 0)
		self.stream, self.index = stream, i
		if self.cpulimit:
			usage = resource.getrusage(resource.RUSAGE_SELF)
			cur = int(usage.ru_utime + usage.ru_stime) + 1
			hard = resource.getrlimit(resource.RLIMIT_CPU)[1]
			resource.setrlimit(resource.RLIMIT_CPU,
					(cur + self.cpulimit, hard))

	def run(self, stream, gen, check, n, only=None):
		"""Run cases 0..n-1 of a stream (those belonging to this shard)."""
		indices = [only] if only is not None else range(
				self.shard, n, self.nshards)
		for i in indices:
			if time.time() > self.deadline:
				self.events['cases not run (time)'] += 1
				continue
			if len(self.violations) >= 5:
				return
			self.one(stream, gen, check, i)

	def one(self, stream, gen, check, i):
		self._setcrumb(stream, i)
		rng = self.rng(stream, i)
		case = None
		try:
			case = gen(rng, self)
			self.evaluations += 1
			self.events['stream ' + stream] += 1
			check(case, self)
		except Skip:
			self.evaluations -= case is not None
			self.skipped += 1
		except Violation as err:
			self._record(err.key, err.msg, case, stream, i)
		except MemoryError:
			self._record('memory', traceback.format_exc(), case, stream, i)
		except Exception as err:
			tb = traceback.extract_tb(sys.exc_info()[2])
			inrepo = [f for f in tb if '/discodop/' in f.filename
					or f.filename.startswith('discodop/')
					or f.filename.endswith(('.pyx', '.pxi', '.pxd'))]
			if inrepo and not getattr(err, 'vf_harness', False):
				last = inrepo[-1]
				self._record('exception %s in %s' % (type(err).__name__,
						last.name), 'unexpected exception on valid input:\n'
						+ traceback.format_exc()[-3000:], case, stream, i)
			elif (case is not None and not getattr(err, 'vf_harness', False)
					and isinstance(err, (AttributeError, TypeError, ValueError,
						LookupError, RecursionError, AssertionError,
						ArithmeticError))):
				# the oracle could not digest what the code produced, e.g.,
				# a cyclic tree or None instead of a tree.
				self._record('uninterpretable result: %s in %s' % (
						type(err).__name__, tb[-1].name),
						'result does not have the expected form:\n'
						+ traceback.format_exc()[-3000:], case, stream, i)
			else:
				self.errors.append('%s[%d]: %s' % (stream, i,
						traceback.format_exc()[-3000:]))
				if len(self.errors) > 3:
					raise

	def _record(self, key, msg, case, stream, i):
		self.events['violations'] += 1
		if any(v['key'] == key for v in self.violations):
			return
		self.violations.append(dict(key=key, msg=short(msg, 6000),
				case=short(case, 4000), stream=stream, index=i))

	def save(self):
		with open(self.outfile + '.tmp', 'w') as out:
			json.dump(dict(events=self.events, evaluations=self.evaluations,
				skipped=self.skipped, sigs=sorted(self.sigs),
				samples=self.samples, violations=self.violations,
				errors=self.errors), out)
		os.rename(self.outfile + '.tmp', self.outfile)


def workermain(argv):
	"""argv: json config"""
	cfg = json.loads(argv[0])
	sys.path.insert(0, cfg['stage'])
	sys.path.insert(1, cfg['verif'])
	sys.path.insert(2, os.path.join(cfg['verif'], 'vf'))
	sys.setrecursionlimit(5000)
	signal.signal(signal.SIGINT, signal.SIG_DFL)
	if cfg.get('mem'):
		resource.setrlimit(resource.RLIMIT_AS, (cfg['mem'], cfg['mem']))
	os.makedirs(cfg['tmpdir'], exist_ok=True)
	os.chdir(cfg['tmpdir'])
	import importlib
	mod = importlib.import_module('checks.' + cfg['pid'].lower())
	ctx = Ctx(cfg['pid'], cfg['seed'], cfg['tier'], cfg['shard'],
			cfg['nshards'], cfg['out'], cfg['crumb'], cfg['data'],
			cfg['tmpdir'], cfg.get('cpulimit', 90))
	ctx.deadline = time.time() + cfg['seconds']
	ctx.variant = cfg['variant']
	import discodop
	assert discodop.__file__.startswith(cfg['stage']), discodop.__file__
	streams = mod.streams(ctx)
	only = cfg.get('only')
	for name, (gen, check, n) in streams.items():
		if cfg.get('stream') and not name.startswith(cfg['stream']):
			continue
		if only:
			if only[0] == name:
				ctx.run(name, gen, check, n, only=only[1])
		else:
			ctx.run(name, gen, check, n)
	ctx.save()


if __name__ == '__main__':
	workermain(sys.argv[1:])
