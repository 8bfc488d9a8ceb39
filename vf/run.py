"""Driver: stage the current tree, run monitored workers, give a verdict.

usage: python3 vf/run.py <id> [--tier quick|thorough] [--seed N]
       [--replay FILE] [--shards N]
       python3 vf/run.py setup
Exit status: 0 held on everything explored, 1 violated, 2 inconclusive/error.
"""
import argparse
import glob
import importlib.util
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(1, VERIF)
import build  # noqa: E402

CRASHSIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
		signal.SIGILL}


def known(pid):
	"""Return [(key, what)] of the known findings of a property."""
	result = []
	path = os.path.join(VERIF, 'known_findings.txt')
	if os.path.exists(path):
		with open(path) as inp:
			for line in inp:
				line = line.strip()
				m = re.match(r'known: property=(\S+) key=\[(.*?)\] (.*)', line)
				if m and m.group(1) == pid:
					result.append((m.group(2), m.group(3)))
	return result


def loadplan(pid):
	"""Get PLAN without importing the check (which imports discodop)."""
	import ast
	path = os.path.join(VERIF, 'checks', pid.lower() + '.py')
	with open(path) as inp:
		tree = ast.parse(inp.read())
	for node in tree.body:
		if isinstance(node, ast.Assign) and node.targets[0].id == 'PLAN':
			if isinstance(node.value, ast.Call):  # dict(...)
				return {a.arg: ast.literal_eval(a.value)
						for a in node.value.keywords}
			return ast.literal_eval(node.value)
	raise ValueError('no PLAN in %s' % path)


def sanlogs(pattern):
	"""Parse sanitizer logs -> [(key, text)]."""
	result = []
	for name in sorted(glob.glob(pattern)):
		with open(name, errors='replace') as inp:
			text = inp.read()
		for m in re.finditer(r'^(\S+?):(\d+):(\d+): runtime error: (.*)$', text,
				re.M):
			rest = text[m.end():m.end() + 3000].split('runtime error:')[0]
			frames = re.findall(r'#\d+ \S+ in (\S+)', rest)
			func = next((f for f in frames if 'pyx' in f or '__Pyx' in f
					or 'discodop' in f), frames[0] if frames else '?')
			func = re.sub(r'__pyx_\w*?discodop_\d*|__pyx_\w*?_\d+', '', func)
			kind = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(4))[:80]
			result.append(('UBSan %s in %s' % (kind, func.split('(')[0]),
					text[m.start():m.end() + 1500]))
		m = re.search(r'ERROR: AddressSanitizer: (\S+)', text)
		if m:
			frames = re.findall(r'#\d+ \S+ in (.+?) (\S+)$', text, re.M)
			func = next((a for a, b in frames if 'pyx' in a), frames[0][0]
					if frames else '?')
			func = re.sub(r'__pyx_\w*?discodop_\d*', '', func)
			result.append(('ASan %s in %s' % (m.group(1),
					func.split('(')[0]), text[m.start():m.start() + 3000]))
	return result


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('pid')
	ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
	ap.add_argument('--seed', type=int,
			default=int(os.environ.get('VERIF_SEED', '1') or 1))
	ap.add_argument('--replay')
	ap.add_argument('--shards', type=int, default=8)
	ap.add_argument('--stream')
	opts = ap.parse_args()
	if opts.pid == 'setup':
		try:
			build.buildexts(build.ALLMODS, 'plain')
			build.buildexts(build.ALLMODS, 'san')
		except build.BuildError as err:
			print(err)
			return 2
		print('setup ok')
		return 0
	pid = opts.pid.upper()
	begin = time.time()
	plan = loadplan(pid)
	only = None
	if opts.replay:
		with open(opts.replay) as inp:
			rep = json.load(inp)
		opts.seed, opts.tier = rep['seed'], rep['tier']
		only = [rep['stream'], rep['index']]
		opts.shards = 1
	tier = opts.tier
	variant = plan.get('variant', 'plain')
	evid = os.path.join(VERIF, 'evidence')
	os.makedirs(os.path.join(evid, 'replay'), exist_ok=True)
	evfile = os.path.join(evid, pid + '.json')
	if not opts.replay and os.path.exists(evfile):
		os.unlink(evfile)
	work = tempfile.mkdtemp(prefix='vf-%s-' % pid)
	try:
		return runall(pid, opts, plan, tier, variant, only, work, evid, evfile,
				begin)
	finally:
		shutil.rmtree(work, ignore_errors=True)


def runall(pid, opts, plan, tier, variant, only, work, evid, evfile, begin):
	violations = []
	try:
		build.stage(work, plan.get('mods', ['bit']), variant)
	except build.BuildError as err:
		print('INCONCLUSIVE property=%s: build failed\n%s' % (pid, err))
		return 2
	seconds = plan.get('seconds', {}).get(tier, 150 if tier == 'quick' else 780)
	nshards = opts.shards
	env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
			OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8',
			PYTHONIOENCODING='utf8')
	env.pop('PYTHONPATH', None)
	env['PYTHONPATH'] = work
	if variant == 'san':
		libs = [subprocess.check_output(['gcc', '-print-file-name=' + a],
				text=True).strip() for a in ('libasan.so', 'libstdc++.so')]
		env['VF_PRELOAD'] = ' '.join(libs)
		env['LD_PRELOAD'] = ' '.join(libs)
		env['PYTHONMALLOC'] = 'malloc'
		env['ASAN_OPTIONS'] = ('detect_leaks=0:halt_on_error=1:'
				'allocator_may_return_null=1:log_path=%s/asan:'
				'handle_abort=1:detect_stack_use_after_return=0'
				% work)
		env['UBSAN_OPTIONS'] = ('print_stacktrace=1:halt_on_error=0:'
				'log_path=%s/ubsan' % work)
	procs = []
	pending = list(range(nshards))
	maxpar = 8
	results = []
	deaths = []
	mem = plan.get('mem', 6 << 30) if variant == 'plain' else 0

	def start(shard):
		cfg = dict(stage=work, verif=VERIF, pid=pid, seed=opts.seed, tier=tier,
				shard=shard, nshards=nshards, out='%s/out%d.json' % (work,
				shard), crumb='%s/crumb%d' % (work, shard),
				data=work + '/data', tmpdir='%s/tmp%d' % (work, shard),
				seconds=seconds, mem=mem, only=only, variant=variant,
				cpulimit=plan.get('cpulimit', 90), stream=opts.stream)
		log = open('%s/log%d' % (work, shard), 'w')
		p = subprocess.Popen([build.VENVPY, HERE + '/core.py',
				json.dumps(cfg)], stdout=log, stderr=subprocess.STDOUT,
				env=env, start_new_session=True)
		return shard, p, cfg, time.time()

	hardlimit = seconds + plan.get('grace', 90)
	while pending or procs:
		while pending and len(procs) < maxpar:
			procs.append(start(pending.pop(0)))
		time.sleep(0.05)
		for item in procs[:]:
			shard, p, cfg, t0 = item
			rc = p.poll()
			if rc is None:
				if time.time() - t0 > hardlimit:
					os.killpg(p.pid, signal.SIGKILL)
					p.wait()
					rc = 'timeout'
				else:
					continue
			procs.remove(item)
			try:
				os.killpg(p.pid, signal.SIGKILL)
			except OSError:
				pass
			with open('%s/log%d' % (work, shard), errors='replace') as inp:
				log = inp.read()
			if rc == 0 and os.path.exists(cfg['out']):
				with open(cfg['out']) as inp:
					results.append(json.load(inp))
			else:
				crumb = ''
				if os.path.exists(cfg['crumb']):
					with open(cfg['crumb']) as inp:
						crumb = inp.read().strip()
				deaths.append((shard, rc, crumb, log[-3000:]))
	errors = []
	for shard, rc, crumb, log in deaths:
		stream, index = (crumb.split() + ['', ''])[:2]
		if isinstance(rc, int) and rc < 0 and -rc == signal.SIGXCPU:
			violations.append(dict(key='no progress in ' + stream, msg='case '
					'exceeded its CPU budget (bounded progress); normally '
					'takes a fraction of a second', case=crumb, stream=stream,
					index=int(index or 0)))
		elif isinstance(rc, int) and crumb and (
				(rc < 0 and -rc in CRASHSIGNALS)
				or (variant == 'san' and 'AddressSanitizer' in log)
				or (variant == 'san' and glob.glob(work + '/asan.*'))):
			violations.append(dict(key='crash in ' + stream,
					msg='worker died with status %s\n%s' % (rc, log),
					case=crumb, stream=stream, index=int(index or 0)))
		else:
			errors.append('shard %d status %s at %r\n%s' % (shard, rc, crumb,
					log))
	events, sigs, samples, evaluations, skipped = Counter(), set(), [], 0, 0
	for r in results:
		events.update(r['events'])
		sigs.update(r['sigs'])
		samples.extend(r['samples'][:2])
		evaluations += r['evaluations']
		skipped += r['skipped']
		violations.extend(r['violations'])
		errors.extend(r['errors'])
	if variant == 'san':
		seen = set()
		for key, text in (sanlogs(work + '/asan.*')
				+ sanlogs(work + '/ubsan.*') + sanlogs(work + '/log*')):
			events['sanitizer reports'] += 1
			if key not in seen:
				seen.add(key)
				violations.append(dict(key=key, msg=text, case='(see stack)',
						stream='', index=0))
		if any(v['key'].startswith('ASan') for v in violations):
			# the crash is already represented by the report
			pass
	# classify
	listed = known(pid)
	printed = set()
	real = {}
	for v in violations:
		hit = next((k for k, _ in listed if v['key'] == k), None)
		if hit is not None:
			events['known finding observed: ' + hit] += 1
			printed.add(hit)
		else:
			real.setdefault(v['key'], v)
	for k, what in listed:
		if k in printed:
			print('KNOWN-FINDING: property=%s [%s] %s' % (pid, k, what))
	inconclusive = []
	if not only:
		for name, minimum in plan.get('require', {}).items():
			if events[name] < minimum:
				inconclusive.append('monitor %r observed %d < %d' % (
						name, events[name], minimum))
		if evaluations == 0:
			inconclusive.append('no evaluations')
		notrun = events['cases not run (time)']
		if notrun > 0.5 * (evaluations + notrun):
			inconclusive.append('%d cases not run' % notrun)
	wall = time.time() - begin
	if not opts.replay:
		evidence = dict(property=pid, tier=tier, seed=opts.seed,
				level=plan.get('level', 'exploration'),
				coverage=dict(evaluations=evaluations,
					distinct_nontrivial=len(sigs), rule=plan['rule'],
					samples=samples[:6] or ['(none)'],
					events={k: events[k] for k in sorted(events)},
					out_of_domain_cases=skipped, workers=nshards,
					build_variant=variant),
				assumptions=plan.get('assumptions', []),
				wall_s=round(wall, 2), violations=len(real))
		with open(evfile, 'w') as out:
			json.dump(evidence, out, indent=1, sort_keys=True)
	for n, (key, v) in enumerate(sorted(real.items())):
		path = os.path.join(evid, 'replay', '%s-%d.json' % (pid, n))
		with open(path, 'w') as out:
			json.dump(dict(v, property=pid, seed=opts.seed, tier=tier), out,
					indent=1)
		print('--- %s [%s] stream=%s index=%s\n%s\ncase: %s' % (pid, key,
				v['stream'], v['index'], v['msg'], v['case'][:2000]))
		print('VIOLATION property=%s replay=%s' % (pid, path))
	for e in errors[:5]:
		print('ERROR', e)
	print('%s %s seed=%d: %d evaluations, %d distinct nontrivial, '
			'%d violations, %d errors, %d skipped, %.1fs' % (pid, tier,
			opts.seed, evaluations, len(sigs), len(real), len(errors), skipped,
			wall))
	for k in sorted(events):
		print('   %-50s %d' % (k, events[k]))
	if real:
		return 1
	if errors or inconclusive:
		for a in inconclusive:
			print('INCONCLUSIVE', a)
		return 2
	return 0


if __name__ == '__main__':
	sys.exit(main())
