"""Plant a bug: plant.py SPEC.py [ID...] -- confirm it and keep it in seeded/.

SPEC.py defines BUGS, a list of dicts with id, property, needs, what, edits (a
list of (file, old, new)) and demo (Python code; exit status decides)."""
import json
import os
import runpy
import subprocess
import sys

REPO = '/repo'


def sh(cmd, **kw):
	return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def tests():
	sh('bash /opt/vp/test.sh /tmp/plant.json', timeout=600)
	base = json.load(open('/opt/vp/BASELINE.json'))
	got = json.load(open('/tmp/plant.json'))
	stable = base['stable']
	passed = set(got['passed'])
	return [t for t in stable if t not in passed]


def demo(d):
	return sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)


def plant(b):
	d = '/verif/seeded/' + b['id']
	assert not sh('git -C /repo status --porcelain').stdout, 'dirty'
	os.makedirs(d, exist_ok=True)
	with open(d + '/demo.py', 'w') as f:
		f.write(b['demo'].lstrip('\n'))
	with open(d + '/demo.sh', 'w') as f:
		f.write('#!/bin/bash\n# run in the root of the repository, after the '
				'build\nd=$(dirname "$(realpath "$0")")\n'
				'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD\n'
				'exec %s "$d/demo.py"\n' % b.get('python', '/opt/venv/bin/python'))
	for name, text in b.get('files', {}).items():
		with open(d + '/' + name, 'w') as f:
			f.write(text)
	with open(d + '/meta.json', 'w') as f:
		json.dump(dict(property=b['property'], needs=b['needs'],
				what_it_breaks=b['what']), f, indent=1)
	ok = True
	r = demo(d)
	if r.returncode:
		print(b['id'], 'demo FAILS on unchanged tree', r.stdout[-500:], r.stderr[-800:])
		return False
	try:
		for fn, old, new in b['edits']:
			p = os.path.join(REPO, fn)
			t = open(p).read()
			if t.count(old) != 1:
				print(b['id'], 'edit matches %d times: %r' % (t.count(old), old))
				return False
			open(p, 'w').write(t.replace(old, new))
		open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
		r = sh('bash /opt/vp/build.sh')
		if r.returncode:
			print(b['id'], 'build FAILS', r.stdout[-300:], r.stderr[-500:])
			ok = False
		bad = tests()
		if bad:
			print(b['id'], 'tests FAIL', bad)
			ok = False
		r = demo(d)
		print(b['id'], 'demo with bug:', r.returncode, (r.stdout + r.stderr).strip().split('\n')[-1][:150])
		if not r.returncode:
			ok = False
		if not os.environ.get('NOCHECK'):
			r = sh('python3 /verif/vf/run.py %s --seed 1' % b['property'],
					timeout=1000)
			lines = [a for a in r.stdout.splitlines() if 'VIOLATION' in a]
			print(b['id'], 'check:', r.returncode, 'CAUGHT' if r.returncode == 1
					and lines else '**** MISSED ****', r.stdout[-300:] if r.returncode != 1 else '')
	finally:
		sh('git -C /repo checkout -- .')
	return ok


def main():
	bugs = runpy.run_path(sys.argv[1])['BUGS']
	built = False
	for b in bugs:
		if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
			continue
		built = True
		ok = plant(b)
		sh('bash /opt/vp/build.sh')
		print(b['id'], 'OK' if ok else 'NOT OK', flush=True)


main()
