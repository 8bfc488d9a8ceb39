"""Build discodop's extension modules from /repo's *current* working tree.

The working tree is never written to: sources are copied to a scratch folder,
translated with Cython and compiled there.  The three header-only C++
libraries that the repository expects as git submodules (sparsepp, cpp-btree,
gheap) are absent here; /verif/shim has small stand-ins with the same
interface on top of the C++ standard library.

Results are cached per content hash (of every file a translation unit can
depend on, the shim, the flags and the tool versions) in /verif/.cache, which
is only an optimisation.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
VENVPY = '/opt/venv/bin/python'
ALLMODS = ('bit containers plcfrs pcfg kbest coarsetofine disambiguation '
		'_fragments estimates _vfbit _vfagenda '
		'_vfchart').split()
# runtime import dependencies between extension modules
DEPS = {
	'bit': [],
	'_vfbit': [],  # harness modules in /verif/vf/pyx
	'_vfagenda': [],
	'_vfchart': ['containers'],
	'containers': ['bit'],
	'_fragments': ['bit', 'containers'],
	'kbest': ['containers'],
	'pcfg': ['containers'],
	'plcfrs': ['containers'],
	'estimates': ['containers', 'bit', 'pcfg', 'plcfrs'],
	'coarsetofine': ['containers', 'bit', 'plcfrs', 'kbest'],
	'disambiguation': ['bit', 'containers', '_fragments', 'plcfrs', 'kbest',
		'coarsetofine', 'pcfg'],
}
BASEFLAGS = ['-shared', '-fPIC', '-w', '-D__STDC_LIMIT_MACROS',
		'-fno-strict-aliasing']
VARIANTS = {
	'plain': ['-O1'],
	# excluded: memset(NULL, 0, 0) by Cython's own cpython.array clone()
	'san': ['-O1', '-g1', '-fsanitize=address,undefined',
		'-fno-sanitize=nonnull-attribute', '-fno-omit-frame-pointer'],
}
CYTHONIZE = r"""
import sys, os
scratch, mod, repo = sys.argv[1:4]
sys.path.insert(0, repo)
directives = dict(profile=False, cdivision=True, nonecheck=False,
		wraparound=False, boundscheck=False, embedsignature=True,
		warn_unused=True)
os.chdir(repo)
try:
	import setup as s
	directives = dict(s.directives)
except Exception:
	pass
os.chdir(scratch)
from Cython.Build import cythonize
from setuptools import Extension
cythonize([Extension('discodop.' + mod, ['discodop/%s.pyx' % mod],
		language='c++')], compiler_directives=directives, language_level=3,
		quiet=True)
"""


class BuildError(Exception):
	pass


def closure(mods):
	result = []

	def visit(m):
		for a in DEPS[m]:
			visit(a)
		if m not in result:
			result.append(m)
	for m in mods:
		visit(m)
	if mods and 'bit' not in result:
		result.append('bit')
	return result


def _hash(variant, mod):
	"""Hash of everything that can affect a module."""
	h = hashlib.sha256()
	h.update(repr((variant, VARIANTS[variant], BASEFLAGS, CYTHONIZE)).encode())
	h.update(subprocess.run(['g++', '--version'], capture_output=True).stdout)
	files = [os.path.join(REPO, 'setup.py')]
	d = os.path.join(REPO, 'discodop')
	files += sorted(os.path.join(d, a) for a in os.listdir(d)
			if a == mod + '.pyx' or a.endswith(('.pxd', '.pxi', '.h')))
	for top in ('shim', 'vf/pyx'):
		for base, dirs, names in os.walk(os.path.join(VERIF, top)):
			dirs.sort()
			files += sorted(os.path.join(base, a) for a in names)
	for name in files:
		h.update(os.path.basename(name).encode() + b'\0')
		with open(name, 'rb') as inp:
			h.update(inp.read())
	return h.hexdigest()[:20]


def cachedir():
	d = os.path.join(VERIF, '.cache')
	try:
		os.makedirs(d, exist_ok=True)
		probe = os.path.join(d, '.probe%d' % os.getpid())
		open(probe, 'w').close()
		os.unlink(probe)
	except OSError:
		import tempfile
		d = tempfile.mkdtemp(prefix='vfcache-')
	return d


def buildexts(mods, variant='plain', log=sys.stderr):
	"""Build extension modules; returns their folders."""
	mods = closure(mods)
	cache = cachedir()
	# NB: other modules are only used through their .pxd files.
	dest = {m: os.path.join(cache, '%s-%s-%s' % (m, variant,
			_hash(variant, m))) for m in mods}
	with open(os.path.join(cache, 'lock'), 'w') as lock:
		fcntl.flock(lock, fcntl.LOCK_EX)
		for d in dest.values():
			os.makedirs(d, exist_ok=True)
			os.utime(d)
		# keep the cache small
		entries = sorted((a for a in os.scandir(cache) if a.is_dir()),
				key=lambda a: a.stat().st_mtime)
		for a in entries[:-70]:
			shutil.rmtree(a.path, ignore_errors=True)
		todo = [m for m in mods
				if not os.path.exists(os.path.join(dest[m], m + '.so'))]
		if todo:
			begin = time.time()
			scratch = os.path.join(cache, 'build', 'scratch')
			shutil.rmtree(scratch, ignore_errors=True)
			shutil.copytree(os.path.join(REPO, 'discodop'),
					os.path.join(scratch, 'discodop'),
					ignore=lambda d, names: [a for a in names
						if not a.endswith(('.pyx', '.pxd', '.pxi', '.h',
							'.py'))])
			shutil.copytree(os.path.join(VERIF, 'shim'), scratch,
					dirs_exist_ok=True)
			shutil.copytree(os.path.join(VERIF, 'vf', 'pyx'),
					os.path.join(scratch, 'discodop'), dirs_exist_ok=True)
			inc = subprocess.check_output([VENVPY, '-c', 'import sysconfig;'
					'print(sysconfig.get_paths()["include"])'],
					text=True).strip()

			def one(m):
				env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
						PYTHONHASHSEED='0')
				env.pop('PYTHONPATH', None)
				p = subprocess.run([VENVPY, '-c', CYTHONIZE, scratch, m, REPO],
						capture_output=True, text=True, env=env)
				if p.returncode:
					return m, p.stdout[-3000:] + p.stderr[-3000:]
				tmp = os.path.join(dest[m], m + '.tmp')
				p = subprocess.run(['g++', *BASEFLAGS, *VARIANTS[variant],
						'-I' + inc, '-I' + scratch + '/discodop',
						'-I' + scratch,
						'%s/discodop/%s.cpp' % (scratch, m), '-o', tmp],
						capture_output=True, text=True)
				if p.returncode:
					return m, p.stderr[:3000]
				os.rename(tmp, os.path.join(dest[m], m + '.so'))
				return m, None
			with ThreadPoolExecutor(9) as ex:
				errors = [a for a in ex.map(one, todo) if a[1]]
			shutil.rmtree(scratch, ignore_errors=True)
			if errors:
				raise BuildError('\n'.join('%s: %s' % a for a in errors))
			print('built %s (%s) in %.1fs' % (' '.join(todo), variant,
					time.time() - begin), file=log)
	return dest


def stage(dest, mods, variant='plain', log=sys.stderr):
	"""Create an importable copy of the package in folder ``dest``."""
	exts = buildexts(mods, variant, log) if mods else None
	pkg = os.path.join(dest, 'discodop')
	shutil.copytree(os.path.join(REPO, 'discodop'), pkg,
			ignore=lambda d, names: [a for a in names
				if a.endswith(('.so', '.cpp', '.c', '.pyc', '.html'))
				or a == '__pycache__'])
	for m in closure(mods):
		shutil.copy(os.path.join(exts[m], m + '.so'), os.path.join(
				pkg, m + '.cpython-312-x86_64-linux-gnu.so'))
	data = os.path.join(dest, 'data')
	os.makedirs(data, exist_ok=True)
	for a in os.listdir(REPO):
		if a.endswith(('.headrules', '.prm', '.export', '.modifierrules')):
			shutil.copy(os.path.join(REPO, a), data)
	return dest


if __name__ == '__main__':
	for v in sys.argv[1:] or ['plain']:
		buildexts(ALLMODS, v)
