"""Builds, from the current working tree of /repo, what a check needs.

The compiled packages are copied (sources only) into a scratch directory below
/verif/.build (or $TMPDIR when that is not writable), compiled there with the project's own
build description, and cached under a digest of all their inputs. /repo is never written."""

import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV_PY = '/opt/vp/venv/bin/python'
SISTERS = {'cpp-disc-integrator': ['cpp-numintegrator', 'cpp-ld-funcs']}
COMPILED = (
    'cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator',
    'histogram_maker', 'fornberg-num-deriv',
)
# pure Python packages are imported straight from the working tree
PURE = (
    'aesolver', 'gyre-tools', 'hough-func-tools', 'num-tools',
    'py-combinations', 'pytest-util-tools', 'util-tools',
)
SKIP_DIRS = {'build', 'dist', '__pycache__', 'tests', 'test', '.git', '_build'}
SKIP_EXT = ('.so', '.o', '.pyc')


def _files(pkg):
    base = os.path.join(REPO, pkg)
    out = []
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS and not d.endswith('.egg-info'))
        for f in sorted(files):
            if not f.endswith(SKIP_EXT):
                out.append(os.path.relpath(os.path.join(root, f), base))
    return out


def _digest(pkg, flags):
    h = hashlib.sha256()
    for d in [pkg, *SISTERS.get(pkg, [])]:
        for f in _files(d):
            h.update(f'{d}/{f}'.encode() + b'\0')
            with open(os.path.join(REPO, d, f), 'rb') as fh:
                h.update(fh.read() + b'\0')
    with open(os.path.abspath(__file__), 'rb') as fh:
        h.update(fh.read())
    h.update(repr(flags).encode())
    return h.hexdigest()[:20]


def build_root():
    root = os.environ.get('VP_BUILD_ROOT') or os.path.join(VERIF, '.build')
    try:
        os.makedirs(root, exist_ok=True)
        if not os.access(root, os.W_OK):
            raise OSError
    except OSError:
        root = os.path.join(tempfile.gettempdir(), 'vp_build')
        os.makedirs(root, exist_ok=True)
    return root


DRIVER = r'''
import os, sys
sys.path.insert(0, os.getcwd())
import _custom_build
from setuptools import setup
if hasattr(_custom_build.build_py, 'get_install_paths'):
    ni, ld = '../cpp-numintegrator/num_integrator', '../cpp-ld-funcs/ld_funcs'
    _custom_build.build_py.get_install_paths = lambda self: (ni, ld, ni, ld)
_custom_build.build_py.run = lambda self: None
setup(script_name='setup.py', script_args=['build_py', 'build_ext', '--inplace', '--force',
      '--build-temp', 'build/temp/objs', '--parallel', '6'])
'''


def tool_env(extra=None):
    env = dict(os.environ)
    for k in ('PYTHONPATH', 'PYTHONHOME'):
        env.pop(k, None)
    env['PATH'] = '/opt/vp/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env.update(CC='gcc', CXX='g++', FC='gfortran', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg',
               OMP_NUM_THREADS=env.get('VP_OMP', '4'), OPENBLAS_NUM_THREADS='1',
               NUMEXPR_NUM_THREADS='2', NUMBA_NUM_THREADS='2', OMP_WAIT_POLICY='passive', LANG='C.UTF-8')
    env.update(extra or {})
    return env


def _build(pkg, dst, flags):
    tmp = f'{dst}.tmp{os.getpid()}'
    shutil.rmtree(tmp, ignore_errors=True)
    for d in [pkg, *SISTERS.get(pkg, [])]:
        for f in _files(d):
            target = os.path.join(tmp, d, f)
            os.makedirs(os.path.dirname(target), exist_ok=True)
            shutil.copy(os.path.join(REPO, d, f), target)
    base = os.path.join(tmp, pkg)
    # never compile an old translation of a .pyx
    for pyx in glob.glob(f'{tmp}/**/*.pyx', recursive=True):
        for ext in ('.c', '.cpp'):
            if os.path.exists(pyx[:-4] + ext):
                os.remove(pyx[:-4] + ext)
    env = tool_env()
    if flags:
        env['CFLAGS'] = env['LDFLAGS'] = ' '.join(flags)
    if pkg == 'fornberg-num-deriv':
        cmd = [VENV_PY, 'setup.py', 'build', '--build-base', 'build', '--build-lib', 'build/lib']
    else:
        with open(os.path.join(base, '_vp_driver.py'), 'w') as fh:
            fh.write(DRIVER)
        cmd = [VENV_PY, '_vp_driver.py']
    res = subprocess.run(cmd, cwd=base, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True)
    found = [f for f in glob.glob(f'{base}/**/*.so', recursive=True)]
    if res.returncode or not found:
        sys.stderr.write(res.stdout[-4000:])
        shutil.rmtree(tmp, ignore_errors=True)
        raise RuntimeError(f'building {pkg} failed')
    shutil.rmtree(os.path.join(base, 'build', 'temp'), ignore_errors=True)
    os.rename(tmp, dst)


def ensure(pkg, flags=()):
    """Builds one compiled package (once per digest); returns its sys.path entry."""
    root = build_root()
    dst = os.path.join(root, f'{pkg}-{_digest(pkg, flags)}')
    with open(os.path.join(root, f'{pkg}.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.isdir(dst):
            # keep the scratch space small: one build of a package at a time
            for old in glob.glob(os.path.join(root, f'{pkg}-*')):
                if not flags and not old.endswith('-san'):
                    shutil.rmtree(old, ignore_errors=True)
            _build(pkg, dst, flags)
    sub = 'build/lib' if pkg == 'fornberg-num-deriv' else ''
    return os.path.join(dst, pkg, sub).rstrip('/')


def python_path(needs, pure=True):
    """sys.path entries for the code under test (`needs`: compiled packages)."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(5) as ex:
        paths = list(ex.map(ensure, needs))
    if pure:
        paths += [os.path.join(REPO, p) for p in PURE]
    return paths


if __name__ == '__main__':
    for p in python_path(sys.argv[1:] or COMPILED, pure=False):
        print(p)
