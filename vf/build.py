"""Builds the native module of /repo's current working tree, outside /repo.

The build is the same translation unit the project's CMakeLists compiles; the
result is cached under /verif/.cache (ignored by git) by a hash of the sources
with comments stripped, the flags and the compiler, so that an unchanged tree is
never compiled twice but any change of code is.
"""

import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
CACHE = VERIF / '.cache' / 'build'
PY = '/opt/venv/bin/python'

# The project asks for C++17 and links mpfr and gmp when they are available.
VARIANTS = {
    # What the repository's own suite runs: internal ASSERTs are active.
    'dbg': ['g++', '-O1'],
    # What a user gets from "pip install" (Release, NDEBUG), with sanitizers.
    'san': [
        'clang++', '-O0', '-g1', '-DNDEBUG', '-fsanitize=address,undefined',
        '-fno-sanitize=vptr,function', '-fno-sanitize-recover=undefined',
        '-fno-omit-frame-pointer', '-shared-libasan'
    ],
    # Release, no sanitizer.
    'rel': ['g++', '-O1', '-DNDEBUG'],
}


def _sources():
    inc = REPO / 'include'
    return sorted(p for p in inc.rglob('*') if p.is_file())


def _strip(path):
    """File contents without comments (they cannot change the code)."""
    try:
        out = subprocess.run(
            ['g++', '-fpreprocessed', '-dD', '-E', '-P', '-x', 'c++',
             str(path)],
            capture_output=True,
            timeout=60)
        if out.returncode == 0:
            return out.stdout
    except Exception:
        pass
    return path.read_bytes()


def source_hash():
    h = hashlib.sha256()
    for p in _sources():
        h.update(str(p.relative_to(REPO)).encode() + b'\0')
        h.update(_strip(p) + b'\0')
    return h.hexdigest()[:20]


def ensure(variant='dbg', log=sys.stderr):
    """Returns (directory holding tnco_core*.so, whether it was cached)."""
    cmd = list(VARIANTS[variant])
    h = hashlib.sha256((source_hash() + repr(cmd)).encode()).hexdigest()[:20]
    out = CACHE / f'{variant}-{h}'
    CACHE.mkdir(parents=True, exist_ok=True)
    so = out / ('tnco_core' + sysconfig.get_config_var('EXT_SUFFIX'))
    with open(CACHE / f'{variant}.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if so.exists():
            return out, True
        tmp = CACHE / f'{variant}-{h}.tmp'
        if tmp.exists():
            shutil.rmtree(tmp)
        tmp.mkdir()
        incs = subprocess.run([PY, '-m', 'pybind11', '--includes'],
                              capture_output=True,
                              text=True,
                              check=True).stdout.split()
        main = sorted(
            str(p) for p in (REPO / 'include' / 'tnco').rglob('*.cpp'))
        full = cmd + [
            '-std=c++17', '-shared', '-fPIC', '-fvisibility=hidden',
            '-I' + str(REPO / 'include')
        ] + incs + main + ['-o', str(tmp / so.name), '-lmpfr', '-lgmp']
        r = subprocess.run(full, capture_output=True, text=True)
        if r.returncode != 0:
            log.write(r.stderr[-4000:])
            raise RuntimeError(f'the native module does not compile ({variant})')
        # Keep the cache small: drop older builds of this variant
        for old in CACHE.glob(f'{variant}-*'):
            if old.is_dir() and old != tmp:
                shutil.rmtree(old, ignore_errors=True)
        tmp.rename(out)
    return out, False


def ensure_all(variants):
    variants = sorted(variants)
    with ThreadPoolExecutor(max(1, len(variants))) as pool:
        return dict(zip(variants, pool.map(ensure, variants)))


def san_env():
    r = subprocess.run(
        ['clang++', '-print-file-name=libclang_rt.asan-x86_64.so'],
        capture_output=True,
        text=True,
        check=True).stdout.strip()
    return r


if __name__ == '__main__':
    for v, r in ensure_all(sys.argv[1:] or ['dbg', 'san']).items():
        print(v, *r)
