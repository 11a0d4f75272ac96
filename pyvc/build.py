"""Import of PyDSM from /repo's current working tree.

The Python modules are imported straight from /repo/src.  The two Cython
extensions are compiled from the current .pyx/.pxi/.h files in a scratch copy
and loaded from a cache keyed by the hash of their sources, so that the code
under test is always the current text."""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, '.build')
EXT = ('_simulateDSM_cblas', '_simulateDSM_scipy_blas')


def ext_hash():
    h = hashlib.sha256()
    d = os.path.join(REPO, 'src', 'pydsm')
    fs = [os.path.join(REPO, 'setup.py'), os.path.join(REPO,
                                                       'pyproject.toml')]
    for r, ds, ff in os.walk(d):
        ds.sort()
        for f in sorted(ff):
            if f.endswith(('.pyx', '.pxi', '.pxd', '.h')):
                fs.append(os.path.join(r, f))
    for f in fs:
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, 'rb') as g:
            h.update(g.read())
    return h.hexdigest()[:24]


def build_ext():
    """directory with the extension modules of the current sources"""
    key = ext_hash()
    out = os.path.join(CACHE, key)
    if os.path.isdir(out) and all(
            any(f.startswith(e) for f in os.listdir(out)) for e in EXT):
        return out
    tmp = tempfile.mkdtemp(prefix='pydsm-verif-build-')
    try:
        dst = os.path.join(tmp, 'repo')
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(dst, 'src'),
                        ignore=shutil.ignore_patterns('*.so', '*.c',
                                                      '__pycache__'))
        for f in os.listdir(REPO):
            p = os.path.join(REPO, f)
            if os.path.isfile(p):
                shutil.copy(p, dst)
        env = dict(os.environ)
        env.update(SETUPTOOLS_SCM_PRETEND_VERSION='0.15.2', PIP_NO_INDEX='1',
                   PYTHONDONTWRITEBYTECODE='1')
        env.setdefault('HOME', '/root')
        r = subprocess.run(['/opt/venv/bin/python', 'setup.py', '-q',
                            'build_ext', '--inplace'], cwd=dst, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        src = os.path.join(dst, 'src', 'pydsm', 'delsig')
        sos = [f for f in os.listdir(src) if f.endswith('.so')]
        if len(sos) < 2:
            raise RuntimeError('extension build failed:\n' +
                               r.stdout.decode(errors='replace')[-3000:])
        os.makedirs(CACHE, exist_ok=True)
        part = tempfile.mkdtemp(dir=CACHE)
        for f in sos:
            shutil.copy(os.path.join(src, f), part)
        try:
            os.rename(part, out)
        except OSError:
            shutil.rmtree(part, ignore_errors=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, d):
        self.map = {}
        for f in os.listdir(d):
            self.map['pydsm.delsig.' + f.split('.')[0]] = os.path.join(d, f)

    def find_spec(self, name, path, target=None):
        if name in self.map:
            p = self.map[name]
            return importlib.util.spec_from_file_location(
                name, p, loader=importlib.machinery.ExtensionFileLoader(
                    name, p))
        if name == 'pydsm._version':
            p = os.path.join(REPO, 'src', 'pydsm', '_version.py')
            if not os.path.exists(p):
                class L(importlib.abc.Loader):
                    def create_module(self, spec):
                        m = types.ModuleType(name)
                        m.__version__ = '0'
                        m.version = '0'
                        return m

                    def exec_module(self, m):
                        pass
                return importlib.machinery.ModuleSpec(name, L())
        return None


_done = [False]


def load():
    if _done[0]:
        return
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.path.insert(0, os.path.join(REPO, 'src'))
    sys.meta_path.insert(0, _Finder(build_ext()))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import pydsm
    p = os.path.abspath(pydsm.__file__)
    assert p.startswith(os.path.abspath(REPO) + '/src/'), p
    _done[0] = True


if __name__ == '__main__':
    build_ext()
    load()
    print('extensions:', build_ext())
