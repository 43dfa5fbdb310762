"""Build the Fortran extensions of /repo's working tree outside /repo, and make
``import geotecha...`` find them.

Each .f95 is built with f2py in a temporary directory and kept in
/verif/.build/<sha256 of source and toolchain>/; a changed source gives a new
directory, so a check always sees the tree as it is.  A meta path finder maps
the extension's package name to that file, whether or not an older build lies
beside the source in /repo.
"""
import fcntl
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('SIM_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, '.build')
SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')


def sources():
    out = []
    for d, _, files in os.walk(os.path.join(REPO, 'geotecha')):
        for f in files:
            if f.lower().endswith(('.f95', '.f90')):
                out.append(os.path.join(d, f))
    return sorted(out)


def _toolchain():
    import numpy
    try:
        v = subprocess.run(['gfortran', '--version'], capture_output=True,
                           text=True).stdout.split('\n')[0]
    except OSError:
        v = 'no gfortran'
    return '%s|%s|%s' % (v, sys.version, numpy.__version__)


def build_one(src, tools):
    h = hashlib.sha256((tools + '\n').encode() + open(src, 'rb').read()).hexdigest()[:24]
    name = os.path.splitext(os.path.basename(src))[0]
    dst = os.path.join(BUILD, 'ext', h)
    so = os.path.join(dst, name + SUFFIX)
    if os.path.isfile(so):
        return so
    tmp = tempfile.mkdtemp(prefix='simbuild')
    try:
        shutil.copy(src, tmp)
        r = subprocess.run([sys.executable, '-m', 'numpy.f2py', '-c', '--backend',
                            'meson', '--build-dir', os.path.join(tmp, 'bld'), '-m',
                            name, os.path.basename(src)], cwd=tmp,
                           capture_output=True, text=True)
        built = os.path.join(tmp, name + SUFFIX)
        if not os.path.isfile(built):
            raise RuntimeError('cannot build %s:\n%s\n%s' % (src, r.stdout[-3000:],
                                                             r.stderr[-3000:]))
        os.makedirs(dst, exist_ok=True)
        part = so + '.%d' % os.getpid()
        shutil.copy(built, part)
        os.replace(part, so)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return so


def build_all():
    """{module name: path of shared object}"""
    os.makedirs(BUILD, exist_ok=True)
    out = {}
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tools = _toolchain()
        for src in sources():
            rel = os.path.relpath(os.path.splitext(src)[0], REPO)
            out[rel.replace(os.sep, '.')] = build_one(src, tools)
    return out


class ExtFinder(importlib.abc.MetaPathFinder):
    """Resolve the extension modules to the files built here; can be told to fail."""

    def __init__(self, table):
        self.table = dict(table)

    def find_spec(self, fullname, path=None, target=None):
        p = self.table.get(fullname)
        if p is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, p)
        return importlib.util.spec_from_file_location(fullname, p, loader=loader)


def install(table=None):
    if table is None:
        table = build_all()
    for f in sys.meta_path:
        if isinstance(f, ExtFinder):
            f.table.update(table)
            return f
    f = ExtFinder(table)
    sys.meta_path.insert(0, f)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return f


def mpl_dir():
    d = os.path.join(BUILD, 'mpl')
    os.makedirs(d, exist_ok=True)
    os.environ['MPLCONFIGDIR'] = d
    return d


if __name__ == '__main__':
    t = build_all()
    for k, v in t.items():
        print(k, v)
    mpl_dir()
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.pyplot as plt
    import io
    fig = plt.figure()
    fig.add_subplot(111).set_title('x')
    fig.savefig(io.BytesIO(), format='png')
    fig.savefig(io.BytesIO(), format='eps')
    print('ready')
