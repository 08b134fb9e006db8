"""Environment of every check: /repo on sys.path, z3 of the tooling venv, compiled extensions that match /repo's sources."""
import sys, os, hashlib, glob, shutil, subprocess, tempfile, atexit, importlib.util, importlib.abc, importlib.machinery

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
EXT = "pymoo/functions/compiled"

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import importlib
_z3 = None


def z3mod():
    """z3 python bindings, loaded from the tooling venv without exposing its other packages."""
    global _z3
    if _z3 is None:
        sys.path.append(TOOLS)
        try:
            import z3
            _z3 = z3
        finally:
            sys.path.remove(TOOLS)
    return _z3


def _digest(pyx):
    h = hashlib.sha256()
    for p in sorted([pyx] + glob.glob(os.path.join(REPO, EXT, "*.pxd")) + [os.path.join(REPO, "setup.py")]):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def _stamp_ok():
    """The build's own stamp lists sha256 of the sources and products: usable only if all still agree."""
    stamp = os.path.join(REPO, "build", "vp-ext.stamp")
    good = set()
    try:
        lines = open(stamp).read().split("\n")
    except OSError:
        return good
    sums = {}
    for l in lines:
        parts = l.split()
        if len(parts) == 2 and len(parts[0]) == 64:
            sums[parts[1]] = parts[0]

    def same(rel):
        p = os.path.join(REPO, rel)
        try:
            return sums.get(rel) == hashlib.sha256(open(p, "rb").read()).hexdigest()
        except OSError:
            return False

    shared = [r for r in sums if r == "setup.py" or r.endswith(".pxd")]
    if not all(same(r) for r in shared):
        return good
    for pyx in glob.glob(os.path.join(REPO, EXT, "*.pyx")):
        name = os.path.basename(pyx)[:-4]
        so = [r for r in sums if r.startswith(EXT + "/" + name + ".cpython") and r.endswith(".so")]
        if so and same(EXT + "/" + name + ".pyx") and all(same(s) for s in so):
            good.add(name)
    return good


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, paths):
        self.paths = paths

    def find_spec(self, fullname, path, target=None):
        p = self.paths.get(fullname)
        if p is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, p)
        return importlib.util.spec_from_file_location(fullname, p, loader=loader)


class BuildError(Exception):
    pass


_done = False


def compiled():
    """Make pymoo.functions.compiled.* come from builds of the .pyx sources now in /repo."""
    global _done
    if _done:
        return
    _done = True
    names = [os.path.basename(p)[:-4] for p in sorted(glob.glob(os.path.join(REPO, EXT, "*.pyx")))]
    good = _stamp_ok()
    todo = [n for n in names if n not in good]
    if not todo:
        return
    cache = os.path.join(tempfile.gettempdir(), "vp-pyx-cache.%d" % os.getuid())
    paths = {}
    build = []
    for n in todo:
        d = os.path.join(cache, _digest(os.path.join(REPO, EXT, n + ".pyx"))[:24])
        so = glob.glob(os.path.join(d, n + ".*.so"))
        if so:
            paths["pymoo.functions.compiled." + n] = so[0]
        else:
            build.append((n, d))
    if build:
        tmp = tempfile.mkdtemp(prefix="vp-pyx-")
        try:
            for n, d in build:
                shutil.copy(os.path.join(REPO, EXT, n + ".pyx"), tmp)
            for p in glob.glob(os.path.join(REPO, EXT, "*.pxd")):
                shutil.copy(p, tmp)
            with open(os.path.join(tmp, "b.py"), "w") as f:
                f.write("import numpy, setuptools, Cython.Build\n"
                        "setuptools.setup(name='x', ext_modules=Cython.Build.cythonize('*.pyx', force=True),"
                        " include_dirs=[numpy.get_include()])\n")
            env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
            r = subprocess.run([sys.executable, "b.py", "-q", "build_ext", "--inplace", "-j", "8"], cwd=tmp,
                               capture_output=True, text=True, env=env)
            for n, d in build:
                so = glob.glob(os.path.join(tmp, n + ".*.so"))
                if not so:
                    raise BuildError("extension %s does not build:\n%s" % (n, (r.stdout + r.stderr)[-2000:]))
                os.makedirs(d, exist_ok=True)
                dst = os.path.join(d, os.path.basename(so[0]))
                shutil.copy(so[0], dst + ".tmp%d" % os.getpid())
                os.replace(dst + ".tmp%d" % os.getpid(), dst)
                paths["pymoo.functions.compiled." + n] = dst
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.meta_path.insert(0, _Finder(paths))
