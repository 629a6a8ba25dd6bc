"""Build ccblade's compiled kernel from /repo's current working tree and import the package.

The python modules are imported straight from /repo; only the extension module is compiled,
out of tree, from a copy of the tracked sources (nothing is written below /repo).
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")


def _sources():
    out = []
    for name in ("meson.build", "meson_options.txt"):
        p = os.path.join(REPO, name)
        if os.path.isfile(p):
            out.append(p)
    for d, dirs, files in os.walk(os.path.join(REPO, "ccblade")):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if not f.endswith((".so", ".pyc", ".py", ".pyd")):
                out.append(os.path.join(d, f))
    return out


def build(variant="std"):
    """Compile the kernel; returns the path of the shared object.  Cached by source digest."""
    h = hashlib.sha256(variant.encode())
    h.update(sys.version.encode())
    for p in _sources():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read() + b"\0")
    digest = h.hexdigest()[:20]
    dest = os.path.join(CACHE, digest)
    if os.path.isdir(dest):
        so = [f for f in os.listdir(dest) if f.startswith("_bem") and f.endswith(".so")]
        if so:
            return os.path.join(dest, so[0])
    os.makedirs(CACHE, exist_ok=True)
    work = tempfile.mkdtemp(prefix="build-", dir=CACHE)
    try:
        src = os.path.join(work, "src")
        for p in _sources():
            q = os.path.join(src, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copy(p, q)
        env = dict(os.environ)
        env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "")
        env.update(CC="gcc", FC="gfortran", PYTHONDONTWRITEBYTECODE="1")
        setup = ["meson", "setup", "bld", "-Dpython_target=" + sys.executable,
                 "-Dpython.purelibdir=.", "-Dpython.platlibdir=.", "--prefix=" + os.path.join(work, "pfx")]
        if variant == "checked":
            flags = ("-fcheck=all", "-ffpe-summary=none", "-finit-real=snan", "-finit-integer=-99999", "-finit-logical=false")
            setup += ["-Dfortran_args=[%s]" % ",".join("'%s'" % x for x in flags)]
        for cmd in (setup, ["meson", "compile", "-C", "bld"]):
            r = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                sys.stdout.write(r.stdout[-4000:])
                log = os.path.join(src, "bld", "meson-logs", "meson-log.txt")
                if os.path.isfile(log):
                    sys.stdout.write(open(log).read()[-2500:])
                raise SystemExit("the extension does not build")
        found = []
        for d, _, files in os.walk(os.path.join(src, "bld")):
            found += [os.path.join(d, f) for f in files if f.startswith("_bem") and f.endswith(".so")]
        tmp = os.path.join(work, "out")
        os.makedirs(tmp)
        shutil.copy(found[0], tmp)
        try:
            os.rename(tmp, dest)
        except OSError:
            if not os.path.isdir(dest):
                raise
        return os.path.join(dest, os.path.basename(found[0]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


_loaded = None


def load(variant="std"):
    """Import the package from /repo with the freshly built kernel."""
    global _loaded
    if _loaded is not None:
        return _loaded
    so = build(variant)
    loader = importlib.machinery.ExtensionFileLoader("ccblade._bem", so)
    spec = importlib.util.spec_from_file_location("ccblade._bem", so, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules["ccblade._bem"] = mod
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import ccblade

    ccblade._bem = mod
    assert os.path.realpath(ccblade.__file__).startswith(os.path.realpath(REPO) + os.sep), ccblade.__file__
    _loaded = ccblade
    return ccblade
