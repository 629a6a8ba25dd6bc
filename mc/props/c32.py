"""C32: airfoil coordinates with a deflected flap - the file protocol with XFOIL."""
import itertools
import os
import shutil

import numpy as np

from mc import core, sched
from mc.common import Outside, need, same

STUB = r"""#!/usr/bin/awk -f
# stands in for XFOIL: reads the same commands, writes recognisable coordinates
# (menus, prompts and what is left to the next line as in the real program; unknown commands are passed over)
function nxt() { if ((getline) <= 0) exit 1; sub(/\r$/, ""); return $1 }
function arg() { if (NF > 1) return $2; return nxt() }
function there(f,  t2) { return (getline t2 < f) > 0 }
{ sub(/\r$/, "") }
menu == "" && ($1 == "PLOP" || $1 == "GDES" || $1 == "PPAR") { menu = $1; next }
menu == "" && $1 == "LOAD" { file = arg(); title = nxt(); next }
menu == "" && $1 == "PSAV" { out = arg(); if (!there(out) || nxt() ~ /^[Yy]/) { saved = out; flapped = ex } next }
menu == "" && $1 == "QUIT" { quit = 1; exit }
menu == "PLOP" && $1 == "G" { quiet = 1 }
menu == "GDES" && $1 == "FLAP" { xh = arg(); mode = nxt(); yh = nxt(); df = nxt(); bent = 1; next }
menu == "GDES" && $1 == "NAME" { arg(); next }
menu == "GDES" && $1 == "EXEC" { ex = bent }
menu == "PPAR" && $1 == "N" { n = arg(); next }
menu == "PPAR" && $1 == "T" { t = arg(); next }
menu != "" && NF == 0 { menu = "" }
END {
  if (ENVIRON["STUB_FAIL"] == "yes") exit 1
  if (!quit || !quiet || !flapped || mode != 999 || saved == "") exit 1
  k = 0
  while ((getline line < file) > 0) { split(line, c, " "); k++; printf "%.6f %.6f\n", c[1], c[2] + (c[1] > xh ? (xh - c[1]) * df * 0.01 : 0) + 0.1 * yh > saved }
  if (k == 0) exit 1
  printf "%.6f %.6f\n", n, t > saved
}
"""
PARAMS = [dict(delta=12.0, xh=0.8, yh=0.5, n=250, name="naca", shape=0), dict(delta=-7.25, xh=0.7125, yh=0.125, n=120, name="naca", shape=1),
          dict(delta=12.0, xh=0.8, yh=0.5, n=250, name="DEFAULTAF", shape=2, plain=True), dict(delta=0.0, xh=0.75, yh=1.0, n=400, name="DEFAULT_AF", shape=1)]
VALUES = dict(delta=[12.0, -7.25, 0.0, 33.0, -25.0, 20, 1e-3, 3.123456789], xh=[0.8, 0.7125, 0.25, 0.95, 0.5, 0.61237], yh=[0.5, 0.125, 0.0, 1.0, 0.03, 0.87654], n=[250, 120, 40, 495, 16, 160],
              name=["naca", "DU_21-A17.v2", "a", "0012", "AF_0"], shape=[0, 1, 2, 3, 4, 5], how=[None, "multi_run", "MPI_run"])
LEFT = ["coords", "script", "saved", "log", "polar"]
SINGLE = dict(coords="profilecoords.dat", script="xfoil_input.txt", log="NUL", polar="Polar.txt")


def outline(k):
    t = np.linspace(0, 2 * np.pi, {3: 161, 4: 401, 5: 4}.get(k, 9))
    return 0.5 + 0.5 * np.cos(t), (0.08 + 0.03 * k) * np.sin(t)


def expected(p):
    x, y = outline(p["shape"])
    x, y = np.round(x, 6), np.round(y, 6)
    y2 = y + np.where(x > p["xh"], (p["xh"] - x) * p["delta"] * 0.01, 0) + 0.1 * p["yh"]
    return np.append(x, p["n"]), np.append(y2, 0.5)


def job(p, stub, how, fail=False):
    def fun():
        from ccblade.ccblade import CCAirfoil

        os.environ["STUB_FAIL"] = "yes" if fail else "no"
        a = np.array([-180.0, 0.0, 180.0])
        x, y = outline(p["shape"])
        af = CCAirfoil(a, [1e6], 0 * a[:, None], 0 * a[:, None] + 0.1, 0 * a[:, None], x.copy(), y.copy(), *(() if p.get("plain") else (p["name"],)))
        af.af_flap_coords(stub, *(() if p.get("plain") else (p["delta"], p["xh"], p["yh"], p["n"])), **({how: True} if how else {}))
        return af.af_flap_xcoords, af.af_flap_ycoords, af.ctrl, bool(np.array_equal(af.x, x) and np.array_equal(af.y, y))

    return fun


class Check(core.Base):
    id = "C32"
    chunk = 8
    limit = 60

    def states(self, tier):
        def gen():
            steps = 40
            for how in ("multi_run", "MPI_run"):
                for i, j in ((0, 2), (0, 1)) if tier == "quick" else itertools.product(range(4), repeat=2):
                    for k in range(0, 3 if tier == "quick" else 4 if (how, i, j) == ("multi_run", 0, 2) else 3):
                        if tier == "quick" and k == 2 and (how, i, j) != ("multi_run", 0, 2):
                            continue
                        for sw in itertools.combinations(range(1, steps), k):
                            yield dict(kind="two", how=how, jobs=[i, j], switches=list(sw))
            for how in (None, "multi_run", "MPI_run"):
                for i, j in itertools.product(range(4), repeat=2):
                    if tier == "quick" and (i, j) not in ((0, 2), (1, 0), (3, 3), (0, 1)):
                        continue
                    for at in range(0, 25):
                        for fail in (False, True):
                            yield dict(kind="crash", how=how, jobs=[i, j], at=at, fail=fail)
            for k in range(len(LEFT) + 1):
                for left in itertools.combinations(LEFT, k):
                    for j in range(4):
                        for content in ("valid", "torn", "empty"):
                            for fail in (False, True):
                                if tier != "quick" or k < 2 or (content == "valid" and j in (0, 2)):
                                    yield dict(kind="left", how=None, jobs=[j], left=list(left), content=content, fail=fail)
            for word in itertools.product(range(4), repeat=3):
                yield dict(kind="word", how=None, jobs=list(word), one=False)
                yield dict(kind="word", how="multi_run", jobs=list(word), one=False)
            for c, _ in core.array(VALUES, 3 if tier == "quick" else 4):
                yield dict(kind="value", how=c["how"], jobs=[], p=c)
            return 0

        def numbered():
            n = 0
            for s in gen():
                n += 1
                yield s, {"two": len(s.get("switches", ())), "crash": 1, "left": len(s.get("left", ())), "word": 3, "value": 1}[s["kind"]]
            return n

        return numbered()

    def examine(self, s):
        d = os.path.join(os.path.realpath(os.environ["VERIF_SCRATCH"]), "flap%d" % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "work"))
        stub = os.path.join(d, "xfoil")
        with open(stub, "w") as f:
            f.write(STUB)
        os.chmod(stub, 0o755)
        try:
            return getattr(self, s["kind"])(s, os.path.join(d, "work"), stub)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def good(self, what, result, p):
        need(result[0] == "value", "%s: %s" % (what, result[1]))
        x, y, ctrl, kept = result[1]
        ex, ey = expected(p)
        same("%s: coordinates x" % what, x, ex, 0, 0, 3e-6)
        same("%s: coordinates y" % what, y, ey, 0, 0, 3e-6)
        need(ctrl == p["delta"], "%s: deflection recorded as %r" % (what, ctrl))
        need(kept, "%s: the profile itself was changed" % what)
        return 3

    def clean(self, d, allowed=()):
        left = sorted(set(os.listdir(d)) - set(allowed))
        need(not left, "files left behind: %s" % left)
        return 1

    def two(self, s, d, stub):
        ps = [PARAMS[i] for i in s["jobs"]]
        results, n, trace = sched.run([job(p, stub, s["how"]) for p in ps], d, set(s["switches"]))
        if s["switches"] and s["switches"][-1] >= n:
            raise Outside
        need(n >= 2, "only %d steps seen: the scheduler has lost the code" % n)
        for i, (r, p) in enumerate(zip(results, ps)):
            self.good("process %d of two, switching at %s" % (i, s["switches"]), r, p)
        return 6 + self.clean(d)

    def crash(self, s, d, stub):
        a, b = (PARAMS[i] for i in s["jobs"])
        if not sched.crash(job(a, stub, s["how"]), d, s["at"]):
            raise Outside
        before = os.listdir(d)
        (r,), n, _ = sched.run([job(b, stub, s["how"], s["fail"])], d, set())
        if s["fail"]:
            need(r[0] == "raised", "XFOIL fails after an earlier crash, but a result is returned")
            return 1
        self.good("run after a crash at step %d" % s["at"], r, b)
        if s["how"]:
            return 4 + self.clean(d, before)
        used = {SINGLE[q] for q in ("coords", "script", "log")} | {"%s_%s_Airfoil.txt" % (b["name"], b["delta"])}
        return 4 + self.clean(d, set(before) - used)

    def left(self, s, d, stub):
        p = PARAMS[s["jobs"][0]]
        names = dict(SINGLE, saved="%s_%s_Airfoil.txt" % (p["name"], p["delta"]))
        text = {"valid": "".join("%f %f\n" % (0.1 * i, 0.3) for i in range(7)), "torn": "0.1 0.2\n0.3", "empty": ""}[s["content"]]
        for q in s["left"]:
            with open(os.path.join(d, names[q]), "w") as f:
                f.write(text)
        (r,), n, _ = sched.run([job(p, stub, None, s["fail"])], d, set())
        if s["fail"]:
            need(r[0] == "raised", "XFOIL fails, but a result is returned from leftover files %s" % s["left"])
            return 1
        return self.good("run with leftover files %s" % s["left"], r, p) + self.clean(d, [names["polar"]] if "polar" in s["left"] else ())

    def value(self, s, d, stub):
        (r,), n, _ = sched.run([job(s["p"], stub, s["how"])], d, set())
        return self.good("run", r, s["p"]) + self.clean(d)

    def word(self, s, d, stub):
        jobs = [job(PARAMS[i], stub, s["how"]) for i in s["jobs"]]
        (r,), n, _ = sched.run([lambda: [j() for j in jobs]], d, set())
        need(r[0] == "value", "three runs in turn: %s" % (r[1],))
        k = 0
        for out, i in zip(r[1], s["jobs"]):
            k += self.good("runs in turn", ("value", out), PARAMS[i])
        return k + self.clean(d)
