"""Explicit-state exploration engine.

A check is a bounded transition system plus an invariant.  Two shapes are provided:

* Lattice: states are configurations (one value per dimension); an action replaces the value of one
  dimension; the initial states are the given bases.  All states within `depth` actions are visited by
  breadth-first search with a visited set, so that every combination of up to `depth` non-base values is
  examined - and the first violation found has a smallest number of deviations.
* Explicit: the check supplies its own initial states / successor function (operation histories, crash
  points, interleavings), and the same breadth-first search is run to its bound.

Every visited state is handed to the check's `examine`, which drives the real code and an independent
reference model and reports how many model traces were compared with the implementation.
"""
import concurrent.futures as cf
import hashlib
import importlib
import io
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    """raised by examine(): the property does not hold in this state"""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Outside(Exception):
    """raised by examine(): the state is not in the property's domain"""


class Hung(BaseException):
    pass


def need(cond, message, key=None):
    if not cond:
        raise Violation(message, key)


# ------------------------------------------------------------------ transition systems
def lattice(dims, bases, depth, valid=None):
    """Breadth-first search over configurations.  dims: {name: values}; bases: list of dicts.
    Yields (state, level); returns statistics through the generator's StopIteration value."""
    names = list(dims)
    seen, frontier, transitions = set(), [], 0

    def key(s):
        return tuple(sorted((k, repr(v)) for k, v in s.items()))

    for b in bases:
        k = key(b)
        if k not in seen:
            seen.add(k)
            frontier.append(b)
            yield b, 0
    for level in range(1, depth + 1):
        nxt = []
        for s in frontier:
            for n in names:
                for v in dims[n]:
                    if n in s and s[n] == v:
                        continue
                    t = dict(s)
                    t[n] = v
                    transitions += 1
                    k = key(t)
                    if k in seen:
                        continue
                    seen.add(k)
                    if valid is None or valid(t):
                        nxt.append(t)
                        yield t, level
        frontier = nxt
    return transitions


def array(dims, strength, seed=0, base=None):
    """An orthogonal array over the configuration space: rows are the polynomials of degree < strength over a prime
    field, columns the dimensions.  Every combination of values of any `strength` dimensions occurs in the rows (many
    times, each time with other values of the remaining dimensions).  The coverage is exhaustive in that sense."""
    names = list(dims)
    need_ = max(len(names) - 1, max(len(v) for v in dims.values()), 3)
    q = next(n for n in range(need_, 2 * need_ + 2) if all(n % d for d in range(2, int(n ** 0.5) + 1)))
    n = 0
    for row in itertools.product(range(q), repeat=strength):
        s = dict(base or {})
        for j, name in enumerate(names):
            if j == q:
                v = row[0]
            else:
                v = 0
                for a in row:
                    v = (v * j + a) % q
            s[name] = dims[name][(v + seed * (j + 1)) % q % len(dims[name])]
        n += 1
        yield s, "any %d" % strength
    return n


def bfs(initial, successors, depth, canon=repr):
    """Breadth-first search of an explicit transition system.  successors(state) -> iterable of states."""
    seen, frontier, transitions = set(), [], 0
    for s in initial:
        k = canon(s)
        if k not in seen:
            seen.add(k)
            frontier.append(s)
            yield s, 0
    for level in range(1, depth + 1):
        nxt = []
        for s in frontier:
            for t in successors(s):
                transitions += 1
                k = canon(t)
                if k not in seen:
                    seen.add(k)
                    nxt.append(t)
                    yield t, level
        frontier = nxt
    return transitions


def union(*gens):
    """run several searches one after the other"""
    total = 0
    for g in gens:
        total += yield from g
    return total


# ------------------------------------------------------------------ running
class Quiet:
    """capture what the code under test prints, turn its warnings into a list"""

    def __enter__(self):
        self.out = io.StringIO()
        self._so, sys.stdout = sys.stdout, self.out
        self._w = warnings.catch_warnings(record=True)
        self.warnings = self._w.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        sys.stdout = self._so
        self._w.__exit__(*a)
        return False

    def text(self):
        return [str(w.message) for w in self.warnings]


_check = None
_limit = 120


def _alarm(*_):
    raise Hung()


def _one(state):
    """examine one state; returns (comparisons, violation message or None, key, extra dict)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, _limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            n = _check.examine(state)
        n = 1 if n is None else n
        return (n, None, None)
    except Outside:
        return (-1, None, None)
    except Violation as e:
        return (0, str(e), e.key)
    except Hung:
        return (0, "no answer after %d s" % _limit, "hang")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/ccblade/" in f.filename and "/verif/mc" not in f.filename]
        loc = "%s:%s" % (os.path.basename(where[-1].filename), where[-1].name) if where else "%s:%d" % (
            os.path.basename(tb[-1].filename), tb[-1].lineno)
        return (0, "the code raised %s: %s (in %s)" % (type(e).__name__, str(e)[:200], loc), "raise:" + type(e).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _chunk(states):
    return [_one(s) for s in states]


def known():
    out = []
    if os.path.isfile(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property="):
                rest = line[len("KNOWN-FINDING: property="):]
                prop, what = rest.split(None, 1)
                tag, text = what.split("|", 1)
                out.append((prop, tag.strip(), text.strip()))
    return out


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def run(check, tier, seed, workers=None):
    """explore; print the verdict; write evidence; return the exit status"""
    global _check, _limit
    _check = check
    _limit = getattr(check, "limit", 120)
    t0 = time.time()
    workers = workers or min(8, os.cpu_count() or 1)
    gen = check.states(tier)
    states, levels, transitions = [], [], 0
    while True:
        try:
            s, lv = next(gen)
        except StopIteration as e:
            transitions = e.value or 0
            break
        states.append(s)
        levels.append(lv)
    size = getattr(check, "chunk", None) or max(1, min(40, len(states) // (workers * 6) or 1))
    chunks = [list(range(i, min(i + size, len(states)))) for i in range(0, len(states), size)]
    results = [None] * len(states)
    if workers == 1 or len(states) == 1:
        for i, s in enumerate(states):
            results[i] = _one(s)
    else:
        pending = list(chunks)
        for attempt in range(2):
            ctx = mp.get_context("fork")
            lost = []
            with cf.ProcessPoolExecutor(workers, mp_context=ctx) as ex:
                futs = [(c, ex.submit(_chunk, [states[i] for i in c])) for c in pending]
                for c, f in futs:
                    try:
                        for i, r in zip(c, f.result()):
                            results[i] = r
                    except cf.process.BrokenProcessPool:
                        lost.append(c)
            if not lost:
                break
            if attempt == 0:  # isolate: one process per state, to name the state that ends its process
                for c in lost:
                    for i in c:
                        results[i] = _isolated(states[i])
                        if results[i][2] == "crash":
                            lost = []
                            break
                    if not lost:
                        break
                for i in range(len(results)):
                    if results[i] is None:
                        results[i] = (0, None, None)
                break
    bad = [(i, r) for i, r in enumerate(results) if r[1] is not None]
    listed = {(t): text for p, t, text in known() if p == check.id}
    seen_known, unlisted = {}, []
    for i, r in bad:
        if r[2] is not None and r[2] in listed:
            seen_known[r[2]] = seen_known.get(r[2], 0) + 1
        else:
            unlisted.append((i, r))
    for k, text in listed.items():
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s (%d states)" % (check.id, text, seen_known[k]))
        else:
            print("note: known finding %s of %s was not met in this run" % (k, check.id))
    compared = sum(max(0, r[0]) for r in results)
    outside = sum(1 for r in results if r[0] < 0)
    cov = dict(
        states=len(states) - outside,
        outside_domain=outside,
        transitions=int(transitions),
        traces_validated_against_impl=int(compared),
        by_level={str(l): levels.count(l) for l in sorted(set(levels), key=str)},
        exhaustive="every state within the bound was visited" if not hasattr(check, "bound") else check.bound(tier),
        violations=len(unlisted),
        known_finding_states=sum(seen_known.values()),
        samples=[jsonable(s) for s in (states[:1] + states[len(states) // 2:len(states) // 2 + 1] + states[-1:])],
    )
    cov.update(jsonable(check.extra(tier)) if hasattr(check, "extra") else {})
    ev = dict(property=check.id, tier=tier, seed=seed, level=getattr(check, "level", "model_checking"), coverage=cov,
              wall_s=round(time.time() - t0, 3))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", check.id + ".json.%d" % os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", check.id + ".json"))
    print("%s %s: %d states (%d more outside the domain), %d transitions, %d comparisons with the implementation, %d violating, %.1f s" % (
        check.id, tier, len(states) - outside, outside, transitions, compared, len(unlisted), ev["wall_s"]))
    if not unlisted:
        return 0
    if os.environ.get("VERIF_LIST"):  # for development: every violation on a line of its own
        for i, r in unlisted:
            print("LIST", r[1][:200].replace("\n", " "), json.dumps(jsonable(states[i])))
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    shown, keys = 0, set()
    for i, r in unlisted:
        if r[2] in keys and shown:
            continue
        keys.add(r[2])
        body = dict(property=check.id, state=jsonable(states[i]), message=r[1], key=r[2],
                    how="bash /verif/check.sh replay <this file>")
        h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replay", "%s-%s.json" % (check.id, h))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        print("  state: %s" % json.dumps(jsonable(states[i]))[:600])
        print("  %s" % r[1][:1200])
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        shown += 1
        if shown >= 3:
            break
    return 1


def _isolated(state):
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(1, mp_context=ctx) as ex:
        try:
            return ex.submit(_one, state).result()
        except cf.process.BrokenProcessPool:
            return (0, "the process ended abnormally (crash in compiled code?)", "crash")


def get(pid):
    return importlib.import_module("mc.props." + pid.lower()).Check()


def main(argv):
    if argv[0] == "replay":
        body = json.load(open(argv[1]))
        check = get(body["property"])
        check.prepare(body.get("tier", "quick"))
        global _check, _limit
        _check, _limit = check, getattr(check, "limit", 120)
        n, msg, key = _one(check.revive(body["state"]))
        if msg is None:
            print("%s: the property holds in this state (%d comparisons)" % (check.id, n))
            return 0
        print(msg)
        print("VIOLATION property=%s replay=%s" % (check.id, os.path.abspath(argv[1])))
        return 1
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = get(pid)
    check.prepare(tier)
    return run(check, tier, seed)


class Base:
    id = None
    variant = "std"

    def prepare(self, tier):
        from mc import repo

        repo.load(self.variant)

    def revive(self, state):
        return state
