"""Bounded exhaustive exploration of the real library: explorer, counters, replay, evidence.

A check is a list of `Space` objects.  A space enumerates *cases* (plain JSON
data, simplest first) and knows how to execute one case on the real code and
compare every step with a reference model.  The explorer visits every case of
every space; nothing is sampled.  The counters in the evidence file are
incremented by the executions themselves.
"""
import contextlib
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

# --------------------------------------------------------------------------
# environment: always the sources of the moment, no display, no stale bytecode
# --------------------------------------------------------------------------
_SCRATCH = None


def scratch_dir():
    """Scratch directory of this run (removed at exit by `cleanup`)."""
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="verif-")
    return _SCRATCH


def cleanup():
    global _SCRATCH
    if _SCRATCH is not None and os.path.basename(_SCRATCH).startswith("verif-"):
        import shutil

        shutil.rmtree(_SCRATCH, ignore_errors=True)
        _SCRATCH = None


def prepare():
    """Environment of the library, to be called before it is imported."""
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["QT_QPA_PLATFORM"] = "offscreen"
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch_dir(), "mpl")
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch_dir(), "nopyc")
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import warnings

    warnings.filterwarnings("ignore")


# --------------------------------------------------------------------------
# one execution
# --------------------------------------------------------------------------
class CaseTimeout(Exception):
    pass


class LibraryError(object):
    """Outcome of a library call that raised."""

    def __init__(self, exc):
        self.kind = type(exc).__name__
        self.text = str(exc)[:200]

    def __repr__(self):
        return "raised %s(%s)" % (self.kind, self.text)


class Ctx(object):
    """Counters and findings of the executions of one worker."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.cases = 0
        self.outcomes = set()
        self.failures = []
        self.current = None

    # -- operations on the implementation
    def call(self, fn, *args, **kwargs):
        """Run one operation of the real code; an exception is an outcome."""
        self.transitions += 1
        try:
            return fn(*args, **kwargs)
        except CaseTimeout:
            raise
        except Exception as exc:  # noqa: the exception is part of the behaviour
            return LibraryError(exc)

    def state(self, *key):
        """Record a visited state (canonical key)."""
        self.states.add(digest(key))

    def agree(self, sig, got, want, **kw):
        """The implementation must agree with the model on this step."""
        self.validated += 1
        why = differ(got, want, **kw)
        self.outcomes.add(digest(show(want)))
        if why is not None:
            self.fail(sig, why)
        return why is None

    def require(self, sig, cond, detail=""):
        self.validated += 1
        self.outcomes.add(digest((sig, bool(cond))))
        if not cond:
            self.fail(sig, detail)
        return bool(cond)

    def fail(self, sig, detail):
        self.failures.append((self.current, sig, str(detail)[:600]))


def digest(key):
    return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()


def show(x, limit=400):
    import numpy as np

    if isinstance(x, np.ndarray):
        x = (x.shape, [_r(v) for v in x.ravel()[:64].tolist()])
    elif isinstance(x, float):
        x = _r(x)
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + "..."


def _r(v):
    if isinstance(v, float):
        return float("%.9g" % v)
    if isinstance(v, complex):
        return complex(float("%.9g" % v.real), float("%.9g" % v.imag))
    return v


def differ(got, want, rtol=1e-9, atol=None, squeeze=False):
    """None when `got` is what the model expects, otherwise the reason."""
    import numpy as np

    if isinstance(got, LibraryError) or isinstance(want, LibraryError):
        if isinstance(got, LibraryError) and isinstance(want, LibraryError):
            return None
        return "expected %s, got %s" % (show(want), show(got))
    if isinstance(want, str) or want is None or isinstance(want, bool):
        try:
            same = got is want or bool(got == want)
        except Exception:
            same = False
        return None if same else "expected %r, got %s" % (want, show(got))
    try:
        a, b = np.asarray(got), np.asarray(want)
    except Exception as exc:
        return "result not comparable: %s" % exc
    if squeeze:
        a, b = np.squeeze(a), np.squeeze(b)
    if a.shape != b.shape:
        return "shape %s expected, got %s; expected %s, got %s" % (
            b.shape,
            a.shape,
            show(b),
            show(a),
        )
    if a.dtype == object or b.dtype == object or a.dtype.kind in "US" or b.dtype.kind in "US":
        same = a.ravel().tolist() == b.ravel().tolist()
        return None if same else "expected %s, got %s" % (show(b), show(a))
    if b.size == 0:
        return None
    a = a.astype(complex)
    b = b.astype(complex)
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return "nan pattern differs: expected %s, got %s" % (show(want), show(got))
    a, b = a[~nb], b[~nb]
    ia, ib = ~np.isfinite(a), ~np.isfinite(b)
    if (ia != ib).any() or (a[ib] != b[ib]).any():
        return "infinite values differ: expected %s, got %s" % (show(want), show(got))
    a, b = a[~ib], b[~ib]
    if b.size == 0:
        return None
    scale = float(np.max(np.abs(b)))
    tol = rtol * scale + (1e-12 if atol is None else atol)
    bad = np.abs(a - b) > tol
    if bad.any():
        return "expected %s, got %s" % (show(np.asarray(want)), show(np.asarray(got)))
    return None


# --------------------------------------------------------------------------
# spaces
# --------------------------------------------------------------------------
class Space(object):
    """A finite set of cases and the execution of one of them."""

    def __init__(self, name, cases, run, bound):
        self.name = name
        self.cases = cases  # tier -> iterable of JSON cases, simplest first
        self.run = run  # (ctx, case) -> None
        self.bound = bound  # text: alphabet and bounds


def _alarm(signum, frame):
    raise CaseTimeout()


CASE_TIMEOUT = 120


class _Sink(object):
    """Discards what the library prints."""

    def write(self, text):
        return len(text)

    def flush(self):
        pass


def execute(space, case, ctx):
    ctx.current = (space.name, case)
    ctx.cases += 1
    nbefore = len(ctx.failures)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with contextlib.redirect_stdout(_Sink()):
            space.run(ctx, case)
    except CaseTimeout:
        ctx.fail("timeout", "case did not finish within %d s" % CASE_TIMEOUT)
    except Exception:
        # the library returned something no conforming tree returns
        ctx.fail(
            "uninterpretable",
            "result could not be interpreted: " + traceback.format_exc()[-500:],
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return ctx.failures[nbefore:]


_WORK = {}


def _worker(job):
    ispace, cases, order = job
    space = _WORK["spaces"][ispace]
    ctx = Ctx()
    nfail = []
    hit = set()
    for k, case in zip(order, cases):
        for f in execute(space, case, ctx):
            i = match_known(_WORK["known"], space.name, case, f[1])
            if i is not None:
                hit.add(i)
            else:
                nfail.append((k, f))
        ctx.failures = []
        if len(nfail) > 200:
            break
    return (
        ispace,
        ctx.cases,
        ctx.states,
        ctx.transitions,
        ctx.validated,
        ctx.outcomes,
        nfail,
        hit,
    )


def explore(spaces, tier, nproc, known):
    """Visit every case of every space.  Returns totals and ordered failures."""
    _WORK["spaces"] = spaces
    _WORK["known"] = known
    jobs = []
    listed = {}
    for i, sp in enumerate(spaces):
        cases = list(sp.cases(tier))
        listed[i] = cases
        size = max(1, min(200, len(cases) // (nproc * 6) + 1))
        for k in range(0, len(cases), size):
            jobs.append((i, cases[k : k + size], list(range(k, k + len(cases[k : k + size])))))
    tot = {
        "cases": 0,
        "states": set(),
        "transitions": 0,
        "validated": 0,
        "outcomes": set(),
        "per_space": {
            sp.name: {"cases": 0, "states": 0, "transitions": 0, "validated": 0}
            for sp in spaces
        },
    }
    failures = []
    tot["hit"] = set()
    if nproc > 1:
        mp = multiprocessing.get_context("fork")
        pool = mp.Pool(nproc)
        results = pool.imap_unordered(_worker, jobs)
    else:
        pool = None
        results = map(_worker, jobs)
    try:
        for ispace, ncases, states, trans, valid, outc, nfail, hit in results:
            name = spaces[ispace].name
            tot["cases"] += ncases
            before = len(tot["states"])
            tot["states"] |= states
            tot["transitions"] += trans
            tot["validated"] += valid
            tot["outcomes"] |= outc
            tot["hit"] |= hit
            ps = tot["per_space"][name]
            ps["cases"] += ncases
            ps["states"] += len(tot["states"]) - before
            ps["transitions"] += trans
            ps["validated"] += valid
            for k, f in nfail:
                failures.append((ispace, k, f))
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    failures.sort(key=lambda t: (t[0], t[1]))
    tot["listed"] = sum(len(c) for c in listed.values())
    tot["samples"] = [
        {"space": sp.name, "case": listed[i][len(listed[i]) // 2]}
        for i, sp in enumerate(spaces)
        if listed[i]
    ]
    return tot, failures


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def load_known(prop):
    """Listed findings of one property: (space, case or None, signature, text).

    Lines `finding: property=<id> space=<name> sig=<signature> [case=<json>] :: <what fails>`
    """
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("finding: property=%s " % prop):
                continue
            head, text = line.split(" :: ", 1)
            case = None
            if " case=" in head:
                head, case = head.split(" case=", 1)
                case = json.loads(case)
            words = dict(w.split("=", 1) for w in head.split()[1:])
            out.append((words["space"], case, words["sig"], text))
    return out


def norm_case(case):
    return json.loads(json.dumps(case))


def match_known(known, space, case, sig):
    for i, (kspace, kcase, ksig, _) in enumerate(known):
        if kspace == space and ksig == sig and (kcase is None or kcase == norm_case(case)):
            return i
    return None


# --------------------------------------------------------------------------
# running a check
# --------------------------------------------------------------------------
def run_check(prop, module, tier, seed, nproc=None):
    t0 = time.time()
    spaces = module.spaces()
    if nproc is None:
        nproc = int(os.environ.get("VERIF_NPROC", str(min(8, os.cpu_count() or 1))))
    known = load_known(prop)
    tot, failures = explore(spaces, tier, nproc, known)
    fresh = [
        (ispace, k, sname, case, sig, detail)
        for ispace, k, ((sname, case), sig, detail) in failures
    ]
    for i in sorted(tot["hit"]):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i][3]))
    # the same case must fail the same way when replayed alone
    outdir = os.path.join(VERIF, "evidence", "replay")
    reported = []
    seen = set()
    for ispace, k, sname, case, sig, detail in fresh:
        if (sname, sig) in seen or len(reported) >= 10:
            continue
        seen.add((sname, sig))
        ctx = Ctx()
        again = execute(spaces[ispace], case, ctx)
        stable = any(f[1] == sig for f in again)
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, "%s-%d.json" % (prop, len(reported) + 1))
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "space": sname,
                    "case": case,
                    "signature": sig,
                    "detail": detail,
                    "fails_again_on_replay": stable,
                    "replay": "/opt/venv/bin/python %s/run.py %s --replay %s"
                    % (VERIF, prop, path),
                },
                f,
                indent=1,
            )
        reported.append((path, sname, sig, detail))
    wall = time.time() - t0
    exhaustive = tot["cases"] == tot["listed"]
    coverage = {
        "states": len(tot["states"]),
        "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["cases"],
        "comparisons_with_model": tot["validated"],
        "distinct_expected_outcomes": len(tot["outcomes"]),
        "exhaustive": exhaustive,
        "bounds": {sp.name: sp.bound for sp in spaces},
        "per_space": tot["per_space"],
        "samples": tot["samples"],
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        "%s tier=%s cases=%d states=%d transitions=%d comparisons=%d outcomes=%d exhaustive=%s wall=%.1fs"
        % (
            prop,
            tier,
            tot["cases"],
            len(tot["states"]),
            tot["transitions"],
            tot["validated"],
            len(tot["outcomes"]),
            exhaustive,
            wall,
        )
    )
    if fresh:
        for path, sname, sig, detail in reported:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  space=%s sig=%s: %s" % (sname, sig, detail))
        print("%d failing steps in total" % len(fresh))
        return 1
    if not exhaustive:
        print("exploration incomplete", file=sys.stderr)
        return 2
    return 0


def replay(prop, module, path):
    with open(path) as f:
        rec = json.load(f)
    for sp in module.spaces():
        if sp.name == rec["space"]:
            ctx = Ctx()
            fails = execute(sp, rec["case"], ctx)
            print("case:", json.dumps(rec["case"]))
            for _, sig, detail in fails:
                print("FAILS sig=%s: %s" % (sig, detail))
            if not fails:
                print("holds")
            return 1 if fails else 0
    print("unknown space %s" % rec["space"], file=sys.stderr)
    return 2
