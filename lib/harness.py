"""Harness registry, symbolic jobs, concrete replay on unpatched code, evidence."""
import contextlib
import importlib
import io
import json
import logging
import math
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"


class Harness:
    def __init__(self, fn, name, cases, thorough, opts):
        self.fn, self.name, self.cases, self.thorough, self.opts = fn, name, cases, thorough, opts


REG = []


def harness(name=None, cases=({},), thorough=None, **opts):
    """opts: timeout_ms, branch_ms, max_paths, job_s, bounds (text), jitter (bool)"""

    def deco(fn):
        REG.append(Harness(fn, name or fn.__name__, list(cases), thorough, opts))
        return fn

    return deco


# ------------------------------------------------------------------------------------------- concrete context
class ConcFail(Exception):
    pass


class ConcCtx:
    mode = "conc"
    pi = math.pi

    def __init__(self, values):
        self.values = values
        self.failed = []
        self.marks = set()
        self.nclaims = 0
        self.notes = []

    def _get(self, name, lo, hi, d):
        if name in self.values:
            return self.values[name]
        if lo is not None and hi is not None:
            return d((float(lo) + float(hi)) / 2)
        return d(lo if lo is not None else (hi if hi is not None else 0))

    def real(self, name, lo=None, hi=None, strict=False):
        v = float(self._get(name, lo, hi, float))
        # rounding of solver rationals may step over the range by an ulp
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo, hi, int))

    def bool(self, name):
        return bool(self.values.get(name, False))

    flag = bool

    def choose(self, name, options):
        options = list(options)
        return options[int(self.values.get(name, 0)) % len(options)]

    def assume(self, c):
        if not bool(c):
            from .sym import PathEnd

            raise PathEnd

    @staticmethod
    def And(*xs):
        xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
        return all(bool(x) for x in xs)

    @staticmethod
    def Or(*xs):
        xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
        return any(bool(x) for x in xs)

    @staticmethod
    def Not(x):
        return not bool(x)

    @staticmethod
    def Implies(a, b):
        return (not bool(a)) or bool(b)

    @staticmethod
    def Iff(a, b):
        return bool(a) == bool(b)

    @staticmethod
    def If(c, a, b):
        return a if c else b

    @staticmethod
    def eq(a, b, tol=0.0):
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        if not tol:
            return a == b or abs(a - b) <= 4e-16 * max(abs(a), abs(b))
        return abs(a - b) <= tol + 1e-12 * max(abs(a), abs(b))

    def prove(self, claim, label):
        self.nclaims += 1
        if not bool(claim):
            self.failed.append(label)

    def sos(self, expr, squares, label, coefs=None):
        self.prove(expr >= -1e-9, label)

    def assume_pos(self, expr):
        self.assume(expr > 0)

    def lemma(self, claim, label):
        self.prove(claim, label)

    frac = staticmethod(lambda a, b=1: a / b)

    def reached(self, label):
        self.marks.add(label)

    def note(self, s):
        self.notes.append(s)

    # maths
    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    sqrt_ = staticmethod(lambda x: math.sqrt(x) if x >= 0 else math.nan)
    exp = staticmethod(lambda x: math.exp(x) if x < 700 else math.inf)
    log10 = staticmethod(lambda x: math.log10(x) if x > 0 else (-math.inf if x == 0 else math.nan))
    pow10 = staticmethod(lambda x: 10.0**x if x < 300 else math.inf)
    rad = staticmethod(math.radians)
    abs = staticmethod(abs)
    max = staticmethod(max)
    min = staticmethod(min)

    @staticmethod
    def arccos(x):
        return math.acos(max(-1.0, min(1.0, x)))

    @staticmethod
    def arcsin(x):
        return math.asin(max(-1.0, min(1.0, x)))

    @staticmethod
    def interp(x, xp, fp):
        import numpy as np

        return float(np.interp(x, xp, fp))


# ------------------------------------------------------------------------------------------- helpers for harnesses
@contextlib.contextmanager
def patched(*subs):
    """patched(("sorcha.modules.X", "name", value), ...) - environment stubs, both modes."""
    saved = []
    try:
        for m, n, v in subs:
            o = importlib.import_module(m) if isinstance(m, str) else m
            saved.append((o, n, getattr(o, n, None), hasattr(o, n)))
            setattr(o, n, v)
        yield
    finally:
        for o, n, v, had in reversed(saved):
            if had:
                setattr(o, n, v)
            else:
                delattr(o, n)


def exits(fn, *a, **k):
    """(exited, result): True when the call stops the run through SystemExit."""
    try:
        return False, fn(*a, **k)
    except SystemExit as e:
        return True, e


def column(values):
    import numpy as np
    import pandas as pd
    from .sym import is_sym

    if any(is_sym(v) for v in values):
        a = np.empty(len(values), dtype=object)
        for i, v in enumerate(values):
            a[i] = v
        return a
    if all(isinstance(v, str) for v in values) and len(values):
        return list(values)
    return np.array(values)


def frame(cols, index=None):
    import pandas as pd

    d = {k: column(list(v)) for k, v in cols.items()}
    return pd.DataFrame(d, index=index)


# ------------------------------------------------------------------------------------------- symbolic job
_cov = {"funcs": set(), "lines": set()}


def _start_cov():
    mon = sys.monitoring
    tid = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tid, "verif")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(REPO_SRC):
            _cov["funcs"].add((os.path.relpath(code.co_filename, REPO_SRC), code.co_qualname))
        return mon.DISABLE

    def line(code, ln):
        if code.co_filename.startswith(REPO_SRC) and code.co_name != "<module>":
            _cov["lines"].add((os.path.relpath(code.co_filename, REPO_SRC), ln))
        return mon.DISABLE

    mon.register_callback(tid, mon.events.PY_START, start)
    mon.register_callback(tid, mon.events.LINE, line)
    mon.set_events(tid, mon.events.PY_START | mon.events.LINE)


_patched_done = False


def sym_setup(prop):
    global _patched_done
    if _patched_done:
        return
    from . import shim

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    shim.numpy_errstate()
    shim.patch_modules("sorcha")
    shim.patch_modules("sorcha_cmdline")
    shim.patch_special()
    shim.patch_pandas()
    _start_cov()
    _patched_done = True


def run_job(prop, hi, ci, case, opts, seed, out):
    """Explore one harness case symbolically; put a result dict on the queue."""
    from . import sym
    import z3

    t0 = time.time()
    h = REG[hi]
    stats = sym.Stats()
    res = dict(h=hi, c=ci, name=h.name, case=case, paths=0, aborted=0, claims=0, discharged=0, trivial=0, cex=[], unknown=[], errors=[],
               witnesses=[], guesses=[], decisions=0, marks=[], labels={})
    sent = [0]

    def tell():
        # hand over the counterexamples found so far: they survive if this worker has to be killed
        if len(res["cex"]) > sent[0]:
            out.put(dict(partial=True, h=hi, c=ci, cex=[dict(x) for x in res["cex"][sent[0]:]]))
            sent[0] = len(res["cex"])

    try:
        sym_setup(prop)
        job_s = opts.get("job_s", 500)
        deadline = t0 + job_s
        max_paths = opts.get("max_paths", 20000)
        z3.set_param("smt.random_seed", seed)
        rng = random.Random(seed * 7919 + hi * 131 + ci)
        work = [()]
        nwit = opts.get("witnesses", 6)
        scratch = tempfile.mkdtemp(prefix="verif_")
        cwd = os.getcwd()
        os.chdir(scratch)
        marks = set()
        try:
            while work:
                if res["paths"] + res["aborted"] >= max_paths:
                    raise sym.Budget("paths>%d" % max_paths)
                if time.time() > deadline:
                    raise sym.Budget("time>%ds" % job_s)
                tell()
                pre = work.pop()
                c = sym.SymCtx(pre, stats, opts.get("timeout_ms", 15000), opts.get("branch_ms", 1500), deadline)
                c.abs_ite = opts.get("abs_ite", False)
                sym._CTX = c
                exc = None
                ended = False
                sink = io.StringIO()
                try:
                    with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
                        h.fn(c, **case)
                except sym.PathEnd:
                    ended = True
                except (sym.Budget,):
                    raise
                except sym.Unsupported as e:
                    res["errors"].append("unsupported: %s @ %s" % (e, _where()))
                    # still use the path for candidate inputs
                    exc = ("unsupported: %s" % e, True)
                except (Exception, SystemExit) as e:
                    exc = ("raised %s: %s @ %s" % (type(e).__name__, str(e)[:200], _where()), False)
                finally:
                    pass
                res["decisions"] += len(c.taken)
                work.extend(c.alts)
                if ended:
                    res["aborted"] += 1
                    sym._CTX = None
                    continue
                res["paths"] += 1
                marks |= c.marks
                if exc is not None:
                    st, m = c.solve([])
                    if st == "sat":
                        ws = [c.witness(m)] + _diverse(c, [], rng, 4)
                        for w in ws:
                            res["cex"].append(dict(label="exception", info=exc[0], values=w, soft=exc[1]))
                    elif st == "unknown":
                        res["unknown"].append(("exception", exc[0]))
                    else:
                        res["paths"] -= 1
                        res["aborted"] += 1
                        if exc[1]:
                            res["errors"].pop()
                    sym._CTX = None
                    if len(res["cex"]) > 40:
                        res["truncated"] = True
                        break
                    continue
                res["claims"] += len(c.claims)
                # witness (also the vacuity guard: the path condition is satisfiable)
                if len(res["witnesses"]) < nwit or rng.random() < 0.05 and len(res["witnesses"]) < 4 * nwit:
                    st, m = c.solve([], timeout_ms=opts.get("witness_ms", 6000))
                    if st == "sat":
                        w = c.witness(m)
                        res["witnesses"].append(w)
                    elif st == "unsat":
                        res["claims"] -= len(c.claims)
                        res["paths"] -= 1
                        res["aborted"] += 1
                        sym._CTX = None
                        continue
                todo = []
                for lab, t in c.claims:
                    res["labels"][lab] = res["labels"].get(lab, 0) + 1
                    ts = z3.simplify(t)
                    if z3.is_true(ts):
                        res["discharged"] += 1
                        res["trivial"] += 1
                    else:
                        todo.append((lab, ts))
                # linear first try: all together; then one by one
                groups = [todo] if len(todo) > 1 and not c.nonlin else [[x] for x in todo]
                while groups:
                    tell()
                    g = groups.pop()
                    if not g:
                        continue
                    if time.time() > deadline:
                        raise sym.Budget("time>%ds" % job_s)
                    neg = z3.Or([z3.Not(t) for _, t in g]) if len(g) > 1 else z3.Not(g[0][1])
                    st, m = c.solve([neg])
                    if st == "unsat":
                        stats.unsat += 1
                        res["discharged"] += len(g)
                    elif len(g) > 1:
                        groups.extend([[x] for x in g])
                    elif st == "sat":
                        stats.sat += 1
                        w0 = c.witness(m)
                        for w in [w0] + _diverse(c, [neg], rng, 5):
                            res["cex"].append(dict(label=g[0][0], values=w, info="solver model"))
                    else:
                        stats.unknown += 1
                        res["unknown"].append((g[0][0], ""))
                        # hunt: pin most inputs to a path model / random values and ask again
                        for w in _diverse(c, [neg], rng, 4, heavy=True):
                            res["cex"].append(dict(label=g[0][0], values=w, info="solver model (pinned)"))
                        for w in _diverse(c, [], rng, 2):
                            res["cex"].append(dict(label=g[0][0], values=w, info="path witness", soft=True))
                        res["guesses"].extend(_guesses(c, res["witnesses"], rng, 4 if len(res["guesses"]) < 24 else 0))
                sym._CTX = None
                if len([x for x in res["cex"]]) > opts.get("max_cex", 60) or len(res["unknown"]) > opts.get("max_unknown", 12):
                    res["truncated"] = True
                    break
        except sym.Budget as e:
            res["errors"].append("budget: %s (open prefixes: %d)" % (e, len(work)))
        finally:
            os.chdir(cwd)
            shutil.rmtree(scratch, ignore_errors=True)
        res["marks"] = sorted(marks)
    except BaseException as e:
        res["errors"].append("engine: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    res["stats"] = stats.as_dict()
    res["funcs"] = sorted(_cov["funcs"])
    res["lines"] = len(_cov["lines"])
    res["wall"] = time.time() - t0
    out.put(res)


def _where():
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    rel = [f for f in fr if "/repo/" in f.filename] or fr
    f = rel[-1]
    g = fr[-1]
    return "%s:%s %s (deepest %s:%s)" % (os.path.basename(f.filename), f.lineno, f.name, os.path.basename(g.filename), g.lineno)


def _guesses(c, witnesses, rng, n):
    """After `unknown` only: inputs drawn from the declared ranges, to be replayed on the real code.  They can turn "no
    answer" into a reproduced violation, never into a pass."""
    import z3

    out = []
    for _ in range(n):
        w = dict(rng.choice(witnesses)) if witnesses else {}
        for k, v in c.inputs.items():
            lo, hi = c.bounds.get(k, (None, None))
            if z3.is_real(v) and lo is not None and hi is not None:
                w[k] = float(lo) + (float(hi) - float(lo)) * rng.random()
            elif k not in w:
                break
        else:
            out.append(w)
    return out


def _diverse(c, extra, rng, n, heavy=False):
    """More models of pc /\\ extra, with some inputs pinned to random in-range values (all solver-produced)."""
    import z3
    from .sym import qval

    out = []
    names = [k for k in c.inputs if z3.is_real(c.inputs[k])]
    if not names:
        return out
    t_end = time.time() + (12 if heavy else 6)
    s = z3.Solver()
    s.set("timeout", 1500)
    s.add(*c.pc)
    s.add(*extra)
    tries = 0
    while len(out) < n and tries < 4 * n and time.time() < t_end:
        tries += 1
        s.push()
        frac = rng.choice([0.3, 0.6, 1.0] if not heavy else [0.7, 0.9, 1.0])
        vs = names[:]
        rng.shuffle(vs)
        ok = True
        for k in vs[: max(1, int(len(vs) * frac))]:
            lo, hi = c.bounds.get(k, (None, None))
            lo = -50.0 if lo is None else float(lo)
            hi = (lo + 100.0) if hi is None else float(hi)
            v = round(lo + (hi - lo) * rng.random(), 3) if hi - lo > 0.05 else lo + (hi - lo) * rng.random()
            s.push()
            s.add(c.inputs[k] == qval(v))
            if time.time() > t_end:
                s.pop()
                break
            if s.check() != z3.sat:
                s.pop()
            # a kept pin stays in an inner scope; scopes are popped together below
        r = s.check()
        if r == z3.sat:
            out.append(c.witness(s.model()))
        while s.num_scopes() > 0:
            s.pop()
    return out


# ------------------------------------------------------------------------------------------- concrete replay
def run_concrete(h, case, values):
    from . import sym

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    c = ConcCtx(values)
    scratch = tempfile.mkdtemp(prefix="verif_")
    cwd = os.getcwd()
    os.chdir(scratch)
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            h.fn(c, **case)
        return dict(status="ok" if not c.failed else "fail", failed=c.failed, nclaims=c.nclaims)
    except sym.PathEnd:
        return dict(status="excluded", failed=c.failed, nclaims=c.nclaims)
    except (Exception, SystemExit) as e:
        return dict(status="raise", failed=["exception"], info="%s: %s @ %s" % (type(e).__name__, str(e)[:300], _where()), nclaims=c.nclaims)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def conc_worker(inq, out):
    while True:
        item = inq.get()
        if item is None:
            return
        k, hi, case, values = item
        try:
            r = run_concrete(REG[hi], case, values)
        except BaseException as e:
            r = dict(status="engine", failed=[], info=repr(e), nclaims=0)
        out.put((k, r))


def _jitter(values, rng, rel=1e-6):
    return {k: (v * (1 + rel * rng.uniform(-1, 1)) + rel * 1e-3 * rng.uniform(-1, 1) if isinstance(v, float) else v) for k, v in values.items()}


# ------------------------------------------------------------------------------------------- main
def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get("property") == prop and e.get("status") == "known"]


def main(prop, mod, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if "--replay" in argv:
        d = json.load(open(argv[argv.index("--replay") + 1]))
        h = [x for x in REG if x.name == d["harness"]][0]
        r = run_concrete(h, d["case"], d["values"])
        print(json.dumps(r, indent=1, default=str))
        return 1 if r["status"] in ("fail", "raise") else 0
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    verbose = "-v" in argv
    jobs = []
    for hi, h in enumerate(REG):
        if only and only != h.name:
            continue
        cases = h.thorough if (tier == "thorough" and h.thorough is not None) else h.cases
        for ci, case in enumerate(cases):
            o = dict(h.opts)
            if tier == "thorough":
                o["job_s"] = o.get("thorough_job_s", 3 * o.get("job_s", 500))
                o["timeout_ms"] = 3 * o.get("timeout_ms", 15000)
            jobs.append((hi, ci, case, o))
    ctx = mp.get_context("fork")
    # concrete workers are forked before anything is patched
    cin, cout = ctx.Queue(), ctx.Queue()
    ncw = 2
    cws = [ctx.Process(target=conc_worker, args=(cin, cout), daemon=True) for _ in range(ncw)]
    for w in cws:
        w.start()
    out = ctx.Queue()
    maxp = int(os.environ.get("VERIF_PROCS", "7"))
    pending = list(jobs)[::-1]
    running = {}
    results = []
    partial = {}
    quick = tier != "thorough"
    t_look, looked, t_stop = t0 + (300 if quick else 1e9), set(), t0 + (740 if quick else 1e9)
    while pending or running:
        if time.time() > t_look and (running or pending):
            # a slow run on a tree that looks wrong: a counterexample that reproduces is the answer, the rest is not waited for
            t_look = time.time() + 15
            if _reproduces(prop, results, partial, jobs, looked, cin, cout):
                t_stop = 0
        if time.time() > t_stop:
            why = "not explored: %s" % ("a violation was already reproduced" if t_stop == 0 else "the run's time is up")
            for k, (p, ts, j) in list(running.items()):
                p.kill()
                results.append(_dead(j, why, partial.get(k)))
            results.extend(_dead(j, why) for j in pending)
            break
        while pending and len(running) < maxp:
            j = pending.pop()
            p = ctx.Process(target=run_job, args=(prop, j[0], j[1], j[2], j[3], seed, out))
            p.start()
            running[(j[0], j[1])] = (p, time.time(), j)
        try:
            r = out.get(timeout=0.5)
            if r.get("partial"):
                partial.setdefault((r["h"], r["c"]), []).extend(r["cex"])
                continue
            results.append(r)
            p, _, _ = running.pop((r["h"], r["c"]))
            p.join(timeout=5)
            if verbose:
                print("  %s %s: paths=%d claims=%d discharged=%d cex=%d unknown=%d q=%d+%d wall=%.1f errors=%s" % (
                    r["name"], r["case"], r["paths"], r["claims"], r["discharged"], len(r["cex"]), len(r["unknown"]), r["stats"]["queries"], r["stats"]["branch_queries"], r["wall"], r["errors"][:2]), flush=True)
        except Exception:
            for k, (p, ts, j) in list(running.items()):
                lim = j[3].get("job_s", 500) + 120
                if not p.is_alive() and out.empty():
                    time.sleep(0.3)
                    if out.empty():
                        running.pop(k)
                        results.append(_dead(j, "worker died (exit %s)" % p.exitcode, partial.get(k)))
                elif time.time() - ts > lim:
                    p.kill()
                    running.pop(k)
                    results.append(_dead(j, "worker killed after %ds" % lim, partial.get(k)))
    # replay
    todo = []
    for r in results:
        for x in r["cex"]:
            todo.append(("cex", r, x))
        for w in r["witnesses"]:
            todo.append(("wit", r, dict(values=w, label="witness")))
        for w in r["guesses"] if r["unknown"] else []:
            todo.append(("wit", r, dict(values=w, label="guess")))
    for k, (kind, r, x) in enumerate(todo):
        cin.put((k, r["h"], r["case"], x["values"]))
    answers = {}
    tr = time.time()
    t_replay = 600 if not quick else max(60, min(600, 850 - (tr - t0)))
    while len(answers) < len(todo) and time.time() - tr < t_replay:
        try:
            k, a = cout.get(timeout=1)
            if isinstance(k, int):
                answers[k] = a
        except Exception:
            if not any(w.is_alive() for w in cws):
                break
    violations, disagreements, spurious = [], [], {}
    validated = boundary = 0
    rng = random.Random(seed)
    known = load_known(prop)
    known_hit = {}
    reproduced = set()
    for k, (kind, r, x) in enumerate(todo):
        a = answers.get(k)
        if a is None:
            disagreements.append((r, x, dict(status="no answer")))
            continue
        bad = a["status"] in ("fail", "raise")
        if kind == "wit":
            if a["status"] == "ok":
                validated += x["label"] == "witness"
            elif bad:
                nbad = 4 if (r["h"], r["c"]) in reproduced else _robust(r, x, rng, cin, cout)
                if nbad >= 3:
                    violations.append((r, x, a))
                elif nbad == 0:
                    boundary += 1
                elif x["label"] == "witness":
                    disagreements.append((r, x, a))
            continue
        key = (r["h"], r["c"], x["label"])
        if bad:
            reproduced.add((r["h"], r["c"]))
            reproduced.add(key)
            violations.append((r, x, a))
        else:
            spurious.setdefault(key, []).append((r, x, a))
    for _ in cws:
        cin.put(None)
    for w in cws:
        w.join(timeout=3)
        if w.is_alive():
            w.kill()
    real = []
    for r, x, a in violations:
        hit = None
        for e in known:
            if e["harness"] == r["name"] and _match(e, r, x, a):
                hit = e
                break
        if hit is not None:
            known_hit.setdefault(hit["id"], hit)
        else:
            real.append((r, x, a))
    rc = 0
    problems = []
    for key, l in spurious.items():
        if key in reproduced or any((kk[0], kk[1]) in reproduced for kk in [key]):
            continue
        if all(x.get("soft") for _, x, _ in l):
            continue
        problems.append("counterexample did not reproduce: %s %s label=%s %s" % (l[0][0]["name"], l[0][0]["case"], l[0][1]["label"], l[0][1].get("info")))
    for r in results:
        if r["unknown"] and not any((r["h"], r["c"]) in reproduced for _ in [0]):
            problems.append("inconclusive: %s %s: %d unknown (%s)" % (r["name"], r["case"], len(r["unknown"]), sorted({str(u) for u in r["unknown"]})[:3]))
        for e in r["errors"]:
            problems.append("%s %s: %s" % (r["name"], r["case"], e))
        if r["paths"] == 0 or (r["claims"] == 0 and not r["cex"]):
            problems.append("vacuous: %s %s (paths=%d claims=%d)" % (r["name"], r["case"], r["paths"], r["claims"]))
        elif not r["witnesses"] and not r["cex"]:
            problems.append("no reachability witness: %s %s" % (r["name"], r["case"]))
    for r, x, a in disagreements:
        problems.append("witness disagrees with the encoding: %s %s %s %s" % (r["name"], r["case"], a, x.get("values")))
    problems = list(dict.fromkeys(problems))
    for e in known:
        if e["id"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    if real:
        rc = 1
        rdir = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for n, (r, x, a) in enumerate(real):
            key = (r["name"], json.dumps(r["case"], sort_keys=True, default=str), tuple(sorted(set(a["failed"]))))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 8:
                break
            p = os.path.join(rdir, "%s-%d.json" % (prop, len(seen)))
            json.dump(dict(property=prop, harness=r["name"], case=r["case"], values=x["values"], failed=a["failed"], info=a.get("info"), solver=x.get("info"),
                           how="./check %s --replay %s" % (prop, p)), open(p, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  harness %s case %s: %s %s" % (r["name"], r["case"], sorted(set(a["failed"]))[:4], a.get("info", "")))
    elif problems:
        rc = 2
    for p in problems[:40]:
        print(("NOTE " if rc == 1 else "INCONCLUSIVE ") + p)
    write_evidence(prop, mod, tier, seed, results, validated, len(real), problems, time.time() - t0)
    tot = lambda f: sum(f(r) for r in results)
    print("%s %s: %d jobs, %d paths, %d claims, %d discharged, %d witnesses validated, %.1fs -> exit %d" % (
        prop, tier, len(results), tot(lambda r: r["paths"]), tot(lambda r: r["claims"]), tot(lambda r: r["discharged"]), validated, time.time() - t0, rc))
    return rc


def _match(e, r, x, a):
    if e.get("label") and e["label"] not in a["failed"]:
        return False
    if set(a["failed"]) - set(e.get("labels", [e.get("label")])):
        return False
    if e.get("info") and e["info"] not in (a.get("info") or ""):
        return False
    if e.get("case") is not None and any(r["case"].get(k) != v for k, v in e["case"].items()):
        return False
    for k, v in (e.get("values") or {}).items():
        if x["values"].get(k) != v:
            return False
    return True


def _robust(r, x, rng, cin, cout):
    n = bad = 0
    for _ in range(4):
        cin.put(("j", r["h"], r["case"], _jitter(x["values"], rng)))
        try:
            _, a = cout.get(timeout=60)
        except Exception:
            return -1
        n += 1
        bad += a["status"] in ("fail", "raise")
    return bad


def _reproduces(prop, results, partial, jobs, looked, cin, cout):
    """Replay (a few of) the counterexamples found so far; true as soon as one is a violation no known finding covers."""
    cases = {(j[0], j[1]): j[2] for j in jobs}
    done = {(r["h"], r["c"]) for r in results}
    found = [(r["h"], r["case"], r["name"], x) for r in results for x in r["cex"]]
    found += [(k[0], cases[k], REG[k[0]].name, x) for k, xs in partial.items() if k not in done for x in xs]
    known = load_known(prop)
    n = 0
    for h, case, name, x in found:
        key = (h, json.dumps(case, sort_keys=True, default=str), json.dumps(x["values"], sort_keys=True, default=str))
        if key in looked or n >= 12:
            continue
        looked.add(key)
        n += 1
        cin.put(("early", h, case, x["values"]))
        try:
            _, a = cout.get(timeout=60)
        except Exception:
            return False
        if a["status"] in ("fail", "raise") and not any(e["harness"] == name and _match(e, dict(case=case), x, a) for e in known):
            return True
    return False


def _dead(j, msg, cex=None):
    return dict(h=j[0], c=j[1], name=REG[j[0]].name, case=j[2], paths=0, aborted=0, claims=0, discharged=0, trivial=0, cex=list(cex or []), unknown=[], errors=[msg],
                witnesses=[], guesses=[], decisions=0, marks=[], labels={}, stats=dict(queries=0, branch_queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, cvc5=0), funcs=[], lines=0, wall=0)


def write_evidence(prop, mod, tier, seed, results, validated, nviol, problems, wall):
    tot = lambda f: sum(f(r) for r in results)
    funcs = sorted({tuple(f) for r in results for f in r["funcs"]})
    samples = []
    for r in results:
        if r["witnesses"]:
            samples.append(dict(harness=r["name"], case=r["case"], path_model={k: v for k, v in list(r["witnesses"][-1].items())[:25]}))
        if len(samples) >= 8:
            break
    cov = dict(
        states=tot(lambda r: r["paths"]),
        transitions=tot(lambda r: r["decisions"]),
        traces_validated_against_impl=validated,
        samples=samples or ["none"],
        states_meaning="feasible symbolic paths through the real code, each standing for all inputs satisfying its path condition",
        transitions_meaning="branch decisions taken along those paths",
        infeasible_or_assumed_away=tot(lambda r: r["aborted"]),
        claims=tot(lambda r: r["claims"]),
        claims_discharged=tot(lambda r: r["discharged"]),
        claims_true_after_simplification=tot(lambda r: r["trivial"]),
        queries=tot(lambda r: r["stats"]["queries"]),
        branch_queries=tot(lambda r: r["stats"]["branch_queries"]),
        cvc5_queries=tot(lambda r: r["stats"]["cvc5"]),
        solver_s=round(tot(lambda r: r["stats"]["solver_s"]), 2),
        unknown=tot(lambda r: len(r["unknown"])),
        functions_encoded=["%s:%s" % f for f in funcs],
        lines_encoded=max([r["lines"] for r in results] or [0]),
        harnesses=[dict(name=r["name"], case=r["case"], paths=r["paths"], claims=r["claims"], discharged=r["discharged"], labels=r["labels"],
                        bounds=REG[r["h"]].opts.get("bounds", getattr(mod, "BOUNDS", "")), wall_s=round(r["wall"], 2)) for r in results],
        bounds=getattr(mod, "BOUNDS", ""),
        outside=getattr(mod, "OUTSIDE", ""),
        problems=problems[:20],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"), coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", prop + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1, default=str)
    os.replace(p + ".tmp", p)
