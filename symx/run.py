"""Check runner: decide every obligation of a property with the solver, replay what it finds.

usage: python run.py <PROPERTY> [--tier quick|thorough] [--only SUBSTR] [--replay FILE]
"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "evidence", "replays")


class Obl:
    """one proof obligation: harness + bounds. `bound` is a human statement of the bounds."""

    def __init__(self, name, fn, params=None, budget=120, bound="", tol=1e-3, known=None, max_paths=200000, timeout_ms=120000, outs=True):
        self.name, self.fn, self.params, self.budget, self.bound = name, fn, params or {}, budget, bound
        self.tol, self.known, self.max_paths, self.timeout_ms, self.outs = tol, known, max_paths, timeout_ms, outs


def load(prop):
    return importlib.import_module("checks." + prop)


# ------------------------------------------------------------------- symbolic side (forked child)
def _watch_functions(repo, seen):
    mon = sys.monitoring
    TOOL = 3
    try:
        mon.use_tool_id(TOOL, "symx")
    except ValueError:
        return lambda: None
    root = os.path.realpath(repo) + os.sep

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(root) or os.path.realpath(fn).startswith(root):
            seen.add("%s:%s" % (os.path.relpath(fn, root), code.co_qualname))
        return mon.DISABLE

    mon.register_callback(TOOL, mon.events.PY_START, start)
    mon.set_events(TOOL, mon.events.PY_START)

    def stop():
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)

    return stop


def solve(obl, mods):
    """explore one obligation; returns a JSON-able result"""
    from . import array, core, env, kit

    array.STRICT = True
    state = {"witness": None, "done": 0, "last": None}
    seen = set()

    def snapshot(k, model):
        ins = {n: kit.conc_value(a, model) for n, a in k.inputs.items()}
        outs = {}
        if obl.outs:
            for n, v in k.outs.items():
                outs[n] = v if isinstance(v, (str, type(None))) else kit.conc_value(array.obj(k.arr(v)), model)
        return ins, outs

    def once():
        k = kit.SymKit(obl.params, mods)
        k.CTX = core.CTX
        state["last"] = k
        try:
            obl.fn(k)
        except core.Found as f:
            f.snap = snapshot(k, f.model)
            raise
        except core.Inconclusive:
            raise
        except Exception as e:  # the code under test raised: let the replay decide what it is
            core.CTX._check()
            f = core.Found("exception: %s: %s" % (type(e).__name__, str(e)[:200]), core.CTX.nice_model())
            f.trace = traceback.format_exc()[-3000:]
            f.snap = ({n: kit.conc_value(a, f.model) for n, a in k.inputs.items()}, {})
            raise f
        state["done"] += 1
        n = len(state.setdefault("witnesses", []))
        if n < 2 or state["done"] in (7, 50):
            state["witnesses"].append(snapshot(k, core.CTX.witness_model(int(os.environ.get("VERIF_SEED", "1")))))

    t0 = time.time()
    holder = {}
    stop = _watch_functions(env.REPO, seen)
    res = {"name": obl.name, "bound": obl.bound, "params": obl.params}
    old_explore_ctx = core.Ctx

    class C(old_explore_ctx):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            holder["c"] = self

    core.Ctx = C
    try:
        c, found = core.explore(once, timeout_ms=obl.timeout_ms, max_paths=obl.max_paths, budget_s=obl.budget)
        if found is not None:
            res.update(status="found", label=found.label, detail=getattr(found, "detail", None), inputs=found.snap[0], trace=getattr(found, "trace", None))
        elif state["done"] == 0:
            res.update(status="undecided", why="vacuous: no complete path")
        else:
            res.update(status="held")
    except core.Inconclusive as e:
        res.update(status="undecided", why="inconclusive: %s" % e, trace=traceback.format_exc()[-1500:])
        # candidate inputs for a replay: any model of the current path condition
        k = state["last"]
        try:
            c = holder["c"]
            core.CTX = c
            c.deadline = None
            if k is not None and k.inputs and c._check():
                res["inputs"] = {n: kit.conc_value(a, c.nice_model()) for n, a in k.inputs.items()}
        except BaseException:
            pass
        finally:
            core.CTX = None
    except Exception as e:
        res.update(status="undecided", why="engine: %r" % e, trace=traceback.format_exc()[-1500:])
    finally:
        core.Ctx = old_explore_ctx
        stop()
    c = holder.get("c")
    if c is not None:
        res.update(paths=c.paths, complete_paths=state["done"], queries=c.queries, solver_s=round(c.solver_s, 3), assertions=c.assertions,
                   labels=c.reached)
    res["witnesses"] = state.get("witnesses", [])
    res["functions"] = sorted(seen)
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def _child(obl, mods, path):
    try:
        r = solve(obl, mods)
    except BaseException as e:
        r = {"name": obl.name, "status": "undecided", "why": "crash: %r" % (e,), "trace": traceback.format_exc()[-1500:]}
    with open(path + ".tmp", "w") as f:
        json.dump(r, f)
    os.rename(path + ".tmp", path)


def run_all(obls, mods, jobs, deadline, scratch):
    import multiprocessing as mp

    ctx = mp.get_context("fork")
    pending = list(enumerate(obls))
    running, results = {}, {}
    while pending or running:
        while pending and len(running) < jobs and time.time() < deadline:
            i, o = pending.pop(0)
            path = os.path.join(scratch, "%d.json" % i)
            p = ctx.Process(target=_child, args=(o, mods, path))
            p.start()
            running[i] = (p, o, path, time.time())
        for i, (p, o, path, t) in list(running.items()):
            if not p.is_alive():
                p.join()
                if os.path.exists(path):
                    results[i] = json.load(open(path))
                else:
                    results[i] = {"name": o.name, "status": "undecided", "why": "worker died (exit %s)" % p.exitcode}
                del running[i]
            elif time.time() > deadline + 20 or time.time() - t > o.budget * 1.5 + 60:
                p.kill()
                p.join()
                results[i] = {"name": o.name, "status": "undecided", "why": "time budget exhausted (killed)"}
                del running[i]
        if pending and time.time() >= deadline:
            for i, o in pending:
                results[i] = {"name": o.name, "status": "undecided", "why": "not started: overall time budget"}
            pending = []
        time.sleep(0.02)
    return [results[i] for i in range(len(obls))]


# ------------------------------------------------------------------- concrete side (fresh process)
def concrete_main(jobfile):
    """run harnesses on concrete inputs against the unpatched package; writes results beside the job"""
    import logging
    import tempfile
    import warnings

    sys.dont_write_bytecode = True
    repo = os.environ.get("SYMX_REPO", "/repo")
    sys.path.insert(0, repo)
    os.environ.setdefault("MPLBACKEND", "Agg")
    import dask
    import dask.distributed

    dask.distributed.wait = lambda *a, **k: None  # nothing to wait for: replays use the synchronous scheduler, no cluster
    import marEx
    import marEx.detect as detect
    import marEx.track as track

    assert os.path.realpath(marEx.__file__).startswith(os.path.realpath(repo))
    warnings.simplefilter("ignore")
    marEx.set_quiet_mode()
    logging.getLogger("marEx").setLevel(logging.CRITICAL)
    dask.config.set(scheduler="synchronous")
    import dask.array.reductions as dr
    import numpy as np

    class Numbagg:
        __version__ = "0.9.0"

        @staticmethod
        def nanquantile(a, quantiles, axis=None, **kw):
            return np.nanquantile(a, quantiles, axis=axis)

        nanmedian = staticmethod(lambda a, axis=None, **kw: np.nanmedian(a, axis=axis))

    dr.numbagg = Numbagg  # numpy's nanquantile instead of a 20 s just-in-time compilation of the same function
    from . import core, kit

    job = json.load(open(jobfile))
    out = []
    for j in job:
        mod = load(j["property"])
        obl = next((o for o in mod.obligations(j["tier"]) if o.name == j["obligation"]), None)
        k = kit.ConcKit(obl.params, (marEx, detect, track), j["inputs"])
        r = {"failed": [], "exception": None, "pre": True}
        try:
            obl.fn(k)
        except core.PathAbort:
            r["pre"] = False
        except Exception as e:
            r["exception"] = "%s: %s" % (type(e).__name__, str(e)[:300])
            r["trace"] = traceback.format_exc()[-3000:]
        r["failed"] = k.failed
        r["reached"] = k.reached
        try:
            r["outs"] = {n: (v if isinstance(v, (str, type(None))) else kit.conc_value(k.arr(v), None)) for n, v in k.outs.items()} if obl.outs else {}
        except Exception as e:
            r["outs"] = {}
            r["outs_error"] = repr(e)
        out.append(r)
        with open(jobfile + ".out.tmp", "w") as f:
            json.dump(out, f)
        os.rename(jobfile + ".out.tmp", jobfile + ".out")


def run_concrete(jobs, scratch, tag, timeout=300):
    """jobs -> list of results (None for those that did not finish)"""
    if not jobs:
        return []
    jf = os.path.join(scratch, "conc_%s.json" % tag)
    json.dump(jobs, open(jf, "w"))
    env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1")
    env.setdefault("NUMBA_CACHE_DIR", os.path.join(scratch, "numba"))
    p = subprocess.Popen([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from symx.run import concrete_main; concrete_main(sys.argv[1])" % VERIF, jf],
                         env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=scratch)
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
    res = json.load(open(jf + ".out")) if os.path.exists(jf + ".out") else []
    if len(res) < len(jobs):
        sys.stderr.write((err or b"").decode(errors="replace")[-1500:] + "\n")
    return res + [None] * (len(jobs) - len(res))


def bad(r):
    """does a concrete result violate the property?"""
    if r is None or not r["pre"]:
        return None
    if r["exception"]:
        return "exception " + r["exception"]
    return r["failed"][0] if r["failed"] else None


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "0")) or min(8, os.cpu_count() or 8))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.selftest:
        from . import array, core, env, kit  # noqa: F401
        import z3

        print("ready: z3", z3.get_version_string())
        return 0
    import shutil
    import tempfile

    scratch = tempfile.mkdtemp(prefix="symx_")
    try:
        return _main(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, scratch):
    t0 = time.time()
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        j = json.load(open(a.replay))
        r = run_concrete([j], scratch, "replay")[0]
        print(json.dumps(r, indent=1))
        return 1 if bad(r) else 0
    from . import env

    mods = env.install()
    mod = load(prop)
    obls = mod.obligations(a.tier)
    if a.only:
        obls = [o for o in obls if a.only in o.name]
    limit = 600 if a.tier == "quick" else 3000
    results = run_all(obls, mods, a.jobs, t0 + limit, scratch)

    # replay counterexamples and witnesses on the real, unpatched code (several processes)
    jobs, meta = [], []
    for o, r in zip(obls, results):
        base = {"property": prop, "tier": a.tier, "obligation": o.name}
        if r["status"] == "found" or (r["status"] == "undecided" and r.get("inputs")):
            jobs.append(dict(base, inputs=r["inputs"]))
            meta.append((o, r, "cex", None))
        for w in r.get("witnesses", []):
            jobs.append(dict(base, inputs=w[0]))
            meta.append((o, r, "wit", w[1]))
    nproc = max(1, min(a.jobs, len(jobs) // 3 + 1))
    conc = [None] * len(jobs)
    from concurrent.futures import ThreadPoolExecutor

    def chunk(n):
        idx = list(range(n, len(jobs), nproc))
        for i, r in zip(idx, run_concrete([jobs[i] for i in idx], scratch, str(n))):
            conc[i] = r

    if jobs:
        with ThreadPoolExecutor(nproc) as ex:
            list(ex.map(chunk, range(nproc)))

    from . import kit

    known = load_known(prop)
    violations, knowns, undecided, validated, mismatches = [], [], [], 0, []
    os.makedirs(REPLAYS, exist_ok=True)
    for (o, r, kind, expect), j, c in zip(meta, jobs, conc):
        b = bad(c)
        if b is not None:
            if any(v[0] == o.name for v in violations):
                continue
            kf = [k for k in known if k["obligation"] == o.name and k["label"] in b]
            if kf:
                knowns.append((o.name, kf[0]["what"]))
                r["status"] = "known"
                continue
            path = os.path.join(REPLAYS, "%s_%s.json" % (prop, o.name))
            json.dump(dict(j, violated=b, label=r.get("label"), concrete=c, how="python run.py %s --replay %s" % (prop, path)), open(path, "w"), indent=1)
            violations.append((o.name, b, path))
            r["status"] = "violated"
        elif kind == "wit":
            if c is None or not c["pre"]:
                mismatches.append((o.name, "witness could not be replayed", c))
            elif not all(kit.same(expect[n], c["outs"].get(n), o.tol) for n in expect):
                diff = [n for n in expect if not kit.same(expect[n], c["outs"].get(n), o.tol)]
                mismatches.append((o.name, "symbolic and concrete outputs differ: %s" % diff, {n: (expect[n], c["outs"].get(n)) for n in diff}))
            else:
                validated += 1
    for o, r in zip(obls, results):
        if r["status"] == "found":
            r["status"] = "undecided"
            r["why"] = "counterexample did not reproduce: %s" % r.get("label")
        if r["status"] == "undecided":
            undecided.append((o.name, r.get("why")))
    bad_model = {m[0] for m in mismatches}
    for o, r in zip(obls, results):
        if o.name in bad_model and r["status"] == "held":
            r["status"] = "undecided"
            r["why"] = "model validation: " + next(m[1] for m in mismatches if m[0] == o.name)
            undecided.append((o.name, r["why"]))
    held = [r for r in results if r["status"] == "held"]

    if a.v or os.environ.get("SYMX_V"):
        for r in results:
            print("  %-34s %-10s paths=%s q=%s solver=%ss wall=%ss %s" % (r["name"], r["status"], r.get("paths"), r.get("queries"), r.get("solver_s"),
                                                                  r.get("wall_s"), (str(r.get("why") or r.get("label") or ""))[:200]))
            if r["status"] not in ("held",) and r.get("trace") and a.v:
                print(r["trace"])
        for m in mismatches:
            print("  MISMATCH", m[0], m[1], str(m[2])[:1500])

    funcs = sorted({f for r in results for f in r.get("functions", [])})
    samples = []
    for r in results[:40]:
        samples.append({k: r.get(k) for k in ("name", "status", "bound", "paths", "complete_paths", "queries", "solver_s", "assertions", "why") if r.get(k) is not None})
    if results and results[0].get("witnesses"):
        samples.append({"witness_of": results[0]["name"], "inputs": results[0]["witnesses"][0][0]})
    cov = {
        "states": sum(r.get("paths", 0) for r in results),
        "transitions": sum(r.get("queries", 0) for r in results),
        "traces_validated_against_impl": validated,
        "obligations": len(obls),
        "discharged": len(held),
        "undecided": [list(u) for u in undecided],
        "known_findings": [list(k) for k in knowns],
        "solver": "z3 " + __import__("z3").get_version_string(),
        "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
        "assertions": sum(r.get("assertions", 0) for r in results),
        "functions_encoded": funcs,
        "bounds": getattr(mod, "BOUNDS", ""),
        "outside_bounds": getattr(mod, "OUTSIDE", ""),
        "meaning": "states = feasible symbolic paths explored, transitions = solver queries, traces_validated = solver witnesses re-run on the unpatched package with equal outputs",
        "samples": samples,
    }
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for n, w in knowns:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for n, w in undecided:
        print("UNDECIDED: property=%s obligation=%s %s" % (prop, n, w))
    for n, b, path in violations:
        print("# %s: %s" % (n, b))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d obligations, %d held, %d known, %d undecided, %d violated; %d paths, %d queries, %.1fs solver, %d witnesses validated, %.1fs"
          % (prop, a.tier, len(obls), len(held), len(knowns), len(undecided), len(violations), cov["states"], cov["transitions"], cov["solver_s"], validated, time.time() - t0))
    if violations:
        return 1
    if not held and not knowns:
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "floating point is modelled by exact real arithmetic with NaN/inf flags; comparisons against the code's results carry a stated tolerance",
    "time coordinates, grid shapes, chunkings and parameters are concrete per obligation (listed in samples/bounds); data values are symbolic",
    "compiled leaves are replaced by models with their documented semantics (numba kernels: their own python source; flox, xhistogram, numbagg, dask arg-reductions: models); every run validates the models by re-running solver witnesses on the unpatched package",
]
