"""Explores the harness jobs of one property, replays counterexamples, writes evidence."""
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

from .concrete import tup

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

PY = "/opt/venv/bin/python"
_G = None
_LOAD_ERROR = None
_FUNCS = set()
_LINES = set()  # with VERIF_JOBMAP (a file): which lines each job executes, for tools/mutate.py


def _monitor():
    """records which functions of the code under test were executed symbolically"""
    from . import load

    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return
    pre = load.REPO + "/gridded"

    def start(code, off):
        if code.co_filename.startswith(pre):
            _FUNCS.add(code.co_filename[len(load.REPO) + 1:] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    ev = mon.events.PY_START
    if os.environ.get("VERIF_JOBMAP"):

        def line(code, n):
            if code.co_filename.startswith(pre):
                _LINES.add(code.co_filename[len(load.REPO) + 1:] + ":" + str(n))
            return mon.DISABLE

        mon.register_callback(tool, mon.events.LINE, line)
        ev |= mon.events.LINE
    mon.set_events(tool, ev)


class Replayer:
    def __init__(self):
        self.p = None
        self.n = 0

    def run(self, mod, fn, params, values, timeout=120):
        if self.p is None or self.p.poll() is not None:
            env = dict(os.environ)
            self.p = subprocess.Popen([PY, "-m", "symx.concrete"], cwd=HERE, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, text=True, env=env)
        self.n += 1
        try:
            self.p.stdin.write(json.dumps(dict(mod=mod, fn=fn, params=params, values=values)) + "\n")
            self.p.stdin.flush()
            import select

            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.p.kill()
                self.p = None
                return {"status": "error", "detail": "replay timeout", "reached": 0}
            line = self.p.stdout.readline()
            if not line:
                self.p = None
                return {"status": "error", "detail": "replay process died", "reached": 0}
            return json.loads(line)
        except (BrokenPipeError, OSError) as e:
            self.p = None
            return {"status": "error", "detail": repr(e), "reached": 0}

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait(10)
            self.p = None


def worker_init():
    global _G, _REPLAY, _LOAD_ERROR
    from . import load

    try:
        _G = load.load(True)
    except Exception:  # noqa: reported by every job; a failing initialiser would be restarted for ever
        _LOAD_ERROR = traceback.format_exc()[-600:]
        return
    _monitor()
    _REPLAY = Replayer()
    sys.stdout = io.StringIO()  # the code under test prints


def values_of(inputs, env):
    r = {}
    for k, (kind, x) in inputs.items():
        if kind == "choice":
            r[k] = x
        else:
            i = next(iter(x.n.t))[0][0]
            v = env[i]
            r[k] = int(v) if kind == "int" else (v if isinstance(v, int) else str(Fraction(v)))
    return r


def nicify(facts, extra, inputs, env, budget=4.0, rng=None):
    """a model of facts+extra whose inputs are short dyadic numbers, as far as possible"""
    import z3

    from . import core

    s = z3.Solver()
    s.set("timeout", 400)
    s.add(*facts)
    if extra is not None:
        s.add(extra)
    t0 = time.time()
    cur = dict(env)
    names = [k for k, (kind, _) in inputs.items() if kind == "real"]
    if rng:
        rng.shuffle(names)
    for k in names:
        if time.time() - t0 > budget:
            break
        x = inputs[k][1]
        i = next(iter(x.n.t))[0][0]
        v = Fraction(cur.get(i, 0))
        cands = []
        for q in (1, 2, 8, 64, 1024, 2**20):
            f = Fraction(round(v * q), q)
            if f not in cands:
                cands.append(f)
        done = False
        for f in cands:
            if f == v:
                s.add(core.VARS.z[i] == z3.RealVal(str(f)))
                done = True
                break
            s.push()
            s.add(core.VARS.z[i] == z3.RealVal(str(f)))
            if s.check() == z3.sat:
                m = s.model()
                s.pop()
                s.add(core.VARS.z[i] == z3.RealVal(str(f)))
                for d in m.decls():
                    vv = core.zval(m[d])
                    for isint in (False, True):
                        j = core.VARS.idx.get((d.name(), isint))
                        if j is not None and vv is not None:
                            cur[j] = vv
                cur[i] = f
                done = True
                break
            s.pop()
            if time.time() - t0 > budget:
                break
        if not done:
            pass
    return core._DefaultEnv(cur)


def other_models(facts, extra, inputs, env, n, rng):
    """further models, pushed away from the first by random linear constraints"""
    import z3

    from . import core

    out = []
    reals = [x for kind, x in inputs.values() if kind in ("real", "int")]
    for k in range(n):
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*facts)
        if extra is not None:
            s.add(extra)
        soft = []
        for x in rng.sample(reals, min(len(reals), 6)):
            i = next(iter(x.n.t))[0][0]
            v = Fraction(env.get(i, 0))
            d = rng.choice([Fraction(1, 7), Fraction(3, 11), 1, 3, Fraction(1, 1000)])
            zv = z3.ToReal(core.VARS.z[i]) if core.VARS.isint[i] else core.VARS.z[i]
            soft.append(zv >= z3.RealVal(str(v + d)) if rng.random() < 0.5 else zv <= z3.RealVal(str(v - d)))
        for c in soft:
            s.push()
            s.add(c)
            if s.check() != z3.sat:
                s.pop()
        if s.check() == z3.sat:
            m = s.model()
            e = {}
            for d in m.decls():
                vv = core.zval(m[d])
                for isint in (False, True):
                    j = core.VARS.idx.get((d.name(), isint))
                    if j is not None and vv is not None:
                        e[j] = vv
            out.append(core._DefaultEnv(e))
    return out


def run_job(job):
    """job: dict(prop, mod, fn, params, opts, tier, seed)"""
    from . import api, core, fakes, load

    if _LOAD_ERROR:
        raise RuntimeError("the code could not be loaded: " + _LOAD_ERROR)
    t0 = time.time()
    if os.environ.get("VERIF_JOBMAP"):
        _LINES.clear()
        sys.monitoring.restart_events()
    opts = job["opts"]
    rng = random.Random(job["seed"])
    mod = importlib.import_module("checks." + job["mod"])
    fn = getattr(mod, job["fn"])
    params = job["params"]
    eng = core.Engine(feas_timeout=opts.get("feas_ms", 1500), assert_timeout=opts.get("assert_ms", 8000), seed=job["seed"],
                      max_decisions=opts.get("max_decisions", 3000))
    core.set_engine(eng)
    limit = opts.get("time", 60)
    max_paths = opts.get("paths", 20000)
    eng.deadline = t0 + limit
    res = dict(job=job["name"], fn=job["fn"], params=params, paths=0, aborted=0, inconclusive=0, unreproduced=[], violations=[],
               validated=0, replays=0, samples=[], complete=True, witness=0, incon_reasons={}, disagreements=[], degraded={},
               unknown_asserts=0, checks=0)
    nval = searches = 0

    def note(k):
        res["inconclusive"] += 1
        res["incon_reasons"][k] = res["incon_reasons"].get(k, 0) + 1

    maxval = opts.get("validate", 40)
    while eng.work:
        if time.time() - t0 > limit or res["paths"] >= max_paths:
            res["complete"] = False
            break
        if len(res["violations"]) >= 2:
            res["complete"] = False
            break
        prefix = eng.work.pop()
        eng.start_path(prefix)
        fakes.reset()
        load.restore()
        core.LAZY_HASH = False
        c = api.SymCtx(eng, _G)
        outcome, exc = "ok", None
        try:
            fn(c, **params)
        except core.PathAbort:
            res["aborted"] += 1
            continue
        except (core.PathLimit, core.Undecidable) as e:
            outcome, exc = "limit", e
        except api.CheckFail as e:
            outcome, exc = "checkfail", e
        except RecursionError as e:
            outcome, exc = "exception", e
        except Exception as e:  # noqa
            outcome, exc = "exception", e
        res["paths"] += 1
        res["checks"] += len(c.results)
        for d in eng.degraded:
            res["degraded"][d] = res["degraded"].get(d, 0) + 1
        unk = [l for l, v in c.results if v == "unknown"]
        res["unknown_asserts"] += len(unk)
        cands = list(c.candidates)  # (label, env, detail, facts, negated condition)
        if outcome == "exception":
            v, m = eng.prove(False)
            tb = traceback.extract_tb(exc.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-6:])
            if v == "unsat":
                res["aborted"] += 1
                res["paths"] -= 1
                continue
            cands.append(("exception:" + type(exc).__name__, m, f"{exc} at {where}", list(eng.facts), None))
        if outcome == "limit":
            note("path not finished: " + str(exc)[:80])
        if unk:
            note("solver unknown: " + unk[0])
        if cands:
            rep = None
            tried = 0

            def attempt(label, env, detail):
                nonlocal rep, tried
                r = _replay(job, c, env, res)
                tried += 1
                if r["status"] in ("fail", "exc") and not r.get("own"):
                    rep = (label, env, r, detail)
                return rep is not None

            for label, m, detail, fx, neg in cands[:4]:
                if m is not None and attempt(label, m, detail):
                    break
            if not rep and searches < opts.get("searches", 12):
                # rounding or an inexact (algebraic) model can hide it: look for other failing inputs of the same path
                searches += 1
                for label, m, detail, fx, neg in cands[:2]:
                    if m is None:
                        m = core._DefaultEnv({})
                    for env in [nicify(fx, neg, c.inputs, m, rng=rng)] + other_models(fx, neg, c.inputs, m, 5, rng):
                        if attempt(label, env, detail):
                            break
                    if rep:
                        break
            if rep:
                label, env, r, detail = rep
                res["violations"].append(dict(label=r.get("label", label), sym_label=label, values=values_of(c.inputs, env), replay=r,
                                              detail=str(detail)[:500]))
            else:
                if len(res["unreproduced"]) < 5:
                    res["unreproduced"].append(dict(labels=[(x[0], str(x[2])[:300]) for x in cands[:3]],
                                                    values=values_of(c.inputs, cands[0][1]) if cands[0][1] is not None else None,
                                                    replay=res.get("_last")))
                note("counterexample not reproduced: " + cands[0][0])
            continue
        # passing or inconclusive path: validate the encoding on a model of it
        if nval < maxval or outcome == "limit" and nval < maxval + 20:
            env = eng.model
            if env is None:
                r, env = eng._check(None, 3000, True)
            if env is not None:
                nval += 1
                r = _replay(job, c, env, res)
                if r["status"] == "assume":  # rounding put the input outside the path: take a rounder one
                    for e2 in [nicify(eng.facts, None, c.inputs, env, rng=rng)] + other_models(eng.facts, None, c.inputs, env, 4, rng):
                        r, env = _replay(job, c, e2, res), e2
                        if r["status"] != "assume":
                            break
                if r["status"] == "ok":
                    res["validated"] += 1
                    res["witness"] += 1 if r.get("reached") else 0
                    if len(res["samples"]) < 2:
                        res["samples"].append(dict(values=values_of(c.inputs, env), checks=[l for l, _ in c.results][:6], obs=r.get("obs")))
                elif r["status"] in ("fail", "exc") and not r.get("own"):
                    # the real code fails where the encoding passes: confirm on other inputs of the path
                    envs = other_models(eng.facts, None, c.inputs, env, 4, rng) + [nicify(eng.facts, None, c.inputs, env, rng=rng)]
                    bad = 1
                    for e2 in envs:
                        r2 = _replay(job, c, e2, res)
                        if r2["status"] in ("fail", "exc") and not r2.get("own"):
                            bad += 1
                            env, r = e2, r2
                    d = dict(label=r.get("label"), values=values_of(c.inputs, env), replay=r, sym_label="(passes symbolically)",
                             detail=f"{bad} inputs of one path fail on the real code", outcome=outcome)
                    if bad >= 3:
                        res["violations"].append(d)
                    else:
                        res["disagreements"].append(d)
    if eng.work and not res["violations"]:
        res["complete"] = False
    if not res["paths"] and not eng.work:
        res["complete"] = False
        note("nothing explored: the assumptions of the job cannot be met, or the solver finds no model")
    res["remaining"] = len(eng.work)
    res["stats"] = dict(vars(eng.stats))
    res["wall"] = time.time() - t0
    res["funcs"] = sorted(_FUNCS)
    if os.environ.get("VERIF_JOBMAP"):
        res["lines"] = sorted(_LINES)
    res.pop("_last", None)
    return res


def _replay(job, c, env, res):
    r = _REPLAY.run(job["mod"], job["fn"], job["params"], values_of(c.inputs, env))
    res["replays"] += 1
    res["_last"] = r
    return r


def safe_job(job):
    try:
        return run_job(job)
    except BaseException as e:  # noqa
        return dict(job=job["name"], fn=job["fn"], params=job["params"], crashed=traceback.format_exc()[-1500:], paths=0, aborted=0,
                    inconclusive=1, unreproduced=[], violations=[], validated=0, replays=0, samples=[], complete=False, witness=0,
                    incon_reasons={"crash " + repr(e)[:100]: 1}, disagreements=[], degraded={}, unknown_asserts=0, checks=0, stats={},
                    wall=0, funcs=[], remaining=0)


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return []


def main(argv=None):
    argv = argv or sys.argv[1:]
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for a in argv[1:]:
        if a in ("--thorough", "thorough"):
            tier = "thorough"
        elif a.startswith("--only="):
            only = a[7:]
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    jobs = []
    for k, (fn, params, opts) in enumerate(mod.jobs(tier)):
        name = fn + "(" + ",".join(f"{a}={b}" for a, b in params.items()) + ")"
        if only and only not in name:
            continue
        o = dict(getattr(mod, "OPTS", {}))
        o.update(opts)
        if tier == "thorough":
            o["time"] = o.get("time", 60) * 6
            o["assert_ms"] = o.get("assert_ms", 8000) * 3
            o["validate"] = o.get("validate", 40) * 3
        jobs.append(dict(prop=prop, mod=prop.lower(), fn=fn, params=tup(params), opts=o, tier=tier, seed=seed, name=name))
    budget = float(os.environ.get("VERIF_BUDGET", "700" if tier == "quick" else "6000"))
    ctx = mp.get_context("fork")
    results = []
    if os.environ.get("VERIF_JOBS"):  # a file listing the jobs to run (tools/mutate.py)
        names = set(json.load(open(os.environ["VERIF_JOBS"])))
        jobs = [j for j in jobs if j["name"] in names]
    failfast = os.environ.get("VERIF_FAILFAST")
    nproc = min(int(os.environ.get("VERIF_NPROC", "8")), len(jobs)) or 1
    pool = ctx.Pool(nproc, initializer=worker_init, maxtasksperchild=opts_tasks(mod))
    try:
        it = pool.imap_unordered(safe_job, sorted(jobs, key=lambda j: -j["opts"].get("weight", 1)), chunksize=1)
        for _ in range(len(jobs)):
            left = budget - (time.time() - t0)
            if left <= 0:
                break
            try:
                r = it.next(timeout=left)
            except mp.TimeoutError:
                break
            results.append(r)
            if failfast and r["violations"]:
                break
            if verbose:
                s = r["stats"]
                print(f"  {r['job']}: paths={r['paths']} checks={r['checks']} viol={len(r['violations'])} incon={r['inconclusive']} val={r['validated']}/{r['replays']}"
                      f" complete={r['complete']} wall={r['wall']:.1f}s solver={s.get('solver_s', 0):.1f}s q={s.get('feas_queries', 0)}/{s.get('assert_queries', 0)} unk={s.get('feas_unknown', 0)} deg={r['degraded']}", flush=True)
                if r["incon_reasons"]:
                    print("     inconclusive:", r["incon_reasons"])
                for u in r["unreproduced"][:1]:
                    print("     unreproduced:", str(u["labels"])[:700], "|", str(u["replay"])[:300], "|", str(u["values"])[:300])
                for u in r["disagreements"][:1]:
                    print("     disagreement:", u["label"], str(u["replay"])[:600], "|", str(u["values"])[:300])
                for u in r["violations"][:1]:
                    print("     VIOL:", u["label"], "|", u["sym_label"], "|", u["detail"][:300], "|", str(u["replay"].get("detail"))[:300], str(u["replay"].get("where", ""))[-300:], "|", str(u["values"])[:300])
                if r.get("crashed"):
                    print(r["crashed"])
    finally:
        pool.terminate()
        pool.join()
    if os.environ.get("VERIF_JOBMAP"):
        json.dump([dict(job=r["job"], wall=r["wall"], lines=r.get("lines", [])) for r in results], open(os.environ["VERIF_JOBMAP"], "w"))
    return report(prop, tier, seed, mod, jobs, results, t0)


def opts_tasks(mod):
    return getattr(mod, "TASKS_PER_CHILD", None)


def report(prop, tier, seed, mod, jobs, results, t0):
    viols = [(r, v) for r in results for v in r["violations"]]
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") != "fixed"]
    fresh, seen_known = [], {}
    for r, v in viols:
        hit = None
        for k in known:
            m = k["match"]
            if m.get("fn") == r["fn"] and m.get("label") in (v["label"], v["sym_label"]) and \
                    all(r["params"].get(a) == tup(b) for a, b in m.get("params", {}).items()) and \
                    m.get("where", "") in json.dumps(v["replay"]):
                hit = k
                break
        if hit:
            seen_known[hit["id"]] = hit
        else:
            fresh.append((r, v))
    agg = {}
    for r in results:
        for k, v in r["stats"].items():
            agg[k] = agg.get(k, 0) + v
    funcs = sorted({f for r in results for f in r["funcs"]})
    incon = {}
    for r in results:
        for k, v in r["incon_reasons"].items():
            incon[k] = incon.get(k, 0) + v
    deg = {}
    for r in results:
        for k, v in r["degraded"].items():
            deg[k] = deg.get(k, 0) + v
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            if len(samples) < 8:
                samples.append(dict(job=r["job"], **s))
    if not samples:
        samples = [dict(job=r["job"], violation=v["values"]) for r, v in viols[:3]]
    complete = len(results) == len(jobs) and all(r["complete"] for r in results) and not incon
    cov = dict(
        states=sum(r["paths"] for r in results), transitions=agg.get("branches", 0),
        traces_validated_against_impl=sum(r["validated"] for r in results), samples=samples,
        exhaustive=bool(complete),
        explanation="states = feasible execution paths of the real code explored symbolically (each covers every input value of the path); "
                    "transitions = symbolic branch decisions; traces_validated = solver models of passing paths replayed on the unpatched code",
        functions_encoded=funcs, bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""),
        jobs=len(jobs), jobs_finished=len(results), jobs_complete=sum(1 for r in results if r["complete"]),
        assertions=sum(r["checks"] for r in results),
        queries_discharged=dict(feasibility=agg.get("feas_queries", 0), assertion=agg.get("assert_queries", 0),
                                assertion_by_normal_form=agg.get("assert_trivial", 0), feasibility_unknown=agg.get("feas_unknown", 0),
                                assertion_unknown=agg.get("assert_unknown", 0)),
        solver_time_s=round(agg.get("solver_s", 0.0), 2), infeasible_or_excluded_paths=sum(r["aborted"] for r in results),
        inconclusive_paths=incon, concretized_operations=deg, concrete_replays=sum(r["replays"] for r in results),
        reachability_witnesses=sum(r["witness"] for r in results),
        jobs_without_witness=[r["job"] for r in results if not r["witness"] and not r["violations"]],
        disagreements=[d for r in results for d in r["disagreements"]][:5],
        unreproduced=[u for r in results for u in r["unreproduced"]][:5],
        job_table=[dict(job=r["job"], paths=r["paths"], checks=r["checks"], complete=r["complete"], wall_s=round(r["wall"], 1)) for r in results],
        solver="z3 " + _z3v(),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replays")
    rc = 0
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if fresh:
        os.makedirs(rdir, exist_ok=True)
        # one line per distinct (fn, label)
        done = set()
        for r, v in fresh:
            key = (r["fn"], v["label"])
            if key in done:
                continue
            done.add(key)
            path = os.path.join(rdir, f"{prop}_{len(done)}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, mod=prop.lower(), fn=r["fn"], params=r["params"], values=v["values"], label=v["label"],
                               detail=v["detail"], observed=v["replay"]), f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {r['job']}: {v['label']}: {str(v['replay'].get('detail'))[:300]}")
        rc = 1
        ev["coverage"]["violation_details"] = [dict(job=r["job"], **v) for r, v in fresh][:6]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: jobs {len(results)}/{len(jobs)} paths={cov['states']} assertions={cov['assertions']} "
          f"validated={cov['traces_validated_against_impl']} inconclusive={sum(incon.values())} complete={complete} wall={ev['wall_s']}s")
    if incon and rc == 0:
        print("INCONCLUSIVE parts:", json.dumps(incon)[:600])
    return rc


def _z3v():
    from . import core  # noqa: F401  (puts z3 on the path)
    import z3

    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
