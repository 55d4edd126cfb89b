"""Runs the checks of one property: python -m vp.run <property> <quick|thorough>."""
import importlib
import json
import multiprocessing
import os
import queue
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Harness:
    def __init__(self, name, fn, quick=None, thorough=None, labels=(), bounds="", about="", extra=False):
        self.name = name
        self.fn = fn
        self.params = {"quick": quick or {}, "thorough": thorough if thorough is not None else (quick or {})}
        self.labels = labels
        self.extra = extra  # may go unexplored when the time does not suffice
        self.bounds = bounds
        self.about = about


def get_harnesses(prop):
    mod = importlib.import_module("vp.props." + prop.lower())
    return mod


FUNCS = set()


def _monitor():
    """Record which functions of the code under test are executed symbolically."""
    mon = sys.monitoring
    tid = 3
    mon.use_tool_id(tid, "vp")

    def start(code, off):
        if code.co_filename.startswith("/repo/"):
            FUNCS.add((code.co_filename[6:], code.co_qualname))
        return mon.DISABLE

    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


class Worker:
    def __init__(self, prop, tier, seed):
        from . import ctx, instrument, hooks  # noqa: F401

        self.mod = get_harnesses(prop)
        self.tier = tier
        self.ctxmod = ctx
        self.rng = random.Random(seed)
        self.real = ctx.World(instrument.REAL)
        try:
            self.world = ctx.World(instrument.ROOT)
            self.load_error = None
        except Exception as e:  # rewriting failed: an error of the machinery
            self.world = None
            self.load_error = traceback.format_exc()

    def job(self, hi, prefix, until, split, max_wit):
        from .engine import Engine
        from . import engine

        Control = engine.Control
        h = self.mod.HARNESSES[hi]
        params = h.params[self.tier]
        eng = Engine(prefix)
        world = self.world
        out = {"hi": hi, "violations": [], "unconfirmed": [], "mismatch": [], "validated": 0, "samples": []}
        state = {"ctx": None}

        def fn(c):
            h.fn(c, **params)

        def once():
            world.snapshot.restore()
            c = self.ctxmod.SymCtx(eng, world)
            state["ctx"] = c
            nv = len(eng.violations)
            try:
                fn(c)
            except engine.PathIncomplete:
                # the encoding ends here; the model of the path so far may still show a violation on the real code
                m = eng.path_model() if eng.fresh() else None
                if m is not None:
                    self._try(h, fn, c.witness(m), out)
                raise
            except Control:
                raise
            except Exception as e:
                # reading a result outside of c.call raised: a violation if the real code does so too
                c.check(False, "no exception while a result is read: " + repr(e)[:200])
            finally:
                for v in eng.violations[nv:]:
                    self._confirm(h, fn, v, out)
            # translator validation on a sample of the completed paths
            k = eng.stats.completed
            if k < 2 or self.rng.random() < max_wit:
                m = eng.path_model()
                if m is not None:
                    self._validate(h, fn, c, c.witness(m), out)

        rest = []
        try:
            rest = eng.explore(once, until=until, split=split)
        except engine.EngineError as e:
            out["error"] = f"{h.name}: {e}\n{traceback.format_exc()}"
        except Exception:
            out["error"] = f"{h.name}: harness error\n{traceback.format_exc()}"
        out["stats"] = eng.stats
        out["rest"] = rest
        out["funcs"] = sorted(FUNCS)
        return out

    def _confirm(self, h, fn, v, out):
        status, label, cc = self.ctxmod.run_concrete(fn, self.real, v.values, v.choices, v.randoms)
        rec = {"harness": h.name, "label": v.label, "values": v.values, "choices": v.choices, "randoms": v.randoms,
               "trace": v.trace}
        if status == "fail":
            rec["label"] = label
            out["violations"].append(rec)
        else:
            rec["concrete"] = (status, cc.trace)
            out["unconfirmed"].append(rec)

    def _try(self, h, fn, w, out):
        status, label, cc = self.ctxmod.run_concrete(fn, self.real, w.values, w.choices, w.randoms)
        if status == "fail":
            out["violations"].append({"harness": h.name, "label": label, "values": w.values, "choices": w.choices,
                                      "randoms": w.randoms, "trace": w.trace})

    def _validate(self, h, fn, c, w, out):
        status, label, cc = self.ctxmod.run_concrete(fn, self.real, w.values, w.choices, w.randoms)
        rec = {"harness": h.name, "label": label, "values": w.values, "choices": w.choices, "randoms": w.randoms,
               "trace": w.trace}
        if status == "fail":
            out["violations"].append(rec)
            return
        if status == "stop" or cc.trace != w.trace:
            rec["concrete"] = (status, cc.trace)
            out["mismatch"].append(rec)
            return
        out["validated"] += 1
        if len(out["samples"]) < 1:
            out["samples"].append({"harness": h.name, "choices": w.choices, "values": repr(w.values)[:600],
                                   "outcomes": repr(w.trace)[:300]})


def _worker_main(prop, tier, seed, inq, outq):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _monitor()
    w = Worker(prop, tier, seed)
    if w.load_error:
        outq.put(("fatal", w.load_error))
        return
    while True:
        j = inq.get()
        if j is None:
            return
        jid, hi, prefix, until, split, wit = j
        try:
            outq.put((jid, w.job(hi, prefix, until, split, wit)))
        except BaseException:
            outq.put(("fatal", traceback.format_exc()))
            return


def main(argv):
    prop, tier = argv[0], argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = get_harnesses(prop)
    limit = mod.LIMITS[tier] if hasattr(mod, "LIMITS") else {"quick": 150, "thorough": 840}[tier]
    limit = float(os.environ.get("VP_LIMIT", limit))
    deadline = t0 + limit
    nproc = int(os.environ.get("VP_PROCS", "0")) or min(8, os.cpu_count() or 2)
    if getattr(mod, "SERIAL", False):
        nproc = 1
    only = os.environ.get("VP_ONLY")
    outq = multiprocessing.Queue()
    inq = multiprocessing.Queue()
    procs = [multiprocessing.Process(target=_worker_main, args=(prop, tier, seed + i, inq, outq), daemon=True)
             for i in range(nproc)]
    for p in procs:
        p.start()

    from .engine import Stats

    total = Stats()
    per = {}
    pending = []
    hs = mod.HARNESSES
    for hi, h in enumerate(hs):
        if only and h.name != only:
            continue
        pending.append((hi, []))
        per[hi] = {"stats": Stats(), "left": 1, "validated": 0, "unconfirmed": 0, "mismatch": 0, "complete": False}
    violations, unconfirmed, mismatch, samples, errors = [], [], [], [], []
    funcs = set()
    validated = 0
    running = 0
    jid = 0
    timed_out = False

    def dispatch():
        nonlocal running, jid
        while pending and running < nproc + 2 and not violations:
            hi, prefix = pending.pop(0)
            jid += 1
            hungry = len(pending) < 2 * nproc
            first = not prefix
            dur = 0.15 if first else 1.0
            inq.put((jid, hi, prefix, min(time.time() + dur + (0 if running < nproc else 0.5), deadline),
                     24 if first else (8 if hungry else 0), mod.WITNESS if hasattr(mod, "WITNESS") else 0.02))
            running += 1

    dispatch()
    while running:
        now = time.time()
        try:
            r = outq.get(timeout=max(0.5, min(5.0, deadline + 45 - now)))
        except queue.Empty:
            if time.time() > deadline + 40:
                total.incomplete["the solver did not answer in time"] = running
                timed_out = True
                break
            if not any(p.is_alive() for p in procs):
                errors.append("workers died")
                break
            continue
        if r[0] == "fatal":
            errors.append(r[1])
            break
        out = r[1]
        running -= 1
        st = out["stats"]
        hi = out["hi"]
        if "error" in out:
            errors.append(out["error"])
            break
        violations += out["violations"]
        unconfirmed += out["unconfirmed"]
        mismatch += out["mismatch"]
        validated += out["validated"]
        if len(samples) < 5:
            samples += out["samples"]
        funcs |= set(map(tuple, out["funcs"]))
        total.merge(st)
        pr = per[hi]
        pr["stats"].merge(st)
        pr["left"] -= 1
        pr["validated"] += out["validated"]
        pr["unconfirmed"] += len(out["unconfirmed"])
        pr["mismatch"] += len(out["mismatch"])
        for p in out["rest"]:
            pr["left"] += 1
            # new alternatives first: shallow ones spread the work
            pending.append((hi, p))
        if time.time() > deadline:
            timed_out = timed_out or bool(pending)
            pending.clear()
        if violations:
            pending.clear()
        dispatch()
    for p in procs:
        p.kill()
    return finish(prop, tier, seed, t0, mod, hs, per, total, violations, unconfirmed, mismatch, samples, errors, funcs,
                  validated, timed_out, only)


def finish(prop, tier, seed, t0, mod, hs, per, total, violations, unconfirmed, mismatch, samples, errors, funcs,
           validated, timed_out, only):
    wall = time.time() - t0
    rc = 0
    lines = []
    replay = None
    known = load_known(prop)
    reported = []
    for v in violations:
        k = match_known(known, v)
        if k is None:
            reported.append(v)
    for k in known:
        lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    if reported:
        replay = write_replay(prop, tier, reported[0])
        lines.append(f"VIOLATION property={prop} replay={replay}")
        lines.append(f"  harness {reported[0]['harness']}: {reported[0]['label']}")
        rc = 1
    for e in errors:
        lines.append("ERROR " + e)
    missing = []
    for hi, pr in per.items():
        done = pr["left"] == 0
        pr["complete"] = done and not pr["stats"].incomplete and not pr["unconfirmed"] and not pr["mismatch"] \
            and not pr["stats"].unknown
        if done and not pr["stats"].incomplete:
            for l in hs[hi].labels:
                if l not in pr["stats"].reached:
                    missing.append(f"{hs[hi].name}: {l}")
    if rc == 0:
        if errors:
            rc = 2
        bad = len(unconfirmed) + len(mismatch)
        for u in (unconfirmed[:3] + mismatch[:3]):
            lines.append(f"INCONCLUSIVE {u['harness']}: {u['label']} values={u['values']!r} choices={u['choices']!r} "
                         f"symbolic={u['trace']!r} concrete={u.get('concrete')!r}"[:3000])
        if bad and bad * 4 > validated:
            lines.append(f"ERROR {bad} paths where the encoding and the code disagree ({validated} agree)")
            rc = 2
        for hi, pr in per.items():
            if pr["stats"].completed == 0 and not (hs[hi].extra and (pr["left"] or timed_out)):
                lines.append(f"ERROR {hs[hi].name}: no path completed ({pr['stats'].incomplete})")
                rc = 2
        if missing and rc == 0:
            lines.append("ERROR vacuous: not reached: " + "; ".join(missing))
            rc = 2
    exhaustive = all(pr["complete"] for pr in per.values()) and not timed_out and not errors
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": total.states,
            "transitions": total.transitions,
            "traces_validated_against_impl": validated,
            "samples": samples[:5] or ["none"],
            "exhaustive": exhaustive,
            "paths": total.paths,
            "paths_completed": total.completed,
            "paths_not_explored": dict(total.incomplete),
            "unexplored_jobs_at_time_limit": sum(max(0, pr["left"]) for pr in per.values()),
            "encoding_disagreements": len(unconfirmed) + len(mismatch),
            "solver_queries": total.queries,
            "solver_sat": total.sat,
            "solver_unsat": total.unsat,
            "solver_unknown": total.unknown,
            "solver_s": round(total.solver_s, 2),
            "assertions_checked": total.checks,
            "assertions_discharged": total.discharged,
            "reached": total.reached,
            "functions_encoded": sorted(f"{a}:{b}" for a, b in funcs if not b.startswith("<")),
            "harnesses": {
                hs[hi].name: {
                    "about": hs[hi].about,
                    "bounds": hs[hi].bounds,
                    "params": {k: repr(v) for k, v in hs[hi].params[tier].items()},
                    "paths": pr["stats"].paths,
                    "completed": pr["stats"].completed,
                    "assertions": pr["stats"].checks,
                    "queries": pr["stats"].queries,
                    "solver_s": round(pr["stats"].solver_s, 2),
                    "validated": pr["validated"],
                    "not_explored": dict(pr["stats"].incomplete),
                    "jobs_left": pr["left"],
                    "complete": pr["complete"],
                }
                for hi, pr in per.items()
            },
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {total.paths} paths, {total.checks} assertions, {total.queries} queries, "
          f"{total.solver_s:.1f} s solver, {validated} traces validated, not explored {dict(total.incomplete)}, "
          f"jobs left {sum(max(0, pr['left']) for pr in per.values())}, exhaustive={exhaustive}, {wall:.1f} s")
    if os.environ.get("VP_VERBOSE"):
        for hi, pr in per.items():
            s = pr["stats"]
            print(f"   {hs[hi].name}: paths {s.paths} done {s.completed} stop {s.stopped} checks {s.checks} q {s.queries} "
                  f"solver {s.solver_s:.1f} inc {s.incomplete} left {pr['left']} val {pr['validated']} "
                  f"mis {pr['mismatch']} unc {pr['unconfirmed']} reached {s.reached}")
    for l in lines:
        print(l)
    sys.stdout.flush()
    return rc


COMMON_ASSUMPTIONS = [
    "CPython semantics of the rewritten constructs as implemented in vp/hooks.py and vp/sym.py (validated on sampled "
    "paths of this run against the unmodified code)",
    "floats are finite reals; text is well-formed Unicode",
    "z3 5.3.2 answers are correct",
]


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def match_known(known, v):
    for k in known:
        if k["harness"] == v["harness"] and k["label"] == v["label"] and all(
            v["choices"].get(n) == c for n, c in k.get("choices", {}).items()
        ):
            return k
    return None


REPLAY = '''#!/opt/venv/bin/python
"""Replays a counterexample of property {prop} against the unmodified code in /repo.
Exit status 1 and the failed assertion if the violation is still there, 0 otherwise."""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, {verif!r})
from vp.run import replay
PROPERTY = {prop!r}
TIER = {tier!r}
HARNESS = {harness!r}
FAILED = {label!r}
VALUES = {values!r}
CHOICES = {choices!r}
RANDOMS = {randoms!r}
OUTCOMES = {trace!r}
if __name__ == "__main__":
    sys.exit(replay(PROPERTY, TIER, HARNESS, VALUES, CHOICES, RANDOMS))
'''


def write_replay(prop, tier, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.py")
    with open(path, "w") as f:
        f.write(REPLAY.format(prop=prop, tier=tier, verif=VERIF, harness=v["harness"], label=v["label"],
                              values=v["values"], choices=v["choices"], randoms=v["randoms"], trace=v["trace"]))
    return path


def replay(prop, tier, harness, values, choices, randoms):
    from . import ctx, instrument

    mod = get_harnesses(prop)
    h = next(h for h in mod.HARNESSES if h.name == harness)
    world = ctx.World(instrument.REAL)
    status, label, cc = ctx.run_concrete(lambda c: h.fn(c, **h.params[tier]), world, values, choices, randoms)
    print(f"{harness}: {status} {label or ''}")
    print("outcomes:", cc.trace)
    return 1 if status == "fail" else 0


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.exit(main(sys.argv[1:]))
