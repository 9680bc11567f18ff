"""Run the tasks of a property, replay candidates, write evidence, report."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Task:
    """One harness with one configuration."""

    def __init__(self, name, fn, cfg=None, need=(), **opts):
        self.name, self.fn, self.cfg, self.need, self.opts = name, fn, cfg or {}, need, opts


class Sink(list):
    """Candidates of a task; the first one limits the time left to look for more."""

    on_first = None

    def append(self, c):
        super().append(c)
        if len(self) == 1 and self.on_first:
            self.on_first()


def run_task(task, budget):
    from . import core, load
    from .ctx import Candidate, SymCtx

    load.patched()
    opts = dict(task.opts)
    loose = opts.pop("loose", None)
    soft = opts.pop("soft", False)
    ex = core.Explorer(deadline=time.monotonic() + min(budget, opts.pop("time", 10**9)), **opts)
    sink, labels = Sink(), set()
    res = dict(name=task.name, error=None, witness=None)
    prof = set()

    def profiler(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if "/nbkode/" in co.co_filename:
                prof.add(co.co_filename.split("/nbkode/", 1)[1] + ":" + co.co_qualname)

    nuninit = [0]

    def body(p):
        ctx = SymCtx(p, sink)
        if ex.paths <= 4:
            sys.setprofile(profiler)
        try:
            task.fn(ctx, **task.cfg)
        except (core.Unsupported, core.Inconclusive, core.PathAbort):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/nbkode/" in f.filename or "/scipy/" in f.filename]
            label = f"unexpected {type(e).__name__}"
            if not where:
                raise
            if sum(1 for c in sink if c.label == label) < 3:
                st, models = p.path_models()
                if st == "unsat":  # a branch the linear abstraction could not rule out
                    raise core.PathAbort("infeasible")
                sink.append(
                    Candidate(label, models, st, kind="exception", detail=f"{e} at {where[-1].name}:{where[-1].lineno}")
                )
        finally:
            sys.setprofile(None)
            labels.update(p.labels)
            nuninit[0] += p.n_uninit

    t0 = time.monotonic()
    sink.on_first = lambda: setattr(ex, "deadline", min(ex.deadline, time.monotonic() + 20))
    try:
        ex.run(body)
    except core.Inconclusive as e:
        if not sink:
            res["error"] = f"inconclusive: {e}"
    except core.Unsupported as e:
        res["error"] = f"not encodable: {e}\n" + traceback.format_exc()[-1500:]
    except Exception as e:
        res["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2500:]
    st = ex.stats
    res.update(
        wall=time.monotonic() - t0,
        paths=ex.paths,
        completed=ex.done,
        aborted=ex.aborted,
        queries=st.queries,
        unsat=st.unsat,
        sat=st.sat,
        unknown=st.unknown,
        exact=st.exact,
        decisions=st.decisions,
        solver_time=st.time,
        obligations=getattr(st, "obligations", 0),
        trivial=getattr(st, "trivial", 0),
        labels=sorted(labels),
        functions=sorted(prof),
        candidates=[
            dict(label=c.label, models=c.models, status=c.status, kind=c.kind, detail=c.detail) for c in sink
        ],
    )
    res["soft"] = soft
    missing = [l for l in task.need if l not in labels]
    if missing and not res["error"] and not sink:
        res["error"] = f"vacuous: never reached {missing}"
    return res


def _worker(modname, tier, idx, budget, q):
    import resource

    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    mod = importlib.import_module(modname)
    task = mod.tasks(tier)[idx]
    try:
        q.put((idx, run_task(task, budget)))
    except BaseException as e:  # pragma: no cover
        q.put((idx, dict(name=task.name, error=f"{type(e).__name__}: {e}", candidates=[])))


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if hasattr(x, "item"):
        return x.item()
    if isinstance(x, float) or isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


def replay(path, timeout=90, jit=False):
    """Exit status of the replay: 1 reproduced, 0 not, other: error."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    if jit:
        env.pop("NBKODE_NONUMBA", None)
        env["NUMBA_OPT"] = "0"
    else:
        env["NBKODE_NONUMBA"] = "1"
    try:
        r = subprocess.run(
            [sys.executable, "-m", "sx.replay", path] + (["--jit"] if jit else []),
            cwd=VERIF,
            env=env,
            timeout=timeout,
            capture_output=True,
            text=True,
        )
    except subprocess.TimeoutExpired:
        return 3, "timeout"
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(part.split("=", 1) for part in line.split(" ", 3)[1:3])
                out.append((d.get("property"), d.get("key"), line))
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    budget = float(os.environ.get("VERIF_BUDGET", 600 if tier == "quick" else 780))
    t_start = time.monotonic()
    modname = f"checks.{pid.lower()}"
    mod = importlib.import_module(modname)
    from . import load

    load.patched()
    tasks = mod.tasks(tier)
    order = list(range(len(tasks)))
    if only:
        order = [i for i in order if only in tasks[i].name]
    ctxm = mp.get_context("fork")
    q = ctxm.Queue()
    running, results = {}, {}
    pending = sorted(order, key=lambda i: -tasks[i].opts.get("weight", 0)) if False else list(order)
    nproc = int(os.environ.get("VERIF_PROCS", "8"))
    deadline = t_start + budget
    # candidates -> replay
    outdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(outdir, exist_ok=True)
    violations, unreproduced, errors, known, undecided = [], [], [], [], []
    kf = known_findings()
    counter = [0]
    seen = set()

    def digest(r):
        if r.get("error") and r["error"].startswith(("inconclusive", "time limit")):
            undecided.append(f"{r['name']}: {r['error']}")
        elif r.get("error"):
            errors.append(f"{r['name']}: {r['error']}")
        for c in r.get("candidates", []):
            key = f"{r['name']}/{c['label']}"
            if key in seen or len(violations) >= 3:
                continue
            rep, out = None, "no model"
            for m in c["models"]:
                counter[0] += 1
                path = os.path.join(outdir, f"{pid}-{counter[0]}.json")
                json.dump(
                    jsonable(
                        dict(property=pid, module=modname, tier=tier, task=r["name"], label=c["label"], kind=c["kind"], detail=c["detail"], model=m)
                    ),
                    open(path, "w"),
                    indent=1,
                )
                rc, out = replay(path)
                if rc == 1:
                    rep = (path, out)
                    break
            if rep:
                seen.add(key)
                k = [line for p_, k_, line in kf if p_ == pid and k_ == key]
                if k:
                    known.append((key, k[0]))
                else:
                    violations.append((key, rep[0], rep[1], c))
            elif c["status"] == "unknown":
                undecided.append(key)
            else:
                unreproduced.append((key, c, out))

    import queue as _queue

    stopped = 0
    keep_going = "--all" in argv
    while pending or running:
        while pending and len(running) < nproc:
            i = pending.pop(0)
            left = max(5.0, deadline - time.monotonic())
            p = ctxm.Process(target=_worker, args=(modname, tier, i, left, q))
            p.start()
            running[i] = p
        try:
            i, r = q.get(timeout=0.5)
            results[i] = r
            running.pop(i).join()
            digest(r)
            if violations and not keep_going:
                for j, p in running.items():
                    p.kill()
                stopped = len(pending) + len(running)
                break
        except _queue.Empty:
            for i, p in list(running.items()):
                if not p.is_alive() and q.empty():
                    time.sleep(0.3)
                    if q.empty():
                        results[i] = dict(name=tasks[i].name, error=f"worker died ({p.exitcode})", candidates=[])
                        digest(results[i])
                        running.pop(i)
            if time.monotonic() > deadline + 30:
                for i, p in list(running.items()):
                    p.kill()
                    results[i] = dict(name=tasks[i].name, error="time limit", candidates=[])
                    digest(results[i])
                    running.pop(i)
                for i in pending:
                    results[i] = dict(name=tasks[i].name, error="time limit", candidates=[])
                    digest(results[i])
                pending = []
    nrep = counter[0]
    unreproduced = [u for u in unreproduced if u[0] not in seen]
    wall = time.monotonic() - t_start
    tot = lambda k: sum(r.get(k) or 0 for r in results.values())
    funcs = sorted(set(f for r in results.values() for f in r.get("functions", [])))
    aborted = {}
    for r in results.values():
        for k, v in (r.get("aborted") or {}).items():
            aborted[k] = aborted.get(k, 0) + v
    ev = dict(
        property=pid,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "1")),
        level="other",
        coverage=dict(
            explanation=(
                "Path-exhaustive symbolic execution of nbkode's own functions (interpreted mode, read from "
                "/repo on this run); z3 decides feasibility of every branch and every assertion for all values "
                "of the symbolic inputs within the stated bounds. " + (mod.__doc__ or "").strip()
            ),
            bounds=getattr(mod, "BOUNDS", ""),
            harnesses=len(results),
            harnesses_not_run_after_a_violation=stopped,
            paths=tot("paths"),
            paths_completed=tot("completed"),
            paths_cut=aborted,
            branch_decisions=tot("decisions"),
            obligations=tot("obligations"),
            obligations_identical_after_normalisation=tot("trivial"),
            solver_queries=tot("queries"),
            solver_unsat=tot("unsat"),
            solver_sat=tot("sat"),
            solver_unknown=tot("unknown"),
            exact_nonlinear_queries=tot("exact"),
            solver_time_s=round(tot("solver_time"), 2),
            functions_encoded=funcs,
            counterexamples_replayed=nrep,
            undecided=undecided + [k for k, _, _ in unreproduced] + [e.splitlines()[0] for e in errors],
            labels_reached=sorted(set(l for r in results.values() for l in r.get("labels", []))),
            tasks=[
                dict(
                    name=r["name"],
                    paths=r.get("paths"),
                    queries=r.get("queries"),
                    obligations=r.get("obligations"),
                    wall_s=round(r.get("wall") or 0, 2),
                    error=r.get("error"),
                )
                for _, r in sorted(results.items())
            ],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", [])
        + [
            "real arithmetic: floating-point rounding is outside the claim unless a harness is marked fp64",
            "interpreted mode of the package: numba's translation is trusted",
        ],
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    json.dump(jsonable(ev), open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    print(
        f"{pid} [{tier}] harnesses={len(results)} paths={tot('paths')} obligations={tot('obligations')} "
        f"queries={tot('queries')} solver={tot('solver_time'):.1f}s wall={wall:.1f}s cut={aborted}"
    )
    if "-v" in argv:
        for _, r in sorted(results.items()):
            print(f"  {r['name']}: paths={r.get('paths')} ob={r.get('obligations')} q={r.get('queries')} exact={r.get('exact')} unk={r.get('unknown')} wall={r.get('wall',0):.1f} labels={r.get('labels')}")
    for key, line in known:
        print(f"KNOWN-FINDING: property={pid} {key} {line}")
    for key, path, out, c in violations:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"   {key} {c['detail'][:300]}")
        print("   " + out.strip().replace("\n", "\n   ")[:600])
    if violations:
        return 1
    for u in undecided:
        print(f"UNDECIDED (solver time limit) {u[:200]}")
    for key, c, out in unreproduced:
        print(f"UNREPRODUCED {key} status={c['status']} kind={c['kind']} {c['detail'][:300]}\n   {out.strip()[-400:]}")
    for e in errors:
        print(f"ERROR {e}")
    # Harnesses without a verdict narrow what was explored (and are listed in the evidence); many are no answer,
    # and so is a harness that reached nothing of what it is for.
    lost = set(u.split("/")[0].split(": ")[0] for u in undecided + [k for k, _, _ in unreproduced] + errors)
    soft = all(r.get("soft") for r in results.values() if r["name"] in lost)
    if any("vacuous" in e for e in errors):
        return 2
    return 2 if len(lost) > 0.2 * len(results) and not soft else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
