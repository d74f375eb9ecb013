"""Driver: symbolic exploration of a property's harnesses over worker processes, confirmation of counterexamples
and validation of path witnesses on the real code, evidence."""
import collections
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

REALPY = os.environ.get("VERIF_REALPY", "/opt/pypyvenv/bin/python")
NW = int(os.environ.get("VERIF_WORKERS", str(max(2, min(8, os.cpu_count() or 2)))))
KNOWN = os.path.join(HERE, "known-findings.txt")


def load_harnesses(prop):
    m = importlib.import_module("checks." + prop)
    return m, m.HARNESSES


# --------------------------------------------------------------------------------------------- worker
def explore(spec, prefixes, budget, state):
    """explore paths below the given prefixes for `budget` seconds; returns (results, remaining prefixes)"""
    from engine import sym as S, loader, symh

    e = state.get("engine")
    if e is None:
        import random as _r

        e = state["engine"] = S.Engine()
        S.set_engine(e)
    st0 = e.stats.as_dict()
    out = {"checked": collections.Counter(), "ends": collections.Counter(), "ces": [], "wit": [], "deg": [], "skip": None, "msgs": collections.Counter(), "paths": 0, "okpaths": 0, "branches": 0}
    todo = list(prefixes)
    t0 = time.time()
    maxce = state.setdefault(("ce", spec["name"]), {})
    nw = state.setdefault(("w", spec["name"]), [0, 0])
    nd = state.setdefault(("d", spec["name"]), [0])
    e.query_ms = spec.get("query_ms", 8000)
    while todo and time.time() - t0 < budget:
        p = todo.pop()
        e.max_decisions = spec.get("max_decisions", 4000)
        e.reset_path(p)
        out["paths"] += 1
        h = None
        end = "ok"
        try:
            w = loader.World(stateful_rng=spec.get("stateful_rng", False))
            h = symh.SymH(w)
            h.max_ce = maxce
            spec["fn"](h)
            out["okpaths"] += 1
            nw[0] += 1
            if nw[1] < spec.get("witness", 6) and (nw[0] & (nw[0] - 1) == 0 or nw[0] % 97 == 0):
                wj = symh.witness(h)
                if wj is not None:
                    nw[1] += 1
                    out["wit"].append(wj)
        except symh.Skip as x:
            end = "skip"
            out["skip"] = str(x)
        except S.Infeasible:
            end = "infeasible"
        except (S.Unsupported, S.PathLimit, S.Inconclusive) as x:
            end = type(x).__name__
            out["msgs"]["%s: %s" % (end, str(x)[:200])] += 1
            if nd[0] < spec.get("degraded", 6) and h is not None:
                try:
                    wj = symh.witness(h, False)
                except BaseException:
                    wj = None
                if wj is not None:
                    nd[0] += 1
                    out["deg"].append(wj)
        except RecursionError as x:
            end = "exc"
            _crash(e, h, out, x, maxce, symh)
        except S.EngineSignal as x:
            end = type(x).__name__
            out["msgs"]["%s: %s" % (end, str(x)[:200])] += 1
        except (Exception, SystemExit) as x:
            end = "exc"
            _crash(e, h, out, x, maxce, symh)
        out["ends"][end] += 1
        if h is not None:
            h._cleanup()
            out["checked"].update(h.checked)
            out["ces"].extend(h.ces)
        out["branches"] += len(e.trace)
        todo.extend(e.pending)
        e.pending = []
    st1 = e.stats.as_dict()
    out["stats"] = {k: st1[k] - st0[k] for k in st1}
    return out, todo


def _crash(e, h, out, x, maxce, symh):
    tb = traceback.extract_tb(x.__traceback__)
    where = [f for f in tb if "/engine/" not in f.filename]
    site = "%s:%s" % (os.path.basename(where[-1].filename), where[-1].name) if where else "?"
    key = ("crash %s at %s" % (type(x).__name__, site))
    out["msgs"]["%s: %s" % (key, str(x)[:120])] += 1
    if maxce.get(key, 0) < 3 and h is not None:
        maxce[key] = maxce.get(key, 0) + 1
        try:
            wj = symh.witness(h)
        except BaseException:
            wj = None
        if wj is not None:
            wj["label"] = "no unexpected exception"
            wj["exc"] = type(x).__name__
            wj["known"] = None
            wj["tb"] = "".join(traceback.format_list(tb)[-6:])
            h.ces.append(wj)


def worker(conn, prop):
    sys.setrecursionlimit(3000)
    try:
        _, hs = load_harnesses(prop)
        state = {}
        while True:
            msg = conn.recv()
            if msg is None:
                return
            k, prefixes, budget = msg
            try:
                out, rest = explore(hs[k], prefixes, budget, state)
            except BaseException:
                out, rest = {"error": traceback.format_exc()}, []
            conn.send((k, out, rest))
    except (EOFError, KeyboardInterrupt, BrokenPipeError):
        return


# --------------------------------------------------------------------------------------------- real runs
def real_batch(jobs, limit=300):
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix="vreplay.")
    try:
        a, b = os.path.join(d, "jobs.json"), os.path.join(d, "out.json")
        with open(a, "w") as f:
            json.dump(jobs, f)
        env = dict(os.environ, VERIF_REPLAY_S=str(limit), PYTHONDONTWRITEBYTECODE="1", TMPDIR=d, MPLBACKEND="agg")
        env.pop("PYTHONPATH", None)
        try:
            r = subprocess.run([REALPY, "-m", "engine.replay", a, b], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit + 120)
            tail = r.stdout.decode("utf-8", "replace")[-2000:]
        except subprocess.TimeoutExpired:
            tail = "timeout"
        try:
            with open(b) as f:
                return json.load(f)
        except (IOError, ValueError):
            return [{"status": "lost", "failures": [], "obs": [], "detail": tail}] * len(jobs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reproduced(job, r):
    """does the real run show the recorded violation (or another one of the same property)?"""
    if r["status"] in ("assume", "skipped", "lost", "notrun"):
        return None
    for f in r["failures"]:
        if f["label"] == job.get("label") and (f.get("known") or None) == (job.get("known") or None):
            return f
    if r["failures"]:
        return r["failures"][0]
    if r["status"] == "exc":
        return {"label": "no unexpected exception", "known": None, "exc": r.get("exc")}
    return None


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: ") and ("property=%s " % prop) in line:
                parts = line.split(None, 3)
                kid = [p for p in parts if p.startswith("key=")]
                if kid:
                    out[kid[0][4:]] = parts[3] if len(parts) > 3 else ""
    return out


def main(argv):
    prop = argv[0]
    tier = "thorough" if "thorough" in argv[1:] else os.environ.get("VERIF_TIER", "quick") if "quick" not in argv[1:] else "quick"
    only = [a[7:] for a in argv if a.startswith("--only=")]
    verbose = "-v" in argv
    os.environ["VERIF_TIER_NOW"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    m, hs = load_harnesses(prop)
    wall = float(os.environ.get("VERIF_WALL", str(getattr(m, "WALL", {}).get(tier, 420 if tier == "quick" else 3600))))
    deadline = t0 + wall
    conns, procs = [], []
    ctx = mp.get_context("fork")
    for _ in range(NW):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, prop), daemon=True)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    queue = [collections.deque() for _ in hs]
    per = [{"paths": 0, "ok": 0, "ends": collections.Counter(), "checked": collections.Counter(), "msgs": collections.Counter(), "stats": collections.Counter(), "wit": [], "deg": [], "ces": [], "skip": None, "left": 0, "branches": 0} for _ in hs]
    for k, x in enumerate(hs):
        if only and x["name"] not in only:
            continue
        queue[k].append([])
    idle = list(range(NW))
    busy = {}
    ce_jobs, errors = [], []
    confirmed, spurious, known_seen = None, [], {}
    listed = known_findings(prop)
    nhandled = 0

    def handle(ces):
        """replay counterexamples; returns a confirmed violation"""
        jobs = [dict(c, property=prop) for c in ces]
        res = real_batch(jobs, 120)
        for j, r in zip(jobs, res):
            f = reproduced(j, r)
            if f is None:
                spurious.append({"harness": j["harness"], "label": j["label"], "inputs": j["inputs"], "status": r["status"], "detail": r.get("detail", "")[-300:]})
                continue
            kid = f.get("known")
            if kid is not None and kid in listed:
                known_seen[kid] = j
                continue
            j["failed"] = f
            j["real"] = r
            return j
        return None

    rr = 0
    while True:
        # hand out work: round robin over the harnesses
        while idle:
            got = None
            for d in range(len(hs)):
                k = (rr + d) % len(hs)
                if queue[k]:
                    got = k
                    rr = k + 1
                    break
            if got is None or time.time() > deadline:
                break
            wi = idle.pop()
            q = queue[got]
            n = max(1, min(len(q) // (2 * NW), 64))
            # oldest prefixes first: they have the largest subtrees
            batch = [q.popleft() for _ in range(min(n, len(q)))]
            waiting = sum(len(x) for x in queue)
            budget = 0.3 if waiting < 2 * NW else 3.0
            conns[wi].send((got, batch, budget))
            busy[wi] = got
        if not busy:
            break
        ready = mpc.wait([conns[w] for w in busy], timeout=5)
        if not ready:
            for w in list(busy):
                if not procs[w].is_alive():
                    errors.append("worker %d died on harness %s" % (w, hs[busy[w]]["name"]))
                    per[busy[w]]["left"] += 1
                    del busy[w]
            if time.time() > deadline + 60:
                break
            continue
        for c in ready:
            w = conns.index(c)
            try:
                k, out, rest = c.recv()
            except (EOFError, OSError):
                errors.append("worker %d died on harness %s" % (w, hs[busy[w]]["name"]))
                per[busy[w]]["left"] += 1
                del busy[w]
                continue
            del busy[w]
            idle.append(w)
            if "error" in out:
                errors.append(out["error"])
                continue
            P = per[k]
            P["paths"] += out["paths"]
            P["ok"] += out["okpaths"]
            P["branches"] += out["branches"]
            P["ends"].update(out["ends"])
            P["checked"].update(out["checked"])
            P["msgs"].update(out["msgs"])
            P["stats"].update(out["stats"])
            nm = hs[k]["name"]
            for x in out["wit"]:
                x["harness"] = nm
            for x in out["deg"]:
                x["harness"] = nm
                x["extend"] = seed
            P["wit"].extend(out["wit"])
            P["deg"].extend(out["deg"])
            P["skip"] = out["skip"] or P["skip"]
            for x in out["ces"]:
                x["harness"] = nm
                ce_jobs.append(x)
            cap = hs[k].get("max_paths", {}).get(tier)
            if cap and P["paths"] >= cap:
                P["left"] += len(rest) + len(queue[k])
                queue[k].clear()
            else:
                queue[k].extend(rest)
        if ce_jobs and nhandled < 12 and confirmed is None:
            nhandled += 1
            batch, ce_jobs = ce_jobs[:12], ce_jobs[12:]
            confirmed = handle(batch)
            if confirmed is not None:
                break
    for k, q in enumerate(queue):
        per[k]["left"] += len(q)
    for w in range(NW):
        try:
            if w in busy:
                procs[w].terminate()
            else:
                conns[w].send(None)
        except (OSError, BrokenPipeError):
            pass
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.kill()
    if confirmed is None and ce_jobs:
        confirmed = handle(ce_jobs[:24])
    t_explore = time.time() - t0

    # ---- witnesses and undecided paths on the real code
    validated, diverged, wfail = 0, [], None
    und_runs = 0
    if confirmed is None:
        jobs = []
        for k, x in enumerate(hs):
            lim = x.get("witness_jobs", 12 if tier == "quick" else 40)
            jobs += [dict(j, property=prop, kind="wit") for j in per[k]["wit"][:lim]]
            jobs += [dict(j, property=prop, kind="deg") for j in per[k]["deg"][:lim]]
        res = real_batch(jobs, 150 if tier == "quick" else 900)
        for j, r in zip(jobs, res):
            bad = reproduced(j, r)
            if bad is not None and bad.get("known") is not None and bad["known"] in listed:
                known_seen.setdefault(bad["known"], j)
                bad = None
            if j["kind"] == "deg":
                und_runs += 1
                if bad is not None and wfail is None:
                    j["failed"], j["real"] = bad, r
                    wfail = j
                continue
            if bad is not None:
                if wfail is None:
                    j["failed"], j["real"] = bad, r
                    wfail = j
                continue
            if r["status"] == "ok" and len(r["obs"]) == len(j["obs"]) and all(n1 == n2 and conc_same(a, b) for (n1, a), (n2, b) in zip(j["obs"], r["obs"])):
                validated += 1
            else:
                diffs = [(n1, a, b) for (n1, a), (n2, b) in zip(j["obs"], r["obs"]) if not (n1 == n2 and conc_same(a, b))][:3]
                diverged.append({"harness": j["harness"], "inputs": j["inputs"], "status": r["status"], "detail": r.get("detail", "")[-300:], "diff": diffs})
        confirmed = wfail
    wall_s = time.time() - t0

    # ---- report
    tot = collections.Counter()
    checked = collections.Counter()
    for P in per:
        tot.update(P["stats"])
        for l, n in P["checked"].items():
            checked[l] += n
    paths = sum(P["paths"] for P in per)
    okp = sum(P["ok"] for P in per)
    left = sum(P["left"] for P in per)
    und = collections.Counter()
    for k, P in enumerate(per):
        for s, n in P["msgs"].items():
            und["%s: %s" % (hs[k]["name"], s)] += n
    samples = []
    for k, P in enumerate(per):
        for j in P["wit"][:2]:
            samples.append({"harness": hs[k]["name"], "inputs": j["inputs"], "draws": ["%s=%s" % (a, b) for a, b in j["draws"][:12]], "observed": j["obs"][:6]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": paths,
            "transitions": sum(P["branches"] for P in per),
            "traces_validated_against_impl": validated,
            "samples": samples[:8] or [{"note": "no completed path"}],
            "explanation": "states = execution paths of the real source explored symbolically (each stands for all inputs, draws and schedules that follow it); transitions = branch decisions settled on them; traces_validated_against_impl = path witnesses re-run on the real code with identical observations",
            "functions_encoded": getattr(m, "FUNCTIONS", []),
            "bounds": getattr(m, "BOUNDS", ""),
            "outside_bounds": getattr(m, "OUTSIDE", ""),
            "completed_paths": okp,
            "assertions_by_label": dict(checked),
            "queries": tot.get("queries", 0),
            "queries_sat": tot.get("sat", 0),
            "queries_unsat": tot.get("unsat", 0),
            "queries_unknown": tot.get("unknown", 0),
            "solver_seconds": round(tot.get("solver_s", 0.0), 2),
            "unexplored_prefixes": left,
            "exhausted_within_bounds": left == 0 and not errors and not any(P["ends"].get(x) for P in per for x in ("Unsupported", "PathLimit", "Inconclusive")),
            "path_endings": {hs[k]["name"]: dict(P["ends"]) for k, P in enumerate(per)},
            "undecided": dict(und.most_common(12)),
            "undecided_paths_run_concretely": und_runs,
            "witness_divergences": diverged[:5],
            "counterexamples_not_reproduced": spurious[:5],
            "skipped_harnesses": {hs[k]["name"]: P["skip"] for k, P in enumerate(per) if P["skip"]},
            "engine_errors": errors[:3],
        },
        "wall_s": round(wall_s, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    code = 0
    if confirmed is not None:
        rp = os.path.join(HERE, "evidence", "%s.replay.json" % prop)
        with open(rp, "w") as f:
            json.dump(confirmed, f, indent=1, default=str)
        ev["coverage"]["violation"] = {"label": confirmed["failed"]["label"], "harness": confirmed["harness"], "inputs": confirmed["inputs"]}
        code = 1
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d paths (%d completed, %d left), %d assertions, %d queries, %.1f s solver, %d witnesses validated, %d diverged, %d spurious, explore %.1f s, wall %.1f s" % (prop, tier, paths, okp, left, sum(checked.values()), tot.get("queries", 0), tot.get("solver_s", 0), validated, len(diverged), len(spurious), t_explore, wall_s))
    for k, P in enumerate(per):
        if verbose or P["ends"].get("exc") or P["msgs"]:
            print("  %-28s paths %6d left %5d ends %s checked %d" % (hs[k]["name"], P["paths"], P["left"], dict(P["ends"]), sum(P["checked"].values())))
    for s, n in und.most_common(8):
        print("  note: %d x %s" % (n, s))
    for d in diverged[:4]:
        print("  divergence: %s" % json.dumps(d, default=str)[:700])
    for d in spurious[:4]:
        print("  not reproduced: %s" % json.dumps(d, default=str)[:700])
    for x in errors[:3]:
        print("  engine error: %s" % x)
    for kid in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, listed[kid]))
    if confirmed is not None:
        print("  failed: %s in harness %s" % (confirmed["failed"]["label"], confirmed["harness"]))
        print("  inputs: %s" % json.dumps(confirmed["inputs"]))
        print("  draws: %s" % json.dumps(confirmed["draws"][:40]))
        if confirmed["real"].get("detail"):
            print("  real run: %s" % confirmed["real"]["detail"][-700:])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors or (sum(checked.values()) == 0) or (okp == 0):
        print("no answer: nothing was decided" if not errors else "no answer: engine failure")
        return 2
    return code


def conc_same(a, b):
    from engine import conc

    return conc.same(a, b)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
