"""Check driver: python -m sim.runner <property> [--tier quick|thorough]"""

from __future__ import annotations

import sys

from . import boot

boot.ensure_env()

import argparse  # noqa: E402
import contextlib  # noqa: E402
import json  # noqa: E402
import os  # noqa: E402
import select  # noqa: E402
import signal  # noqa: E402
import subprocess  # noqa: E402
import time as _t  # noqa: E402

_mono = _t.monotonic


def workers():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except Exception:
        return 4


def gen_plan(mod, pid, seed, i):
    from . import seams

    rng = seams.sub_rng(pid, seed, i)
    plan = mod.gen(rng, i)
    plan["prop"] = pid
    return json.loads(json.dumps(plan))  # what is run is exactly what is stored


def search(mod, pid, seed, nruns, budget, timeout):
    """Run plans 0..nruns-1 on a pool; yield (i, plan, result)."""
    from . import engine

    nw = workers()
    pipes, pids = {}, []
    deadline = _mono() + budget
    for w in range(nw):
        r, wfd = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            os.close(r)
            try:
                with os.fdopen(wfd, "w") as out:
                    for i in range(w, nruns, nw):
                        if _mono() > deadline:
                            break
                        try:
                            plan = gen_plan(mod, pid, seed, i)
                            res = engine.judge(plan, timeout)
                        except BaseException as e:
                            import traceback

                            plan = None
                            res = {"status": "harness-error", "detail": traceback.format_exc()[-1500:] + repr(e)}
                        keep = plan if res["status"] != "ok" or i < 3 else None
                        out.write(json.dumps([i, keep, res]) + "\n")
                        out.flush()
            finally:
                os._exit(0)
        os.close(wfd)
        pipes[r] = b""
        pids.append(pid_)
    try:
        while pipes:
            ready, _, _ = select.select(list(pipes), [], [], 5.0)
            for r in ready:
                b = os.read(r, 1 << 16)
                if not b:
                    os.close(r)
                    del pipes[r]
                    continue
                lines = (pipes[r] + b).split(b"\n")
                pipes[r] = lines.pop()
                for ln in lines:
                    yield json.loads(ln)
    finally:
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        for r in pipes:
            os.close(r)


def same_failure(a, b):
    return b["status"] == "violation" and b.get("kind") == a.get("kind")


def minimise(mod, plan, res, budget=60.0, timeout=40.0):
    from . import engine

    end = _mono() + budget
    steps = 0
    improved = True
    while improved and _mono() < end:
        improved = False
        for cand in mod.shrink(plan):
            if _mono() > end:
                break
            cand = json.loads(json.dumps(dict(cand, prop=plan["prop"])))
            if cand == plan:
                continue
            steps += 1
            r = engine.judge(cand, timeout)
            if same_failure(res, r):
                plan, res, improved = cand, r, True
                break
    return plan, res, steps


def replay_fresh(path, hashseed="0", timeout=300):
    p = subprocess.run(
        [sys.executable, "-m", "sim.replay", path, "--json"],
        cwd=boot.VERIF, env=boot.python_env(hashseed), capture_output=True, text=True, timeout=timeout,
    )
    for ln in p.stdout.splitlines():
        if ln.startswith("{"):
            return json.loads(ln)
    return {"status": "harness-error", "detail": (p.stdout + p.stderr)[-800:]}


def write_replay(pid, plan, res, seed, i, extra):
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{seed}-{i}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": pid,
                "seed": seed,
                "run": i,
                "violation": {"kind": res.get("kind"), "detail": res.get("detail")},
                "sig": res.get("sig"),
                "plan": plan,
                **extra,
            },
            f,
            indent=1,
        )
    return os.path.relpath(path, boot.VERIF)


def known_findings(pid):
    path = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("known", []) if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--keep-going", action="store_true")
    args = ap.parse_args()
    pid = args.prop.upper()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = _mono()

    boot.load(pid)
    from . import engine

    mod = engine.prop_module(pid)
    nruns = args.runs or mod.RUNS[tier]
    budget = args.budget or {"quick": 220.0, "thorough": 2400.0}[tier]
    timeout = getattr(mod, "TIMEOUT", 40.0)

    done = 0
    faults, counts, kinds = {}, {}, {}
    sigs, keys, nontrivial = set(), set(), set()
    ticks = calls = 0
    samples, bad, errors = [], [], []
    known = known_findings(pid)
    hits = {}
    for i, plan, res in search(mod, pid, seed, nruns, budget, timeout):
        if res["status"] == "harness-error":
            errors.append((i, res))
            if len(errors) > 3:
                break
            continue
        done += 1
        for k, v in res["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in res["counts"].items():
            counts[k] = counts.get(k, 0) + v
        ticks += res["ticks"]
        calls += res["calls"]
        sigs.add(res["sig"])
        k = tuple(res["key"])
        keys.add(k)
        if res["nontrivial"]:
            nontrivial.add((k, res["sig"]))
        if plan is not None and len(samples) < 3 and res["status"] == "ok":
            samples.append({"run": i, "plan": plan, "key": res["key"], "sig": res["sig"], "faults": res["faults"]})
        if res["status"] == "violation":
            kf = next((f for f in known if mod.matches_finding(f, plan, res)), None) if known else None
            if kf is not None:
                hits[kf["id"]] = kf
                continue
            kinds[res["kind"]] = kinds.get(res["kind"], 0) + 1
            bad.append((i, plan, res))
            if args.keep_going:
                print("run", i, res["kind"], res["detail"][:160], json.dumps(plan)[:400], flush=True)
            else:
                break
    search_s = _mono() - t0
    for kf in known:  # the recorded input of each finding, if no run met the finding
        if kf["id"] not in hits and kf.get("plan"):
            res = engine.judge(kf["plan"], timeout)
            if res["status"] == "violation":
                if mod.matches_finding(kf, kf["plan"], res):
                    hits[kf["id"]] = kf
                elif not bad:
                    bad.append((-1, kf["plan"], res))

    replay_path, mini = None, None
    selfcheck = []
    if bad and not args.keep_going:
        i, plan, res = bad[0]
        plan2, res2, steps = minimise(mod, plan, res, budget=45.0, timeout=timeout)
        extra = {"original_plan": plan, "minimiser_steps": steps, "search_seconds": round(search_s, 1)}
        replay_path = write_replay(pid, plan2, res2, seed, i, extra)
        rr = replay_fresh(replay_path)
        if not same_failure(res, rr):
            # what the minimiser kept depends on more than the plan: fall back to the run as found
            replay_path = write_replay(pid, plan, res, seed, i, dict(extra, note="not minimised"))
            rr = replay_fresh(replay_path)
        mini = {"steps": steps, "reproduced_in_fresh_interpreter": same_failure(res, rr), "sig_equal": rr.get("sig") == res2.get("sig")}
    elif not bad:
        # one seed, one execution: some runs again, in a fresh interpreter with another hash seed
        for i in getattr(mod, "SELFCHECK", (0, 1)):
            plan = gen_plan(mod, pid, seed, i)
            first = engine.judge(plan, timeout)
            p = write_replay(pid, plan, first, seed, f"selfcheck{i}-{os.getpid()}", {})
            again = replay_fresh(p, hashseed=str(17 + i))
            selfcheck.append({"run": i, "same": again.get("sig") == first.get("sig") and again.get("status") == first.get("status")})
            with contextlib.suppress(OSError):
                os.unlink(os.path.join(boot.VERIF, p))

    wall = _mono() - t0
    comp = getattr(mod, "COMPONENTS", {})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples or [{"note": "no passing run before the violation"}],
            "distinct_keys": len(keys),
            "distinct_executions": len(sigs),
            "distinct_executions_measure": "digest of the ordered event log of every seam (draws, LAPACK re-choices, peer calls, schedule) and of the rounded results",
            "runs_per_hour": round(done / max(search_s, 1e-9) * 3600),
            "seeds_per_hour": round(done / max(search_s, 1e-9) * 3600),
            "simulated_time": {"logical_ticks": ticks, "meaning": "events at the seams plus scheduled source-line steps; the library reads no clock"},
            "spgrep_calls": calls,
            "faults_injected": dict(sorted(faults.items())),
            "seam_calls": dict(sorted(counts.items())),
            "components": {
                "real": comp.get("real", ["all spgrep modules from /repo working tree", "numpy", "LAPACK"]),
                "stub": comp.get("stub", []),
            },
            "replay_selfcheck": selfcheck,
            "violation_kinds": kinds,
            "minimised": mini,
            "harness_errors": len(errors),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for kf in hits.values():
        print(f"KNOWN-FINDING: property={pid} {kf['what']}")
    print(f"{pid} tier={tier} seed={seed} runs={done} distinct={len(nontrivial)} keys={len(keys)} faults={sum(faults.values())} wall={wall:.1f}s selfcheck={[s['same'] for s in selfcheck]}")
    if errors:
        for i, res in errors[:3]:
            print(f"harness error in run {i}: {res['detail']}", file=sys.stderr)
    if bad:
        i, plan, res = bad[0]
        print(f"violation in run {i}: {res['kind']}: {res['detail']}")
        if replay_path:
            print(f"VIOLATION property={pid} replay={replay_path}")
        return 1
    if errors or done == 0:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
