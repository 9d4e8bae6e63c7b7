#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property on /repo's current tree
   check.py --replay FILE                      re-run one recorded violation
   check.py --determinism N                    run N seeds of every property twice, in different processes, and compare event logs
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build  # noqa: E402
import engine  # noqa: E402
import props  # noqa: E402
import minimise  # noqa: E402

TECH = "deterministic simulation with fault injection (seeded search over schedules, crash points and faults)"


def seed_of(base, prop, i):
    return int.from_bytes(hashlib.blake2b(("%d/%s/%d" % (base, prop, i)).encode(), digest_size=6).digest(), "big")


def one(eng, prop, seed):
    plan, pol = props.make(prop, seed)
    run = props.run_class(plan)(eng, plan, engine.Policy(seed ^ 0x5bd1e995, pol))
    v = None
    try:
        run.execute()
    except engine.Violation as e:
        v = e
    return run, v


def replay(eng, plan, decisions):
    run = props.run_class(plan)(eng, plan, engine.Replay(decisions))
    v = None
    try:
        run.execute()
    except engine.Violation as e:
        v = e
    return run, v


def worker(prop, base, idxs, paths, q, stop, wid, deadline):
    eng = None
    try:
        eng = engine.Engine(paths, wid)
        eng.prewarm(props.zygotes(prop))
        t0 = time.time()
        for i in idxs:
            if stop.is_set() or time.time() > deadline:
                break
            s = seed_of(base, prop, i)
            for attempt in range(3):
                try:
                    run, v = one(eng, prop, s)
                    break
                except engine.HarnessError:
                    if attempt == 2:
                        raise
                    eng.close()
                    eng = engine.Engine(paths, wid)
            q.put(("run", i, s, run.h.hexdigest(), run.sig.hexdigest(), run.stats, run.probes, run.mono - 1000000000,
                   None if v is None else (v.cls, v.text)))
        q.put(("end", wid, time.time() - t0))
    except BaseException:
        q.put(("crash", wid, traceback.format_exc()))
    finally:
        if eng:
            eng.close()


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def match_known(prop, text):
    for k in known():
        if k.get("property") == prop and k.get("status") == "open" and re.search(k["match"], text):
            return k
    return None


def add(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            add(a.setdefault(k, {}), v)
        else:
            a[k] = a.get(k, 0) + v


def confirm(prop, seed, h, cls, paths, budget):
    """Same seed again, minimise, write the replay file, and reproduce it in a fresh process."""
    eng = engine.Engine(paths, 77)
    try:
        run, v = one(eng, prop, seed)
        if v is None or v.cls != cls:
            return None, "seed %d did not reproduce its violation" % seed
        # The event log is reproduced too, unless the code under test lets something into it that
        # the simulator does not control (memory addresses in a file name, say); then the same
        # violation has to come back every time.
        exact = run.h.hexdigest() == h
        plan, dec = run.plan, run.decisions
        plan = props.materialise(plan, run)
        r2, v2 = replay(eng, plan, dec)
        if v2 is None or v2.cls != v.cls:
            return None, "recorded decisions of seed %d did not reproduce" % seed

        def test(p, d):
            try:
                r, x = replay(eng, p, d)
            except engine.HarnessError:
                return False
            return x is not None and x.cls == v.cls
        plan, dec = minimise.minimise(plan, dec, test, budget)
        r3, v3 = replay(eng, plan, dec)
        if v3 is None:
            return None, "minimised case of seed %d did not reproduce" % seed
        exact = exact and replay(eng, plan, dec)[0].h.hexdigest() == r3.h.hexdigest()
        if not exact and not all(test(plan, dec) for _ in range(3)):
            return None, "seed %d did not reproduce its event log" % seed
        rep = {"property": prop, "seed": seed, "exact": exact, "violation": v3.cls, "text": v3.text, "hash": r3.h.hexdigest(), "plan": plan, "decisions": dec, "log": r3.log[-200:]}
    finally:
        eng.close()
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, seed))
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
    if r.returncode != 1:
        return None, "replay file %s did not reproduce in a fresh process:\n%s" % (path, r.stdout[-2000:])
    return rep, path


def do_replay(path):
    rep = json.load(open(path))
    paths = build.build_all()
    eng = engine.Engine(paths, 55)
    try:
        run, v = replay(eng, rep["plan"], rep["decisions"])
    finally:
        eng.close()
    for line in run.log:
        print("   ", line)
    if v is None:
        print("REPLAY no violation (recorded: %s)" % rep["violation"])
        return 0
    print("REPLAY %s: %s" % (v.cls, v.text))
    print("event log hash %s, recorded %s" % (run.h.hexdigest(), rep["hash"]))
    if v.cls != rep["violation"] or rep.get("exact", True) and run.h.hexdigest() != rep["hash"]:
        return 4
    return 1


def check(prop, tier, base, nworkers):
    t0 = time.time()
    paths = build.build_all()
    tb = time.time() - t0
    n, cap = props.budget(prop, tier)
    deadline = time.time() + cap
    ctx = mp.get_context("fork")
    q, stop = ctx.Queue(), ctx.Event()
    ps = [ctx.Process(target=worker, args=(prop, base, range(w, n, nworkers), paths, q, stop, w, deadline)) for w in range(nworkers)]
    for p in ps:
        p.start()
    ended, runs, viol, stats, probes, sigs, simt = 0, 0, [], {}, {}, set(), 0
    samples, crash, nontrivial, first_hit = [], None, set(), None
    kf = {}
    t1 = time.time()
    while ended < nworkers:
        try:
            m = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps):
                crash = crash or "workers died"
                break
            continue
        if m[0] == "end":
            ended += 1
        elif m[0] == "crash":
            ended += 1
            crash = m[2]
        else:
            _, i, s, h, sig, st, pr, mono, v = m
            runs += 1
            simt += mono
            add(stats, st)
            add(probes, pr)
            sigs.add(sig)
            if st["events"] > 3 or st["ops"] > 1:
                nontrivial.add(sig)
            if len(samples) < 5:
                samples.append({"seed": s, "hash": h, "ops": st["ops"], "events": st["events"], "switches": st["switches"],
                                "faults": {k: st[k] for k in ("crash", "power", "kill", "clock") if st.get(k)}, "errors": st["err"]})
            if v:
                k = match_known(prop, v[1])
                if k:
                    kf[k["id"]] = k
                else:
                    viol.append((i, s, h, v))
                    if len(viol) >= 3 or True:
                        if first_hit is None:
                            first_hit = time.time()
                            stop.set()
    for p in ps:
        p.join(20)
        if p.is_alive():
            p.kill()
    wall = time.time() - t1
    shutil_clean()
    rc, out, rep = 0, [], None
    for k in kf.values():
        out.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    reasons = []
    for i, s, h, v in sorted(viol)[:4]:
        rep, why = confirm(prop, s, h, v[0], paths, props.min_budget(tier))
        if rep:
            out.append("%s: %s" % (rep["violation"], rep["text"]))
            out.append("VIOLATION property=%s replay=%s" % (prop, why))
            rc = 1
            break
        reasons.append(why)
    if viol and rc == 0:
        rc = 3
        out.append("unconfirmed violation: " + "; ".join(reasons) + " | " + str(viol[0][3]))
    if crash and rc == 0:
        rc = 3
        out.append("worker failed:\n" + crash)
    faults = {k: stats.get(k, 0) for k in ("crash", "power", "kill", "split", "short", "clock")}
    faults["error returns"] = stats.get("err", {})
    faults.update(stats.get("faults", {}))
    ev = {"property": prop, "tier": tier, "seed": base, "level": "exploration",
          "coverage": {"evaluations": runs, "distinct_nontrivial": len(nontrivial),
                       "rule": "distinct = different sequence of (node, file-system/compiler/clock/thread step) in a simulated run; nontrivial = the run made more than one call or more than three gated steps",
                       "samples": samples, "library_calls": stats.get("ops", 0), "gated_steps": stats.get("events", 0),
                       "distinct_interleavings": len(sigs), "context_switches": stats.get("switches", 0), "faults_injected": faults,
                       "step_kinds": stats.get("op_kinds", {}), "calls_that_raised_under_a_fault": stats.get("ops_exc_faulted", 0), "probes": probes,
                       "runs_per_hour": round(runs/wall*3600) if wall > 0 else 0, "seeds_per_hour": round(runs/wall*3600) if wall > 0 else 0,
                       "simulated_seconds": round(simt/1e9, 3), "planned_runs": n},
          "wall_s": round(time.time() - t0, 1), "violations": 1 if rc == 1 else 0,
          "assumptions": props.ASSUMPTIONS + props.COMPONENTS}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: seed %d, %d runs (%d distinct interleavings) of %d planned, %d calls, %d steps, build %.0fs, runs %.0fs"
          % (prop, tier, base, runs, len(sigs), n, stats.get("ops", 0), stats.get("events", 0), tb, wall))
    for l in out:
        print(l)
    if rc == 0:
        print("held on everything explored")
    return rc


def shutil_clean():
    for d in os.listdir("/dev/shm"):
        m = re.match(r"hsim-(\d+)-", d)
        if m and not os.path.exists("/proc/" + m.group(1)):
            shutil.rmtree("/dev/shm/" + d, ignore_errors=True)


def determinism(n, base):
    paths = build.build_all()
    bad = tot = 0
    for prop in sorted(props.MAKERS):
        hs = []
        for nw, order in ((8, 1), (5, -1)):
            ctx = mp.get_context("fork")
            q, stop = ctx.Queue(), ctx.Event()
            ps = [ctx.Process(target=worker, args=(prop, base, list(range(w, n, nw))[::order], paths, q, stop, w, time.time() + 3600)) for w in range(nw)]
            for p in ps:
                p.start()
            e, h = 0, {}
            while e < nw:
                m = q.get()
                if m[0] == "end":
                    e += 1
                elif m[0] == "crash":
                    print(m[2])
                    e += 1
                else:
                    h[m[1]] = (m[3], m[8])
            for p in ps:
                p.join()
            hs.append(h)
        d = [i for i in range(n) if hs[0].get(i) != hs[1].get(i)]
        tot += n
        bad += len(d)
        print(prop, "%d seeds, %d differ" % (n, len(d)), d[:10], [seed_of(base, prop, i) for i in d[:3]], [hs[0].get(i) for i in d[:2]], [hs[1].get(i) for i in d[:2]],
              "violations: %d" % sum(1 for x in hs[0].values() if x[1]), flush=True)
    print("determinism: %d seeds, %d differ" % (tot, bad))
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=max(2, min(8, os.cpu_count() or 2)))
    ap.add_argument("--one", type=int)
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    if a.determinism:
        return determinism(a.determinism, a.seed)
    if a.one is not None:
        eng = engine.Engine(build.build_all(), 3)
        try:
            run, v = one(eng, a.prop, a.one)
        finally:
            eng.close()
        print("\n".join(run.log))
        print(json.dumps(run.plan)[:3000])
        print(v and (v.cls, v.text), run.stats)
        return 0
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    return check(a.prop, a.tier, a.seed, a.workers)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
