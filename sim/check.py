"""Check one property: seeded search over many simulated runs, minimisation, replay file, evidence.

  check.py PROP [--tier quick|thorough] [--runs N] [--seed N]
  check.py --replay FILE
"""
import argparse
import collections
import copy
import importlib
import json
import os
import random
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
LANES = 8
PY = sys.executable


def hashseed(seed, lane):
    return random.Random("hashseed|%s|%s" % (seed, lane)).randrange(1, 4294967295)


def environment(hs, cache):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONHASHSEED=str(hs), PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1", VERIF_PYC=cache, LANG="C.UTF-8", LC_ALL="C.UTF-8",
             PYTHONWARNINGS="ignore", VERIF_REPO=os.environ.get("VERIF_REPO", "/repo"))
    return e


def spawn(prop, hs, base, extra, serve=False):
    cmd = [PY, "-m", "sim.lane", "--prop", prop, "--base", base] + extra + (["--serve"] if serve else [])
    return subprocess.Popen(cmd, cwd=VERIF, env=environment(hs, os.path.join(base, "pyc")), text=True,
                            stdin=subprocess.PIPE if serve else subprocess.DEVNULL, stdout=subprocess.PIPE,
                            encoding="utf-8")


class Server(object):
    """A fresh process (same hash seed) that executes plans, each in a forked child."""

    def __init__(self, prop, hs, base):
        self.p = spawn(prop, hs, base, [], serve=True)

    def ask(self, req):
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("replay process ended")
        return json.loads(line)

    def run(self, plan, hang=40):
        return self.ask({"plan": plan, "hang": hang})

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()


# -- minimisation -----------------------------------------------------------------------------------

def _without(lst, i, n):
    return lst[:i] + lst[i + n:]


def candidates(mod, plan):
    """Smaller plans, roughly from the most to the least aggressive."""
    cl = plan.get("clients") or []
    if len(cl) > 1:
        for i in range(len(cl)):
            p = copy.deepcopy(plan)
            p["clients"] = _without(cl, i, 1)
            p["preempt"] = {}
            yield p
    if plan.get("preempt"):
        p = copy.deepcopy(plan)
        p["preempt"] = {}
        yield p
        for k, pts in plan["preempt"].items():
            for i in range(len(pts)):
                p = copy.deepcopy(plan)
                p["preempt"][k] = _without(pts, i, 1)
                yield p
    if plan.get("delays"):
        p = copy.deepcopy(plan)
        p["delays"] = []
        yield p
        p = copy.deepcopy(plan)
        p["delays"] = plan["delays"][:len(plan["delays"]) // 2]
        yield p
    for key in ("setup", "clients"):
        groups = plan.get(key) or []
        flat = key == "setup"
        for ci, ops in enumerate([groups] if flat else groups):
            n = len(ops)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    if size == n and n == 1 and not flat:
                        continue
                    p = copy.deepcopy(plan)
                    new = _without(ops, i, size)
                    if flat:
                        p[key] = copy.deepcopy(new)
                    else:
                        p[key][ci] = copy.deepcopy(new)
                    yield p
                size //= 2
    for ci, ops in enumerate(cl):
        for oi, op in enumerate(ops):
            for k in list((op.get("faults") or {})):
                p = copy.deepcopy(plan)
                del p["clients"][ci][oi]["faults"][k]
                yield p
    if hasattr(mod, "reduce"):
        for p in mod.reduce(copy.deepcopy(plan)):
            yield p


def same(res, ref):
    return res.get("status") == "violation" and bool(res.get("hang")) == bool(ref.get("hang")) \
        and res.get("sig") == ref.get("sig")


def minimise(mod, srv, plan, ref, budget=60.0):
    t_end = time.monotonic() + budget
    tried = 0
    if ref.get("hang"):
        return plan, ref, 0
    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        for cand in candidates(mod, plan):
            if time.monotonic() > t_end:
                break
            if cand == plan:
                continue
            tried += 1
            try:
                r = srv.run(cand, hang=20)
            except RuntimeError:
                return plan, ref, tried
            if same(r, ref):
                plan, ref, improved = cand, r, True
                break
    return plan, ref, tried


# -- known findings -----------------------------------------------------------------------------------

def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    data = json.load(open(path, encoding="utf-8"))
    return {f["signature"]: f for f in data.get("known", []) if f["property"] == prop}


# -- main -----------------------------------------------------------------------------------------------

def replay(path):
    rec = json.load(open(path, encoding="utf-8"))
    base = tempfile.mkdtemp(prefix="verif-sim-")
    try:
        srv = Server(rec["property"], rec["hashseed"], base)
        plan = dict(rec["plan"], want_trace=True)
        r = srv.run(plan, hang=120)
        srv.close()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for ev in r.get("events", []):
        print("  t=%-10s client=%-3s %-8s %s" % (ev[0], ev[1], ev[2], json.dumps(ev[3], ensure_ascii=False)[:300]))
    print("status: %s" % r["status"])
    if r["status"] == "violation":
        print("what:   %s" % r["what"])
        print("detail: %s" % json.dumps(r.get("detail"), ensure_ascii=False, indent=1))
        match = (not rec.get("trace")) or rec["trace"] == r.get("trace")
        print("trace %s (recorded %s): %s" % (r.get("trace"), rec.get("trace"), "identical" if match else "DIFFERENT"))
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    if r["status"] == "harness":
        print(r["what"])
        return 3
    return 0


def search(prop, tier, seed, runs, mod, base, deadline):
    lanes = []
    sel = selectors.DefaultSelector()
    for k in range(LANES):
        p = spawn(prop, hashseed(seed, k), base,
                  ["--seed", str(seed), "--tier", tier, "--lane", str(k), "--lanes", str(LANES), "--runs", str(runs),
                   "--deadline", str(deadline)])
        lanes.append(p)
        sel.register(p.stdout, selectors.EVENT_READ, p)
    results = []
    stop = False
    while sel.get_map() and not stop:
        for key, _ in sel.select(timeout=5):
            line = key.fileobj.readline()
            if not line:
                sel.unregister(key.fileobj)
                continue
            r = json.loads(line)
            results.append(r)
            if r["status"] in ("violation", "harness") and not r.get("known"):
                known = known_findings(prop)
                if r["status"] == "violation" and r.get("sig") in known:
                    r["known"] = True
                else:
                    stop = True
    for p in lanes:
        if stop:
            p.kill()
    codes = [p.wait() for p in lanes]
    if not stop and any(codes):
        results.append({"index": -1, "status": "harness", "what": "lane exit codes %s" % codes})
    results.sort(key=lambda r: r["index"] if r["index"] is not None else -1)
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.selftest:
        from . import env
        env.load()
        print("simulator loads MyCapytain from %s" % env.REPO)
        return 0
    tier = "thorough" if a.tier == "thorough" else "quick"
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("sim.props.%s" % a.prop)
    meta = mod.META
    runs = a.runs or meta["runs"][tier]
    t0 = time.monotonic()
    base = tempfile.mkdtemp(prefix="verif-sim-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        cap = 420 if tier == "quick" else 3300
        results = search(a.prop, tier, a.seed, runs, mod, base, time.time() + cap)
        return report(a, tier, mod, meta, runs, results, t0, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def report(a, tier, mod, meta, runs, results, t0, base):
    harness = [r for r in results if r["status"] == "harness"]
    bad = [r for r in results if r["status"] == "violation" and not r.get("known")]
    kn = [r for r in results if r.get("known")]
    ok = [r for r in results if r["status"] == "ok"]
    code = 0
    violation_line = None
    replay_info = None
    if bad:
        code = 1
        ref = bad[0]
        lane = ref["index"] % LANES
        hs = hashseed(a.seed, lane)
        srv = Server(a.prop, hs, base)
        plan = srv.ask({"index": ref["index"], "seed": a.seed, "tier": tier})["plan"]
        again = srv.run(plan, hang=90)
        reproduced = same(again, ref)
        tried = 0
        if reproduced:
            plan, ref2, tried = minimise(mod, srv, plan, again)
        else:
            ref2 = ref
        srv.close()
        rec = {"property": a.prop, "hashseed": hs, "seed": a.seed, "tier": tier, "run": ref["index"],
               "what": ref2["what"], "detail": ref2.get("detail"), "sig": ref2.get("sig"), "trace": ref2.get("trace"),
               "minimisation_candidates": tried, "reproduced": reproduced, "plan": plan}
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-seed%d-run%d.json" % (a.prop, a.seed, ref["index"]))
        json.dump(rec, open(path, "w", encoding="utf-8"), indent=1, ensure_ascii=False)
        # confirm from the file, in a fresh process
        srv = Server(a.prop, hs, base)
        conf = srv.run(plan, hang=90)
        srv.close()
        replay_info = {"path": path, "fresh_process": conf["status"], "same_trace": conf.get("trace") == ref2.get("trace")}
        print("property %s broken (run %d, seed %d): %s" % (a.prop, ref["index"], a.seed, ref2["what"]))
        print("detail: %s" % json.dumps(ref2.get("detail"), ensure_ascii=False)[:3000])
        print("minimised over %d candidates; operations: %s" % (tried, json.dumps(plan.get("clients"), ensure_ascii=False)[:3000]))
        print("fresh-process replay: %s, identical trace: %s" % (conf["status"], replay_info["same_trace"]))
        if not reproduced:
            print("note: the run did not repeat on its own in a fresh process; the replay file holds its full plan")
        violation_line = "VIOLATION property=%s replay=%s" % (a.prop, path)
    elif harness:
        code = 3
        print("harness error (run %s):\n%s" % (harness[0]["index"], harness[0]["what"]))
    shown = {}
    for r in kn:
        shown.setdefault(r["sig"], 0)
        shown[r["sig"]] += 1
    for sig, f in known_findings(a.prop).items():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f["what"]))

    wall = time.monotonic() - t0
    done = ok + bad + kn
    faults, probes = collections.Counter(), collections.Counter()
    scheds, traces, states = set(), set(), set()
    nontrivial = set()
    evals = 0
    for r in done:
        faults.update(r.get("faults") or {})
        probes.update(r.get("probes") or {})
        scheds.add(r.get("sched"))
        traces.add(r.get("trace"))
        st = r.get("stats") or {}
        if st.get("state"):
            states.add(st["state"])
        evals += st.get("checks", 0)
        if st.get("nontrivial", True):
            nontrivial.add(r.get("trace"))
    search_wall = max(wall, 1e-6)
    samples = []
    srv = None
    try:
        srv = Server(a.prop, hashseed(a.seed, 0), base)
        for i in (0, LANES):
            if i < runs:
                plan = srv.ask({"index": i, "seed": a.seed, "tier": tier})["plan"]
                s = json.dumps(plan, ensure_ascii=False)
                samples.append({"run": i, "hashseed": hashseed(a.seed, 0), "plan": plan if len(s) < 4000 else s[:4000] + "..."})
    except Exception as e:
        samples.append({"error": str(e)})
    finally:
        if srv is not None:
            srv.close()
    cov = {
        "evaluations": len(done),
        "distinct_nontrivial": len(nontrivial),
        "rule": meta["rule"],
        "samples": samples,
        "simulated_runs": len(done),
        "runs_planned": runs,
        "runs_per_hour": int(len(done) / search_wall * 3600),
        "oracle_comparisons": evals,
        "simulated_seconds": round(sum(r.get("sim_s") or 0 for r in done), 1),
        "io_calls": sum(r.get("io") or 0 for r in done),
        "client_switches": sum(r.get("switches") or 0 for r in done),
        "faults_injected": dict(sorted(faults.items())),
        "runs_with_faults": sum(1 for r in done if r.get("faults")),
        "distinct_traces": len(traces),
        "distinct_schedules": len(scheds),
        "distinct_end_states": len(states),
        "probes": dict(sorted(probes.items())),
        "hash_seeds": LANES,
        "components_real": meta["real"],
        "components_stubbed": meta["stub"],
        "known_findings_seen": shown,
    }
    if replay_info:
        cov["replay"] = replay_info
    ev = {"property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": meta["assumptions"], "wall_s": round(wall, 2), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % a.prop)
    json.dump(ev, open(tmp, "w", encoding="utf-8"), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % a.prop))
    missing = [p for p in meta.get("must_probe", []) if not probes.get(p)]
    if code == 0 and missing:
        print("harness error: the search never reached: %s" % ", ".join(missing))
        code = 3
    if code == 0 and len(done) < runs * 0.5:
        # ran out of time on a slow machine: what ran is what is reported
        print("note: %d of %d planned runs within the time cap" % (len(done), runs))
        if len(done) < 50:
            code = 3
    print("%s %s: %d runs (%d per hour), %d oracle comparisons, %.0f simulated s, faults %s, %d distinct traces, %.1f s"
          % (a.prop, tier, len(done), cov["runs_per_hour"], evals, cov["simulated_seconds"], sum(faults.values()),
             len(traces), wall))
    if violation_line:
        print(violation_line)
    return code


if __name__ == "__main__":
    sys.exit(main())
