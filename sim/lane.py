"""Lane process: executes runs, each in a forked child, under one fixed hash seed."""
import argparse
import importlib
import json
import os
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

HANG_S = 40


def plan_for(mod, prop, seed, index, tier):
    rng = random.Random("%s|%s|%s" % (prop, seed, index))
    plan = mod.generate(rng, tier, index)
    plan.setdefault("seed", rng.randrange(1 << 40))
    plan["index"] = index
    return json.loads(json.dumps(plan))       # what is executed is exactly what a replay file stores


def execute(mod, plan):
    """Run one plan in this (forked) process; returns a result dict."""
    from . import env, core
    res = {"index": plan.get("index"), "status": "ok"}
    t0 = time.perf_counter()
    sim = None
    save = env.count_lines(os.environ["VERIF_LINES"]) if os.environ.get("VERIF_LINES") else None
    try:
        sys.setrecursionlimit(2500)
        env.reset(plan["seed"])
        sim = core.Sim(plan)
        if plan.get("preempt"):
            env.enable_preemption(sim)
        stats = mod.execute(plan, sim) or {}
        res.update(stats=stats)
    except core.Violation as v:
        res.update(status="violation", what=v.what, detail=_clip(v.detail), sig=v.detail.get("sig"))
    except core.StepBound as b:
        res.update(status="violation", what="no progress: %s" % b, detail={}, sig=None)
    except core.HarnessError:
        res.update(status="harness", what=traceback.format_exc()[-6000:])
    except BaseException as e:
        text = traceback.format_exc()[-6000:]
        lib = os.path.join(os.path.abspath(env.REPO), "MyCapytain") + os.sep
        here = os.path.dirname(os.path.abspath(__file__)) + os.sep
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith((lib, here))]
        if frames and frames[-1].startswith(lib):
            # the library itself failed where the check expected it to work
            res.update(status="violation", what="unexpected failure inside the library: %s: %s" % (type(e).__name__, str(e)[:300]),
                       detail={"traceback": text[-2500:]}, sig=None)
        elif isinstance(e, (AttributeError, TypeError, LookupError, ValueError, ArithmeticError, SyntaxError, AssertionError)) and frames:
            # the library gave the check something that cannot even be compared
            res.update(status="violation", what="unusable answer: %s: %s" % (type(e).__name__, str(e)[:300]),
                       detail={"traceback": text[-2500:]}, sig=None)
        else:
            res.update(status="harness", what=text)
    if sim is not None:
        res.update(trace=sim.trace_hash(), sched=sim.schedule_sig.hexdigest()[:12], faults=dict(sim.fault_count),
                   probes=dict(sim.probe), sim_s=round(sim.now, 3), io=sim.io_total, switches=sim.switches)
        if plan.get("want_trace"):
            res["events"] = [[a, b, c, _clip(d)] for a, b, c, d in sim.trace][-400:]
    if save:
        save()
    res["wall"] = round(time.perf_counter() - t0, 4)
    return res


def _plain(o):
    """ What json can write: the code under test can put anything into an answer """
    if isinstance(o, dict):
        return {k if isinstance(k, str) else repr(k): _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_plain(v) for v in o]
    return o


def _clip(o, n=1500):
    s = json.dumps(_plain(o), default=repr, ensure_ascii=False)
    if len(s) <= n * 4:
        return json.loads(s)
    return s[:n * 4] + "..."


def forked(mod, plan, base, hang=HANG_S):
    """Execute one plan in a forked child with its own scratch directory; returns its result."""
    r, w = os.pipe()
    scratch = tempfile.mkdtemp(prefix="verif-run-", dir=base)
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.chdir(scratch)
            data = json.dumps(_plain(execute(mod, plan)), default=repr).encode("utf-8", "backslashreplace")
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BrokenPipeError:
            code = 71
        except BaseException:
            traceback.print_exc()
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    buf, deadline = b"", time.monotonic() + hang
    hung = False
    while True:
        left = deadline - time.monotonic()
        ready = select.select([r], [], [], max(0, left))[0] if left > 0 else []
        if not ready:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if hung:
        return {"index": plan.get("index"), "status": "violation", "sig": None,
                "what": "no progress: the run was still busy after %d s" % hang, "detail": {}, "hang": True}
    try:
        return json.loads(buf)
    except ValueError:
        return {"index": plan.get("index"), "status": "harness", "what": "child ended with status %d" % st}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--lane", type=int, default=0)
    ap.add_argument("--lanes", type=int, default=1)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--base", required=True)
    ap.add_argument("--serve", action="store_true")
    ap.add_argument("--deadline", type=float, default=1e12)
    a = ap.parse_args()
    from . import env
    env.load()
    mod = importlib.import_module("sim.props.%s" % a.prop)
    import gc
    gc.collect()
    gc.freeze()
    out = sys.stdout
    if a.serve:
        for line in sys.stdin:
            req = json.loads(line)
            if "index" in req:
                plan = plan_for(mod, a.prop, req["seed"], req["index"], req["tier"])
                out.write(json.dumps({"plan": plan}) + "\n")
            else:
                out.write(json.dumps(forked(mod, req["plan"], a.base, req.get("hang", HANG_S))) + "\n")
            out.flush()
        return 0
    t_end = a.deadline
    for i in range(a.start + a.lane, a.start + a.runs, a.lanes):
        if time.time() > t_end:
            break
        try:
            plan = plan_for(mod, a.prop, a.seed, i, a.tier)
        except Exception:
            out.write(json.dumps({"index": i, "status": "harness", "what": traceback.format_exc()[-4000:]}) + "\n")
            out.flush()
            continue
        out.write(json.dumps(forked(mod, plan, a.base)) + "\n")
        out.flush()
    return 0


if __name__ == "__main__":
    sys.exit(main())
