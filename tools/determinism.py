"""Every plan executed in two fresh processes (one in order, one in reverse, under load) must leave the same trace.
Usage: /opt/venv/bin/python tools/determinism.py RUNS [SEED] [PROP...]"""
import importlib
import json
import os
import shutil
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sim import check, lane     # noqa: E402


def half(prop, hs, base, plans, out, order):
    srv = check.Server(prop, hs, base)
    for i in order:
        r = srv.run(plans[i], hang=120)
        out[i] = (r["status"], r.get("trace"), r.get("sched"), json.dumps(r.get("faults"), sort_keys=True), json.dumps(r.get("probes"), sort_keys=True))
    srv.close()


def main():
    runs, seed = int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 1
    props = sys.argv[3:] or [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
    for prop in props:
        mod = importlib.import_module("sim.props.%s" % prop)
        plans = [lane.plan_for(mod, prop, seed, i, "quick") for i in range(runs)]
        base = tempfile.mkdtemp(prefix="verif-det-")
        t0 = time.monotonic()
        try:
            work = []
            for k in range(4):
                hs = check.hashseed(seed, k)
                mine = list(range(k, runs, 4))
                a, b = {}, {}
                work.append((a, b))
                for out, order in ((a, mine), (b, mine[::-1])):
                    t = threading.Thread(target=half, args=(prop, hs, base, plans, out, order))
                    t.start()
                    work.append(t)
            for t in work:
                if isinstance(t, threading.Thread):
                    t.join()
            pairs = [w for w in work if isinstance(w, tuple)]
            n = sum(len(a) for a, _ in pairs)
            bad = [(i, a[i], b.get(i)) for a, b in pairs for i in a if a[i] != b.get(i)]
            notok = [(i, a[i][0]) for a, _ in pairs for i in a if a[i][0] != "ok"]
        finally:
            shutil.rmtree(base, ignore_errors=True)
        print("%s: %d plans twice, %d different, %d not ok, %.0f s" % (prop, n, len(bad), len(notok), time.monotonic() - t0), bad[:1], notok[:2], flush=True)


main()
