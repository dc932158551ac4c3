"""Simulation kernel: virtual time, client scheduling, fault bookkeeping, trace.

One run = one `Sim` object driven by one explicit JSON *plan*.  Everything that can differ between
two executions is either in the plan (operations, data, faults, delays, preemption points) or derived
from the plan's seed by a keyed PRNG, so executing the same plan twice gives the same trace.
"""
import collections
import hashlib
import heapq
import json
import random
import threading


class Violation(Exception):
    """The property under check does not hold in this run."""

    def __init__(self, what, **detail):
        super(Violation, self).__init__(what)
        self.what = what
        self.detail = detail


class HarnessError(Exception):
    """The harness itself is at fault: never reported as a violation."""


class StepBound(BaseException):
    """Raised inside the code under test when one operation exceeds its step budget (no progress).

    Derives from BaseException so that a broad `except Exception` in the code under test cannot turn a
    run-away loop into a silent success."""


class Outcome(object):
    """What one call into the code under test did: a value or an exception."""
    __slots__ = ("ok", "value", "exc", "faults")

    def __init__(self, ok, value=None, exc=None, faults=0):
        self.ok, self.value, self.exc, self.faults = ok, value, exc, faults

    @property
    def err(self):
        return None if self.ok else type(self.exc).__name__

    def describe(self):
        if self.ok:
            return "ok"
        return "%s: %s" % (type(self.exc).__name__, str(self.exc)[:300])


class Client(object):
    def __init__(self, sim, idx, body):
        self.sim, self.idx, self.body = sim, idx, body
        self.lock = threading.Semaphore(0)
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.done = False
        self.error = None
        self.op = None            # the operation being executed (dict) or None
        self.io_index = 0         # I/O calls made so far by this operation
        self.op_faults = 0        # disruptive faults that fired during this operation
        self.lines = 0            # line events seen (only when preemption is on)
        self.preempt = set()

    def _main(self):
        self.lock.acquire()
        _tls.client = self
        try:
            self.body(self)
        except BaseException as e:          # noqa: reported by Sim.run_clients
            self.error = e
        self.done = True
        self.sim._to_main()


_tls = threading.local()


def current_client():
    return getattr(_tls, "client", None)


_CURRENT = None


def current_sim():
    return _CURRENT


class Sim(object):
    MAX_IO_PER_OP = 1000

    def __init__(self, plan):
        global _CURRENT
        self.plan = plan
        self.seed = plan["seed"]
        self.now = 0.0
        self.trace = []
        self.fault_count = collections.Counter()
        self.probe = collections.Counter()
        self.delays = plan.get("delays") or []
        self._di = 0
        self._heap = []
        self._seq = 0
        self._main_lock = threading.Semaphore(0)
        self.clients = []
        self.current = None
        self.switches = 0
        self.io_total = 0
        self.schedule_sig = hashlib.sha256()
        _CURRENT = self

    # -- derived randomness ------------------------------------------------
    def keyed(self, *key):
        """A PRNG that depends only on the plan's seed and the key."""
        return random.Random("%s|%s" % (self.seed, "|".join(str(k) for k in key)))

    # -- trace --------------------------------------------------------------
    def log(self, kind_, **data):
        c = self.current
        self.trace.append((round(self.now, 6), c.idx if c else -1, kind_, data))

    def trace_hash(self):
        h = hashlib.sha256()
        for e in self.trace:
            try:
                text = json.dumps(e, sort_keys=True, default=str)
            except TypeError:
                text = repr(e)
            h.update(text.encode("utf-8", "backslashreplace"))
        return h.hexdigest()[:16]

    # -- scheduling ----------------------------------------------------------
    def _next_delay(self):
        if self._di < len(self.delays):
            d = self.delays[self._di]
            self._di += 1
            return d / 1000.0
        self._di += 1
        return 0.001

    def _to_main(self):
        self._main_lock.release()

    def pause(self, delay=None, why="io"):
        """Called at every seam: lets simulated time pass and other clients run."""
        if delay is None:
            delay = self._next_delay()
        c = current_client()
        if c is None or c is not self.current:
            self.now += delay
            return
        self._seq += 1
        heapq.heappush(self._heap, (self.now + delay, self._seq, c))
        self._to_main()
        c.lock.acquire()

    def run_clients(self, bodies, preempt=None):
        """Run every body as a client to completion, one at a time, in simulated time order."""
        self.clients = [Client(self, i, b) for i, b in enumerate(bodies)]
        for c in self.clients:
            if preempt:
                c.preempt = set(preempt.get(str(c.idx), ()))
            self._seq += 1
            heapq.heappush(self._heap, (self.now + self._next_delay(), self._seq, c))
            c.thread.start()
        last = None
        while self._heap:
            wake, _, c = heapq.heappop(self._heap)
            if wake > self.now:
                self.now = wake
            if last is not None and last is not c and not last.done:
                self.switches += 1
            self.schedule_sig.update(b"%d," % c.idx)
            last = c
            self.current = c
            c.lock.release()
            self._main_lock.acquire()
            if c.error is not None:
                self.current = None
                raise c.error
        self.current = None

    # -- operations and faults -------------------------------------------------
    def begin_op(self, op):
        c = self.current
        c.op, c.io_index, c.op_faults = op, 0, 0
        self.log("op", **{k: v for k, v in op.items() if isinstance(v, (str, int, float, bool)) and k != "io_more"})

    def io(self, site):
        """Account for one I/O call; returns the fault planned for it (or None)."""
        c = current_client()
        self.io_total += 1
        if c is None or c.op is None:
            return None
        i = c.io_index
        c.io_index += 1
        if c.io_index > self.MAX_IO_PER_OP + c.op.get("io_more", 0):
            raise StepBound("more than %d I/O calls in one operation" % (c.io_index - 1))
        f = (c.op.get("faults") or {}).get(str(i))
        return f

    def fired(self, kind, disruptive=True):
        self.fault_count[kind] += 1
        c = current_client()
        if disruptive and c is not None:
            c.op_faults += 1
        self.log("fault", fault=kind)

    def call(self, fn, *a, **kw):
        """Call into the code under test; never lets its exceptions escape, except violations/harness."""
        c = self.current
        before = c.op_faults if c else 0
        try:
            v = fn(*a, **kw)
            self.log("done", got=type(v).__name__)
            return Outcome(True, value=v, faults=(c.op_faults - before) if c else 0)
        except (Violation, HarnessError, StepBound):
            raise
        except RecursionError as e:
            self.log("failed", error=type(e).__name__)
            return Outcome(False, exc=e, faults=(c.op_faults - before) if c else 0)
        except Exception as e:
            self.log("failed", error=type(e).__name__)
            return Outcome(False, exc=e, faults=(c.op_faults - before) if c else 0)


class SimLock(object):
    """Stands in for threading.Lock objects the code under test may create: blocking on one must give
    the baton back to the scheduler instead of blocking the whole simulation."""
    _reentrant = False

    def __init__(self):
        self._real = threading._sim_real_allocate()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        sim = current_sim()
        c = current_client()
        if sim is None or c is None or c is not sim.current:
            ok = self._real.acquire(blocking, timeout)
        else:
            waited = 0
            while True:
                ok = self._real.acquire(False)
                if ok or not blocking:
                    break
                waited += 1
                if waited > 20000:
                    raise StepBound("a lock is never released")
                sim.pause(0.001, why="lock")
        if ok:
            self._owner, self._count = me, 1
        return ok

    def release(self):
        if self._reentrant:
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()

    def locked(self):
        return self._real.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _reentrant = True
