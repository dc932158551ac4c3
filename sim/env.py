"""Puts every source of nondeterminism of the process behind the simulator, and loads the code under test."""
import itertools
import os
import random
import socket
import sys
import threading
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
_loaded = False
_bnode_counter = itertools.count()


class _Lock(object):
    pass


def load():
    """Import third-party libraries, patch the seams, then import MyCapytain from the working tree."""
    global _loaded
    if _loaded:
        return
    _loaded = True
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import rdflib
    import rdflib.plugin
    import rdflib.term
    import requests
    import lxml.objectify
    import rdflib.namespace
    import rdflib.plugins.stores.memory
    import rdflib.plugins.serializers.jsonld
    import rdflib.plugins.serializers.rdfxml
    import pyld.jsonld
    import link_header
    import six
    # blank node identifiers: a counter, reset at each run, in place of uuid4
    defaults = rdflib.term.BNode.__new__.__defaults__
    assert len(defaults) == 3
    rdflib.term.BNode.__new__.__defaults__ = (defaults[0], lambda: "%08d" % next(_bnode_counter), defaults[2])
    # nothing may reach a real network
    def _refuse(self, *a, **k):
        from .core import HarnessError
        raise HarnessError("the code under test tried to open a real socket: %r" % (a,))
    socket.socket.connect = _refuse
    socket.socket.connect_ex = _refuse
    # locks created by the code under test must cooperate with the scheduler
    from . import core
    threading._sim_real_allocate = threading.Lock
    # compiled files lying about in the working tree are never trusted
    sys.pycache_prefix = os.environ.get("VERIF_PYC") or "/nonexistent"
    real = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = core.SimLock, core.SimRLock
    try:
        import MyCapytain
        import importlib
        import pkgutil
        for m in pkgutil.walk_packages(MyCapytain.__path__, "MyCapytain."):
            importlib.import_module(m.name)
    finally:
        threading.Lock, threading.RLock = real
    got = os.path.dirname(os.path.abspath(MyCapytain.__file__))
    want = os.path.join(os.path.abspath(REPO), "MyCapytain")
    if got != want:
        raise core.HarnessError("MyCapytain imported from %s, not %s" % (got, want))
    from . import net, fs
    net.install()
    fs.install()
    _warm()


def _warm():
    """Touch lazily initialised third-party state once so that forked runs all start from the same point."""
    import rdflib
    from rdflib import Graph, URIRef, Literal
    g = Graph()
    g.add((URIRef("urn:a"), URIRef("http://a.b/c"), Literal("x")))
    g.serialize(format="xml")
    g.serialize(format="json-ld")
    g.namespace_manager.compute_qname(URIRef("http://a.b/c"))
    from pyld import jsonld
    jsonld.expand({"@context": {"@vocab": "http://x.y/"}, "@id": "urn:z", "p": "v"})


def reset(seed):
    """Start-of-run state: counters, PRNG and a fresh shared graph."""
    global _bnode_counter
    _bnode_counter = itertools.count()
    random.seed(seed)
    from MyCapytain.common.constants import bind_graph, set_graph
    set_graph(bind_graph())


# -- line-level preemption ------------------------------------------------------------------------
_mon_ready = False


def _codes(code, root, out):
    if code.co_filename.startswith(root) and code not in out:
        out.add(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                _codes(c, root, out)


def enable_preemption(sim):
    """Client threads give up the baton at the planned line-event counts inside MyCapytain's own code."""
    global _mon_ready
    from .core import current_client
    mon = sys.monitoring
    tool = 4
    if not _mon_ready:
        mon.use_tool_id(tool, "verif-sim")
        _mon_ready = True
        root = os.path.join(os.path.abspath(REPO), "MyCapytain") + os.sep
        codes = set()

        def visit(obj, depth=0):
            if isinstance(obj, (staticmethod, classmethod)):
                obj = obj.__func__
            if isinstance(obj, property):
                for f in (obj.fget, obj.fset, obj.fdel):
                    if f is not None:
                        visit(f, depth)
            elif isinstance(obj, types.FunctionType):
                _codes(obj.__code__, root, codes)
                w = getattr(obj, "__wrapped__", None)
                if w is not None:
                    visit(w, depth)
            elif isinstance(obj, type) and depth < 4 and obj.__module__.startswith("MyCapytain"):
                for v in list(vars(obj).values()):
                    visit(v, depth + 1)
        for name, m in sorted(sys.modules.items()):
            if name.startswith("MyCapytain") and m is not None:
                for v in list(vars(m).values()):
                    visit(v)
        for c in codes:
            mon.set_local_events(tool, c, mon.events.LINE)

    def on_line(code, line):
        c = current_client()
        if c is None or c is not sim.current or c.op is None:
            return
        c.lines += 1
        if c.lines in c.preempt:
            sim.fault_count["preemption"] += 1
            sim.log("preempt", at="%s:%d" % (os.path.basename(code.co_filename), line))
            sim.pause(None, why="preempt")
    mon.register_callback(tool, mon.events.LINE, on_line)


def count_lines(where):
    """Lines of MyCapytain this process executes, for tools/lines.py (no check uses it)."""
    mon = sys.monitoring
    root = os.path.join(os.path.abspath(REPO), "MyCapytain") + os.sep
    seen = set()

    def on_line(code, line):
        if code.co_filename.startswith(root):
            seen.add("%s:%d" % (code.co_filename[len(root):], line))
        return mon.DISABLE
    mon.use_tool_id(3, "verif-lines")
    mon.register_callback(3, mon.events.LINE, on_line)
    mon.set_events(3, mon.events.LINE)

    def save():
        with open(os.path.join(where, str(os.getppid())), "a") as f:
            f.write("".join(x + "\n" for x in sorted(seen)))
    return save
