"""C02: walking through a text served by a CTS service."""
from sim.worlds import library, simcts, ctsread
from sim.worlds.ctsread import Held, rand_ref
from sim.core import Violation

META = {
    "runs": {"quick": 3500, "thorough": 87500},
    "rule": "one evaluation = one seeded run of 1-2 concurrent clients walking along siblings, parents and children of passages "
            "served by a simulated CTS service; distinct = distinct event trace",
    "real": ["MyCapytain CTS resolver, retriever, texts, passages", "requests", "urllib3 response decoding", "lxml"],
    "stub": ["the CTS service (generated library)", "sockets", "clock"],
    "assumptions": ["the library does not change during a run", "the service answers an empty list below the deepest level"],
    "must_probe": ["next", "prev", "end_next", "end_prev", "parent", "top", "children", "first", "last", "leaf", "walk", "siblings",
                   "failed_by_fault", "retried"],
}
MOVES = ["next", "next", "next", "prev", "prev", "parent", "parent", "children", "first", "last", "childids", "siblings", "ids",
         "walk", "back", "getSiblings", "parentid"]


def generate(rng, tier, index):
    from sim import net
    world = simcts.gen_world(rng, groups=1, works=2, texts=2, sm=False)
    texts = [t for _, _, t in library.all_texts(world["lib"])]
    clients = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        ops = []
        for _ in range(rng.randrange(3, 11)):
            t = rng.choice(texts)
            if rng.random() < 0.3 or not ops:
                ops.append({"op": "open", "id": t["urn"], "ref": rand_ref(rng, t, ranges=0.25, whole=0.05), "plus": rng.random() < 0.4})
            else:
                ops.append({"op": rng.choice(MOVES), "h": rng.randrange(20), "k": rng.randrange(50), "id": t["urn"],
                            "ref": rand_ref(rng, t, ranges=0.3, whole=0)})
        clients.append(ops)
    if rng.random() < 0.5:
        for ops in clients:
            for op in ops:
                if rng.random() < 0.4:
                    op["faults"] = {str(rng.randrange(3)): rng.choice(simcts.DISRUPTIVE + ["app_error"] * 5 + net.BENIGN * 2)}
    return {"world": world, "clients": clients, "delays": [rng.randrange(1, 40) for _ in range(40)] if len(clients) > 1 else []}


def parent_of(ref):
    a, b = library.split_ref(ref)
    if len(a) == 1:
        return None
    up = [".".join(a[:-1]), ".".join(b[:-1])]
    return up[0] if up[0] == up[1] else "-".join(up)


def execute(plan, sim):
    from MyCapytain.resolvers.cts.api import HttpCtsResolver
    world = plan["world"]
    n, server, retriever = simcts.start(sim, world)
    resolver = HttpCtsResolver(retriever)
    k = ctsread.Checker(sim, world)

    def text_of(x):
        return None if x is None else str(x)

    def step(c, op, h, name, want, held, what):
        """h.obj.<name> must open the passage `want` (None: there is no such passage)."""
        out = k.attempt(c, op, lambda: getattr(h.obj, name), what)
        if not out.ok:
            return None
        where = {"id": h.tid, "ref": h.ref, "move": name}
        if want is None:
            k.eq(text_of(out.value), None, "there is a passage beyond the edge of the text", **where)
            return None
        if out.value is None:
            raise Violation("a neighbouring passage is not reachable", expected=want, **where)
        new = Held(out.value, h.tid, want)
        k.passage(new, full=False)
        if held is not None and len(held) < 30:
            held.append(new)
        sim.probe[name] += 1
        return new

    def one(c, held, op):
        kind = op["op"]
        if kind == "open":
            out = k.attempt(c, op, lambda: resolver.getTextualNode(op["id"], op["ref"], prevnext=op["plus"]), "opening a passage")
            if out.ok:
                h = Held(out.value, op["id"], op["ref"], op["plus"])
                k.passage(h, full=False)
                held.append(h)
            return
        if kind == "getSiblings":
            t = k.text(op["id"])
            want = library.siblings(t, op["ref"])
            out = k.attempt(c, op, lambda: resolver.getSiblings(op["id"], op["ref"]), "asking for siblings")
            if out.ok:
                k.eq(tuple(out.value), want, "the siblings of a passage are not the published ones", id=op["id"], ref=op["ref"])
            return
        if not held:
            return
        h = held[op["h"] % len(held)]
        t = k.text(h.tid)
        where = {"id": h.tid, "ref": h.ref}
        if h.ref is None:
            if kind in ("next", "prev", "siblings", "ids", "walk", "back", "parent", "parentid"):
                return              # siblings are those of a passage, not of a whole text
            deep, sib, up = 0, None, None
        else:
            deep, sib, up = len(library.split_ref(h.ref)[0]), library.siblings(t, h.ref), parent_of(h.ref)
        kids = library.under(t, h.ref, deep + 1) if deep < library.depth(t) else []
        if kind in ("next", "prev"):
            want = sib[kind == "next"]
            if step(c, op, h, kind, want, held, "following a sibling") is None and want is None:
                sim.probe["end_" + kind] += 1
        elif kind in ("siblings", "ids"):
            out = k.attempt(c, op, lambda: h.obj.siblingsId if kind == "siblings" else (h.obj.prevId, h.obj.nextId), "asking for siblings")
            if out.ok:
                k.eq(tuple(text_of(x) for x in out.value), sib, "the siblings of a passage are not the published ones", **where)
                sim.probe["siblings"] += 1
        elif kind in ("walk", "back"):
            cur, name, idx = h, ("next" if kind == "walk" else "prev"), (1 if kind == "walk" else 0)
            limit = 0
            while cur is not None:
                want = library.siblings(t, cur.ref)[idx]
                cur = step(c, {"op": kind}, cur, name, want, None, "following a sibling")
                limit += 1
            sim.probe["walk"] += limit > 2
        elif kind == "parentid":
            k.eq(text_of(h.obj.parentId), up, "the parent of a passage is not the one above it", **where)
        elif kind == "parent":
            if up is None:
                sim.probe["top"] += 1
            step(c, op, h, "parent", up, held, "opening the parent passage")
        elif kind == "childids":
            out = k.attempt(c, op, lambda: list(h.obj.childIds), "listing child passages")
            if out.ok:
                k.eq([str(x) for x in out.value], kids, "the children of a passage are not the published ones", **where)
                sim.probe["leaf"] += not kids
        elif kind == "children":
            out = k.attempt(c, op, lambda: list(h.obj.children), "opening child passages")
            if out.ok:
                k.eq(len(out.value), len(kids), "the children of a passage are not the published ones", **where)
                for o, r in zip(out.value, kids):
                    k.passage(Held(o, h.tid, r), full=False)
                sim.probe["children"] += 1
        elif kind in ("first", "last"):
            want = (kids[0] if kind == "first" else kids[-1]) if kids else None
            out = k.attempt(c, op, lambda: getattr(h.obj, kind + "Id"), "asking for a child passage")
            if out.ok:
                k.eq(text_of(out.value), want, "the %s child of a passage is not the published one" % kind, **where)
                step(c, {"op": kind}, h, kind, want, held, "opening a child passage")

    def body(ops):
        def run(c):
            held = []
            for op in ops:
                one(c, held, op)
            # once the faults are over, everything that was opened leads where it should
            for i, h in enumerate(held[:6]):
                for kind in ("ids", "next", "prev", "parent", "childids", "first", "last"):
                    one(c, [h], {"op": kind, "h": 0, "k": 0})
                    sim.probe["retried"] += 1
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]])
    return {"checks": k.checks, "nontrivial": k.checks > 0}
