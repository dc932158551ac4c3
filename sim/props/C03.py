"""C03: reference lists of texts served by a CTS service."""
from sim.worlds import library, simcts, ctsread
from sim.worlds.ctsread import Held, rand_ref

META = {
    "runs": {"quick": 4500, "thorough": 112500},
    "rule": "one evaluation = one seeded run of 1-3 concurrent clients sharing one resolver, listing references of texts and passages "
            "served by a simulated CTS service; distinct = distinct event trace",
    "real": ["MyCapytain CTS resolver, retriever, texts, passages", "requests", "urllib3 response decoding", "lxml"],
    "stub": ["the CTS service (generated library)", "sockets", "clock"],
    "assumptions": ["the library does not change during a run",
                    "asked for a level which is not below the passage, the service lists the level just below it"],
    "must_probe": ["whole", "single", "range", "deep", "too_deep", "relative", "all", "deepest", "refused", "failed_by_fault", "first",
                   "several"],
}
KINDS = ["resolver"] * 4 + ["text"] * 2 + ["passage"] * 4 + ["all", "deepest", "missing", "first", "valid"]


def generate(rng, tier, index):
    from sim import net
    world = simcts.gen_world(rng, groups=1, works=2, texts=2, sm=False)
    texts = [t for _, _, t in library.all_texts(world["lib"])]
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(2, 8)):
            t = rng.choice(texts)
            ops.append({"op": rng.choice(KINDS), "id": t["urn"], "ref": rand_ref(rng, t, ranges=0.3, whole=0.3),
                        "ref2": rand_ref(rng, t, ranges=0.3, whole=0.3), "level": rng.choice([1, 1, 1, 2, 2, 3, 4]),
                        "as": rng.choice(["str", "cts"]), "h": rng.randrange(9), "plus": rng.random() < 0.4,
                        "again": rng.random() < 0.3})
        clients.append(ops)
    if rng.random() < 0.4:
        for ops in clients:
            for op in ops:
                if rng.random() < 0.4:
                    op["faults"] = {str(rng.randrange(3)): rng.choice(simcts.DISRUPTIVE + net.BENIGN * 2)}
    return {"world": world, "clients": clients, "delays": [rng.randrange(1, 40) for _ in range(40)] if len(clients) > 1 else []}


def execute(plan, sim):
    from MyCapytain.resolvers.cts.api import HttpCtsResolver
    from MyCapytain.resources.texts.remote.cts import CtsText
    world = plan["world"]
    n, server, retriever = simcts.start(sim, world)
    resolver = HttpCtsResolver(retriever)
    k = ctsread.Checker(sim, world)
    shared = {}

    def deep(ref):
        return len(library.split_ref(ref)[0]) if ref else 0

    def listing(c, op, fn, t, ref, level):
        out = k.attempt(c, op, fn, "listing references")
        if not out.ok:
            return
        level = max(level, deep(ref) + 1)
        k.eq([str(x) for x in out.value], library.under(t, ref, level) if level <= library.depth(t) else [],
             "the references listed are not the published ones", id=t["urn"], ref=ref, level=level)
        sim.probe["whole" if ref is None else ("range" if "-" in ref else "single")] += 1
        sim.probe["deep"] += level > 1
        sim.probe["too_deep"] += level > library.depth(t)
        sim.probe["several"] += len(out.value) > 3

    def one(c, texts, held, op):
        kind, t = op["op"], k.text(op["id"])
        ref = op["ref"]
        form = ctsread.form(op["id"], ref, op["as"])
        if kind == "resolver":
            if op["level"] == 1:
                listing(c, op, lambda: resolver.getReffs(op["id"], subreference=form), t, ref, 1)
            else:
                listing(c, op, lambda: resolver.getReffs(op["id"], level=op["level"], subreference=form), t, ref, op["level"])
            return
        if kind == "missing":
            bad = {0: (op["id"] + "x", None), 1: (op["id"], "99.nope.1"), 2: (op["id"], "zz-zy")}[op["h"] % 3]
            k.refused({"op": kind, "id": bad[0], "ref": bad[1]}, lambda: resolver.getReffs(bad[0], subreference=bad[1]),
                      "references which do not exist are listed")
            return
        if kind == "passage":
            if not held or op["h"] > 4:
                out = k.attempt(c, op, lambda: resolver.getTextualNode(op["id"], form, prevnext=op["plus"]), "opening a passage")
                if out.ok:
                    held.append(Held(out.value, op["id"], ref, op["plus"]))
                op = {"op": kind, "level": op["level"], "h": len(held) - 1, "again": op["again"]}
            if not held:
                return
            h = held[op["h"] % len(held)]
            # from a passage, levels are counted from the passage itself
            level = deep(h.ref) + op["level"]
            listing(c, op, lambda: h.obj.getReffs(level=op["level"]), k.text(h.tid), h.ref, level)
            sim.probe["relative"] += h.ref is not None
            return
        if op["id"] not in texts:
            texts[op["id"]] = CtsText(op["id"], retriever)
        obj = texts[op["id"]]
        if kind == "text":
            listing(c, op, lambda: obj.getReffs(level=op["level"], subreference=form), t, ref, op["level"])
        elif kind == "valid":
            listing(c, op, lambda: obj.getValidReff(level=op["level"], reference=form), t, ref, op["level"])
        elif kind == "first":
            out = k.attempt(c, op, lambda: obj.getFirstUrn(None if ref is None else t["urn"] + ":" + ref if op["level"] % 2 else str(form)), "asking for the first passage")
            if out.ok:
                kids = library.under(t, ref, deep(ref) + 1) if deep(ref) < library.depth(t) else []
                k.eq(out.value, kids[0] if kids else None, "the first passage is not the published one", id=t["urn"], ref=ref)
                sim.probe["first"] += 1
        elif kind == "deepest":
            out = k.attempt(c, op, obj.getLabel, "describing a text")
            if out.ok:
                listing(c, {"op": "deepest"}, lambda: obj.getValidReff(level=-1), t, None, library.depth(t))
                sim.probe["deepest"] += 1
        elif kind == "all":
            out = k.attempt(c, op, lambda: obj.reffs, "listing every reference of a text")
            if out.ok:
                k.eq(list(out.value), [r for l in range(1, library.depth(t) + 1) for r in library.reffs(t, l)],
                     "the references of a text are not all listed", id=t["urn"])
                sim.probe["all"] += 1

    def body(ops):
        def run(c):
            texts, held = {}, []
            for op in ops:
                one(c, texts, held, op)
                if op["again"]:
                    one(c, texts, held, {a: b for a, b in op.items() if a != "faults"})
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]])
    return {"checks": k.checks, "nontrivial": k.checks > 0}
