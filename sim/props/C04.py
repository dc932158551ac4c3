"""C04: the inventory of a CTS service."""
from sim.core import Violation
from sim.worlds import library, simcts, ctsread, catalog

META = {
    "runs": {"quick": 5000, "thorough": 125000},
    "rule": "one evaluation = one seeded run of 1-2 concurrent clients reading the inventory of a simulated CTS service, whole or by "
            "object, and comparing everything they hold again at the end; distinct = distinct event trace",
    "real": ["MyCapytain CTS resolver, retriever, inventory parsing, metadata store", "requests", "urllib3 response decoding", "lxml",
             "rdflib"],
    "stub": ["the CTS service (generated library)", "sockets", "clock"],
    "assumptions": ["the library does not change during a run", "every text belongs to one inventory"],
    "must_probe": ["whole", "group", "work", "text", "refused", "failed_by_fault", "structured", "about", "several_languages", "held", "unfiltered"],
}


def generate(rng, tier, index):
    from sim import net
    world = simcts.gen_world(rng, groups=3, works=3, texts=3, small=True, empty=True)
    world["whole"] = rng.random() < 0.3
    ids = [None, None, world["lib"]["tiid"]]
    for g, w, t in library.all_texts(world["lib"]):
        ids += [g["urn"], w["urn"], t["urn"]]
    clients = []
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.randrange(1, 5)):
            op = {"op": "meta", "id": rng.choice(ids), "how": rng.choice(["str", "str", "urn"])}
            if rng.random() < 0.15:
                op = {"op": "missing", "id": (rng.choice([i for i in ids if i]) + "x")}
            elif rng.random() < 0.3:
                g, w, t = rng.choice(library.all_texts(world["lib"]))
                op = {"op": "passage", "id": t["urn"], "ref": ctsread.rand_ref(rng, t), "plus": rng.random() < 0.5}
            ops.append(op)
        clients.append(ops)
    if rng.random() < 0.4:
        for ops in clients:
            for op in ops:
                if rng.random() < 0.4:
                    op["faults"] = {"0": rng.choice(simcts.DISRUPTIVE + net.BENIGN * 2)}
    return {"world": world, "clients": clients, "delays": [rng.randrange(1, 40) for _ in range(40)] if len(clients) > 1 else []}


def execute(plan, sim):
    from MyCapytain.resolvers.cts.api import HttpCtsResolver
    world = plan["world"]
    lib = world["lib"]
    n, server, retriever = simcts.start(sim, world)
    resolver = HttpCtsResolver(retriever)
    k = ctsread.Checker(sim, world)
    cat = catalog.Catalog(k, sim)
    held = []
    sim.probe["unfiltered"] += world["whole"]

    def check(o, oid):
        tree = catalog.pruned(lib, None if oid in (None, lib["tiid"]) else oid)
        if oid in (None, lib["tiid"]):
            cat.inventory(o, lib["tiid"], tree)
            sim.probe["whole"] += 1
            return
        for g, ws in tree:
            if g["urn"] == oid:
                cat.group(o, g, ws)
                sim.probe["group"] += 1
                up = [lib["tiid"]]
            for w, ts in ws:
                if w["urn"] == oid:
                    cat.work(o, g, w, ts)
                    sim.probe["work"] += 1
                    up = [g["urn"], lib["tiid"]]
                for t in ts:
                    if t["urn"] == oid:
                        cat.text(o, g, w, t)
                        sim.probe["text"] += 1
                        up = [w["urn"], g["urn"], lib["tiid"]]
        k.eq([p.id for p in o.parents], up, "the parents of a collection are not those of the library", id=oid)

    def body(ops):
        def run(c):
            for op in ops:
                if op["op"] == "missing":
                    k.refused(op, lambda: resolver.getMetadata(op["id"]), "metadata of an object which does not exist")
                elif op["op"] == "passage":
                    k.attempt(c, op, lambda: resolver.getTextualNode(op["id"], op["ref"], metadata=op["plus"]), "opening a passage")
                else:
                    if op["id"] is None:
                        out = k.attempt(c, op, lambda: resolver.getMetadata(), "reading the inventory")
                    else:
                        out = k.attempt(c, op, lambda: resolver.getMetadata(op["id"]), "reading the metadata of an object")
                    if out.ok:
                        check(out.value, op["id"])
                        held.append((out.value, op["id"]))
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]])
    for o, oid in held:
        check(o, oid)
        sim.probe["held"] += 1
    return {"checks": k.checks, "nontrivial": k.checks > 0}
