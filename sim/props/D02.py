"""D02: reading a DTS catalogue over a failing network."""
from sim import net
from sim.core import Violation
from sim.worlds import simdts, dtsread
from sim.props import D01
from sim.props.D03 import published, values

META = {
    "runs": {"quick": 6000, "thorough": 150000},
    "rule": "one evaluation = one seeded run of a random reader over a generated catalogue with planned network faults, "
            "followed by a fault-free recovery phase; distinct = distinct event trace in which a fault fired",
    "real": D01.META["real"], "stub": D01.META["stub"],
    "assumptions": ["a fault is visible to the client: an error status, a transport error, or a body cut before its end"],
    "must_probe": ["operation_failed_by_fault", "recovered_children", "recovered_parents", "resumed_after_partial", "recovered_metadata"],
}


def generate(rng, tier, index):
    n = rng.choice([2, 3, 4, 5, 6, 8, 10, 14])
    world = simdts.gen_world(rng, n=n, rich=rng.random() < 0.3, dag=rng.choice([0, 0.15, 0.5]),
                             psize=rng.choice([1, 1, 1, 2, 2, 3, 100]))
    world["rich_members"] = rng.random() < 0.5
    ops = dtsread.gen_ops(rng, rng.randrange(2, 12), world, evolve=False)
    rate = rng.choice([0.15, 0.4, 0.8])
    kinds = rng.sample(net.DISRUPTIVE, rng.randrange(1, 5)) + rng.sample(net.BENIGN, rng.randrange(0, 3))
    for op in ops:
        if rng.random() < rate:
            op["faults"] = {str(rng.choice([0, 0, 1, 1, 2, 3, 5])): rng.choice(kinds) for _ in range(rng.choice([1, 1, 2]))}
    if rng.random() < 0.5:
        # a long list whose later pages fail, read again at once
        world["ppsize"] = rng.choice([1, 1, 2])
        nav = rng.choice(["children", "parents"])
        c = max(world["ids"], key=lambda i: (len(world["coll"][i][nav]), -len(world["coll"][i]["children"]), rng.random()))
        how = "list" if rng.random() < 0.5 else rng.choice(dtsread.CHILD_READS if nav == "children" else dtsread.PARENT_READS)
        op = {"op": nav, "h": -1, "how": how, "k": rng.randrange(50)}
        ops += [{"op": "open", "id": c}, dict(op, faults={str(rng.randrange(3)): rng.choice(kinds)})]
        ops += [dict(op, how="list")] if rng.random() < 0.5 else []
    if rng.random() < 0.4:
        # what is known from a summary is asked for again and again while answers fail
        some = [c for c in world["ids"] if world["coll"][c]["children"]]
        if some:
            ops += [{"op": "open", "id": rng.choice(some)}, {"op": "down", "h": -1, "k": rng.randrange(50)}]
            for _ in range(rng.choice([1, 2])):
                ops.append({"op": "retrieve", "h": -1, "faults": {"0": rng.choice(kinds)}})
    return {"world": world, "clients": [ops], "delays": []}


def execute(plan, sim):
    from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
    from rdflib import URIRef
    world = plan["world"]
    n = net.Net(sim)
    server = simdts.DtsServer(world)
    n.servers[world["base"]] = server
    resolver = HttpDtsResolver(server.endpoint)
    r = dtsread.Reader(sim, world, server, resolver, faulty=True)

    def recover(h, nav):
        """Faults have stopped: the first read completes, within the number of published pages (+ discovery)."""
        items = world["coll"][h.id]["children" if nav == "children" else "parents"]
        size = world["psize"] if nav == "children" else world["ppsize"]
        resumed = nav not in h.complete and r.failed_reads
        op = {"op": nav, "h": r.handles.index(h), "how": "list", "k": 0}
        (r.read_children if nav == "children" else r.read_parents)(h, op)
        used = sim.current.io_index
        r.checks += 1
        if used > server.pages(len(items), size) + 1:
            raise Violation("recovering after a failure takes more requests than there are pages", of=h.id, nav=nav,
                            requests=used)
        if items:
            sim.probe["recovered_%s" % nav] += 1
            if resumed and len(items) > size:
                sim.probe["resumed_after_partial"] += 1
        # and once complete it stays so
        (r.read_children if nav == "children" else r.read_parents)(h, op)

    def described(h):
        """Retrieved at last, it carries all that is published."""
        m, o = world["coll"][h.id], h.obj
        for t in simdts.DC_TERMS + simdts.EXT_TERMS:
            want = published(((m.get("dc") or {}).get(t) if ":" not in t else (m.get("ext") or {}).get(t)) or [])
            r.eq(values(o.metadata.get(URIRef(t if ":" in t else simdts.DCT + t))), want,
                 "what a collection says of itself is not complete after a failure", of=h.id, term=t)
            sim.probe["recovered_metadata"] += bool(want and h.summary and not world["rich_members"])
        r.eq([str(x) for x in o.metadata.get(URIRef(simdts.HYD + "description"))], [m["description"]] if "description" in m else [],
             "what a collection says of itself is not complete after a failure", of=h.id)

    def body(c):
        for op in plan["clients"][0]:
            r.run(op)
        for h in list(r.handles):
            recover(h, "children")
            recover(h, "parents")
            r.run({"op": "retrieve", "h": r.handles.index(h)})
            described(h)
            r.run({"op": "size", "h": r.handles.index(h)})
        r.run({"op": "open", "id": world["root"]})
    sim.run_clients([body])
    return {"checks": r.checks, "nontrivial": r.failed_reads > 0, "state": "%d/%d" % (len(r.handles), r.failed_reads)}
