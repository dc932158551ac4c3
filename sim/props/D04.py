"""D04: DTS reference lists are complete, in order and once, across pages."""
from sim import net
from sim.core import Violation
from sim.worlds import simdts
from sim.props.D03 import published, values

META = {
    "runs": {"quick": 4000, "thorough": 100000},
    "rule": "one evaluation = one seeded run of 1-3 concurrent clients listing references of generated texts; distinct = "
            "distinct event trace",
    "real": ["MyCapytain resolver, retriever, references", "requests", "urllib3 response decoding", "pyld", "rdflib"],
    "stub": ["the DTS server (generated texts)", "sockets", "clock"],
    "assumptions": ["the reference list of a text does not change while its pages are being read"],
    "must_probe": ["multi_page", "ten_pages", "grouped", "metadata", "single_reference", "empty_list", "failed_by_fault",
                   "unknown_text", "range_request"],
}


def gen_request(rng, world, ids):
    tid = rng.choice(ids)
    t = world["texts"][tid]
    op = {"op": "reffs", "id": tid, "level": rng.choice([1, 1, 1, 2, 3])}
    nodes = simdts.text_levels(t)
    r = rng.random()
    if r < 0.3:
        op["ref"] = [rng.choice(nodes)[1]["start"]]
    elif r < 0.45:
        d = rng.choice(nodes)[0]
        same = [n["start"] for dd, n, _ in nodes if dd == d]
        i = rng.randrange(len(same))
        j = rng.randrange(i, len(same))
        if j > i:
            op["ref"] = [same[i], same[j]]
    if op.get("ref"):
        op["as"] = rng.choice(["dts", "base", "str"]) if len(op["ref"]) == 1 else rng.choice(["dts", "base"])
    if rng.random() < 0.2:
        op["group"] = rng.choice([2, 3, 5])
    if rng.random() < 0.15:
        op["exclude"] = rng.choice(["ext", "dc", "ext dc"])
    return op


def generate(rng, tier, index):
    world = simdts.gen_world(rng, n=3, rich=False)
    ids = simdts.add_texts(rng, world, rng.choice([1, 2]), sizes=[1, 2, 3, 5, 8] + ([11, 23] if index % 4 == 0 else []))
    clients = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ops = [gen_request(rng, world, ids) for _ in range(rng.randrange(1, 5))]
        if rng.random() < 0.1:
            ops.append({"op": "unknown"})
        clients.append(ops)
    if rng.random() < 0.5:
        for ops in clients:
            for op in ops:
                if rng.random() < 0.4:
                    op["faults"] = {str(rng.randrange(5)): rng.choice(net.DISRUPTIVE + net.BENIGN * 2)}
    delays = [rng.randrange(1, 50) for _ in range(60)] if len(clients) > 1 else []
    return {"world": world, "clients": clients, "delays": delays}


def make_ref(parts, how):
    from MyCapytain.common.reference import DtsReference, BaseReference
    if how == "str":
        return parts[0]
    return (DtsReference if how == "dts" else BaseReference)(*parts)


def check_set(r, got, want, where, checks):
    from rdflib import URIRef

    def eq(a, b, what, **d):
        checks[0] += 1
        if a != b:
            raise Violation(what, got=a, expected=b, **dict(where, **d))
    eq([[x.start, x.end] for x in got], [[x["start"], x.get("end")] for x in want["refs"]],
       "the references listed are not the published ones in the published order")
    for g, w in zip(got, want["refs"]):
        eq(bool(g.is_range()), bool(w.get("end")), "a reference is wrongly a range", ref=w["start"])
        eq(None if g.type is None else str(g.type), w.get("type") or want["type"], "a reference has the wrong citation type",
           ref=w["start"])
        for t in simdts.DC_TERMS + simdts.EXT_TERMS:
            uri = URIRef(t if ":" in t else simdts.DCT + t)
            pub = (w.get("ext") if ":" in t else w.get("dc")) or {}
            eq(values(g.metadata.get(uri)), published(pub.get(t) or []), "the metadata of a reference is not the published one",
               ref=w["start"], term=str(uri))
            if t in pub:
                r.probe["metadata"] += 1
    eq(got.level, want["level"], "the level of a reference list is not the published one")
    eq(got.citation.name if got.citation is not None else None, want["type"],
       "the citation type of a reference list is not the published one")


def execute(plan, sim):
    from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
    world = plan["world"]
    n = net.Net(sim)
    server = simdts.DtsServer(world)
    n.servers[world["base"]] = server
    resolver = HttpDtsResolver(server.endpoint)
    checks = [0]

    def one(c, op, allow=True):
        sim.begin_op(op)
        if op["op"] == "unknown":
            out = sim.call(lambda: resolver.getReffs("urn:not:published"))
            checks[0] += 1
            if out.ok:
                raise Violation("listing the references of an unknown text succeeds", got=[str(x) for x in out.value])
            sim.probe["unknown_text"] += 1
            return
        t = world["texts"][op["id"]]
        parts = op.get("ref") or []
        kw = {"level": op["level"]}
        if parts:
            kw["subreference"] = make_ref(parts, op["as"])
        extra = {}
        if op.get("group"):
            extra["groupBy"] = op["group"]
        if op.get("exclude"):
            extra["exclude"] = op["exclude"]
        if extra:
            kw["additional_parameters"] = extra
        want = simdts.nav_answer(t, op["level"], parts[0] if len(parts) == 1 else None,
                                 parts[0] if len(parts) == 2 else None, parts[1] if len(parts) == 2 else None,
                                 op.get("group", 1), op.get("exclude"))
        out = sim.call(lambda: resolver.getReffs(op["id"], **kw))
        if not out.ok:
            checks[0] += 1
            if not c.op_faults:
                raise Violation("listing references failed although nothing went wrong on the network", op=op,
                                error=out.describe())
            sim.probe["failed_by_fault"] += 1
            return
        check_set(sim, out.value, want, {"op": {k: v for k, v in op.items() if k != "faults"}}, checks)
        k = len(want["refs"])
        pages = server.pages(k, world["nsize"])
        if c.io_index > pages + 1:
            raise Violation("more requests than there are pages", op=op, requests=c.io_index, pages=pages)
        sim.probe["multi_page"] += pages > 1
        sim.probe["ten_pages"] += pages >= 10
        sim.probe["single_reference"] += k == 1
        sim.probe["empty_list"] += k == 0
        sim.probe["grouped"] += bool(op.get("group"))
        sim.probe["range_request"] += len(parts) == 2

    def body(ops):
        def run(c):
            for op in ops:
                one(c, op)
            for op in ops:          # faults have stopped: everything is listed
                one(c, {k: v for k, v in op.items() if k != "faults"})
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]])
    return {"checks": checks[0], "nontrivial": checks[0] > 0}
