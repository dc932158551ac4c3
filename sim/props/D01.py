"""D01: a lazily read DTS catalogue is complete, exact and read once."""
from sim import net
from sim.worlds import simdts, dtsread

META = {
    "runs": {"quick": 6000, "thorough": 150000},
    "rule": "one evaluation = one seeded run of a random reader over a generated catalogue; distinct = distinct event "
            "trace (every request with its URL and virtual time, in order) of a run that made at least one listing",
    "real": ["MyCapytain resolver, retriever, lazy collections", "requests", "urllib3 response decoding", "pyld", "rdflib"],
    "stub": ["the DTS server (generated catalogue)", "sockets", "clock"],
    "assumptions": ["a catalogue may change between two openings, not while one opened collection is being read",
                    "totalItems is the number of children"],
    "must_probe": ["catalogue_changed", "multi_page_children", "multi_page_parents", "reread_without_requests", "descendants"],
}


def generate(rng, tier, index):
    n = rng.choice([2, 3, 4, 5, 6, 8, 10, 14] + ([20, 30] if index % 10 == 0 else []))
    world = simdts.gen_world(rng, n=n, rich=rng.random() < 0.2, dag=rng.choice([0, 0.15, 0.5]))
    world["rich_members"] = rng.random() < 0.5
    ops = dtsread.gen_ops(rng, rng.randrange(3, 16), world)
    if rng.random() < 0.4:
        for op in ops:
            if rng.random() < 0.3:
                op["faults"] = {str(rng.randrange(4)): rng.choice(net.BENIGN)}
    return {"world": world, "clients": [ops], "delays": []}


def execute(plan, sim):
    from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
    world = plan["world"]
    n = net.Net(sim)
    server = simdts.DtsServer(world)
    n.servers[world["base"]] = server
    resolver = HttpDtsResolver(server.endpoint)
    r = dtsread.Reader(sim, world, server, resolver, faulty=False)

    def body(c):
        for op in plan["clients"][0]:
            r.run(op)
    sim.run_clients([body])
    return {"checks": r.checks, "nontrivial": r.checks > 0, "state": str(len(r.handles))}
