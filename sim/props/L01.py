"""L01: the catalogue of CapiTainS repositories is complete."""
from sim.worlds import library, localread, simrepo
from sim.worlds.catalog import Catalog, pruned

META = {
    "runs": {"quick": 5000, "thorough": 125000},
    "rule": "one evaluation = one seeded run that writes a generated library over 1-3 repositories of a simulated disk, opens it "
            "(possibly several times, with disk faults in between) and compares the whole catalogue; distinct = distinct event trace",
    "real": ["MyCapytain local resolver, collections, citations", "lxml", "rdflib"],
    "stub": ["file opens and directory listings (real scratch files, simulated order, faults and locale)"],
    "assumptions": ["XML files declare their encoding when it is not UTF-8", "repositories which share a collection agree about it"],
    "must_probe": ["repos", "shared_group", "shared_work", "same_text_twice", "ghost", "noise", "locale", "reopened", "appended",
                   "failed_by_fault", "about", "structured", "several_languages"],
}


def generate(rng, tier, index):
    world = simrepo.gen_world(rng, groups=3, works=2, texts=2, small=True, empty=True)
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        op = {"op": rng.choice(["open", "open", "open", "append"]), "order": rng.randrange(1 << 20)}
        ops.append(localread.disk_faults(rng, op, 8, 0.3))
    return {"world": world, "clients": [ops], "delays": []}


def execute(plan, sim):
    import random
    world = plan["world"]
    k = localread.Checker(sim, world)
    cat = Catalog(k, sim)
    fs, _ = simrepo.start(sim, world, parse=False)
    want = pruned(world["lib"])
    texts = localread.texts_of(world)
    sim.probe["repos"] += len(world["repos"]) > 1
    sim.probe["shared_group"] += any(len(simrepo.holders(world, g)) > 1 for g in world["lib"]["groups"])
    sim.probe["shared_work"] += any(len(simrepo.holders(world, w)) > 1 for g in world["lib"]["groups"] for w in g["works"])
    sim.probe["same_text_twice"] += any(len(world["place"][t["urn"]]) > 1 for t in texts)
    sim.probe["ghost"] += world["ghost"]
    sim.probe["noise"] += world["noise"]
    sim.probe["locale"] += world["locale"] != "utf-8"

    def whole(resolver):
        inv = resolver.inventory
        k.eq((inv.id, sorted(inv.children)), ("defaultTic", ["default"]), "the catalogue is not in the default collection")
        k.eq(resolver.getMetadata() is inv, True, "the whole catalogue is not what is given by default")
        cat.inventory(inv.children["default"], "default", want)
        k.eq(sorted(x.id for x in resolver.texts), sorted(t["urn"] for t in texts), "the texts of a resolver are not those of its repositories")
        for x in resolver.texts:
            k.file_of(x, k.text(x.id))
            k.eq(resolver.getMetadata()[x.id] is x, True, "a text cannot be looked up", id=x.id)

    def body(c):
        for op in plan["clients"][0]:
            clean = {a: b for a, b in op.items() if a != "faults"}
            for o in ([op, clean] if op.get("faults") else [op]):
                fs.shuffle = op["order"]
                if op["op"] == "open":
                    out = k.attempt(c, o, lambda: simrepo.make(world), "opening repositories")
                    resolver = out.value
                else:
                    # repositories given one after the other
                    cls = simrepo.resolver_class()

                    def several():
                        r = cls([], autoparse=False)
                        folders = simrepo.folders(world)
                        random.Random(op["order"]).shuffle(folders)
                        for f in folders:
                            r.parse([f])
                        return r
                    out = k.attempt(c, o, several, "opening repositories")
                    resolver = out.value
                    sim.probe["appended"] += out.ok
                faulted = c.op_faults
                if out.ok and not faulted:
                    sim.begin_op({"op": "check"})
                    whole(resolver)
                elif out.ok:
                    # a text whose file could not be read is still listed
                    k.eq(sorted(x.id for x in resolver.texts), sorted(t["urn"] for t in texts),
                         "a fault while reading a text makes it disappear")
                sim.probe["reopened"] += len(plan["clients"][0]) > 1
    sim.run_clients([body])
    return {"checks": k.checks, "nontrivial": k.checks > 0}
