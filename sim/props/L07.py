"""L07: narrowed catalogues of a local resolver."""
from sim.worlds import library, localread, simrepo
from sim.worlds.catalog import Catalog, pruned

META = {
    "runs": {"quick": 3000, "thorough": 75000},
    "rule": "one evaluation = one seeded run of 1-3 clients, possibly interrupting one another inside the library, asking a shared resolver "
            "for catalogues narrowed to groups, works and texts, then checking the whole catalogue again; distinct = distinct event trace",
    "real": ["MyCapytain local resolver, collections, citations", "lxml", "rdflib"],
    "stub": ["file opens and directory listings (real scratch files, simulated order and locale)", "thread scheduling"],
    "assumptions": ["nobody changes the collections"],
    "must_probe": ["group", "work", "text", "inventory", "whole", "refused", "held", "again", "preempted", "prefix", "page", "beyond", "full_last", "empty"],
}


def generate(rng, tier, index):
    world = simrepo.gen_world(rng, groups=3, works=3, texts=2, small=True, extras=False)
    ids = [x["urn"] for g, w, t in library.all_texts(world["lib"]) for x in (g, w, t)]
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(2, 8)):
            ops.append({"op": rng.choice(["get", "get", "get", "get", "whole", "inventory", "bad", "list"]), "id": rng.choice(ids), "k": rng.randrange(9),
                        "lang": rng.choice([None, None, "lat", "eng", "grc", "en", "fr", "fre"]), "category": rng.choice([None, None, "edition", "translation", "commentary"])})
        clients.append(ops)
    return {"world": world, "clients": clients, "delays": [], "preempt": localread.gen_preempt(rng, clients, 0.7, 9000)}


def execute(plan, sim):
    world = plan["world"]
    lib = world["lib"]
    k = localread.Checker(sim, world)
    cat = Catalog(k, sim)
    fs, resolver = simrepo.start(sim, world)
    works = [w["urn"] for g in lib["groups"] for w in g["works"]]

    def compare(o, u):
        want = pruned(lib, u)
        g, ws = want[0]
        if u == g["urn"]:
            cat.group(o, g, ws)
            sim.probe["group"] += 1
        elif u == ws[0][0]["urn"]:
            cat.work(o, g, ws[0][0], ws[0][1])
            sim.probe["work"] += 1
            sim.probe["prefix"] += any(x != u and x.startswith(u) for x in works)
            k.eq([p.id for p in o.parents], [g["urn"], "default"], "a narrowed catalogue does not lead back to its groups", id=u)
        else:
            cat.text(o, g, ws[0][0], ws[0][1][0])
            sim.probe["text"] += 1
            k.eq([p.id for p in o.parents], [ws[0][0]["urn"], g["urn"], "default"], "a narrowed catalogue does not lead back to its groups", id=u)

    def whole():
        inv = resolver.getMetadata()
        k.eq((inv.id, sorted(inv.children)), ("defaultTic", ["default"]), "the whole catalogue is not what is given by default")
        cat.inventory(inv.children["default"], "default", pruned(lib))
        for x in resolver.texts:
            k.file_of(x, k.text(x.id))
            k.eq([p.id for p in x.parents][2:], ["default", "defaultTic"], "a text has lost its place in the catalogue", id=x.id)
        sim.probe["whole"] += 1

    def one(c, held, op):
        u = op["id"]
        o = {"op": op["op"], "id": u}
        if op["op"] == "get":
            out = k.attempt(c, o, lambda: resolver.getMetadata(u), "asking for a part of the catalogue")
            compare(out.value, u)
            held.append((out.value, u))
        elif op["op"] == "whole":
            k.attempt(c, o, whole, "looking at the catalogue")
        elif op["op"] == "inventory":
            out = k.attempt(c, o, lambda: resolver.getMetadata("default"), "asking for an inventory")
            cat.inventory(out.value, "default", pruned(lib), deep=False)
            sim.probe["inventory"] += 1
        elif op["op"] == "list":
            # the texts of a language or kind, under a collection
            want = sorted(t["urn"] for g, w, t in library.all_texts(lib) if u in (g["urn"], w["urn"], t["urn"])
                          and op["lang"] in (None, t["lang"]) and op["category"] in (None, t["kind"]))
            out = k.attempt(c, o, lambda: resolver.__getTextMetadata__(urn=u, lang=op["lang"], category=op["category"]), "listing texts")
            k.eq(sorted(x.id for x in out.value[0]), want, "the texts listed are not those asked for", id=u, lang=op["lang"], category=op["category"])
            k.eq(out.value[2], len(want), "the number of texts listed is not right", id=u)
            mine = dict(urn=u, lang=op["lang"], category=op["category"]) if op["k"] % 3 == 0 else {}
            everything = want if mine else sorted(t["urn"] for _, _, t in library.all_texts(lib))
            allt = len(everything)
            size = op["k"] + 1
            last = max(1, -(-allt // size))
            seen = []
            for page in range(1, last + 1):
                got, p, n = resolver.__getTextMetadata__(page=page, limit=size, pagination=True, **mine)
                k.eq((p, len(got), n), (page, min(size, allt - (page - 1) * size), len(got)), "a page of texts has not its size", page=page, size=size)
                seen.append([x.id for x in got])
            k.eq(sorted(sum(seen, [])), everything, "the pages of texts are not the texts", size=size)
            for page in (last + 1, last + 2, last + 7):
                got, p, n = resolver.__getTextMetadata__(page=page, limit=size, pagination=True, **mine)
                k.eq((p, n, [x.id for x in got]), (last, len(seen[-1]), seen[-1]), "a page beyond the last one is not the last one", page=page, size=size)
            for limit in (size, None, 0, 1000):
                got, p, n = resolver.__getTextMetadata__(limit=limit, pagination=True, **mine)
                k.eq((p, n, len(got)), (1, min(allt, size if limit == size else 10), n), "the first page is not given by default", limit=limit)
            sim.probe["beyond"] += 1
            sim.probe["full_last"] += allt > 0 and allt % size == 0
            sim.probe["empty"] += not allt
            page = last + 1
            sim.probe["page"] += page > 2
        else:
            bad = [u + "9", u[:-1], "urn:cts:latinLit", "nonsense", u + ".x", u + ":1"][op["k"] % 6]
            if bad not in [x["urn"] for g, w, t in library.all_texts(lib) for x in (g, w, t)]:
                k.refused({"op": "bad", "id": bad}, lambda: resolver.getMetadata(bad), "a collection which does not exist is given")

    def body(ops):
        def run(c):
            held = []
            for op in ops:
                one(c, held, op)
            sim.begin_op({"op": "end"})
            for o, u in held:
                compare(o, u)
                sim.probe["held"] += 1
            k.attempt(c, {"op": "end"}, whole, "looking at the catalogue")
            for op in ops:
                if op["op"] == "get":
                    one(c, held, op)
                    sim.probe["again"] += 1
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]], preempt=plan.get("preempt"))
    return {"checks": k.checks, "nontrivial": k.checks > 0}
