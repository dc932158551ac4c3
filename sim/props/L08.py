"""L08: dispatching text groups over inventories."""
from sim.core import Violation
from sim.worlds import library, localread, simrepo
from sim.worlds.catalog import Catalog

META = {
    "runs": {"quick": 6000, "thorough": 150000},
    "rule": "one evaluation = one seeded run that opens generated repositories with generated dispatching rules, all at once or one "
            "after the other, under seeded listing orders; distinct = distinct event trace",
    "real": ["MyCapytain local resolver, dispatcher, collections", "lxml", "rdflib"],
    "stub": ["file opens and directory listings (real scratch files, simulated order, faults and locale)"],
    "assumptions": ["rules depend only on the group they are given and its path"],
    "must_probe": ["default", "by_id", "by_path", "overridden", "undispatched", "raised", "empty_inventory", "shared_group", "appended",
                   "truthy", "failed_by_fault", "narrowed"],
}


def generate(rng, tier, index):
    world = simrepo.gen_world(rng, groups=4, works=2, texts=2, small=True, extras=False, sm=False)
    world["bare"] = {}
    invs = ["urn:inv:%s" % x for x in "abcd"[:rng.randrange(1, 5)]]
    rules = []
    groups = [g["urn"] for g in world["lib"]["groups"]]
    for _ in range(rng.randrange(0, 5)):
        kind = rng.choice(["id", "id", "path", "truthy", "size"])
        rules.append({"inv": rng.choice(invs), "kind": kind, "ids": rng.sample(groups, rng.randrange(0, len(groups) + 1)),
                      "repo": rng.choice(world["repos"]), "n": rng.randrange(3), "how": rng.choice(["add", "decorator"])})
    op = {"op": "open", "order": rng.randrange(1 << 20), "separately": rng.random() < 0.4}
    return {"world": world, "invs": invs, "rules": rules, "default": rng.choice([None, None] + invs), "nodefault": rng.random() < 0.35,
            "strict": rng.random() < 0.4, "clients": [[localread.disk_faults(rng, op, 10, 0.2)]], "delays": []}


def execute(plan, sim):
    from MyCapytain.resolvers.utils import CollectionDispatcher
    from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection, CtsTextInventoryMetadata
    from MyCapytain.errors import UndispatchedTextError
    world = plan["world"]
    lib = world["lib"]
    k = localread.Checker(sim, world)
    cat = Catalog(k, sim)
    fs, _ = simrepo.start(sim, world, parse=False)
    rules = [r for r in plan["rules"]]

    def matches(r, urn, path):
        """(matches, what the rule returns)"""
        if r["kind"] == "id":
            return urn in r["ids"], urn in r["ids"]
        if r["kind"] == "truthy":
            return False, "yes" if urn in r["ids"] else None
        if r["kind"] == "path":
            return path.startswith(r["repo"] + "/"), path.startswith(r["repo"] + "/")
        return (int(urn[-1]) % 3 == r["n"],) * 2

    def setup():
        tic = CtsTextInventoryCollection("urn:tic")
        for i in plan["invs"]:
            inv = CtsTextInventoryMetadata(i, parent=tic)
            inv.set_label("Inventory " + i, "eng")
        d = CollectionDispatcher(tic, default_inventory_name=plan["default"])
        if plan["nodefault"]:
            del d.methods[:]
        for r in rules:
            def rule(collection, path=None, r=r, **kwargs):
                return matches(r, collection.id, path)[1]
            if r["how"] == "add":
                d.add(rule, r["inv"])
            else:
                d.inventory(r["inv"])(rule)
        return d

    def where(urn, path):
        for r in rules[::-1]:
            if matches(r, urn, path)[0]:
                sim.probe["by_path" if r["kind"] == "path" else "by_id"] += 1
                sim.probe["overridden"] += sum(1 for x in rules if matches(x, urn, path)[0]) > 1
                return r["inv"]
        sim.probe["truthy"] += any(r["kind"] == "truthy" and urn in r["ids"] for r in rules)
        if plan["nodefault"]:
            return None
        sim.probe["default"] += 1
        return plan["default"] or plan["invs"][0]

    # the text groups of each repository go where the rules say, and stay with what is already there
    def expected(folders):
        place, content, missed = {}, {}, False
        for repo in folders:
            ri = world["repos"].index(repo)
            for g in lib["groups"]:
                if ri not in simrepo.holders(world, g):
                    continue
                u = g["urn"]
                if u not in place:
                    to = where(u, simrepo.group_path(repo, g))
                    if to is None:
                        missed = True
                        sim.probe["undispatched"] += 1
                        continue
                    place[u] = to
                    content[u] = []
                else:
                    sim.probe["shared_group"] += 1
                content[u].append(ri)
        return place, content, missed

    def body(c):
        op = plan["clients"][0][0]
        fs.shuffle = op["order"]
        folders = list(world["repos"])
        place, content, missed = expected(folders)
        attrs = {"RAISE_ON_UNDISPATCHED": plan["strict"]}
        cls = simrepo.resolver_class(**attrs)

        def build():
            d = setup()
            if op["separately"]:
                r = cls([], dispatcher=d)
                for f in folders:
                    r.parse([f])
                sim.probe["appended"] += len(folders) > 1
                return r
            return cls(folders, dispatcher=d)
        for o in ([op, {a: b for a, b in op.items() if a != "faults"}] if op.get("faults") else [op]):
            if plan["strict"] and missed:
                sim.begin_op(o)
                out = sim.call(build)
                k.eq(out.ok, False, "a group no rule wants is silently dropped although this was not allowed")
                if not c.op_faults:
                    k.eq(isinstance(out.exc, UndispatchedTextError), True, "a group no rule wants is not reported as such", error=out.describe())
                sim.probe["raised"] += 1
                continue
            out = k.attempt(c, o, build, "dispatching text groups")
            if not out.ok or c.op_faults:
                continue
            resolver = out.value
            sim.begin_op({"op": "check"})
            tic = resolver.inventory
            k.eq((tic.id, sorted(tic.children)), ("urn:tic", sorted(plan["invs"])), "the inventories are not those which were set up")
            for i in plan["invs"]:
                want = []
                for g in lib["groups"]:
                    if place.get(g["urn"]) != i:
                        continue
                    ws = []
                    for w in g["works"]:
                        ts = [t for t in w["texts"] if set(world["place"][t["urn"]]) & set(content[g["urn"]])]
                        if ts:
                            ws.append((w, ts))
                    want.append((g, ws))
                sim.probe["empty_inventory"] += not want
                o_ = tic.children[i]
                cat.children(o_, [g["urn"] for g, _ in want], {"id": i})
                k.eq(str(o_.get_label("eng")), "Inventory " + i, "an inventory has lost its label", id=i)
                for g, ws in want:
                    x = o_.children[g["urn"]]
                    k.eq([p.id for p in x.parents], [i, "urn:tic"], "a text group is not in the inventory it was sent to", id=g["urn"])
                    cat.children(x, [w["urn"] for w, _ in ws], {"id": g["urn"]})
                    for w, ts in ws:
                        y = x.children[w["urn"]]
                        cat.children(y, [t["urn"] for t in ts], {"id": w["urn"]})
                        for t in ts:
                            z = y.children[t["urn"]]
                            k.file_of(z, t)
                            k.eq([p.id for p in z.parents], [w["urn"], g["urn"], i, "urn:tic"], "a text is not in the inventory its group was sent to", id=t["urn"])
                            cat.citation(z.citation, t, {"id": t["urn"]})
                            got = sim.call(lambda: resolver.getMetadata(t["urn"]))
                            k.eq(got.ok and [p.id for p in got.value.parents], [w["urn"], g["urn"], i],
                                 "a narrowed catalogue is not in the inventory of its group", id=t["urn"], error=None if got.ok else got.describe())
                            sim.probe["narrowed"] += 1
                texts = [t["urn"] for _, ws in want for _, ts in ws for t in ts]
                k.eq((len(o_), sorted(x.id for x in o_.readableDescendants)), (len(texts), sorted(texts)), "an inventory does not hold the texts sent to it", id=i)
            for g in lib["groups"]:
                if g["urn"] not in place:
                    k.eq(g["urn"] in tic, False, "a group no rule wants is in the catalogue", id=g["urn"])
    sim.run_clients([body])
    return {"checks": k.checks, "nontrivial": k.checks > 0}
