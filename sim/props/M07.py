"""M07: catalogues, texts and reference lists stored as pickles, loaded by other processes."""
from sim.core import Violation
from sim.worlds import catalog, library, localread, simrepo

META = {
    "runs": {"quick": 3000, "thorough": 75000},
    "rule": "one evaluation = one seeded run of 2-4 successive simulated processes, each with a graph and objects of its own: the first reads a generated "
            "library (CTS inventory or CapiTainS folders), copies and pickles inventories, groups, works, texts, passages and reference lists, possibly dying "
            "half way through a write; the next ones load them, describe and prune them, and store them again; distinct = distinct event trace",
    "real": ["MyCapytain CTS collections, metadata, citations, references, local texts, exports", "rdflib store", "lxml", "pickle"],
    "stub": ["the disk (in memory, torn writes)", "processes (fresh shared graph)", "file opens"],
    "assumptions": ["nobody writes to the shared graph while it is pickled"],
    "must_probe": ["whole", "group", "work", "text", "local", "remote", "torn", "again", "here", "copied", "described", "pruned", "neighbours", "readable", "passage", "reffs",
                   "exported", "twice"],
}
OTHER = ["Tout autre chose", "Aliud"]


def generate(rng, tier, index):
    world = simrepo.gen_world(rng, repos=1, groups=2, works=2, texts=3, small=True)
    world["source"] = rng.choice(["local", "local", "remote"])
    ids = [None, None]
    tids = []
    for g, w, t in library.all_texts(world["lib"]):
        ids += [g["urn"], w["urn"], t["urn"]]
        tids.append(t["urn"])
    stored = []
    for i in range(rng.randrange(1, 5)):
        op = {"op": "store", "what": "catalogue", "id": rng.choice(ids), "protocol": rng.randrange(2, 6), "torn": rng.random() if rng.random() < 0.2 else None,
              "how": rng.choice(["pickle", "pickle", "pickle", "copy"])}
        if world["source"] == "local" and rng.random() < 0.5:
            op["what"] = rng.choice(["readable", "passage", "reffs"])
            op["id"] = rng.choice(tids)
            t = library.find_text(world["lib"], op["id"])[2]
            ref = localread.rand_ref(rng, t, ranges=0.3, whole=0)
            op.update(ref=ref, level=rng.randrange(1, library.depth(t) + 1))
        stored.append(op)
    lives = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(1, 7)):
            ops.append({"op": rng.choice(["load", "load", "load", "describe", "describe", "prune", "export", "read"]), "at": rng.randrange(1000), "k": rng.randrange(1000),
                        "word": rng.choice(OTHER), "lang": rng.choice(["eng", "fre", "lat"])})
        ops.insert(0, {"op": "load", "at": rng.randrange(1000), "k": 0, "word": "", "lang": ""})
        lives.append({"ops": ops, "neighbours": rng.choice([0, 0, 1, 3]), "again": rng.random() < 0.5})
    return {"world": world, "clients": [stored], "lives": lives, "delays": [], "preempt": {}, "here": rng.random() < 0.3}


def reduce(plan):
    import copy
    for i in range(len(plan["lives"])):
        p = copy.deepcopy(plan)
        del p["lives"][i]
        yield p
        for j in range(len(plan["lives"][i]["ops"])):
            p = copy.deepcopy(plan)
            del p["lives"][i]["ops"][j]
            yield p


class Loaded(object):
    """A catalogue somebody holds: the library it must look like, and what was done to it since."""

    def __init__(self, obj, oid, name):
        self.obj, self.id, self.name = obj, oid, name
        self.labels = {}                # id: [(lang, word)]
        self.gone = set()               # ids which were deleted


def execute(plan, sim):
    import copy
    import pickle
    from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, get_graph, set_graph
    from MyCapytain.resources.collections.cts import XmlCtsTextInventoryMetadata
    from MyCapytain.resources.prototypes.metadata import Collection
    from MyCapytain.errors import UnknownCollection
    world = plan["world"]
    lib = world["lib"]
    k = localread.Checker(sim, world)
    cat = catalog.Catalog(k, sim)
    local = world["source"] == "local"
    texts = None
    if local:
        fs, resolver = simrepo.start(sim, world)
        texts = localread.Texts(sim, world, resolver)
        source, name = resolver.inventory.children["default"], "default"
    else:
        source, name = XmlCtsTextInventoryMetadata.parse(library.inventory_xml(lib)), lib["tiid"]
    sim.probe[world["source"]] += 1
    disk = []                           # (bytes, op, torn, labels, gone)
    held = []

    def kind_of(oid):
        return "whole" if oid is None else {0: "group", 1: "work", 2: "text"}[oid.split(":")[3].count(".")]

    def find(root, oid):
        return root if oid is None else root[oid]

    def model(x):
        """The library as the loaded catalogue must show it."""
        out = []
        for g, ws in catalog.pruned(lib):
            if g["urn"] in x.gone:
                continue
            kept = []
            for w, ts in ws:
                if w["urn"] in x.gone:
                    continue
                kept.append((labelled(x, w, "titles"), [labelled(x, t, "labels") for t in ts if t["urn"] not in x.gone]))
            out.append((labelled(x, g, "names"), kept))
        return out

    def labelled(x, o, key):
        extra = x.labels.get(o["urn"], [])
        o = dict(o, **{key: o[key] + extra})
        if "about" in o:                                    # what is deleted is no longer linked to
            o["about"] = [u for u in o["about"] if u not in x.gone]
        o["sm"] = [v for v in o["sm"] if v[4] not in x.gone]
        return o

    def check(x):
        sim.begin_op({"op": "check", "id": x.id or ""})
        m, kind = model(x), kind_of(x.id)
        sim.probe[kind] += 1
        if x.id is None:
            cat.inventory(x.obj, x.name, m)
            return
        for g, ws in m:
            if kind == "group" and g["urn"] == x.id:
                cat.group(x.obj, g, ws)
            for w, ts in ws:
                if kind == "work" and w["urn"] == x.id:
                    cat.work(x.obj, None, w, ts)
                    k.eq([p.id for p in x.obj.parents][:1], [g["urn"]], "the parents of a loaded work are not those it had", id=x.id)
                for t in ts:
                    if kind == "text" and t["urn"] == x.id:
                        cat.text(x.obj, None, None, t)
                        k.eq([p.id for p in x.obj.parents][:2], [w["urn"], g["urn"]], "the parents of a loaded text are not those it had", id=x.id)
        for oid in x.gone:
            k.eq(oid in x.obj, False, "what was deleted from a catalogue is there again", id=x.id, gone=oid)

    def below(x):
        """Identifiers reachable from what is held, itself included."""
        out = []
        for g, ws in model(x):
            gs = [g["urn"]]
            wss = []
            for w, ts in ws:
                wt = [w["urn"]] + [t["urn"] for t in ts]
                wss += wt
                if x.id == w["urn"]:
                    return wt
                for t in ts:
                    if x.id == t["urn"]:
                        return [t["urn"]]
            if x.id == g["urn"]:
                return gs + wss
            if x.id is None:
                out += gs + wss
        return out

    def opened(obj, op, h=None):
        """A text or passage which was loaded reads as the published one."""
        from MyCapytain.common.reference import CtsReference
        t = k.text(op["id"])
        where = {"id": op["id"], "ref": op.get("ref")}
        if op["what"] == "reffs":
            k.eq(([str(r) for r in obj], obj.level, obj.citation.name), (library.reffs(t, op["level"]), op["level"], t["levels"][op["level"] - 1]["name"]),
                 "a loaded reference list is not the one which was stored", **where)
            k.eq([c.name for c in obj.citation.root], [l["name"] for l in t["levels"]], "the citation of a loaded reference list is not that of the text", **where)
        else:
            p = obj
            if op["what"] == "readable":
                cat.citation(obj.citation, t, where)
                p = k.attempt(None or sim.current, {"op": "read", "id": op["id"], "ref": op["ref"]}, lambda: obj.getTextualNode(CtsReference(op["ref"])), "reading a loaded text").value
            k.eq(p.export(Mimetypes.PLAINTEXT).split(), library.words(t, op["ref"]), "a loaded text does not hold the words it had", **where)
            k.eq(str(p.urn), "%s:%s" % (op["id"], op["ref"]), "a loaded passage has another URN", **where)
        sim.probe[op["what"]] += 1

    def make(c, op):
        o = {a: b for a, b in op.items() if a in ("op", "what", "id", "ref", "level")}
        if op["what"] == "catalogue":
            obj = find(source, op["id"])
        else:
            t = k.text(op["id"])
            text = k.attempt(c, dict(o, op="open"), lambda: texts.text(t), "opening a text").value
            if op["what"] == "readable":
                obj = text
            elif op["what"] == "passage":
                obj = k.attempt(c, dict(o, op="open"), lambda: text.getTextualNode(op["ref"]), "opening a passage").value
            else:
                obj = k.attempt(c, dict(o, op="list"), lambda: text.getReffs(level=op["level"]), "listing references").value
        if op["how"] == "copy":
            obj2 = k.attempt(c, dict(o, op="copy"), lambda: copy.deepcopy(obj), "copying").value
            sim.probe["copied"] += 1
            if op["what"] == "catalogue":
                x = Loaded(obj2, op["id"], name)
                check(x)
                held.append(x)
            else:
                opened(obj2, op)
            return
        data = k.attempt(c, o, lambda: pickle.dumps(obj, protocol=op["protocol"]), "storing a catalogue").value
        torn = op["torn"] is not None
        if torn:
            sim.fired("torn write")
            data = data[:int(len(data) * op["torn"])]
        disk.append((data, op, torn, {}, set()))
        sim.pause()

    def use(c, ops, own):
        """What one process does with what it loads."""
        k_before = None
        for op in ops:
            xs = [x for x in own if isinstance(x, Loaded)]
            kind = op["op"]
            if kind == "load" and disk:
                data, st, torn, labels, gone = disk[op["at"] % len(disk)]
                if torn:
                    k.refused({"op": "load", "id": st["id"] or ""}, lambda: pickle.loads(data), "half a catalogue is loaded as if it were whole")
                    sim.probe["torn"] += 1
                    continue
                before = triples()
                obj = k.attempt(c, {"op": "load", "id": st["id"] or "", "what": st["what"]}, lambda: pickle.loads(data), "loading a catalogue").value
                k.eq(triples() == before, True, "loading a catalogue changed what else the process knows", id=st["id"])
                if st["what"] != "catalogue":
                    opened(obj, st)
                    own.append((obj, st))
                    continue
                x = Loaded(obj, st["id"], name)
                x.labels, x.gone = copy.deepcopy(labels), set(gone)
                sim.probe["twice"] += any(y.id == x.id for y in xs)
                check(x)
                own.append(x)
            elif kind == "describe" and xs:
                x = xs[op["at"] % len(xs)]
                ids = below(x)
                if not ids:
                    continue
                oid = ids[op["k"] % len(ids)]
                target = x.obj if oid == x.id else x.obj[oid]
                prop = {"group": "groupname", "work": "title", "text": "label"}[kind_of(oid)]
                have = [l.lower() for _, ls in current(x, oid) for l, _ in [ls]]
                if op["lang"] in have:
                    continue
                k.attempt(c, {"op": "describe", "id": oid}, lambda: target.set_cts_property(prop, op["word"], op["lang"]), "describing a loaded catalogue")
                x.labels.setdefault(oid, []).append([op["lang"], op["word"]])
                sim.probe["described"] += 1
                check(x)
            elif kind == "prune" and xs:
                x = xs[op["at"] % len(xs)]
                ids = [i for i in below(x) if i != x.id]
                if not ids:
                    continue
                oid = ids[op["k"] % len(ids)]
                with_it = [i for i in below(x) if i != oid and i.startswith(oid + ".")]
                if any(u in with_it for _, ws in model(x) for _, ts in ws for t in ts if t["urn"] not in with_it for u in t["about"]):
                    continue            # whether links to what goes with something deleted stay is not claimed

                def delete():
                    del x.obj[oid]
                k.attempt(c, {"op": "delete", "id": oid}, delete, "deleting from a loaded catalogue")
                x.gone.add(oid)
                if kind_of(oid) in ("group", "work"):
                    x.gone |= {t["urn"] for g, w, t in library.all_texts(lib) if oid in (g["urn"], w["urn"])}
                    x.gone |= {w["urn"] for g, w, t in library.all_texts(lib) if oid == g["urn"]}
                sim.probe["pruned"] += 1
                if x.obj.graph is not None:
                    k.refused({"op": "lookup"}, lambda: x.obj[oid], "what was deleted from a catalogue is still found")
            elif kind == "export" and xs:
                x = xs[op["at"] % len(xs)]
                if x.id is not None or x.gone:
                    continue
                out = k.attempt(c, {"op": "export"}, lambda: x.obj.export(Mimetypes.XML.CapiTainS.CTS), "exporting a loaded catalogue").value
                keep = get_graph()
                set_graph(bind_graph())
                got = k.attempt(c, {"op": "parse"}, lambda: XmlCtsTextInventoryMetadata.parse(out), "reading an export of a loaded catalogue").value
                cat.inventory(got, x.name, model(x))
                set_graph(keep)
                sim.probe["exported"] += 1
            elif kind == "read":
                for y in own:
                    if not isinstance(y, Loaded):
                        opened(*y)
        for x in own:
            if isinstance(x, Loaded):
                # works and groups which lost everything are not compared further than their absence
                check(x)
            else:
                opened(*x)

    def current(x, oid):
        key = {"group": "names", "work": "titles", "text": "labels"}[kind_of(oid)]
        for g, ws in model(x):
            for o in [g] + [w for w, _ in ws] + [t for _, ts in ws for t in ts]:
                if o["urn"] == oid:
                    return [(oid, (l, v)) for l, v in o[key]]
        return []

    def triples():
        return sorted(map(str, get_graph().triples((None, None, None))))

    def first(c):
        for op in plan["clients"][0]:
            make(c, op)
        if plan["here"]:
            # a copy loaded next to the original is independent of it
            use(c, plan["lives"][0]["ops"] if plan["lives"] else [], held)
            sim.probe["here"] += 1
        cat.inventory(source, name, catalog.pruned(lib))
    sim.run_clients([first])

    def life(n, lf):
        def run(c):
            set_graph(bind_graph())
            own = []
            neighbours = []
            for i in range(lf["neighbours"]):
                # the new process knows other things about the same identifiers
                ids = [t["urn"] for _, _, t in library.all_texts(lib)] + ["http://foo.bar/1"]
                o = Collection(ids[(n + i * 7) % len(ids)])
                o.set_label("Neighbour", "eng")
                neighbours.append(o)
                sim.probe["neighbours"] += 1
            before = triples()
            use(c, lf["ops"], own)
            if all(isinstance(x, Loaded) for x in own):     # opening passages tells the process about them
                k.eq(triples() == before, True, "using a loaded catalogue changed what else the process knows")
            for o in neighbours:
                k.eq(str(o.get_label("eng")), "Neighbour", "a loaded catalogue changed the description of another object", id=o.id)
            if lf["again"]:
                for x in own:
                    if isinstance(x, Loaded):
                        data = k.attempt(c, {"op": "store", "id": x.id or ""}, lambda: pickle.dumps(x.obj), "storing a loaded catalogue").value
                        disk.append((data, {"op": "store", "what": "catalogue", "id": x.id}, False, copy.deepcopy(x.labels), set(x.gone)))
                        sim.probe["again"] += 1
        return run
    for n, lf in enumerate(plan["lives"]):
        sim.run_clients([life(n, lf)])
    return {"checks": k.checks, "nontrivial": k.checks > 0}
