"""M04: exported inventories bring the catalogue back in another process."""
import copy
from sim.core import Violation
from sim.worlds import catalog, library, localread, simcts, simrepo

META = {
    "runs": {"quick": 2500, "thorough": 62500},
    "rule": "one evaluation = one seeded run of 2-4 successive simulated processes, each with a graph of its own: the first reads a generated "
            "library (CTS inventory or CapiTainS folders) next to other catalogues and stores exports of it, possibly interrupted by other "
            "threads or dying half way through a write; the next ones read what is stored and export again; distinct = distinct event trace",
    "real": ["MyCapytain CTS and CapiTainS exports, inventory parsing, collections, citations, metadata, local resolver, DTS collections", "lxml", "rdflib"],
    "stub": ["the disk (in memory, torn writes)", "processes (fresh shared graph)", "thread scheduling", "file opens"],
    "assumptions": ["what survives a crash is a prefix of what was written"],
    "must_probe": ["xml", "capitains", "whole", "group", "work", "text", "collection", "local", "remote", "torn", "third", "neighbours", "preempted",
                   "structured", "about", "several_languages", "special", "etree", "several", "nameless"],
}
NEIGHBOURS = ["http://foo.bar/ontology#weird", "http://purl.org/dc/terms/extent", "http://other.org/ns/name", "http://chs.harvard.edu/xmlns/ctsx", "urn:x-odd:thing",
              "http://foo.bar/1879", "http://chs.harvard.edu/xmlns/cts/", "http://www.w3.org/1999/02/22-rdf-syntax-ns#_1"]


def generate(rng, tier, index):
    world = simrepo.gen_world(rng, repos=rng.choice([1, 1, 2]), groups=2, works=2, texts=3, small=True, empty=True)
    world["source"] = rng.choice(["local", "remote"])
    world["split"] = rng.random() < 0.5
    world["neighbours"] = [[rng.choice(["http://foo.bar/%d" % i, "urn:cts:latinLit:phi9%d" % i]), rng.choice(NEIGHBOURS), rng.choice(["x", "A & B", "<"])]
                           for i in range(rng.choice([0, 0, 1, 3]))]
    ids = [None, None]
    for g, w, t in library.all_texts(world["lib"]):
        if rng.random() < 0.2:
            t["levels"][0]["name"] = rng.choice(["book & part", "\"vers\"", "a < b", "l'acte"])
            world["special"] = True
        if rng.random() < 0.1:
            t["labels"] = [["eng", "]]> & <b>"]]
        ids += [g["urn"], w["urn"], t["urn"]]
    if rng.random() < 0.15:
        # nothing has a name: nothing but the collections themselves is in the namespace of CTS
        world["nameless"] = True
        for g, w, t in library.all_texts(world["lib"]):
            g["names"], w["titles"], t["labels"], t["descs"] = [], [], [], []
            if rng.random() < 0.8:
                t["about"] = []
    clients = []
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.randrange(1, 5)):
            op = {"op": "export", "id": rng.choice(ids), "as": rng.choice(["xml", "capitains"]), "torn": None, "file": rng.randrange(1000000),
                  "read": rng.choice(["bytes", "str", "node"])}
            if rng.random() < 0.15:
                op["torn"] = rng.random()
            ops.append(op)
        clients.append(ops)
    return {"world": world, "clients": clients, "delays": [rng.randrange(1, 30) for _ in range(40)] if len(clients) > 1 else [],
            "preempt": localread.gen_preempt(rng, clients, rate=0.7), "again": rng.choice([0, 1, 1, 2])}


def bare(x):
    """A library without structured metadata."""
    x = copy.deepcopy(x)
    x["sm"] = []
    for k in x.get("works", []) + x.get("texts", []):
        k.update(bare(k))
    return x


def execute(plan, sim):
    import io
    from lxml import etree, objectify
    from MyCapytain.common.constants import Mimetypes, bind_graph, set_graph
    from MyCapytain.common.metadata import Metadata
    from MyCapytain.resources.collections.cts import (XmlCtsTextInventoryMetadata, XmlCtsTextgroupMetadata, XmlCtsWorkMetadata,
                                                      XmlCtsEditionMetadata, XmlCtsTranslationMetadata, XmlCtsCommentaryMetadata)
    from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
    from rdflib import URIRef
    world = plan["world"]
    lib = world["lib"]
    k = localread.Checker(sim, world)
    cat = catalog.Catalog(k, sim)
    if world["source"] == "local":
        fs, resolver = simrepo.start(sim, world)
        top, name = resolver.inventory, "default"
        source = top.children["default"]
    else:
        source, name, top = XmlCtsTextInventoryMetadata.parse(library.inventory_xml(lib)), lib["tiid"], None
    inventories = [(source, name, lib)]
    if world["source"] != "local" and world["split"]:
        # the same texts as several inventories which are known together
        top = CtsTextInventoryCollection(identifier="together")
        inventories = []
        for i in range(2):
            part = dict(lib, groups=lib["groups"][i::2], tiid="part%d" % i)
            inventories.append((XmlCtsTextInventoryMetadata.parse(library.inventory_xml(part)), part["tiid"], part))
            inventories[-1][0].parent = top
        source, name = top, "together"
        sim.probe["several"] += 1
    sim.probe[world["source"]] += 1
    sim.probe["nameless"] += bool(world.get("nameless"))
    sim.probe["special"] += bool(world.get("special"))
    for node, key, value in world["neighbours"]:
        Metadata(node=URIRef(node)).add(URIRef(key), value, lang="eng")
        sim.probe["neighbours"] += 1
    disk = {}
    MIME = {"xml": Mimetypes.XML.CTS, "capitains": Mimetypes.XML.CapiTainS.CTS}

    def find(root, oid):
        return root if oid is None else root[oid]

    def kind_of(oid):
        return None if oid is None else {0: "group", 1: "work", 2: "text"}[oid.split(":")[3].count(".")]

    def store(c, op, obj, faults=True, nm=name):
        o = {a: b for a, b in op.items() if a in ("op", "id", "as")}
        target = obj
        if op["id"] is None and top is not None and op["file"] % 3 == 0 and obj is source and obj is not top:
            target = top
            sim.probe["collection"] += 1
        out = k.attempt(c, o, lambda: target.export(MIME[op["as"]]), "exporting a collection")
        data = out.value
        if not isinstance(data, str):
            raise Violation("an export is not text", got=type(data).__name__, id=op["id"], as_=op["as"])
        data = data.encode("utf-8")
        if faults and op["torn"] is not None:
            data = data[:int(len(data.rstrip()) * op["torn"])]
            sim.fired("torn write")
        inside = catalog.pruned(lib, op["id"])
        ns = "{%s}" % library.CTS
        want = [["TextInventory", None]] if op["id"] is None else []
        if kind_of(op["id"]) in (None, "group"):
            want += [["textgroup", g["urn"]] for g, ws in inside]
        if kind_of(op["id"]) != "text":
            want += [["work", w["urn"]] for g, ws in inside for w, ts in ws]
        want += [[t["kind"], t["urn"]] for g, ws in inside for w, ts in ws for t in ts]
        got = [[e.tag, e.get("urn")] for e in etree.fromstring(out.value.encode("utf-8")).iter("{*}TextInventory", "{*}textgroup", "{*}work", "{*}edition", "{*}translation", "{*}commentary")]
        k.eq(sorted(got, key=str), sorted([[ns + a, b] for a, b in want], key=str), "an export does not contain each collection once", id=op["id"], as_=op["as"])
        disk["%d.xml" % op["file"]] = (data, op, top.id if target is top and top is not None else nm)
        if op["as"] == "xml":
            tree_ = k.attempt(c, dict(o, op="etree"), lambda: obj.export(Mimetypes.PYTHON.ETREE), "exporting a collection as a tree").value
            k.eq(canonical(tree_), canonical(etree.fromstring(out.value if target is obj else obj.export(MIME["xml"]))), "the tree of a collection is not its XML", id=op["id"])
            sim.probe["etree"] += 1
        sim.probe[op["as"]] += 1
        sim.pause()

    def canonical(x):
        return [(e.tag, sorted(e.attrib.items()), (e.text or "").strip()) for e in etree.fromstring(etree.tostring(x)).iter() if isinstance(e.tag, str)]

    def check(o, op, nm):
        """What was read is what the library says of that object."""
        sm = op["as"] == "capitains"
        oid = op["id"]
        for g, ws in catalog.pruned(lib, oid):
            g2 = g if sm else bare(g)
            kind = kind_of(oid)
            ws2 = [(w if sm else bare(w), [t if sm else bare(t) for t in ts]) for w, ts in ws]
            if oid is None:
                continue
            if kind == "group":
                cat.group(o, g2, ws2)
            elif kind == "work":
                cat.work(o, None, ws2[0][0], ws2[0][1])
            else:
                cat.text(o, None, None, ws2[0][1][0])
        if oid is None:
            cat.inventory(o, nm, [(g if sm else bare(g), [(w if sm else bare(w), [t if sm else bare(t) for t in ts]) for w, ts in ws])
                                  for g, ws in catalog.pruned(lib)])
        sim.probe[kind_of(oid) or "whole"] += 1

    def parser(op):
        kind = kind_of(op["id"])
        if kind is None:
            return XmlCtsTextInventoryMetadata.parse
        if kind == "group":
            return XmlCtsTextgroupMetadata.parse
        if kind == "work":
            return XmlCtsWorkMetadata.parse
        return {"edition": XmlCtsEditionMetadata, "translation": XmlCtsTranslationMetadata, "commentary": XmlCtsCommentaryMetadata}[k.text(op["id"])["kind"]].parse

    def body(ops):
        def run(c):
            for op in ops:
                store(c, op, find(source, op["id"]))
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]], preempt=plan.get("preempt"))
    # exporting changed nothing
    for part, pname, plib in inventories:
        cat.inventory(part, pname, catalog.pruned(plib))

    def later(depth):
        def run(c):
            files = dict(disk)
            disk.clear()
            for fname in sorted(files):
                data, op, nm = files[fname]
                o = {"op": "read", "id": op["id"], "as": op["as"], "file": fname}
                torn = op["torn"] is not None and depth == 0
                give = {"bytes": lambda: io.BytesIO(data), "str": lambda: data.decode("utf-8", "replace"),
                        "node": lambda: objectify.fromstring(data)}[op["read"]]
                # every stored file is read by a process of its own
                set_graph(bind_graph())
                if torn:
                    k.refused(o, lambda: parser(op)(give()), "half an inventory is read as if it were whole")
                    sim.probe["torn"] += 1
                    continue
                out = k.attempt(c, o, lambda: parser(op)(give()), "reading an exported collection")
                check(out.value, op, nm)
                if depth < plan["again"]:
                    sim.probe["third"] += 1
                    store(c, dict(op, file=op["file"] * 3 + 1), out.value, faults=False, nm=nm)
        return run
    for depth in range(1 + plan["again"]):
        sim.run_clients([later(depth)])
    return {"checks": k.checks, "nontrivial": k.checks > 0}
