"""M06: RDF and JSON-LD exports of collections hold exactly the statements about them."""
from sim.core import Violation
from sim.props import M05
from sim.worlds import library, localread, simrepo, tree

META = {
    "runs": {"quick": 2500, "thorough": 62500},
    "rule": "one evaluation = one seeded run: collections (made by hand, or read from a generated CTS inventory or CapiTainS folders), linked to one another "
            "and to other objects of the shared graph, are described and exported by 1-3 clients interrupting one another inside the library; a "
            "later process loads what was exported; distinct = distinct event trace",
    "real": ["MyCapytain collections, RDF and JSON-LD export, subgraphs, metadata, CTS collections, local resolver", "rdflib store, serializers and parsers"],
    "stub": ["the disk (in memory)", "processes (fresh shared graph)", "thread scheduling", "blank node identifiers"],
    "assumptions": ["keys are URIs ending in an XML name", "plain values are neither false nor zero nor empty: the JSON-LD writer of rdflib 7.6 drops those next to other values"],
    "must_probe": ["rdf", "jsonld", "plain", "local", "remote", "linked", "cycle", "linked_to", "bnode", "twin", "preempted", "bound", "loaded", "parent_chain", "typed",
                   "strangers", "order"],
}
DC, DCT, SKOS, XSD = M05.DC, M05.DCT, M05.SKOS, M05.XSD
KEYS = M05.KEYS + ["http://foo.bar/ontology#seeAlso", DCT + "isPartOf"]


def gen_value(rng):
    v = M05.gen_value(rng)
    return {"v": True} if v.get("v") in (0, False) or (v.get("v") == "" and not v.get("lang")) else v


def generate(rng, tier, index):
    source = rng.choice(["plain", "plain", "plain", "local", "remote"])
    plan = {"source": source, "bound": rng.sample(M05.BOUND, rng.choice([0, 0, 1, 2]))}
    count = rng.choice([1, 1, 2, 3])
    if source == "plain":
        ids = []
        clients = []
        for c in range(count):
            names = ["http://foo.bar/%d/%d" % (c, i) for i in range(rng.randrange(2, 9))] + ["_:b%d_%d" % (c, i) for i in range(rng.choice([0, 0, 1, 2]))]
            ids.append(names)
            ops = [{"op": "make", "id": names[0], "parent": None}]
            for n in names[1:]:
                if not n.startswith("_:") and rng.random() < 0.6:
                    made = [o["id"] for o in ops if o["op"] == "make"]
                    ops.append({"op": "make", "id": n, "parent": rng.choice(made + [None])})
            for _ in range(rng.randrange(2, 14)):
                ops.append({"op": "say", "id": rng.choice(names), "key": rng.choice(KEYS), "value": gen_value(rng), "link": rng.choice(names) if rng.random() < 0.5 else None,
                            "twin": rng.random() < 0.25})
            for _ in range(rng.randrange(1, 5)):
                made = [o["id"] for o in ops if o["op"] == "make"]
                ops.insert(rng.randrange(len(made), len(ops) + 1), {"op": "export", "id": rng.choice(made), "as": rng.choice(["rdf", "jsonld"]), "load": rng.random() < 0.4})
            clients.append(ops)
        plan["clients"] = clients
    else:
        plan["world"] = simrepo.gen_world(rng, repos=rng.choice([1, 1, 2]), groups=2, works=2, texts=3, small=True)
        ids = [None]
        for g, w, t in library.all_texts(plan["world"]["lib"]):
            for x in g["sm"] + w["sm"] + t["sm"]:
                x[4] = x[4] or "-"
            ids += [g["urn"], w["urn"], t["urn"]]
        plan["clients"] = [[{"op": "export", "id": rng.choice(ids), "as": rng.choice(["rdf", "jsonld"]), "load": rng.random() < 0.4} for _ in range(rng.randrange(1, 4))]
                           for _ in range(count)]
    plan["delays"] = [rng.randrange(1, 20) for _ in range(40)] if count > 1 else []
    plan["preempt"] = localread.gen_preempt(rng, plan["clients"], rate=0.7)
    return plan


def execute(plan, sim):
    from MyCapytain.common.constants import Mimetypes, bind_graph, get_graph, set_graph
    from MyCapytain.common.metadata import Metadata
    from MyCapytain.resources.collections.cts import XmlCtsTextInventoryMetadata
    from MyCapytain.resources.prototypes.metadata import Collection
    from rdflib import BNode, Graph, Literal, URIRef
    from rdflib.compare import isomorphic, graph_diff, to_isomorphic
    k = tree.Forest(sim)
    eq = k.eq
    MIME = {"rdf": Mimetypes.XML.RDF, "jsonld": Mimetypes.JSON.LD}
    BASE = "http://base.invalid/"        # identifiers which are not absolute are read relatively to it
    objects, stored = {}, []
    for prefix, ns in plan["bound"]:
        get_graph().bind(prefix, ns)
        sim.probe["bound"] += 1
    source = None
    if plan["source"] == "local":
        source = simrepo.start(sim, plan["world"])[1].inventory
    elif plan["source"] == "remote":
        source = XmlCtsTextInventoryMetadata.parse(library.inventory_xml(plan["world"]["lib"]))
    sim.probe[plan["source"]] += 1

    def canon(x):
        if isinstance(x, Literal):
            v = x.toPython()
            if x.datatype and isinstance(v, (bool, int, float)) and str(x.datatype) != XSD + "decimal":
                return Literal(str(v), datatype=x.datatype)
            return Literal(str(x), lang=x.language.lower() if x.language else None, datatype=None if str(x.datatype) == XSD + "string" else x.datatype, normalize=False)
        if isinstance(x, URIRef) and x.startswith(BASE):
            return URIRef(x[len(BASE):])
        return x

    def expected(target):
        """The statements of an object, of what it leads to, and those which lead to it."""
        statements = list(get_graph())
        by_subject = {}
        for s, p, o in statements:
            by_subject.setdefault(s, []).append((s, p, o))
        out, todo, seen = Graph(), [target], set()
        while todo:
            n = todo.pop()
            if n in seen or isinstance(n, Literal):
                continue
            seen.add(n)
            for s, p, o in by_subject.get(n, ()):
                out.add((s, p, canon(o)))
                todo.append(o)
        for s, p, o in statements:
            if o == target:
                out.add((s, p, o))
                sim.probe["linked_to"] += 1
        sim.probe["linked"] += len(seen) > 4
        sim.probe["bnode"] += any(isinstance(x, BNode) for x in seen)
        sim.probe["cycle"] += any(o == target and isinstance(s, URIRef) and s in seen for s, p, o in statements)
        sim.probe["strangers"] += len(out) < len(statements)
        sim.probe["parent_chain"] += sum(str(p).endswith("#parent") for s, p, o in out) > 1
        return out

    def node(n):
        return BNode(n[2:]) if n.startswith("_:") else URIRef(n)

    def export(op, o):
        want = expected(o.asNode())
        text = k.attempt(op, lambda: o.export(MIME[op["as"]]), "exporting a collection")
        if isinstance(text, bytes):
            text = text.decode("utf-8")
        raw, got = Graph(), Graph()
        out = sim.call(lambda: raw.parse(data=text, format="xml" if op["as"] == "rdf" else "json-ld", publicID=BASE))
        if not out.ok:
            raise Violation("an exported collection cannot be read", id=o.id, as_=op["as"], error=out.describe())
        for s, p, x in raw:
            got.add((canon(s), p, canon(x)))
        k.checks += 1
        if not isomorphic(got, want):
            both, extra, missing = graph_diff(to_isomorphic(got), to_isomorphic(want))
            raise Violation("an exported collection does not hold the statements about it", id=o.id, as_=op["as"],
                            extra=sorted(str(x) for x in extra)[:4], missing=sorted(str(x) for x in missing)[:4])
        sim.probe[op["as"]] += 1
        if op["load"]:
            stored.append((o.id, op["as"], text, sorted((str(p), str(canon(x)), str(getattr(x, "language", None) or "").lower()) for p, x in o.graph.predicate_objects(o.asNode())
                                                        if not isinstance(x, BNode) and not str(p).endswith("#type")),
                           sorted((str(getattr(x, "language", None) or "").lower(), str(x)) for x in labels(o))))

    def labels(o):
        return o.graph.objects(o.asNode(), URIRef("http://www.w3.org/2000/01/rdf-schema#label"))

    def body(ops):
        def run(c):
            for op in ops:
                if op["op"] == "make":
                    def make():
                        o = Collection(op["id"])
                        o.set_label("label of %s" % op["id"], "eng")
                        if op["parent"] in objects:
                            o.parent = objects[op["parent"]]
                        return o
                    objects[op["id"]] = k.attempt(op, make, "making a collection")
                elif op["op"] == "say":
                    m = Metadata(node=node(op["id"]))
                    v = op["value"]
                    if op["link"]:
                        k.attempt(op, lambda: m.add(URIRef(op["key"]), node(op["link"])), "linking an object")
                        if op["twin"] and not op["link"].startswith("_:"):
                            # an identifier which is also recorded as a string
                            k.attempt(op, lambda: m.add(URIRef(DC + "identifier"), op["link"]), "describing an object")
                            sim.probe["twin"] += 1
                    elif "uri" in v:
                        k.attempt(op, lambda: m.add(URIRef(op["key"]), URIRef(v["uri"])), "describing an object")
                    elif v.get("typed"):
                        k.attempt(op, lambda: m.add(URIRef(op["key"]), Literal(v["v"][0], datatype=URIRef(XSD + v["v"][1]))), "describing an object")
                        sim.probe["typed"] += 1
                    else:
                        k.attempt(op, lambda: m.add(URIRef(op["key"]), v["v"], lang=v.get("lang")) if v.get("lang") else m.add(URIRef(op["key"]), v["v"]),
                                  "describing an object")
                elif source is not None or op["id"] in objects:
                    o = objects[op["id"]] if source is None else source if op["id"] in (None, source.id) else source[op["id"]]
                    export(op, o)
                sim.pause()
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
            sim.probe["order"] += len(ops) > 3
        return run
    before = None
    if source is not None:
        before = sorted(map(str, get_graph()))
    sim.run_clients([body(ops) for ops in plan["clients"]], preempt=plan.get("preempt"))
    if source is not None:
        eq(sorted(map(str, get_graph())), before, "exporting a collection changes the graph")

    def later(c):
        for oid, fmt, text, statements, names in stored:
            g, loaded = Graph(), Graph()
            loaded.parse(data=text, format="xml" if fmt == "rdf" else "json-ld", publicID=BASE)
            for s, p, x in loaded:
                g.add((canon(s), p, canon(x)))
            set_graph(bind_graph(g))
            o = k.attempt({"op": "load", "id": oid}, lambda: Collection(oid), "opening a collection in a process which loaded it")
            eq(sorted((str(p), str(canon(x)), str(getattr(x, "language", None) or "").lower()) for p, x in o.metadata.graph.predicate_objects(o.asNode())
                      if not isinstance(x, BNode) and not str(p).endswith(("#type", "#model"))),
               [x for x in statements if not x[0].endswith("#model")], "a process which loaded a collection does not know its description", id=oid)
            label = o.get_label()
            eq((str(label.language or "").lower(), str(label)) in names if names else label is None, True,
               "a process which loaded a collection does not know its label", id=oid, label=str(label), names=names)
            sim.probe["loaded"] += 1
    sim.run_clients([later])
    return {"checks": k.checks, "nontrivial": k.checks > 0}
