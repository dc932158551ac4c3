"""M05: exported DTS collections bring the same description back in another process."""
import json
from sim.core import Violation
from sim.worlds import library, localread, simrepo, tree

META = {
    "runs": {"quick": 4000, "thorough": 100000},
    "rule": "one evaluation = one seeded run of 2-4 successive simulated processes, each with a graph of its own: the first describes a "
            "generated catalogue (CTS inventory, CapiTainS folders or collections made by hand) next to other objects and serves DTS "
            "descriptions of it, possibly interrupted by other threads; the next ones read what was served, as children or as parents, and "
            "serve it again; distinct = distinct event trace",
    "real": ["MyCapytain DTS export, DTS collections, citations, metadata, JSON-LD helpers, CTS collections, local resolver", "pyld", "rdflib"],
    "stub": ["the disk (in memory)", "processes (fresh shared graph)", "thread scheduling", "file opens"],
    "assumptions": ["identifiers of members are absolute IRIs or paths", "keys and types are URIs ending in an XML name after / or #", "described collections have a label"],
    "must_probe": ["local", "remote", "plain", "whole", "group", "work", "text", "parents", "third", "neighbours", "preempted", "bound", "uri", "number", "dated",
                   "lang", "nolang", "citation", "deep_citation", "several_labels", "members", "own_type", "many_values", "own_prefixes", "used_prefix", "several", "none_yet", "top"],
}
NEIGHBOURS = ["http://foo.bar/ontology#weird", "http://purl.org/dc/terms/extent", "http://other.org/ns/name", "http://chs.harvard.edu/xmlns/ctsx",
              "http://foo.bar/1879", "http://www.w3.org/1999/02/22-rdf-syntax-ns#_1"]
DC, DCT, SKOS, XSD = "http://purl.org/dc/elements/1.1/", "http://purl.org/dc/terms/", "http://www.w3.org/2004/02/skos/core#", "http://www.w3.org/2001/XMLSchema#"
KEYS = [DC + "title", DC + "creator", DCT + "title", DCT + "creator", DCT + "subject", DCT + "date", DCT + "extent", SKOS + "altLabel", "http://foo.bar/ontology#note",
        "http://foo.bar/other/note", "http://chs.harvard.edu/xmlns/cts/description"]
WORDS = ["Epigrammata", "Ἰλιάς", "A < B & C", "it's \"so\"", "1879", "true", "", "http://viaf.org/viaf/1", "dct:title", "@id", "_:b0"]
LANGS = ["eng", "lat", "fre", "en-GB", "grc"]
TYPES = ["https://www.w3.org/ns/hydra/core#Collection", "https://www.w3.org/ns/hydra/core#Resource", "http://foo.bar/ontology#Shelf", "http://shelf.org/Box",
         "http://chs.harvard.edu/xmlns/cts/work"]
BOUND = [["cts", "http://foo.bar/ontology#"], ["foo", "http://foo.bar/ontology#"], ["dct", "http://purl.org/dc/elements/1.1/"], ["dts", "http://foo.bar/other/"],
         ["ns1", "http://shelf.org/"], ["hydra", "https://www.w3.org/ns/hydra/core#"], ["x", "http://purl.org/dc/terms/"]]


FOO = "http://foo.bar/ontology#"


def gen_value(rng):
    r = rng.random()
    if r < 0.4:
        return {"v": rng.choice(WORDS), "lang": rng.choice(LANGS)}
    if r < 0.6:
        return {"v": rng.choice(WORDS), "lang": None}
    if r < 0.75:
        return {"v": rng.choice([0, 1, 42, -3, True, False, 2.5])}
    if r < 0.85:
        return {"v": rng.choice([["1879-03-02", "date"], ["1879", "gYear"], ["2.50", "decimal"], ["P1D", "duration"]]), "typed": True}
    return {"uri": rng.choice(["http://example.org/x", "urn:cts:latinLit:phi1294", "https://orcid.org/0000-0003-1852-9204"])}


def gen_node(rng, name, depth):
    return {"id": name, "labels": [[rng.choice(LANGS + [None]), w] for w in rng.sample(WORDS[:5], rng.choice([1, 1, 2]))],
            "type": rng.choice([None, None] + TYPES), "desc": rng.choice([None, None, "A description", "1"]),
            "meta": [[rng.choice(KEYS), gen_value(rng)] for _ in range(rng.choice([0, 1, 3, 6]))],
            "kids": [] if not depth else [gen_node(rng, "%s%s/%d" % ("" if name[0] == "/" or ":" in name else "/", name, i), depth - 1) for i in range(rng.choice([0, 1, 2, 4]))]}


def gen_cite(rng, depth):
    return {"name": rng.choice(["book", "poem", "line", "a & b", None]),
            "kids": [] if not depth else [gen_cite(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2]))]}


def generate(rng, tier, index):
    source = rng.choice(["plain", "plain", "local", "remote"])
    plan = {"source": source, "neighbours": [[rng.choice(["http://foo.bar/%d" % i, "urn:cts:latinLit:phi9%d" % i]), rng.choice(NEIGHBOURS), "x"]
                                             for i in range(rng.choice([0, 0, 1, 3]))],
            "bound": rng.sample(BOUND, rng.choice([0, 0, 1, 2])), "own": rng.sample(BOUND, rng.choice([1, 2])) if rng.random() < 0.25 else None,
            "several": rng.choice([True, True, True, "none"]) if rng.random() < 0.45 else False, "again": rng.choice([0, 1, 1, 2])}
    if source == "plain":
        root = gen_node(rng, rng.choice(["http://foo.bar/c", "general", "/shelf", "urn:cts:latinLit"]), 2)
        for n in walk(root):
            if not n["kids"] and rng.random() < 0.4:
                n["cite"] = [gen_cite(rng, rng.choice([0, 1, 2])) for _ in range(rng.choice([1, 1, 2]))]
                n["depth"] = rng.choice([None, None, 1, 7])
        ids = [n["id"] for n in walk(root)]
        plan["root"] = root
    else:
        plan["world"] = simrepo.gen_world(rng, repos=rng.choice([1, 1, 2]), groups=2, works=2, texts=3, small=True)
        ids = [None, None] + ["TOP"] * (source == "local")
        for g, w, t in library.all_texts(plan["world"]["lib"]):
            ids += [g["urn"], w["urn"], t["urn"]]
    plan["clients"] = [[{"op": "export", "id": rng.choice(ids), "file": rng.randrange(1000000), "parents": rng.random() < 0.2} for _ in range(rng.randrange(1, 5))]
                       for _ in range(rng.choice([1, 1, 2]))]
    plan["delays"] = [rng.randrange(1, 30) for _ in range(40)] if len(plan["clients"]) > 1 else []
    plan["preempt"] = localread.gen_preempt(rng, plan["clients"], rate=0.7)
    return plan


def walk(n):
    return [n] + [x for k in n["kids"] for x in walk(k)]


def execute(plan, sim):
    from MyCapytain.common.constants import Mimetypes, bind_graph, get_graph, set_graph
    from MyCapytain.common.metadata import Metadata
    from MyCapytain.common.reference import DtsCitation, DtsCitationSet
    from MyCapytain.resources.collections.cts import XmlCtsTextInventoryMetadata
    from MyCapytain.resources.collections.dts import DtsCollection
    from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
    from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
    from rdflib import BNode, Graph, Literal, RDFS, URIRef
    from rdflib.namespace import NamespaceManager
    k = tree.Forest(sim)
    eq = k.eq
    IGNORED = ("http://purl.org/capitains/ns/1.0#", "https://www.w3.org/ns/hydra/core#", "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
               "http://www.w3.org/2000/01/rdf-schema#", "https://w3id.org/dts/api#")

    def term(o):
        if isinstance(o, Literal):
            v = o.toPython()
            if o.datatype and isinstance(v, (bool, int, float)):
                return ("number", float(v), str(isinstance(v, bool)))
            dt = str(o.datatype or "").replace(XSD + "string", "")
            return ("literal", str(o), dt or (o.language or "").lower())
        return ("uri", str(o), "")

    def cites(c):
        return [(x.name, cites(x)) for x in c.children]

    def facts(o):
        """What must survive."""
        out = {"id": o.id, "type": str(o.type), "size": o.size, "members": [m.id for m in o.members], "labels": sorted({str(x) for x in o.graph.objects(o.asNode(), RDFS.label)}),
               "meta": sorted({(str(p), term(v)) for p, v in o.graph.predicate_objects(o.asNode()) if not isinstance(v, BNode) and not str(p).startswith(IGNORED)}, key=str),
               "descs": sorted(str(v) for v in o.graph.objects(o.asNode(), URIRef("https://www.w3.org/ns/hydra/core#description"))),
               "cites": None, "depth": None}
        c = getattr(o, "citation", None)
        if c is not None and (c.children or c.depth):
            # one CTS citation is the set of its levels; a DTS one holds those of its first level
            out["cites"] = cites(c) if isinstance(c, DtsCitationSet) else [(c.name, cites(c))]
            out["depth"] = c.depth
            if out["cites"] == [(None, [])]:
                out["cites"] = out["depth"] = None
        return out

    def build(n, parent):
        if "cite" in n:
            o = ResourceCollection(n["id"])
            def cite(d, root):
                x = DtsCitation(name=d["name"], root=root)
                for y in d["kids"]:
                    x.add_child(cite(y, root))
                return x
            o.citation = DtsCitationSet()
            for d in n["cite"]:
                o.citation.add_child(cite(d, o.citation))
            if n["depth"]:
                o.citation.depth = n["depth"]
            sim.probe["citation"] += 1
            sim.probe["deep_citation"] += any(d["kids"] for d in n["cite"])
        else:
            o = Collection(n["id"])
        if parent is not None:
            o.parent = parent
        for lang, v in n["labels"]:
            o.set_label(v, lang)
        if n["type"]:
            o.type = n["type"]
            sim.probe["own_type"] += 1
        if n["desc"]:
            o.metadata.set(URIRef("https://www.w3.org/ns/hydra/core#description"), n["desc"])
        for key, v in n["meta"]:
            if "uri" in v:
                o.metadata.add(URIRef(key), URIRef(v["uri"]))
            elif v.get("typed"):
                o.metadata.add(URIRef(key), Literal(v["v"][0], datatype=URIRef(XSD + v["v"][1])))
                sim.probe["dated"] += 1
            elif v.get("lang"):
                o.metadata.add(URIRef(key), v["v"], lang=v["lang"])
            else:
                o.metadata.add(URIRef(key), v["v"])
        for x in n["kids"]:
            build(x, o)
        return o

    def neighbours():
        for node, key, value in plan["neighbours"]:
            Metadata(node=URIRef(node)).add(URIRef(key), value, lang="eng")
            sim.probe["neighbours"] += 1
        for prefix, ns in plan["bound"]:
            get_graph().bind(prefix, ns)
            sim.probe["bound"] += 1
    if plan["source"] == "plain":
        source = build(plan["root"], None)
        top = None
    elif plan["source"] == "local":
        fs, resolver = simrepo.start(sim, plan["world"])
        top = resolver.inventory
        source = top.children["default"]
    else:
        lib = plan["world"]["lib"]
        parts = [dict(lib, groups=lib["groups"][i::2], tiid="http://foo.bar/part%d" % i) for i in range(2)] if plan["several"] else [lib]
        invs = [XmlCtsTextInventoryMetadata.parse(library.inventory_xml(x)) for x in parts] if plan["several"] != "none" else []
        source, top = invs[0] if invs else None, None
        if plan["several"]:
            # several inventories known together
            source = CtsTextInventoryCollection(identifier="http://foo.bar/together")
            for x in invs:
                x.parent = source
            sim.probe["several" if invs else "none_yet"] += 1
        for x in invs + [source]:
            if x.get_label() is None:
                x.set_label("Inventory", "eng")
    sim.probe[plan["source"]] += 1
    neighbours()
    before = {o.id: facts(o) for o in [source] + source.descendants}
    before_ids = set(before) - {source.id}
    parents = {o.id: sorted(p.id for p in o.parents) for o in [source] + source.descendants}
    disk = {}

    def export(op, o, what="serving a collection"):
        sim.begin_op({"op": op["op"], "id": o.id})
        own = {}
        if plan["own"]:
            # the prefixes wanted are given
            own["namespace_manager"] = NamespaceManager(Graph(), bind_namespaces="none")
            for prefix, ns in plan["own"]:
                own["namespace_manager"].bind(prefix, ns)
            sim.probe["own_prefixes"] += 1
        out = sim.call(lambda: o.export(Mimetypes.JSON.DTS.Std, **own))
        if not out.ok:
            raise Violation("%s failed" % what, id=o.id, error=out.describe())
        if own and [ns for _, ns in plan["own"]].count(FOO) == 1 and ["foo", FOO] in plan["own"] and any(str(p).startswith(FOO) for p in o.graph.predicates(o.asNode())):
            eq(out.value["@context"].get("foo"), FOO, "a prefix which was given is not used", id=o.id)
            sim.probe["used_prefix"] += 1
        try:
            return json.dumps(out.value)
        except (TypeError, ValueError) as e:
            raise Violation("a served collection is not JSON", id=o.id, error=str(e))

    def read(op, text):
        # what is parsed is left as it is
        data = json.loads(text)
        sim.begin_op({"op": "read", "id": op["id"], "parents": op["parents"]})
        out = sim.call(lambda: DtsCollection.parse(data, direction="parents" if op["parents"] else "children"))
        if not out.ok:
            raise Violation("reading a served collection failed", op=op, error=out.describe())
        eq(data, json.loads(text), "reading a collection changes the JSON it is read from", op=op)
        return out.value

    def compare(o, want, op, members):
        got = facts(o)
        where = {"id": want["id"], "source": plan["source"], "depth": op.get("depth")}
        eq(got["id"], want["id"], "a collection read back does not have its identifier", **where)
        eq(got["type"], want["type"], "a collection read back does not have its type", **where)
        eq(got["size"], want["size"], "a collection read back does not have its number of members", **where)
        title = [got["labels"][i] for i in range(len(got["labels"]))]
        eq(len(title) == 1 and title[0] in want["labels"], True, "a collection read back does not have its title", title=title, labels=want["labels"], **where)
        meta = set(want["meta"]) | {(SKOS + "prefLabel", ("literal", title[0], ""))}
        eq(got["meta"], sorted(meta, key=str), "a collection read back does not have its metadata", **where)
        eq(got["descs"], want["descs"], "a collection read back does not have its description", **where)
        eq(got["cites"], want["cites"], "a collection read back does not have its citation structure", **where)
        eq(got["depth"], want["depth"], "a collection read back does not have its citation depth", **where)
        around = list(o.parents) if op["parents"] else o.members
        ids = [m.id for m in around]
        if op["parents"]:
            eq(sorted(ids), sorted(want["members"]), "a collection read back does not have its parents", **where)
            eq(o.members, [], "a collection read back has its parents as members", **where)
        else:
            eq(ids, want["members"], "a collection read back does not have its members", **where)
            eq([[p is o for p in m.parents] for m in around], [[True]] * len(around), "a member read back does not lead back to its collection", **where)
        for m in around:
            f = members[m.id]
            eq((str(m.type), m.size), (f["type"], f["size"]), "a member read back does not have its type and size", member=m.id, **where)
            eq(str(m.get_label()) in f["labels"], True, "a member read back does not have its title", member=m.id, got_title=str(m.get_label()), labels=f["labels"], **where)
            eq(sorted(str(v) for v in m.metadata.get(URIRef("https://www.w3.org/ns/hydra/core#description"))), f["descs"][:1] if len(f["descs"]) < 2 else f["descs"],
               "a member read back does not have its description", member=m.id, **where)
        # reached things
        sim.probe["members"] += bool(ids)
        sim.probe["parents"] += bool(op["parents"] and ids)
        kinds = {v[0] for _, v in want["meta"]}
        sim.probe["uri"] += "uri" in kinds
        sim.probe["number"] += "number" in kinds
        sim.probe["lang"] += any(v[0] == "literal" and v[2] for _, v in want["meta"])
        sim.probe["nolang"] += any(v[0] == "literal" and not v[2] for _, v in want["meta"])
        sim.probe["several_labels"] += len(want["labels"]) > 1
        ps = [p for p, _ in want["meta"]]
        sim.probe["many_values"] += len(set(ps)) < len(ps)
        if plan["source"] != "plain":
            sim.probe[{"TextInventory": "whole", "textgroup": "group", "work": "work"}.get(want["type"].rsplit("/", 1)[1], "text")] += 1

    def body(ops):
        def run(c):
            for op in ops:
                o = source if not before_ids or op["id"] in (None, "TOP", source.id) else source[op["id"]]
                # the catalogue of a resolver which has only one inventory is served as this inventory
                text = export(op, top if op["id"] == "TOP" else o)
                sim.probe["top"] += op["id"] == "TOP"
                disk["%d.json" % op["file"]] = (text, dict(op, id=o.id), before[o.id], before)
                sim.pause()
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]], preempt=plan.get("preempt"))
    for o in [source] + source.descendants:
        eq(facts(o), before[o.id], "serving a collection changes one", id=o.id)
        eq(sorted(p.id for p in o.parents), parents[o.id], "serving a collection changes its parents", id=o.id)

    def later(depth):
        def run(c):
            files = dict(disk)
            disk.clear()
            for name in sorted(files):
                text, op, want, members = files[name]
                set_graph(bind_graph())
                if op["file"] % 2:
                    neighbours()
                op = dict(op, depth=depth)
                o = read(op, text)
                compare(o, want, op, members)
                if depth < plan["again"] and not op["parents"]:
                    sim.probe["third"] += 1
                    known = {m.id: facts(m) for m in [o] + o.members}
                    pick = ([o] + o.members)[op["file"] % 3 % (1 + len(o.members))]
                    disk[name] = (export(op, pick), dict(op, id=pick.id, parents=op["file"] % 5 == 0), dict(known[pick.id]), known)
        return run
    for depth in range(1 + plan["again"]):
        sim.run_clients([later(depth)])
    return {"checks": k.checks, "nontrivial": k.checks > 0}
