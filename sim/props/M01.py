"""M01: the metadata of objects, as one map for each object over a shared graph."""
from sim.core import Violation

META = {
    "runs": {"quick": 5000, "thorough": 125000},
    "rule": "one evaluation = one seeded history of 1-3 clients, possibly interrupting one another inside the library, which set, add, "
            "remove, read and export the metadata of their own objects in the shared graph; distinct = distinct event trace",
    "real": ["MyCapytain metadata and constants (shared graph)", "rdflib store, namespaces and serializers"],
    "stub": ["thread scheduling", "blank node identifiers"],
    "assumptions": ["plain values are neither false nor empty: the JSON-LD writer of rdflib 7.6 drops those next to other values", "keys are URIs ending in an XML name", "one object is only written by one client at a time"],
    "must_probe": ["set", "add", "remove", "remove_object", "get_lang", "single_lang", "single_other_lang", "missing", "json", "only",
                   "exclude", "rdf", "jsonld", "xml", "link", "unlink", "bnode", "preempted", "second_handle", "typed"],
}
DC, DCT, SKOS = "http://purl.org/dc/elements/1.1/", "http://purl.org/dc/terms/", "http://www.w3.org/2004/02/skos/core#"
CTS, FOO, FOO2 = "http://chs.harvard.edu/xmlns/cts/", "http://foo.bar/ontology#", "http://foo.bar/onto"
KEYS = [DC + "title", DCT + "title", DC + "creator", DC + "description", SKOS + "prefLabel", CTS + "title", CTS + "label", FOO + "title",
        FOO + "titles", FOO2 + "/title", DCT + "extent"]
SPACES = [DC, DCT, SKOS, CTS, FOO, FOO2 + "/"]
LANGS = ["eng", "lat", "fre", "en-GB", "en", "grc"]
WORDS = ["Epigrammata", "de bello Gallico", "Ἰλιάς", "A < B & C", "it's \"so\"", "1879", "true", "", "Carmina", "Épigrammes", "a]]>b", "日本"]


def gen_value(rng, nodes):
    r = rng.random()
    if r < 0.55:
        return {"v": rng.choice(WORDS), "lang": rng.choice(LANGS)}
    if r < 0.72:
        return {"v": rng.choice(WORDS) or "-", "lang": None}
    if r < 0.82:
        return {"n": rng.choice([0, 1, 42, -3, True, 2.5])}
    return {"uri": rng.choice(nodes + ["http://example.org/x", "urn:cts:latinLit:phi1294"])}


def generate(rng, tier, index):
    count = rng.choice([1, 1, 2, 3])
    clients, names = [], []
    for c in range(count):
        names.append([rng.choice(["urn:cts:latinLit:phi%d.c%d" % (i, c), "http://foo.bar/c%d/%d" % (c, i), "_:c%d_%d" % (c, i)]) for i in range(rng.randrange(1, 4))])
    links = [n for ns in names for n in ns if not n.startswith("_:")]
    for c in range(count):
        ops = []
        keys = rng.sample(KEYS, rng.randrange(2, 7))
        for _ in range(rng.randrange(4, 25)):
            op = {"op": rng.choice(["set", "set", "add", "add", "add", "remove", "get", "get", "single", "single", "all", "json", "only",
                                    "exclude", "rdf", "jsonld", "xml", "unlink", "or"]),
                  "node": rng.choice(names[c]), "key": rng.choice(keys), "lang": rng.choice(LANGS + [None]), "new": rng.random() < 0.3,
                  "k": rng.randrange(12), "value": gen_value(rng, links), "spaces": rng.sample(SPACES + keys, rng.randrange(1, 3))}
            if op["op"] == "unlink" and count > 1:
                op["op"] = "get"
            ops.append(op)
        clients.append(ops)
    pre = {}
    if count > 1:
        pre = {str(i): sorted(rng.randrange(1, 400) for _ in range(rng.randrange(1, 8))) for i in range(count)}
    return {"clients": clients, "nodes": names, "delays": [rng.randrange(1, 20) for _ in range(40)] if count > 1 else [], "preempt": pre}


def execute(plan, sim):
    from rdflib import BNode, Graph, Literal, Namespace, URIRef
    from lxml import etree
    from MyCapytain.common.metadata import Metadata
    from MyCapytain.common.constants import Mimetypes, get_graph
    model = {}                  # {node name: {(key, (kind, text, lang, datatype))}}
    handles, checks = {}, [0]

    def eq(got, want, what, **d):
        checks[0] += 1
        if got != want:
            raise Violation(what, got=got, expected=want, **d)

    def name(x):
        return ("_:" + str(x)) if isinstance(x, BNode) else str(x)

    def term(o):
        if isinstance(o, Literal):
            return ("literal", str(o), (o.language or "").lower(), str(o.datatype) if o.datatype else "")
        return ("node", name(o), "", "")

    def given(v):
        """(argument, language, expected term)"""
        if "uri" in v:
            return URIRef(v["uri"]), None, ("node", v["uri"], "", "")
        if "n" in v:
            return v["n"], None, term(Literal(v["n"]))
        return v["v"], v["lang"], ("literal", v["v"], (v["lang"] or "").lower(), "")

    def handle(n, new):
        if new or n not in handles:
            sim.probe["second_handle"] += n in handles
            if n not in handles:
                model[n] = set()
            sim.probe["bnode"] += n.startswith("_:")
            handles[n] = Metadata(node=BNode(n[2:]) if n.startswith("_:") else URIRef(n))
        return handles[n]

    def values(n, key=None, lang=None):
        return sorted(o for p, o in model[n] if (key is None or p == key) and (lang is None or o[2] == lang.lower()))

    def attempt(op, fn):
        out = sim.call(fn)
        if not out.ok:
            checks[0] += 1
            raise Violation("%s of the metadata of an object failed" % op["op"], op=op, error=out.describe())
        return out.value

    def same(n):
        m = handles[n]
        eq(sorted((str(p), term(o)) for p, o in m.graph.predicate_objects(m.asNode())), sorted(model[n]),
           "the metadata of an object are not those recorded", node=n)

    def step(c, op):
        kind, n, key, lang = op["op"], op["node"], URIRef(op["key"]), op["lang"]
        m = handle(n, op["new"])
        ks = op["key"]
        where = {"node": n, "key": ks}
        sim.begin_op({a: b for a, b in op.items() if a in ("op", "node", "key", "lang")})
        if kind in ("set", "add"):
            arg, l, want = given(op["value"])
            if want[0] == "literal" and op["k"] % 4 == 0:
                arg, l = Literal(arg, lang=l), (l if op["k"] % 8 else None)
            if kind == "set":
                model[n] = {x for x in model[n] if x[0] != ks}
            model[n].add((ks, want))
            attempt(op, lambda: getattr(m, kind)(key, arg, lang=l) if l else getattr(m, kind)(key, arg))
            sim.probe[kind] += 1
            sim.probe["link"] += want[0] == "node"
            sim.probe["typed"] += bool(want[3])
        elif kind == "remove":
            vs = values(n, ks)
            if op["k"] % 3 and vs:
                v = vs[op["k"] % len(vs)]
                model[n].discard((ks, v))
                obj = URIRef(v[1]) if v[0] == "node" else Literal(v[1], lang=v[2] or None, datatype=URIRef(v[3]) if v[3] else None)
                real = [o for o in m.graph.objects(m.asNode(), key) if term(o) == v]
                attempt(op, lambda: m.remove(predicate=key, obj=real[0] if real else obj))
                sim.probe["remove_object"] += 1
            elif op["k"] == 0:
                model[n] = set()
                attempt(op, lambda: m.remove())
            else:
                model[n] = {x for x in model[n] if x[0] != ks}
                attempt(op, lambda: m.remove(key))
            sim.probe["remove"] += 1
        elif kind == "unlink":
            links = sorted(x for x in model if any(o == ("node", n, "", "") for _, o in model[x]))
            for x in model:
                model[x] = {(p, o) for p, o in model[x] if o != ("node", n, "", "") or (op["k"] % 2 and p != ks)}
            attempt(op, lambda: m.unlink(predicate=key) if op["k"] % 2 else m.unlink())
            sim.probe["unlink"] += bool(links)
            for x in sorted(model):
                same(x)
        elif kind == "get":
            got = attempt(op, lambda: list(m.get(key, lang=lang) if lang else m.get(key)))
            eq(sorted(map(term, got)), values(n, ks, lang), "the values of a key are not those recorded", lang=lang, **where)
            sim.probe["get_lang"] += bool(lang and got)
        elif kind == "single":
            how = op["k"] % 3
            got = attempt(op, lambda: m[key, lang] if how == 0 else m.get_single(ks if how == 1 else key, lang))
            pool = values(n, ks, lang) or values(n, ks)
            eq(got is None if not pool else term(got) in pool, True, "a single value of a key is none of those recorded",
               lang=lang, recorded=pool, value=None if got is None else term(got), **where)
            sim.probe["missing"] += not pool
            if lang and pool:
                sim.probe["single_lang" if values(n, ks, lang) else "single_other_lang"] += 1
        elif kind == "all":
            got = attempt(op, lambda: m[key])
            eq(sorted(map(term, got)), values(n, ks), "the values of a key are not those recorded", **where)
        elif kind == "or":
            # the node a link leads to
            got = attempt(op, lambda: Metadata.getOr(m.asNode(), key))
            pool = [v[1] for v in values(n, ks) if v[0] == "node"]
            if values(n, ks) and len(pool) == len(values(n, ks)):
                eq(name(got.asNode()) in pool, True, "the metadata a key leads to are not those recorded", node_got=name(got.asNode()), pool=pool, **where)
            elif not values(n, ks):
                eq((type(got), name(got.asNode()) in model), (Metadata, False), "metadata without a link are not new", **where)
        else:
            export(op, kind, n, m)

    def export(op, kind, n, m):
        kw, keep = {}, set(model[n])
        spaces = [(URIRef, str, Namespace)[(op["k"] + i) % 3](x) for i, x in enumerate(op["spaces"])]

        def within(p):
            return p in op["spaces"] or (p.rsplit("#", 1)[0] + "#" if "#" in p else p.rsplit("/", 1)[0] + "/") in op["spaces"]
        if kind in ("only", "exclude") or (kind != "json" and op["k"] % 3 == 0):
            which = kind if kind in ("only", "exclude") else ("exclude" if op["k"] % 2 else "only")
            kw = {which: spaces}
            keep = {x for x in keep if within(x[0]) == (which == "only")}
            sim.probe[which] += bool(keep)
        if kind in ("json", "only", "exclude"):
            got = attempt(op, lambda: m.export(Mimetypes.JSON.Std, **kw))
            want = {}
            for p, o in sorted(keep):
                if o[0] == "literal":
                    want.setdefault(p, {}).setdefault(o[2], []).append(o[1].casefold())
            flat = {}
            for p, ls in got.items():
                for l, vs in ls.items():
                    flat.setdefault(p, {}).setdefault((l or "").lower(), []).extend(v.casefold() for v in (vs if isinstance(vs, list) else [vs]))
            eq({p: {l: sorted(v) for l, v in x.items()} for p, x in flat.items()}, {p: {l: sorted(v) for l, v in x.items()} for p, x in want.items()},
               "the JSON export of metadata does not hold what was recorded", node=n)
            sim.probe["json"] += bool(want)
        elif kind in ("rdf", "jsonld"):
            data = attempt(op, lambda: m.export(Mimetypes.XML.RDF if kind == "rdf" else Mimetypes.JSON.LD, **kw))
            g = Graph()
            g.parse(data=data, format="xml" if kind == "rdf" else "json-ld")
            bn = n.startswith("_:")
            subjects = {s for s in g.subjects()}
            eq(len(subjects) <= 1 and (bn or subjects <= {URIRef(n)}), True, "an RDF export is not about the object", node=n)
            eq(sorted((str(p), term(o)) for _, p, o in g), sorted(keep), "the RDF export of metadata does not hold what was recorded", node=n, as_=kind)
            sim.probe[kind] += bool(keep)
        else:
            data = attempt(op, lambda: m.export(Mimetypes.XML.CapiTainS.CTS, **kw))
            ns = " ".join('xmlns%s="%s"' % (":" + p if p else "", u) for p, u in get_graph().namespaces() if p not in ("xml", "xmlns"))
            root = etree.fromstring("<root %s>%s</root>" % (ns, data))
            got = sorted((x.tag[1:].replace("}", ""), x.text or "", (x.get("{http://www.w3.org/XML/1998/namespace}lang") or "").lower()) for x in root)
            eq(got, sorted((p, o[1], o[2]) for p, o in keep), "the XML export of metadata does not hold what was recorded", node=n)
            sim.probe["xml"] += bool(keep)
        eq([str(x) for x in spaces], op["spaces"], "an export changes what it was asked with", node=n)
        same(n)

    def body(ops):
        def run(c):
            for op in ops:
                step(c, op)
                same(op["node"])
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]], preempt=plan.get("preempt"))
    for n in sorted(model):
        same(n)
    # nothing but what was recorded is in the graph
    known = set(model)
    extra = sorted({name(s) for s in get_graph().subjects()} - known)
    eq(extra, [], "something was recorded about objects nobody described")
    return {"checks": checks[0], "nontrivial": checks[0] > 0}
