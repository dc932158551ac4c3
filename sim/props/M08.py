"""M08: catalogues of different graphs in one process do not mix."""
import copy
from sim.core import Violation
from sim.props import M05
from sim.worlds import catalog, ctsread, library, localread, simrepo, statements, tree

META = {
    "runs": {"quick": 2000, "thorough": 50000},
    "rule": "one evaluation = one seeded run of one process which keeps 2-5 catalogues of the same identifiers (made by hand, read from CTS inventories, or "
            "opened from CapiTainS folders), each in a graph of its own, and replaces the graph of the process between operations while 1-3 clients "
            "interrupting one another describe, prune, ask, open and export; distinct = distinct event trace",
    "real": ["MyCapytain collections, CTS collections, metadata, citations, exports, local resolver, texts and passages", "rdflib store, serializers and parsers", "lxml"],
    "stub": ["the disk (in memory)", "thread scheduling"],
    "assumptions": ["the graph of the process is not replaced while a collection is being made"],
    "must_probe": ["xml", "local", "hand", "swap", "swap_bare", "swap_back", "elsewhere", "as_xml", "as_capitains", "as_rdf", "as_jsonld", "as_dts", "new_after_swap", "same_id", "deleted",
                   "bare", "bound", "passage", "held", "preempted", "meta", "read_back", "structured", "about"],
}
CTS = library.CTS
CPT = "http://purl.org/capitains/ns/1.0#"
XMLLANG = "{http://www.w3.org/XML/1998/namespace}lang"
KEYS = ["http://foo.bar/ontology#note", "http://other.org/ns/x1", "http://purl.org/dc/terms/extent", "http://shelf.org/mark"]
WORDS = ["Martialis", "Épigrammes", "A < B & c", "Carmina", "1879", "\"x\""]
LANGS = ["eng", "lat", "fre"]
KINDS = ["xml", "xml", "local", "hand", "hand"]


def variant(rng, lib, tag):
    """Another catalogue of the same identifiers."""
    lib = copy.deepcopy(lib)
    for g in lib["groups"]:
        for w in g["works"]:
            if len(w["texts"]) > 1 and rng.random() < 0.4:
                gone = w["texts"].pop(rng.randrange(len(w["texts"])))
                for _, _, t in library.all_texts(lib):
                    t["about"] = [u for u in t["about"] if u != gone["urn"]]
            for t in w["texts"]:
                rename(rng, t, ("labels", "descs"), tag)
                if rng.random() < 0.5:
                    for l in t["levels"]:
                        l["name"] = l["name"] + "-" + tag
            rename(rng, w, ("titles",), tag)
        rename(rng, g, ("names",), tag)
    return lib


def rename(rng, x, keys, tag):
    for key in keys:
        x[key] = [[l, "%s [%s]" % (v, tag)] for l, v in x[key] if rng.random() < 0.8] or [[l, "%s [%s]" % (v, tag)] for l, v in x[key][:1]]
    x["sm"] = [s for s in x["sm"] if rng.random() < 0.6]
    for s in x["sm"]:
        s[4] = s[4] or "-"


def generate(rng, tier, index):
    base = simrepo.gen_world(rng, repos=rng.choice([1, 1, 2]), groups=2, works=2, texts=3, small=True)
    base["ghost"], base["noise"] = False, False
    corpora = []
    count = rng.choice([1, 1, 2, 3])
    for i in range(max(count, rng.choice([2, 2, 3, 4]))):
        kind = rng.choice(KINDS)
        c = {"kind": kind, "owner": i if i < count else 0, "bind": rng.random() < 0.6, "bound": rng.sample(M05.BOUND + [["cap", CPT]], rng.choice([0, 0, 1, 2]))}
        if kind != "hand":
            w = copy.deepcopy(base)
            w["lib"] = variant(rng, base["lib"], "c%d" % i)
            w["repos"] = ["%s-%d" % (r, i) for r in w["repos"]]
            for x in [x for g in w["lib"]["groups"] for x in [g] + g["works"]]:
                urn = x["urn"]
                key = "names" if "names" in x else "titles"
                if w["names"].get(urn):
                    w["names"][urn] = (w["names"][urn] * len(x[key]))[:len(x[key])] if x[key] else None
            c["world"] = w
            c["ids"] = [None] + [u for g, wk, t in library.all_texts(w["lib"]) for u in (g["urn"], wk["urn"], t["urn"])]
        corpora.append(c)
    clients = []

    def op(mine, first):
        i = rng.choice(mine)
        c = corpora[i]
        o = {"op": None, "c": i, "at": rng.randrange(1000), "k": rng.randrange(60), "as": rng.choice(["xml", "capitains", "rdf", "jsonld", "dts"])}
        if first and rng.random() < 0.35:
            return dict(o, op="swap", to=rng.choice(list(range(len(corpora))) + ["bare", "bound"]))
        if c["kind"] == "hand":
            o.update({"op": rng.choice(["new", "new", "new", "label", "prop", "meta", "meta", "link", "version", "delete", "delete", "lookup", "export", "export"]),
                      "word": rng.choice(WORDS), "lang": rng.choice(LANGS), "kind": rng.choice(tree.TEXTS), "late": rng.random() < 0.3, "xmlc": rng.random() < 0.4,
                      "key": rng.choice(KEYS)})
        else:
            o.update({"op": rng.choice(["export", "export", "check"] + (["passage", "passage"] if c["kind"] == "local" else [])), "id": rng.choice(c["ids"])})
            if o["op"] == "passage":
                t = rng.choice(localread.texts_of(c["world"]))
                o.update({"id": t["urn"], "ref": localread.rand_ref(rng, t), "swap": None})
        return o
    for n in range(count):
        mine = [i for i, c in enumerate(corpora) if c["owner"] == n]
        clients.append([op(mine, n == 0) for _ in range(rng.randrange(4, 16) if n == 0 else rng.randrange(2, 8))])
    first = [dict(op([i], False), op="new") for i, c in enumerate(corpora) if c["kind"] == "hand" for _ in range(rng.randrange(2, 9))]
    rng.shuffle(first)
    return {"base": base, "corpora": corpora, "first": first, "clients": clients, "delays": [rng.randrange(1, 20) for _ in range(60)] if count > 1 else [],
            "preempt": localread.gen_preempt(rng, clients, rate=0.7)}


class Hand(tree.Forest):
    """A catalogue made by hand."""

    def __init__(self, sim, tag):
        super(Hand, self).__init__(sim)
        self.tag = tag
        self.roots, self.used, self.dead = [], set(), []
        self.meta = {}                  # id: [(key, lang, value)]

    def alive(self):
        return [n for r in self.roots for n in [r] + r.down()]

    def new_id(self, kind, parent, at):
        base = {"plain": "http://foo.bar/%d", "ti": "ti%d", "tg": "urn:cts:latinLit:phi%04d"}.get(kind)
        if base is None:
            base = (parent.id if parent is not None else "urn:cts:latinLit:phi0001") + {"work": ".w%d"}.get(kind, ".x%d")
        i = at % 3
        while base % i in self.used:
            i += 1
        return base % i

    def described(self, n):
        super(Hand, self).described(n)
        from rdflib import URIRef
        for key in KEYS:
            self.eq(sorted(((x.language or ""), str(x)) for x in n.obj.metadata.get(URIRef(key))), sorted((l, v) for k, l, v in self.meta.get(n.id, ()) if k == key),
                    "the metadata of a collection are not those it was given", id=n.id, key=key)


def execute(plan, sim):
    import io
    from lxml import etree
    from MyCapytain.common.constants import Mimetypes, bind_graph, get_graph, set_graph
    from MyCapytain.common.metadata import Metadata
    from MyCapytain.resources.collections import cts as x
    from rdflib import Graph, Literal, URIRef
    MIME = {"xml": Mimetypes.XML.CTS, "capitains": Mimetypes.XML.CapiTainS.CTS, "rdf": Mimetypes.XML.RDF, "jsonld": Mimetypes.JSON.LD, "dts": Mimetypes.JSON.DTS.Std}
    k = localread.Checker(sim, plan["base"])
    from sim import fs as fs_module
    fs = fs_module.Fs(sim, shuffle=plan["base"]["shuffle"])
    fs.locale = plan["base"]["locale"]
    graphs, sources, held, stored = [], [], [], []
    home = get_graph()

    def say(**d):
        sim.begin_op(d)

    def attempt(fn, what, **d):
        sim.begin_op({a: b for a, b in d.items() if isinstance(b, (str, int, bool))})
        out = sim.call(fn)
        if not out.ok:
            k.checks += 1
            raise Violation("%s failed" % what, error=out.describe(), **d)
        return out.value

    def build(_):
        for i, c in enumerate(plan["corpora"]):
            g = Graph()
            for prefix, ns in c["bound"]:
                g.bind(prefix, ns)
                sim.probe["bound"] += 1
            if c["bind"]:
                g = bind_graph(g)
            else:
                sim.probe["bare"] += 1
            graphs.append(g)
            set_graph(g)
            sim.probe[c["kind"]] += 1
            if c["kind"] == "xml":
                sources.append((attempt(lambda: x.XmlCtsTextInventoryMetadata.parse(library.inventory_xml(c["world"]["lib"])), "reading an inventory", c=i), None, None))
            elif c["kind"] == "local":
                for p, data in simrepo.layout(c["world"]).items():
                    fs.write(p, data)
                r = attempt(lambda: simrepo.make(c["world"]), "opening repositories", c=i)
                ck = localread.Checker(sim, c["world"])
                sources.append((r.inventory.children["default"], r, ck))
            else:
                sources.append((Hand(sim, "c%d" % i), None, None))

    # -- looking -------------------------------------------------------------------
    def whole(i):
        c = plan["corpora"][i]
        if c["kind"] == "hand":
            for r in sources[i][0].roots:
                sources[i][0].whole(r)
        else:
            cat = catalog.Catalog(k, sim)
            cat.inventory(sources[i][0], "default" if c["kind"] == "local" else c["world"]["lib"]["tiid"], catalog.pruned(c["world"]["lib"]))
        mine = "[c%d]" % i
        for s, p, o in list(graphs[i]):
            if isinstance(s, URIRef) and isinstance(o, Literal):
                k.eq("[c" in o and mine not in o, False, "a graph holds a description given in another one", id=str(s), key=str(p), value=str(o), c=i)

    def handxml(h, n, e, capitains):
        """An element holds what the node was given."""
        eq, where = k.eq, {"id": n.id}
        ns = "{%s}" % CTS
        eq(e.tag, ns + {"ti": "TextInventory", "tg": "textgroup"}.get(n.kind, n.kind), "an element is not of the kind of its collection", **where)
        eq(e.get("tiid" if n.kind == "ti" else "urn"), n.id, "an element does not identify its collection", **where)
        props = [(c.tag, c.get(XMLLANG), c.text) for c in e if c.tag in [ns + p for p in ("groupname", "title", "label", "description")]]
        eq(sorted(props), sorted((ns + p, l, v) for p, vs in h.props.get(n.id, {}).items() for l, v in vs), "an element does not hold the names of its collection", **where)
        eq(sorted(c.get("urn") for c in e if c.tag == ns + "about"), sorted(h.links.get(n.id, [])), "an element does not hold the links of its collection", **where)
        sms = [c for c in e if c.tag == "{%s}structured-metadata" % CPT]
        eq(len(sms), 1 if capitains else 0, "an element does not have its structured metadata", **where)
        if capitains:
            spaces = {key.rsplit("#", 1)[0] + "#" if "#" in key else key.rsplit("/", 1)[0] + "/" for key in KEYS}
            got = sorted((etree.QName(c).namespace + etree.QName(c).localname, c.get(XMLLANG) or "", c.text) for c in sms[0] if etree.QName(c).namespace in spaces)
            eq(got, sorted(h.meta.get(n.id, [])), "an element does not hold the metadata of its collection", **where)
        members = [c for c in e if c.tag in [ns + t for t in ["textgroup", "work"] + tree.TEXTS]]
        eq([c.get("urn") for c in members], list(n.children), "an element does not hold the members of its collection", **where)
        for c in members:
            handxml(h, n.children[c.get("urn")], c, capitains)

    def export(op):
        i = op["c"]
        c, as_ = plan["corpora"][i], op["as"]
        src = sources[i][0]
        if c["kind"] == "hand":
            ns = src.alive()
            if not ns:
                return
            n = ns[op["at"] % len(ns)]
            if as_ in ("xml", "capitains") and n.kind == "plain":
                as_ = "rdf"
            o = n.obj
        else:
            n = None
            o = src if op["id"] is None else src[op["id"]]
        sim.probe["elsewhere"] += get_graph() is not graphs[i]
        want = statements.about(o.graph, o.asNode()) if as_ in ("rdf", "jsonld") else None
        data = attempt(lambda: o.export(MIME[as_]), "exporting a collection", op="export", as_=as_, id=o.id, c=i)
        sim.probe["as_" + as_] += 1
        if as_ in ("rdf", "jsonld"):
            k.checks += 1
            statements.same(sim, data, "xml" if as_ == "rdf" else "json-ld", want, passages=False, id=o.id, c=i)
        elif as_ == "dts":
            k.eq((data["@id"], data["totalItems"]), (o.id, o.size), "a DTS export is not of its collection", id=o.id)
            k.eq(sorted(m["@id"] for m in data.get("member", [])), sorted(m.id for m in o.members), "a DTS export does not hold the members of its collection", id=o.id)
            labels = [str(v) for v in o.graph.objects(o.asNode(), URIRef("http://www.w3.org/2000/01/rdf-schema#label"))]
            k.eq(data["title"] in (labels or ["None"]), True, "a DTS export does not have the title of its collection", id=o.id, title=data["title"])
        elif n is not None:
            root = attempt(lambda: etree.fromstring(data.encode("utf-8")), "reading an exported collection", as_=as_, id=o.id, c=i)
            handxml(src, n, root, as_ == "capitains")
        else:
            stored.append((i, op["id"], as_, data))

    # -- changing what was made by hand -------------------------------------------------
    def create(op):
        h = sources[op["c"]][0]
        ns = [n for n in h.alive() if n.kind in tree.BELOW and n.kind in ("plain", "ti", "tg", "work")]
        pool = [None] + ns if len(h.roots) < 3 else ns
        parent = pool[op["at"] % len(pool)]
        if parent is None:
            kind = ["plain", "ti", "ti", "tg", "work"][op["k"] % 5]
        else:
            kind = tree.BELOW[parent.kind]
            kind = op["kind"] if kind == "text" else kind
        oid = h.new_id(kind, parent, op["at"])
        again = [d for d in h.dead if d.kind == kind and d.id == oid]
        lang = op["lang"] if kind in tree.TEXTS else None
        late = op["late"] and parent is not None

        def make():
            o = tree.make(kind, oid, None if late or parent is None else parent.obj, lang, op["xmlc"])
            if kind == "work":
                o.lang = op["lang"]
            if late:
                o.parent = parent.obj
            return o
        for j, other in enumerate(plan["corpora"]):
            if j != op["c"] and other["kind"] == "hand" and oid in [n.id for n in sources[j][0].alive()]:
                sim.probe["same_id"] += 1
        o = attempt(make, "making a collection", op="new", id=oid, c=op["c"])
        n = tree.Node(kind, oid, o, parent, op["lang"] if kind == "work" else lang)
        h.used.add(oid)
        k.eq(o.graph is graphs[op["c"]], True, "a collection is not in the graph of its process", id=oid)
        if parent is None:
            h.roots.append(n)
        else:
            parent.children[oid] = n
        h.shape(n)
        h.described(n)
        return n

    def add(d, key, value):
        if value not in d.setdefault(key, []):
            d[key].append(value)

    def describe(op, n, h):
        kind, word, lang = op["op"], "%s [%s]" % (op["word"], h.tag), op["lang"]
        sim.probe["elsewhere"] += get_graph() is not graphs[op["c"]]
        d = {"op": kind, "id": n.id, "c": op["c"]}
        if kind == "label":
            attempt(lambda: n.obj.set_label(word, lang), "labelling a collection", **d)
            add(h.labels, n.id, (lang, word))
        elif kind == "version":
            def set_version():
                n.obj.version = word
            attempt(set_version, "giving a version to a collection", **d)
            h.version[n.id] = word
        elif kind == "meta":
            attempt(lambda: n.obj.metadata.add(URIRef(op["key"]), word, lang), "describing a collection", **d)
            add(h.meta, n.id, (op["key"], lang, word))
            sim.probe["meta"] += 1
        elif kind == "prop" and n.kind in tree.LABEL:
            prop = tree.LABEL[n.kind] if op["k"] % 3 or n.kind in ("tg", "work") else "description"
            if not any(l == lang for l, _ in h.props.get(n.id, {}).get(prop, [])):
                attempt(lambda: n.obj.set_cts_property(prop, word, lang), "giving a property to a collection", **d)
                add(h.props.setdefault(n.id, {}), prop, (lang, word))
                if prop == tree.LABEL[n.kind]:
                    add(h.labels, n.id, (lang, word))
        elif kind == "link" and n.kind == "commentary":
            urn = "urn:cts:latinLit:phi0001.w0.x%d" % (op["k"] % 3)
            attempt(lambda: n.obj.set_link(h.cts("about"), urn), "linking a collection", **d)
            add(h.links, n.id, urn)
        h.described(n)

    def remove(op, h):
        ns = [n for n in h.alive() if n.parent is not None]
        if not ns:
            return
        n = ns[op["at"] % len(ns)]
        up = n.up()
        start = up[op["k"] % len(up)]
        sim.probe["elsewhere"] += get_graph() is not graphs[op["c"]]

        def delete():
            del start.obj[n.id]
        attempt(delete, "deleting a collection", op="delete", id=n.id, c=op["c"])
        del n.parent.children[n.id]
        for d in (h.labels, h.props, h.links, h.version, h.dc, h.meta):
            d.pop(n.id, None)
        for links in h.links.values():
            links[:] = [u for u in links if u != n.id]
        g = graphs[op["c"]]
        k.eq([str(s) for s in list(g.predicate_objects(URIRef(n.id))) + list(g.subjects(None, URIRef(n.id)))], [],
             "the description of a deleted collection remains", id=n.id)
        if not n.children:
            h.used.discard(n.id)
        sim.probe["deleted"] += 1
        for y in [start] + start.down():
            h.lookup(y, n.id)

    def passage(op):
        src, resolver, ck = sources[op["c"]]
        o = attempt(lambda: resolver.getTextualNode(op["id"], op["ref"], metadata=True), "opening a passage", op="passage", id=op["id"], ref=op["ref"], c=op["c"])
        h = ctsread.Held(o, op["id"], op["ref"])
        t = ck.text(op["id"])
        k.eq(o.export(Mimetypes.PLAINTEXT).split(), library.words(t, op["ref"]) if op["ref"] else library.header_words(t) + library.words(t),
             "the text of a passage is not the one of its library", id=op["id"], ref=op["ref"])
        k.eq(str(o.urn), op["id"] + (":" + op["ref"] if op["ref"] else ""), "a passage has the wrong URN", id=op["id"], ref=op["ref"])
        ck.described(o, h)
        held.append((ck, h))
        sim.probe["passage"] += 1

    def act(op, now):
        i = op["c"]
        c = plan["corpora"][i]
        kind = op["op"]
        if kind == "export":
            export(op)
        elif kind == "check":
            whole(i)
        elif kind == "passage":
            passage(op)
        elif c["kind"] == "hand":
            h = sources[i][0]
            ns = h.alive()
            if kind == "new":
                # made in the graph of the process, whatever it is
                if now == i:
                    create(op)
                    return True
                return False
            if not ns:
                return False
            n = ns[op["at"] % len(ns)]
            if kind == "delete":
                remove(op, h)
            elif kind == "lookup":
                h.lookup(n, ns[op["k"] % len(ns)].id)
            else:
                describe(op, n, h)
            ns = h.alive()
            if ns:
                n = ns[op["k"] % len(ns)]
                h.shape(n)
                h.described(n)
        return True

    def begin(c):
        for op in plan["first"]:
            set_graph(graphs[op["c"]])
            create(op)
        set_graph(home)
        for i in range(len(graphs)):
            whole(i)
    sim.run_clients([build])
    sim.run_clients([begin])
    swapped = [0]

    def body(idx, ops):
        def run(c):
            now = None
            for op in ops:
                if op["op"] == "swap":
                    to = op["to"]
                    say(op="swap", to=str(to))
                    set_graph(graphs[to] if isinstance(to, int) else Graph() if to == "bare" else bind_graph())
                    sim.probe["swap_back"] += isinstance(to, int)
                    sim.probe["swap_bare"] += to == "bare"
                    sim.probe["swap"] += 1
                    swapped[0] += 1
                    now = to
                    sim.pause()
                    continue
                if op["op"] == "new" and idx == 0 and now != op["c"]:
                    say(op="swap", to=str(op["c"]))
                    set_graph(graphs[op["c"]])
                    now = op["c"]
                done = act(op, now if idx == 0 else None)
                sim.probe["new_after_swap"] += bool(done and op["op"] == "new" and swapped[0])
                sim.pause()
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run
    sim.run_clients([body(i, ops) for i, ops in enumerate(plan["clients"])], preempt=plan.get("preempt"))

    def after(c):
        for i in range(len(graphs)):
            whole(i)
        for ck, h in held:
            ck.described(h.obj, h)
            sim.probe["held"] += 1
        for i, oid, as_, data in stored:
            w = plan["corpora"][i]["world"]
            set_graph(bind_graph())
            inside = catalog.pruned(w["lib"], oid)
            if as_ != "capitains":
                inside = [(bare(g), [(bare(wk), [bare(t) for t in ts]) for wk, ts in ws]) for g, ws in inside]
            cat = catalog.Catalog(k, sim)
            depth = 0 if oid is None else oid.split(":")[3].count(".") + 1
            first = inside[0]
            cls = [x.XmlCtsTextInventoryMetadata, x.XmlCtsTextgroupMetadata, x.XmlCtsWorkMetadata, None][depth]
            if depth == 3:
                cls = {"edition": x.XmlCtsEditionMetadata, "translation": x.XmlCtsTranslationMetadata, "commentary": x.XmlCtsCommentaryMetadata}[first[1][0][1][0]["kind"]]
            o = attempt(lambda: cls.parse(io.BytesIO(data.encode("utf-8"))), "reading an exported collection", op="read", as_=as_, id=oid, c=i)
            if depth == 0:
                cat.inventory(o, "default" if plan["corpora"][i]["kind"] == "local" else w["lib"]["tiid"], inside)
            elif depth == 1:
                cat.group(o, first[0], first[1])
            elif depth == 2:
                cat.work(o, None, first[1][0][0], first[1][0][1])
            else:
                cat.text(o, None, None, first[1][0][1][0])
            sim.probe["read_back"] += 1
        for i in range(len(graphs)):
            whole(i)
    sim.run_clients([after])
    checks = k.checks + sum(s[0].checks for s in sources if isinstance(s[0], Hand)) + sum(s[2].checks for s in sources if s[2])
    return {"checks": checks, "nontrivial": checks > 0}


def bare(y):
    return dict(y, sm=[])
