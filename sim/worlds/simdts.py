"""A simulated DTS service: publishes a generated catalogue, reference lists and documents.

The *world* is plain JSON held in the plan; the oracle reads the same world, never the server's output."""
import json
from urllib.parse import quote

from ..net import Reply

HYD = "https://www.w3.org/ns/hydra/core#"
DTS = "https://w3id.org/dts/api#"
DCT = "http://purl.org/dc/terms/"
FOO = "http://foo.bar/ontology#"
BAR = "http://bar.example/terms/"

WORDS = ["Priapeia", "Épigrammes", "Ἰλιάς", "De bello Gallico", "Lettres & fragments", "A < B", "Ода \"Первая\"",
         "詩経", "Codex", "Tome 10", "it's", "Ὀδύσσεια", "Liber  duplex", "Satyricon", "Römische Elegien", "1879"]
LANGS = ["fr", "en", "la", "grc", "de", "en-US"]
DC_TERMS = ["creator", "contributor", "publisher", "description", "source", "date", "language", "subject", "title"]
EXT_TERMS = [FOO + "fictionalSender", FOO + "fictionalRecipient", BAR + "note", BAR + "x1"]


def word(rng):
    return rng.choice(WORDS) + rng.choice(["", "", " %d" % rng.randrange(50)])


def gen_id(rng, n, style):
    return {
        "urn": lambda: "urn:cts:latinLit:phi%04d.phi%03d" % (n, rng.randrange(1, 9)),
        "urn2": lambda: "urn:enc:membre%d" % n,
        "http": lambda: "http://data.example.org/ark:/12148/cb%d" % n,
        "httpq": lambda: "http://data.example.org/coll?x=%d&y=a%%20b" % n,
        "word": lambda: "urn:x:collection-%d" % n,
        "uni": lambda: "urn:x:élégies_%d" % n,
        "page": lambda: "urn:x:page=%d" % n,
    }[style]()


def gen_values(rng):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.45:
            v = {"@language": rng.choice(LANGS), "@value": word(rng)}
        elif r < 0.75:
            v = word(rng)
        elif r < 0.85:
            v = rng.choice([rng.randrange(0, 2000), rng.randrange(0, 2000), 2.5, True, False])
        elif r < 0.93:
            v = {"@id": rng.choice(["https://viaf.org/viaf/%d" % rng.randrange(99), "urn:cts:latinLit:phi%d" % rng.randrange(99)])}
        else:
            v = {"@type": "http://www.w3.org/2001/XMLSchema#date", "@value": "18%02d-03-02" % rng.randrange(10, 99)}
        if not any(v == x and type(v) == type(x) for x in out):
            out.append(v)
    return out


def gen_cite(rng, depth):
    """A list of citation nodes: {"type":..., "sub":[...]}, longest branch = depth."""
    names = ["poem", "line", "book", "chapter", "section", "letter", "act", "scène"]

    def node(d):
        n = {"type": rng.choice(names), "sub": []}
        if d > 1:
            n["sub"] = [node(d - 1)]
            if rng.random() < 0.25:
                n["sub"].append(node(rng.randrange(1, d)))
        return n
    out = [node(depth)]
    if rng.random() < 0.25:
        out.append(node(rng.randrange(1, depth + 1)))
    return out


def gen_meta(rng, rich=True):
    m = {"title": word(rng)}
    if rng.random() < 0.4:
        m["description"] = word(rng)
    if rich:
        if rng.random() < 0.6:
            m["dc"] = {t: gen_values(rng) for t in rng.sample(DC_TERMS, rng.randrange(1, 4))}
        if rng.random() < 0.4:
            m["ext"] = {t: gen_values(rng) for t in rng.sample(EXT_TERMS, rng.randrange(1, 3))}
    return m


def gen_catalogue(rng, n, fanout=None, dag=0.15, rich=True):
    """n collections in a rooted DAG: {id: {..., children: [...], parents: [...]}} (the root comes first)."""
    style = rng.choice(["urn", "urn2", "http", "httpq", "word", "uni", "page", "mix", "urn2", "urn"])
    styles = ["urn", "urn2", "http", "word", "uni", "httpq"]
    ids = []
    for i in range(n):
        ids.append(gen_id(rng, i, style if style != "mix" else rng.choice(styles)))
    cols = {}
    for i, c in enumerate(ids):
        cols[c] = dict(gen_meta(rng, rich), children=[], parents=[])
    hub = rng.random() < 0.4
    for i in range(1, n):
        if hub and rng.random() < 0.6:
            p = 0
        else:
            p = rng.randrange(max(0, i - (fanout or 6)), i)
        ps = [p]
        while rng.random() < dag and len(ps) < 3 and i > len(ps):
            q = rng.randrange(0, i)
            if q not in ps:
                ps.append(q)
        for q in ps:
            cols[ids[q]]["children"].append(ids[i])
            cols[ids[i]]["parents"].append(ids[q])
    for c in ids:
        v = cols[c]
        v["type"] = "Collection" if (v["children"] or rng.random() < 0.3) else "Resource"
        if v["type"] == "Resource":
            if rng.random() < 0.7:
                d = rng.randrange(1, 4)
                v["cite"] = gen_cite(rng, d)
                if rng.random() < 0.6:
                    v["depth"] = d
    return ids, cols


def gen_world(rng, n=8, psize=None, rich=True, dag=0.15):
    ids, cols = gen_catalogue(rng, n, rich=rich, dag=dag)
    psize = psize or rng.choice([1, 1, 2, 2, 3, 4, 5, 100])
    return {
        "base": "http://dts.sim",
        "entry": rng.choice(["/api/dts/", "/api/dts", "/", "/dts.json", "/api/dts/?v=1"]),
        "route": rng.choice(["abs", "rel", "full"]),
        "route_q": rng.choice([{}, {}, {}, {"key": ["a b"]}, {"key": ["1"], "tenant": ["é"]}]),
        "ctx": rng.choice(["hydra", "dts", "prefixed"]),
        "next": rng.choice(["plain", "plain", "mid", "nav", "perpage", "query", "full", "rawid"]),
        "view_always": rng.random() < 0.4,
        "empty_member": rng.random() < 0.5,
        "scalar": rng.random() < 0.5,
        "psize": psize,
        "ppsize": rng.choice([1, 1, 2, 3, 100]),
        "root": ids[0], "ids": ids, "coll": cols, "texts": {},
    }


class DtsServer(object):
    def __init__(self, world):
        self.w = world
        self.violated = None

    # -- URLs -----------------------------------------------------------------
    @property
    def endpoint(self):
        return self.w["base"] + self.w["entry"]

    def path(self, which):
        return "/api/dts/%s" % which

    def route(self, which):
        w = self.w
        p = self.path(which)
        if w["route"] == "rel":
            # relative to the entry point
            entry_dir = w["entry"].split("?")[0].rsplit("/", 1)[0] + "/"
            p = p[len(entry_dir):]
        elif w["route"] == "full":
            p = w["base"] + p
        if w["route_q"]:
            p += "?" + "&".join("%s=%s" % (k, quote(v)) for k, vs in w["route_q"].items() for v in vs)
        return p

    def __call__(self, req):
        w = self.w
        entry = w["entry"].split("?")[0]
        if req.path == entry and req.path not in (self.path("collections"),):
            body = {"@context": "/api/dts/contexts/EntryPoint.jsonld", "@id": entry, "@type": "EntryPoint"}
            for r in ("collections", "documents", "navigation"):
                body[r] = self.route(r)
            return self.json(body)
        for k, vs in w["route_q"].items():
            if [v for kk, v in req.query if kk == k] != vs:
                return Reply(400, "missing %s" % k, "text/plain; charset=utf-8")
        if req.path == self.path("collections"):
            return self.collections(req)
        if req.path == self.path("navigation"):
            return self.navigation(req)
        if req.path == self.path("documents"):
            return self.documents(req)
        return Reply(404, "no such path", "text/plain; charset=utf-8")

    def json(self, body, status=200):
        return Reply(status, json.dumps(body, ensure_ascii=False), "application/ld+json; charset=utf-8")

    # -- JSON-LD vocabulary -------------------------------------------------------
    def ctx(self):
        c = {"dc": DCT, "foo": FOO, "bar": BAR}
        style = self.w["ctx"]
        if style == "hydra":
            c.update({"@vocab": HYD, "dts": DTS})
        elif style == "dts":
            c.update({"@vocab": DTS, "hydra": HYD})
        else:
            c.update({"hydra": HYD, "dts": DTS})
        return c

    def h(self, t):
        return t if self.w["ctx"] == "hydra" else "hydra:" + t

    def d(self, t):
        return t if self.w["ctx"] == "dts" else "dts:" + t

    def pages(self, n, size):
        return max(1, -(-n // size))

    def view(self, path, ident, page, last, nav):
        style = self.w["next"]
        q = quote(ident, safe=":/=" if style == "rawid" else "")

        def url(n):
            if style in ("plain", "rawid"):
                return "%s/?id=%s&page=%d" % (path, q, n)
            if style == "mid":
                return "%s?page=%d&id=%s" % (path, n, q)
            if style == "nav":
                return "%s?id=%s&page=%d&nav=%s" % (path, q, n, nav or "children")
            if style == "perpage":
                return "%s?id=%s&perpage=50&page=%d" % (path, q, n)
            if style == "query":
                return "?id=%s&page=%d" % (q, n)
            return "%s%s?id=%s&page=%d" % (self.w["base"], path, q, n)
        v = {"@id": url(page), "@type": "PartialCollectionView", self.h("first"): url(1), self.h("last"): url(last)}
        if page > 1:
            v[self.h("previous")] = url(page - 1)
        if page < last:
            v[self.h("next")] = url(page + 1)
        return v

    def values(self, vs, rng_scalar):
        return vs[0] if len(vs) == 1 and rng_scalar else vs

    def cite(self, nodes):
        out = []
        for n in nodes:
            o = {self.d("citeType"): n["type"]}
            if n["sub"]:
                o[self.d("citeStructure")] = self.cite(n["sub"])
            out.append(o)
        return out

    def meta(self, m):
        o = {}
        if m.get("dc"):
            o[self.d("dublincore")] = {"dc:" + k: self.values(v, self.w["scalar"]) for k, v in m["dc"].items()}
        if m.get("ext"):
            o[self.d("extensions")] = {k.replace(FOO, "foo:").replace(BAR, "bar:"): self.values(v, self.w["scalar"])
                                       for k, v in m["ext"].items()}
        return o

    def summary(self, ident, full=False):
        m = self.w["coll"][ident]
        ns = self.h("")
        o = {"@id": ident, "@type": ns + m["type"], self.h("title"): m["title"],
             self.h("totalItems"): m.get("total", len(m["children"]))}
        if self.w["ctx"] == "dts":
            o["@type"] = "hydra:" + m["type"]
        if "description" in m and (full or self.w.get("rich_members", True)):
            o[self.h("description")] = m["description"]
        if full or self.w.get("rich_members", True):
            o.update(self.meta(m))
            if m.get("cite"):
                o[self.d("citeStructure")] = self.cite(m["cite"])
            if m.get("depth"):
                o[self.d("citeDepth")] = m["depth"]
        return o

    def collections(self, req):
        ident = req.params.get("id", self.w["root"])
        m = self.w["coll"].get(ident)
        if m is None:
            return Reply(404, '{"error": "unknown collection"}', "application/json")
        nav = req.params.get("nav", "children")
        page = int(req.params.get("page", "1"))
        size = self.w["psize"] if nav == "children" else self.w["ppsize"]
        items = m["children"] if nav == "children" else m["parents"]
        last = self.pages(len(items), size)
        if page < 1 or page > last:
            return Reply(404, '{"error": "no such page"}', "application/json")
        o = {"@context": self.ctx()}
        o.update(self.summary(ident, full=True))
        part = items[(page - 1) * size:page * size]
        if part or self.w["empty_member"]:
            o[self.h("member")] = [self.summary(c) for c in part]
        if last > 1 or self.w["view_always"]:
            o[self.h("view")] = self.view(self.path("collections"), ident, page, last, nav)
        return self.json(o)

    # -- navigation ------------------------------------------------------------------
    def ref_node(self, r):
        o = {}
        if r.get("end"):
            o[self.d("start")], o[self.d("end")] = r["start"], r["end"]
        else:
            o[self.d("ref")] = r["start"]
        if r.get("type"):
            o[self.d("citeType")] = r["type"]
        o.update(self.meta(r))
        return o

    def navigation(self, req):
        p = req.params
        t = self.w["texts"].get(p.get("id"))
        if t is None:
            return Reply(404, '{"error": "unknown text"}', "application/json")
        a = nav_answer(t, int(p.get("level", "1")), p.get("ref"), p.get("start"), p.get("end"),
                       int(p.get("groupBy", "1")), p.get("exclude"))
        if a is None:
            return Reply(404, '{"error": "unknown reference"}', "application/json")
        size = self.w["nsize"]
        page = int(p.get("page", "1"))
        last = self.pages(len(a["refs"]), size)
        if page < 1 or page > last:
            return Reply(404, '{"error": "no such page"}', "application/json")
        o = {"@context": self.ctx(), "@id": "/api/dts/navigation/?id=%s" % quote(p["id"], safe=""),
             self.d("level"): a["level"], self.d("citeDepth"): t["depth"]}
        if a.get("type"):
            o[self.d("citeType")] = a["type"]
        part = a["refs"][(page - 1) * size:page * size]
        if part or self.w["empty_member"]:
            o[self.h("member")] = [self.ref_node(r) for r in part]
        if last > 1 or self.w["view_always"]:
            o[self.h("view")] = self.view(self.path("navigation"), p["id"], page, last, None)
        return self.json(o)

    # -- documents ---------------------------------------------------------------------
    def documents(self, req):
        p = req.params
        t = self.w["texts"].get(p.get("id"))
        if t is None:
            return Reply(404, '<error/>', "application/xml; charset=utf-8")
        d = document(t, p["id"], p.get("ref"), p.get("start"), p.get("end"))
        if d is None:
            return Reply(404, '<error/>', "application/xml; charset=utf-8")
        links = []
        base = (self.w["base"] if self.w.get("full_links") else "") + self.path("documents")
        for rel in ("prev", "next", "up", "first", "last"):
            r = d.get(rel)
            if r is not None:
                q = "".join("&%s=%s" % (k, quote(v, safe="")) for k, v in r.items())
                links.append('<%s/?id=%s%s>; rel="%s"' % (base, quote(p["id"], safe=""), q, rel))
        links.append('<%s/?id=%s>; rel="collection"' % (self.path("collections"), quote(p["id"], safe="")))
        if self.w.get("contents_link"):
            links.append('<%s/?id=%s>; rel="contents"' % (self.path("navigation"), quote(p["id"], safe="")))
        order = self.w.get("link_order", 0)
        links = links[order % len(links):] + links[:order % len(links)]
        h = {} if self.w.get("no_links") else {"Link": ", ".join(links)}
        if self.w.get("xmldecl"):
            body = '<?xml version="1.0" encoding="UTF-8"?>\n' + d["xml"]
        else:
            body = d["xml"]
        return Reply(200, body, self.w["doc_ctype"], headers=h)


# -- texts: one tree of passages per text, shared by the navigation and document endpoints ---------------

def gen_text(rng, sizes=None):
    depth = rng.choice([1, 1, 2, 2, 3])
    types = rng.sample(["poem", "line", "book", "chapter", "section", "scène"], depth)
    mixed = rng.random() < 0.2
    counter = [0]

    def label(i, used):
        r = rng.random()
        lab = str(i + 1) if r < 0.75 else rng.choice(["pr", "Av", "12a", "ep", "5-6", "α", "A b", "x&y", "1#2"]) + str(i)
        while lab in used:
            lab += "b"
        used.add(lab)
        return lab

    def level(prefix, d):
        used, out = set(), []
        n = rng.choice([1, 2, 3, 4]) if d > 1 else rng.choice(sizes or [1, 2, 3, 5, 7])
        for i in range(n):
            ref = (prefix + "." if prefix else "") + label(i, used)
            counter[0] += 1
            node = {"start": ref, "text": "%s nr %d" % (word(rng), counter[0]), "children": []}
            if mixed and rng.random() < 0.3:
                node["type"] = rng.choice(["preface", "letter"])
            if rng.random() < 0.3:
                node["dc"] = {t: gen_values(rng) for t in rng.sample(DC_TERMS, 1)}
            if rng.random() < 0.2:
                node["ext"] = {t: gen_values(rng) for t in rng.sample(EXT_TERMS, 1)}
            if d < depth and rng.random() < 0.9:
                node["children"] = level(ref, d + 1)
            out.append(node)
        return out
    return {"depth": depth, "types": types if rng.random() < 0.8 else [], "tree": level("", 1)}


def text_levels(t):
    """[(depth, node, parent)] in reading order."""
    out = []

    def walk(nodes, d, parent):
        for n in nodes:
            out.append((d, n, parent))
            walk(n["children"], d + 1, n)
    walk(t["tree"], 1, None)
    return out


def find_node(t, ref):
    for d, n, p in text_levels(t):
        if n["start"] == ref:
            return d, n, p
    return None


def nav_answer(t, level, ref=None, start=None, end=None, group=1, exclude=None):
    """What the navigation endpoint publishes: {"refs": [...], "level": n, "type": name or None} or None."""
    if (start is None) != (end is None) or (ref is not None and start is not None):
        return None
    if ref is not None or start is not None:
        a, b = find_node(t, ref or start), find_node(t, end or ref)
        if a is None or b is None or a[0] != b[0]:
            return None
        same = [n for d, n, _ in text_levels(t) if d == a[0]]
        i, j = same.index(a[1]), same.index(b[1])
        scope, base = same[i:j + 1], a[0]
    else:
        scope, base = [{"children": t["tree"]}], 0
    nodes = scope
    for _ in range(level):
        nodes = [c for n in nodes for c in n["children"]]
    refs = [{k: v for k, v in n.items() if k in ("start", "type", "dc", "ext") and not (exclude and k in exclude.split())}
            for n in nodes]
    if group > 1:
        refs = [{"start": refs[i]["start"], "end": refs[min(i + group, len(refs)) - 1]["start"]}
                for i in range(0, len(refs), group)]
    lv = base + level
    return {"refs": refs, "level": lv, "type": t["types"][lv - 1] if 0 < lv <= len(t["types"]) else None}


def _xml(n):
    from xml.sax.saxutils import escape, quoteattr
    return "<div n=%s><!-- c --><p>%s<hi>x</hi> é</p>%s</div>" % (
        quoteattr(n["start"]), escape(n["text"]), "".join(_xml(c) for c in n["children"]))


def _text(n):
    return [n["text"], "x", " é"] + [x for c in n["children"] for x in _text(c)]


def document(t, tid, ref=None, start=None, end=None):
    """What the document endpoint publishes for a passage: xml, plain text and links; None if unknown."""
    levels = text_levels(t)
    if ref is not None and start is not None or (start is None) != (end is None):
        return None
    d = {}
    if ref is None and start is None:
        nodes = t["tree"]
    else:
        a, b = find_node(t, ref or start), find_node(t, end or ref)
        if a is None or b is None or a[0] != b[0]:
            return None
        same = [n for dd, n, _ in levels if dd == a[0]]
        i, j = same.index(a[1]), same.index(b[1])
        if j < i:
            return None
        nodes = same[i:j + 1]
        width = j - i + 1
        style = t.get("links") or {}

        def link(k, m):
            if k < 0 or m >= len(same) or k > m:
                return None
            if k == m and not (style.get("ranges") and ref is None):
                return {"ref": same[k]["start"]}
            return {"start": same[k]["start"], "end": same[m]["start"]}
        # a service is free to cut the text as it likes: the next passage may be wider than this one
        d["prev"] = link(max(0, i - width - style.get("wider", 0)), i - 1)
        d["next"] = link(j + 1, min(len(same) - 1, j + width + style.get("wider", 0)))
        d["first"], d["last"] = link(0, min(width, len(same)) - 1), link(max(0, len(same) - width), len(same) - 1)
        if a[2] is None or a[2] is not b[2]:
            d["up"] = {}
        else:
            d["up"] = {"ref": a[2]["start"]}
        for rel in style.get("omit", ()):
            d[rel] = None
    d["xml"] = ('<TEI xmlns="http://www.tei-c.org/ns/1.0"><dts:fragment xmlns:dts="https://w3id.org/dts/api#">%s'
                '</dts:fragment></TEI>' % "".join(_xml(n) for n in nodes))
    d["text"] = " ".join(" ".join(x for n in nodes for x in _text(n)).split())
    return d


def add_texts(rng, world, n=1, sizes=None):
    """Give texts to the readable collections of the world (or to made-up identifiers)."""
    ids = [c for c in world["ids"] if world["coll"][c]["type"] == "Resource"][:n]
    while len(ids) < n:
        new = "urn:x:text-%d" % len(world["ids"])
        world["ids"].append(new)
        world["coll"][new] = {"title": "Text", "children": [], "parents": [], "type": "Resource"}
        ids.append(new)
    for c in ids:
        t = gen_text(rng, sizes)
        t["links"] = {"ranges": rng.random() < 0.4, "wider": rng.choice([0, 0, 0, 1, 2]),
                      "omit": rng.choice([[], [], [], ["up"], ["next"], ["prev"], ["first", "last"], ["first"], ["last"]])}
        world["texts"][c] = t
        world["coll"][c]["depth"] = t["depth"]
        if t["types"]:
            cite = []
            for name in reversed(t["types"]):
                cite = [{"type": name, "sub": cite}]
            world["coll"][c]["cite"] = cite
        else:
            world["coll"][c].pop("cite", None)
    world["nsize"] = rng.choice([1, 1, 2, 2, 3, 5, 100])
    world["full_links"] = rng.random() < 0.5
    world["contents_link"] = rng.random() < 0.5
    world["link_order"] = rng.randrange(6)
    world["no_links"] = rng.random() < 0.1
    world["xmldecl"] = rng.random() < 0.3
    world["doc_ctype"] = rng.choice(["application/tei+xml", "application/tei+xml; charset=utf-8", "application/xml", "text/xml"])
    return ids
