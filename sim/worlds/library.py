"""Generated CTS libraries: text groups, works, texts and their content, as plain JSON.

The same library can be served by a simulated CTS service (simcts) or written to disk as CapiTainS
repositories (simrepo); the oracles read the library itself."""
import zlib
from xml.sax.saxutils import escape, quoteattr

TEI = "http://www.tei-c.org/ns/1.0"
CTS = "http://chs.harvard.edu/xmlns/cts"
CPT = "http://purl.org/capitains/ns/1.0#"
XML = "{http://www.w3.org/XML/1998/namespace}"
SM_NS = {"dc": "http://purl.org/dc/elements/1.1/", "dct": "http://purl.org/dc/terms/", "foo": "http://foo.bar/ontology#"}
XSD = "http://www.w3.org/2001/XMLSchema#"

TITLES = ["Epigrammata", "Épigrammes", "Ἰλιάς", "De bello Gallico", "Lettres & fragments", "A < B", "詩経", "Tome 10",
          "Satyricon \"liber\"", "it's", "Ода", "1879", "Carmina", "Amores", "arma virumque"]
LANGS = ["eng", "lat", "fre", "grc", "ger", "en-GB"]
VOCAB = ["arma", "virumque", "cano", "Troiae", "qui", "primus", "ab", "oris", "μῆνιν", "ἄειδε", "θεὰ", "Hymen", "O",
         "Hymenaee", "&", "<", "rosa", "12", "true", "fin."]
NAMES = ["book", "poem", "line", "chapter", "section", "letter", "scène", "card"]


def title(rng):
    out = rng.choice(TITLES) + rng.choice(["", "", " %d" % rng.randrange(40)])
    if rng.random() < 0.08:
        # spaces and line breaks are characters of a name
        out = out.replace(" ", rng.choice(["  ", "\n", "\t", "\xa0"]), 1)
    return out


def langmap(rng, low=1):
    n = rng.choice([1, 1, 2, 3]) if low else rng.choice([0, 1, 2])
    return [[l, title(rng)] for l in rng.sample(LANGS, n)]


class Words(object):
    """Mostly unique words, with refrains and bare numbers now and then."""

    def __init__(self, rng, tag):
        self.rng, self.tag, self.i, self.refrain = rng, tag, 0, None

    def some(self, n=None):
        out = []
        for _ in range(n or self.rng.randrange(1, 4)):
            if self.rng.random() < 0.5:
                self.i += 1
                out.append("%s%d" % (self.tag, self.i))
            else:
                out.append(self.rng.choice(VOCAB))
        return out

    def leaf(self):
        r = self.rng.random()
        if r < 0.18:
            if self.refrain is None or self.rng.random() < 0.2:
                self.refrain = self.rng.choice([["O", "Hymen", "Hymenaee"], ["12"], ["true"], ["io"], ["3.50"]])
            return [["t", list(self.refrain)]]
        if r < 0.22:
            return [["t", [self.rng.choice(["1", "12", "007", "1e3", "true", "false", "nan"])]]]
        if r < 0.25:
            return []
        out = [["t", self.some()]]
        while self.rng.random() < 0.35 and len(out) < 5:
            k = self.rng.choice(["hi", "note", "t", "!", "?", "gap", "hi", "note hi"])
            out.append([k, self.some(2) if k == "note hi" else self.some() if k in ("hi", "note", "t", "!") else []])
        if self.rng.random() < 0.1:
            out = [["note", self.some()]] + out
        return out


def gen_tree(rng, depth, tag, sizes, extras):
    w = Words(rng, tag)

    def label(i, used):
        r = rng.random()
        n = str(i + 1)
        if r < 0.08:
            n = "pr"
        elif r < 0.14:
            n = "%da" % (i + 1)
        elif r < 0.18:
            n = "α%d" % i
        return n if n not in used else "%dx" % (i + 1)

    def make(d):
        items, used = [], set()
        count = rng.choice(sizes[d - 1])
        order = list(range(count))
        if rng.random() < 0.12:
            order.reverse()             # transposed lines: document order is not numeric order
        if extras and rng.random() < 0.35:
            items.append({"x": "head", "w": w.some(2)})
        for i in order:
            if extras and rng.random() < 0.08:
                items.append({"x": rng.choice(["!", "?", "pb", "head"]), "w": w.some(1)})
            n = label(i, used)
            used.add(n)
            node = {"n": n}
            if d < depth:
                node["items"] = make(d + 1)
            else:
                node["p"] = w.leaf()
            items.append(node)
        if extras and rng.random() < 0.1:
            items.append({"x": rng.choice(["!", "trailer"]), "w": w.some(1)})
        return items
    return make(1)


def gen_content(rng, tag, small=False, extras=True):
    depth = rng.choice([1, 2, 2, 3, 3])
    sizes = [[1, 2, 3, 4], [1, 2, 3], [1, 2, 3, 4]] if not small else [[1, 2], [1, 2], [1, 2, 3]]
    if depth == 1:
        sizes = [[1, 2, 3, 5, 8]]
    tags = {1: [["l"], ["p"], ["div"]], 2: [["div", "l"], ["div", "p"], ["div", "div"]],
            3: [["div", "div", "l"], ["div", "div", "p"], ["div", "lg", "l"], ["div", "p", "seg"], ["div", "div", "div"]]}[depth]
    tags = rng.choice(tags)
    out = {
        "levels": [{"name": rng.choice(NAMES[i:i + 4]), "tag": t} for i, t in enumerate(tags)],
        # "//" before this level in the pattern (only where that is not ambiguous)
        "wide": [rng.random() < 0.3 and t not in tags[i + 1:] for i, t in enumerate(tags)],
        "wrap": rng.choice([None, "div", "typed"]),          # a <div type="edition"> around everything
        "style": rng.choice(["indent", "compact", "lines"]),
        "decl": rng.choice(["utf8", "none", "bare"]),
        "quote": rng.choice(["'", "'", '"']),
        "items": gen_tree(rng, depth, tag, sizes, extras), "attrs": None,
    }
    for i in range(depth):
        if out["wide"][i] and rng.random() < 0.7:
            gen_containers(rng, out["items"], i, [t for t in ["sp", "lg", "quote", "ab", "div"] if t not in tags[i + 1:] or t == "div"])
    if rng.random() < 0.2:
        # the attribute which numbers the passages of a level is declared, and need not be @n
        out["attrs"] = [rng.choice(["n", "n", "key", "xml:id"]) for _ in tags]
        for i in range(depth):
            if out["attrs"][i] == "xml:id":
                gen_ids(out["items"], i, "pqr"[i])
    return out


def gen_ids(items, level, path):
    """Passages of a level get names which are unique in the document."""
    for k, it in enumerate(x for x in items if "n" in x):
        if level:
            gen_ids(it["items"], level - 1, "%s%d" % (path, k) if level > 1 else "%s%dv" % (path, k))
        else:
            it["n"] = "%s%d" % (path, k + 1)


def attr(text, level):
    return (text.get("attrs") or "nnn")[level]


def gen_containers(rng, items, level, tags):
    """Elements which are no citation level (stanzas, speeches...) around some passages of a level: {"in": [id, tags]}"""
    if level:
        for it in items:
            if "items" in it:
                gen_containers(rng, it["items"], level - 1, tags)
        return
    i, k = 0, 0
    while i < len(items):
        n = rng.choice([1, 1, 2, 3])
        if rng.random() < 0.6:
            k += 1
            box = [k, [rng.choice(tags) for _ in range(rng.choice([1, 1, 2]))]]
            for it in items[i:i + n]:
                it["in"] = box
        i += n


def gen_sm(rng, more=True):
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        p = rng.choice(["dc", "dct", "foo"])
        t = rng.choice({"dc": ["contributor", "source", "coverage"], "dct": ["extent", "spatial"], "foo": ["note", "x1"]}[p])
        r = rng.random()
        if r < 0.35:
            e = [p, t, rng.choice(LANGS), None, rng.choice([title(rng), "007", "1.50", "true"])]
        elif r < 0.5:
            e = [p, t, None, XSD + rng.choice(["string", "token"]), rng.choice([" ".join(title(rng).split()), "007", "1.50"])]
        elif r < 0.65:
            e = [p, t, None, None, rng.choice(["urn:cts:latinLit:phi1294", "http://foo.bar/x?a=1", "https://a.b/c", "hdl:10/22"])]
        elif r < 0.8:
            e = [p, t, None, None, rng.choice([str(rng.randrange(1, 2000)), "2.25", "-7"])]
        else:
            e = [p, t, None, None, rng.choice([title(rng), title(rng), "true", "", "doi:10.5/2", "a@b.c"])]
        if e[3] and more:
            e[3] = rng.choice([e[3], e[3].replace(XSD, "xs:"), e[3].replace(XSD, "xs:"), "urn:dt:plain", "x-dt:foo:y", "xs:a/xs:b"])
        elif more and e[2] and e[4] == "1.50":
            e[4] = ""
        out.append(e)
    return out


def datatype(dt):
    """ The IRI a data type written in structured metadata stands for"""
    return XSD + dt[3:] if dt and dt.startswith("xs:") else dt


def sm_uri(v):
    return v.startswith(("urn:", "http:", "https:", "hdl:"))


def gen_library(rng, groups=2, works=2, texts=2, small=False, extras=True, sm=True, empty=False):
    ns = rng.choice(["latinLit", "greekLit", "farsiLit"])
    lib = {"tiid": rng.choice(["thibault3", "urn:x:inventory", "default-inv"]), "groups": []}
    count = 0
    about = []
    # identifiers which are prefixes of one another are ordinary: stoa1 / stoa11
    gnames = rng.choice([["phi%04d" % (1294 + g) for g in range(groups)], rng.sample(["phi12", "phi1294", "phi12945", "phi1"] + ["phi12%d" % (g + 20) for g in range(groups)], groups)])
    for g in range(rng.randrange(1, groups + 1)):
        gu = "urn:cts:%s:%s" % (ns, gnames[g])
        G = {"urn": gu, "names": langmap(rng), "sm": gen_sm(rng) if sm else [], "works": []}
        wnames = rng.sample(["w" + "1" * (wi + 1) for wi in range(works)], works)
        for wi in range(rng.randrange(1, works + 1)):
            wu = "%s.%s" % (gu, rng.choice(["phi00%d" % (wi + 1), wnames[wi]]))
            W = {"urn": wu, "lang": rng.choice(["lat", "grc", "far"]), "titles": langmap(rng), "sm": gen_sm(rng) if sm else [],
                 "texts": []}
            tnums = rng.choice([list(range(1, texts + 1)), rng.sample([1, 11, 12, 2] + list(range(3, texts + 3)), texts)])
            for ti in range(rng.randrange(1, texts + 1)):
                count += 1
                kind = rng.choice(["edition", "edition", "translation", "commentary"])
                tu = "%s.perseus-%s%d" % (wu, rng.choice(["lat", "eng"]), tnums[ti])
                T = {"urn": tu, "kind": kind, "labels": langmap(rng), "descs": langmap(rng, 0),
                     "lang": rng.choice(["eng", "fre", "fr", "ger", "en"]) if kind != "edition" else W["lang"],
                     "about": rng.sample(about, min(len(about), rng.choice([1, 2]))) if kind == "commentary" else [],
                     "sm": gen_sm(rng) if sm else []}
                if empty and rng.random() < 0.15:
                    rng.choice([p for p in T["labels"] + T["descs"]])[1] = ""
                T.update(gen_content(rng, "w%d_" % count, small=small, extras=extras))
                about.append(tu)
                W["texts"].append(T)
            G["works"].append(W)
        lib["groups"].append(G)
    return lib


def all_texts(lib):
    return [(g, w, t) for g in lib["groups"] for w in g["works"] for t in w["texts"]]


def find_text(lib, urn):
    for g, w, t in all_texts(lib):
        if t["urn"] == urn:
            return g, w, t
    return None


# -- the text tree -------------------------------------------------------------------------------------

def nodes(text):
    """Every citable passage in document order: [(path, node)]."""
    out = []

    def walk(items, path):
        for it in items:
            if "n" in it:
                p = path + [it["n"]]
                out.append((p, it))
                if "items" in it:
                    walk(it["items"], p)
    walk(text["items"], [])
    return out


def depth(text):
    return len(text["levels"])


def reffs(text, level):
    return [".".join(p) for p, _ in nodes(text) if len(p) == level]


def split_ref(ref):
    """(start path, end path) of a reference string."""
    if not ref:
        return None
    a, _, b = ref.partition("-")
    a, b = a.split("@")[0], b.split("@")[0]
    return a.split("."), (b or a).split(".")


def exists(text, ref):
    all_ = {tuple(p) for p, _ in nodes(text)}
    a, b = split_ref(ref)
    return tuple(a) in all_ and tuple(b) in all_


def _positions(text, skip=()):
    """Linearise the document: ([words...], {path: (first, last+1)}) over a list of tokens."""
    seq, spans = [], {}

    def pieces(ps):
        for k, ws in ps:
            if k in ("t", "hi", "note") and k not in skip:
                seq.extend(ws)
            elif k == "note hi" and "note" not in skip:
                seq.extend(ws[:1] if "hi" in skip else ws)

    def walk(items, path):
        for it in items:
            if "n" in it:
                p = tuple(path + [it["n"]])
                start = len(seq)
                if "items" in it:
                    walk(it["items"], list(p))
                else:
                    pieces(it["p"])
                spans[p] = (start, len(seq))
            elif it["x"] in ("head", "trailer") and it["x"] not in skip:
                seq.extend(it["w"])
    walk(text["items"], [])
    return seq, spans


def words(text, ref=None, skip=()):
    """The words of a passage (or of the whole body), in document order, without those of some elements."""
    seq, spans = _positions(text, skip)
    if not ref:
        return seq
    a, b = split_ref(ref)
    return seq[spans[tuple(a)][0]:spans[tuple(b)][1]]


def under(text, ref, level):
    """References at an absolute level inside a reference (or range), in document order."""
    ns = nodes(text)
    index = {tuple(p): i for i, (p, _) in enumerate(ns)}
    if not ref:
        return reffs(text, level)
    a, b = split_ref(ref)
    first = index[tuple(a)]
    last = index[tuple(b)]
    while last + 1 < len(ns) and ns[last + 1][0][:len(b)] == b:
        last += 1
    return [".".join(p) for p, _ in ns[first:last + 1] if len(p) == level]


def siblings(text, ref):
    """(previous, next) of a passage or of a range of passages of one level, as reference strings or None."""
    a, b = split_ref(ref)
    if len(a) != len(b):
        return None
    rs = reffs(text, len(a))
    i, j = rs.index(".".join(a)), rs.index(".".join(b))
    n = j - i + 1
    if "-" not in ref:
        return (rs[i - 1] if i else None, rs[j + 1] if j + 1 < len(rs) else None)
    prev = None if i == 0 else "%s-%s" % (rs[max(0, i - n)], rs[i - 1])
    nxt = None if j + 1 == len(rs) else "%s-%s" % (rs[j + 1], rs[min(len(rs) - 1, j + n)])
    return prev, nxt


# -- XML of a text -------------------------------------------------------------------------------------

def scope_xpath(text, i, var=True, quote=None):
    """(scope, xpath) of citation level i as written in the declarations; var: $1.. or ?"""
    q = quote or text["quote"]
    out = "/tei:TEI/tei:text/tei:body"
    if text["wrap"]:
        out += "/tei:div[@type=%sedition%s]" % (q, q) if text["wrap"] == "typed" else "/tei:div"
    parts = []
    for k in range(i + 1):
        parts.append("%stei:%s[@%s=%s%s%s]" % ("//" if text["wide"][k] else "/", text["levels"][k]["tag"], attr(text, k), q,
                                                "$%d" % (k + 1) if var else "?", q))
    return out + "".join(parts[:-1]), parts[-1]


def _pieces(ps):
    out, first = [], True
    for k, ws in ps:
        s = escape(" ".join(ws))
        if k == "t":
            out.append(s if first else " %s" % s)
        elif k in ("hi", "note"):
            out.append(" <%s>%s</%s> " % (k, s, k))
        elif k == "note hi":
            out.append(" <note>%s <hi>%s</hi></note> " % (escape(ws[0]), escape(" ".join(ws[1:]))))
        elif k == "!":
            out.append("<!-- %s -->" % s.replace("--", "- "))
        elif k == "?":
            out.append("<?page break?>")
        elif k == "gap":
            out.append("<gap reason=\"lost\"/>")
        first = False
    return "".join(out)


def body_xml(text, ref=None):
    """The <text> element holding the passage with its ancestors (or everything)."""
    sep = {"indent": "\n  ", "compact": "", "lines": "\n"}[text["style"]]
    span = split_ref(ref)
    order = {tuple(p): i for i, (p, _) in enumerate(nodes(text))}
    state = {"on": span is None, "end": None}

    def element(it, path):
        tag = text["levels"][len(path) - 1]["tag"]
        a = attr(text, len(path) - 1)
        attrs = "" if it["n"] is None else " %s=%s" % (a, quoteattr(it["n"]))
        if a != "n" and len(it["n"] or "") % 2:
            attrs = " n=\"1\"" + attrs
        if tag == "div":
            attrs = " type=\"textpart\" subtype=%s%s" % (quoteattr(text["levels"][len(path) - 1]["name"]), attrs)
        return tag, attrs

    def boxed(parts):
        """The elements around consecutive passages."""
        out = []
        for box, part in parts:
            if box is not None and out and out[-1][0] == box:
                out[-1][1].append(part)
            else:
                out.append((box, [part]))
        return [x if b is None else "".join("<%s>" % t for t in b[1]) + x + "".join("</%s>" % t for t in reversed(b[1]))
                for b, x in ((b, sep.join(xs)) for b, xs in out)]

    def walk(items, path):
        out = []
        for it in items:
            box = it.get("in")
            if state["end"] == "done":
                break
            if "x" in it:
                if state["on"]:
                    w = escape(" ".join(it["w"]))
                    out.append((box, {"head": "<head>%s</head>" % w, "trailer": "<trailer>%s</trailer>" % w, "pb": "<pb n=\"9\"/>",
                                      "!": "<!-- %s -->" % w.replace("--", "- "), "?": "<?page break?>"}[it["x"]]))
                continue
            p = path + [it["n"]]
            tag, attrs = element(it, p)
            if span and not state["on"] and p == span[0]:
                state["on"] = True
            is_end = span and p == span[1]
            if is_end:
                state["end"] = tuple(p)
            if "items" in it:
                inner = walk(it["items"], p)
                inner = sep.join([""] + inner + [""]) if inner else ""
            else:
                inner = _pieces(it["p"])
            if state["on"]:
                if inner or "items" in it or it["p"]:
                    out.append((box, "<%s%s>%s</%s>" % (tag, attrs, inner, tag)))
                else:
                    out.append((box, "<%s%s/>" % (tag, attrs)))
            if is_end:
                state["end"] = "done"
        return boxed(out)
    inner = sep.join([""] + walk(text["items"], []) + [""])
    if text["wrap"]:
        inner = "<div type=\"edition\" n=%s xml:lang=\"lat\">%s</div>" % (quoteattr(text["urn"]), inner)
    return "<text><body>%s</body></text>" % inner


def ancestors(text, ref):
    """How many elements of body_xml are around a passage."""
    n, path = 3 + bool(text["wrap"]), split_ref(ref)[0]
    for p, it in nodes(text):
        if p == path[:len(p)]:
            n += 1 + (len(it["in"][1]) if "in" in it else 0)
    return n - 1


def tei_xml(text, header=True):
    """The complete document of a text."""
    decl = ""
    n = depth(text)
    for i in reversed(range(n)):
        s, x = scope_xpath(text, i)
        decl += "<cRefPattern n=%s matchPattern=\"%s\" replacementPattern=%s><p>This pattern extracts %s</p></cRefPattern>" % (
            quoteattr(text["levels"][i]["name"]), "\\.".join(["(\\w+)"] * (i + 1)), quoteattr("#xpath(%s%s)" % (s, x)),
            escape(text["levels"][i]["name"]))
    head = {"utf8": "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "none": "", "bare": "<?xml version=\"1.0\"?>\n"}[text["decl"]]
    return "%s<TEI xmlns=\"%s\"><teiHeader><fileDesc><titleStmt><title>Header</title></titleStmt></fileDesc><encodingDesc>" \
           "<refsDecl n=\"CTS\">%s</refsDecl></encodingDesc></teiHeader>%s</TEI>" % (head, TEI, decl, body_xml(text))


def header_words(text):
    out = ["Header"]
    for i in reversed(range(depth(text))):
        out += ["This", "pattern", "extracts"] + text["levels"][i]["name"].split()
    return out


def elements(xml_text):
    """Sequence of (tag, attributes) of the elements of a document, in document order (for comparison)."""
    from lxml import etree
    root = etree.fromstring(xml_text) if isinstance(xml_text, (str, bytes)) else xml_text
    return [[etree.QName(e).localname, sorted(e.attrib.items())] for e in root.iter() if isinstance(e.tag, str)]


# -- inventory XML ---------------------------------------------------------------------------------------

def said(v):
    """ A value as it is written in an inventory: comments within it are no part of it"""
    k = zlib.crc32(v.encode("utf-8")) % 24
    if k < 2 and len(v) > 1:
        return escape(v[:len(v) // 2]) + ["<!-- sic -->", "<?pb 12?>"][k] + escape(v[len(v) // 2:])
    return escape(v)


def _values(tag, pairs, p="ti:"):
    return "".join("<%s%s xml:lang=%s>%s</%s%s>" % (p, tag, quoteattr(l), said(v), p, tag) for l, v in pairs)


def _sm(items):
    if not items:
        return ""
    out = ""
    for p, t, lang, dt, v in items:
        a = " xml:lang=%s" % quoteattr(lang) if lang else ""
        if dt:
            a += " rdf:datatype=%s" % quoteattr(dt)
        out += "<%s:%s%s>%s</%s:%s>" % (p, t, a, said(v), p, t)
    return "<cpt:structured-metadata xmlns:cpt=\"%s\" xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\" xmlns:xs=\"http://www.w3.org/2001/XMLSchema#\" %s>%s" \
           "</cpt:structured-metadata>" % (CPT, " ".join("xmlns:%s=\"%s\"" % i for i in sorted(SM_NS.items())), out)


def citation_xml(text, i=0, p="ti:"):
    """The nested <citation> elements of a text, from level i down."""
    s, x = scope_xpath(text, i, var=False, quote="'")
    inner = citation_xml(text, i + 1, p) if i + 1 < depth(text) else ""
    return "<%scitation label=%s xpath=%s scope=%s>%s</%scitation>" % (
        p, quoteattr(text["levels"][i]["name"]), quoteattr(x), quoteattr(s), inner, p)


def text_meta_xml(w, t, online=True):
    a = " workUrn=%s urn=%s" % (quoteattr(w["urn"]), quoteattr(t["urn"]))
    if t["kind"] != "edition":
        a += " xml:lang=%s" % quoteattr(t["lang"])
    body = _values("label", t["labels"]) + _values("description", t["descs"])
    body += "".join("<ti:about urn=%s/>" % quoteattr(u) for u in t["about"])
    if online:
        body += "<ti:online docname=\"x.xml\"><ti:citationMapping>%s</ti:citationMapping></ti:online>" % citation_xml(t)
    return "<ti:%s%s>%s%s</ti:%s>" % (t["kind"], a, body, _sm(t["sm"]), t["kind"])


def work_xml(g, w, texts=None, online=True, root=False):
    ns = " xmlns:ti=\"%s\"" % CTS if root else ""
    return "<ti:work%s groupUrn=%s urn=%s xml:lang=%s>%s%s%s</ti:work>" % (
        ns, quoteattr(g["urn"]), quoteattr(w["urn"]), quoteattr(w["lang"]), _values("title", w["titles"]),
        "".join(text_meta_xml(w, t, online) for t in (w["texts"] if texts is None else texts)), _sm(w["sm"]))


def group_xml(g, works=True, root=False):
    ns = " xmlns:ti=\"%s\"" % CTS if root else ""
    return "<ti:textgroup%s urn=%s>%s%s%s</ti:textgroup>" % (
        ns, quoteattr(g["urn"]), _values("groupname", g["names"]), "".join(work_xml(g, w) for w in g["works"]) if works else "",
        _sm(g["sm"]))


def inventory_xml(lib):
    return "<ti:TextInventory xmlns:ti=\"%s\" tiid=%s>%s</ti:TextInventory>" % (
        CTS, quoteattr(lib["tiid"]), "".join(group_xml(g) for g in lib["groups"]))
