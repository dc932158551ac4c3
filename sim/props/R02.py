"""R02: citation schemes, however they were put together, changed, copied and sent to other processes."""
from sim.worlds import localread, values

META = {
    "runs": {"quick": 5000, "thorough": 125000},
    "rule": "one evaluation = one seeded history of 1-3 clients, possibly interrupting one another inside the library, which put citation schemes together, "
            "change, match, fill, copy and export them, followed by a process which reads what was stored; distinct = distinct event trace",
    "real": ["MyCapytain citations (CTS, CapiTainS, DTS)", "lxml", "pyld", "rdflib namespaces"],
    "stub": ["thread scheduling", "processes (fresh shared graph)", "the disk (in memory, torn writes)"],
    "assumptions": ["the XPath of a level is one step with one variable", "XPath in TEI use single quotes"],
    "must_probe": ["nested", "child", "children", "add", "tei", "cts", "refsdecl", "dtsset", "dtsmade", "branches", "set_xpath", "set_scope", "set_refsdecl", "set_name", "bare",
                   "match", "too_deep", "fill", "partial_fill", "copied", "stored", "loaded", "torn", "preempted", "double_quotes", "special", "detached"],
}
STEPS = ["/tei:div[@n='?']", "//tei:l[@n='?']", "/tei:div[@type='textpart'][@n='?']", "/tei:*[self::tei:l or self::tei:p][@n='?']", "/tei:p[@n='?']",
         "/(tei:l|tei:p)[@n='?']", "/tei:div[@n='?' and @subtype='book']", "/tei:seg[@xml:id='?']"]
BASES = ["/tei:TEI/tei:text/tei:body", "/tei:TEI/tei:text/tei:body/tei:div", "//tei:body/tei:div[@type='edition']"]
NAMES = ["book", "poem", "line", "chapitre", "κεφάλαιον", "book & part", "a < b", "\"vers\""]


def gen_scheme(rng, double):
    n = rng.choice([1, 1, 2, 2, 3, 3, 4])
    names = rng.sample(NAMES, n)
    steps = [rng.choice(STEPS) for _ in range(n)]
    base = rng.choice(BASES)
    if double:
        steps = [s.replace("'", '"') for s in steps]
    return [{"name": names[i], "scope": base + "".join(steps[:i]), "xpath": steps[i]} for i in range(n)]


def gen_tree(rng, depth=0, left=None):
    """Citation structure of DTS: [name, [children]]"""
    left = left if left is not None else list(NAMES)
    out = []
    for _ in range(rng.choice([1, 1, 2, 3]) if depth == 0 else rng.choice([0, 1, 1, 2])):
        if not left:
            break
        name = left.pop(rng.randrange(len(left)))
        out.append([name, gen_tree(rng, depth + 1, left) if depth < 3 else []])
    return out


def generate(rng, tier, index):
    clients = []
    for c in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for i in range(rng.randrange(4, 18)):
            kind = "make" if i == 0 else rng.choice(["make", "make", "dts", "set", "set", "set", "match", "match", "fill", "fill", "copy", "export", "store", "store", "detach"])
            op = {"op": kind, "at": rng.randrange(1000), "k": rng.randrange(1000), "level": rng.randrange(10)}
            if kind == "make":
                how = rng.choice(["nested", "child", "children", "add", "tei", "cts", "refsdecl"])
                op.update(how=how, scheme=gen_scheme(rng, how != "tei" and rng.random() < 0.3), order=rng.randrange(1000))
            elif kind == "dts":
                op.update(how=rng.choice(["dtsset", "dtsmade"]), tree=gen_tree(rng), depth=rng.random() < 0.2)
            elif kind == "set":
                op.update(part=rng.choice(["xpath", "scope", "refsdecl", "name"]), name=rng.choice(NAMES), step=rng.choice(STEPS))
            elif kind in ("match", "fill"):
                op["ref"] = values.gen_ref(rng, words=0.1)
            elif kind == "store":
                op.update(torn=rng.random() if rng.random() < 0.2 else None, form=rng.choice(["pickle", "cts", "tei", "dts"]), bare=rng.random() < 0.15)
            ops.append(op)
        clients.append(ops)
    return {"clients": clients, "delays": [rng.randrange(1, 20) for _ in range(40)] if len(clients) > 1 else [],
            "preempt": localread.gen_preempt(rng, clients, rate=0.8, lines=1500)}


def number(text):
    i, out = 0, ""
    for ch in text:
        if ch == "?":
            i += 1
            ch = "$%d" % i
        out += ch
    return out


def filled(text, parts):
    """The XPath of some passages: None matches any."""
    import re
    it = iter(parts)

    def one(m):
        v = next(it)
        return m.group(1) if v is None else "%s='%s'" % (m.group(1), v)
    return re.sub(r"(@[a-z:]+)=['\"]\?['\"]", one, text)


def execute(plan, sim):
    import copy
    import pickle
    from lxml import etree
    from pyld import jsonld
    from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, XPATH_NAMESPACES, bind_graph, set_graph
    from MyCapytain.common.reference import Citation, CtsReference, DtsCitation, DtsCitationSet
    from MyCapytain.common.utils.xml import xmlparser
    from MyCapytain.resources.collections.cts import XmlCtsCitation
    from xml.sax.saxutils import escape, quoteattr
    k = values.Checker(sim)
    disk = []
    STRUCT = str(RDF_NAMESPACES.DTS.term("citeStructure"))

    # -- CTS schemes ----------------------------------------------------------------
    def tei_xml(patterns):
        return '<TEI xmlns="http://www.tei-c.org/ns/1.0" xmlns:tei="http://www.tei-c.org/ns/1.0"><refsDecl n="CTS">%s</refsDecl></TEI>' % "".join(patterns)

    def cts_xml(s):
        inner = ""
        for lv in reversed(s):
            inner = "<citation label=%s xpath=%s scope=%s>%s</citation>" % (quoteattr(lv["name"]), quoteattr(lv["xpath"]), quoteattr(lv["scope"]), inner)
        return inner

    def build(op):
        s, how = op["scheme"], op["how"]
        sim.probe["double_quotes"] += '"' in s[0]["xpath"]
        sim.probe["special"] += any(set(lv["name"]) & set("<&\"") for lv in s)
        sim.probe[how] += 1
        if how in ("nested", "refsdecl"):
            c = None
            for lv in reversed(s):
                if how == "nested":
                    c = Citation(name=lv["name"], xpath=lv["xpath"], scope=lv["scope"], child=c)
                else:
                    c = Citation(name=lv["name"], refsDecl=number(lv["scope"] + lv["xpath"]), child=c)
            return c
        if how == "tei":
            pats = ['<cRefPattern n=%s matchPattern="%s" replacementPattern=%s><p>x</p></cRefPattern>'
                    % (quoteattr(lv["name"]), "\\.".join(["(\\w+)"] * (i + 1)), quoteattr("#xpath(%s)" % number(lv["scope"] + lv["xpath"])))
                    for i, lv in enumerate(s)]
            return Citation.ingest(xmlparser(tei_xml(reversed(pats))))
        if how == "cts":
            return XmlCtsCitation.ingest(xmlparser('<online xmlns="http://chs.harvard.edu/xmlns/cts">%s</online>' % cts_xml(s)))
        cs = [Citation(name=lv["name"], xpath=lv["xpath"], scope=lv["scope"]) for lv in s]
        pairs = list(range(len(s) - 1))
        sim.keyed("order", op["order"]).shuffle(pairs)
        for i in pairs:
            if how == "child":
                cs[i].child = cs[i + 1]
            elif how == "children":
                cs[i].children = [cs[i + 1]]
            else:
                cs[i].add_child(cs[i + 1])
        return cs[0]

    def check(o, s, names_only=False):
        sim.begin_op({"op": "check"})
        all_ = list(o)
        where = {"names": [lv["name"] for lv in s]}
        k.eq([c.name for c in all_], [lv["name"] for lv in s], "the levels of a citation scheme are not those it was made of", **where)
        k.eq((len(o), o.depth), (len(s), len(s)), "the depth of a citation scheme is not its number of levels", **where)
        for i, (c, lv) in enumerate(zip(all_, s)):
            k.eq((len(c), c.depth), (len(s) - i, len(s) - i), "the depth of a level is not its number of levels", **where)
            k.eq(c.root is o, True, "a level does not lead to the root of its scheme", level=i, **where)
            k.eq((c.is_root(), bool(c.is_set()), c.is_empty()), (i == 0, True, i == len(s) - 1), "a level is not what it was made", level=i, **where)
            k.eq(c.child is (all_[i + 1] if i + 1 < len(s) else None), True, "the child of a level is not the one it was given", level=i, **where)
            k.eq(len(c.children), 1 if i + 1 < len(s) else 0, "the child of a level is not the one it was given", level=i, **where)
            k.eq(o[i] is c and o[i - len(s)] is c, True, "a level is not found at its place", level=i, **where)
            if not names_only:
                k.eq(c.refsDecl, number(lv["scope"] + lv["xpath"]), "the XPath of a level is not the one it was given", level=i, **where)
                k.eq((c.scope, c.xpath), (lv["scope"], lv["xpath"]), "the scope and XPath of a level are not those it was given", level=i, **where)
                k.eq(c.attribute, "xml:id" if "@xml:id" in lv["xpath"] else "n", "the variable of a level is not the one it was given", level=i, **where)

    def match(o, s, op):
        c = list(o)[op["level"] % len(s)]
        ref = op["ref"]
        depth = min(len(x[0]) for x in ref)
        arg = values.ref_text(ref)
        if op["k"] % 2:
            arg = CtsReference(arg)
        if depth > len(s):
            k.refused({"op": "match"}, lambda: c.match(arg), "a reference deeper than the scheme matches a level", KeyError)
            sim.probe["too_deep"] += 1
        else:
            got = k.attempt({"op": "match"}, lambda: c.match(arg), "matching a reference")
            k.eq(got is list(o)[depth - 1], True, "a reference does not match the level of its depth", ref=values.ref_text(ref), level=got.name)
            sim.probe["match"] += 1

    def fill(o, s, op):
        i = op["level"] % len(s)
        c, lv = list(o)[i], s[i]
        n = (lv["scope"] + lv["xpath"]).count("?")
        parts = (op["ref"][0][0] * 5)[:n]
        how = op["k"] % 5
        if how == 0:
            got, want = c.fill(CtsReference(".".join(parts))), filled(lv["scope"] + lv["xpath"], parts)
        elif how == 1:
            parts = [p if (op["k"] >> j) % 3 else None for j, p in enumerate(parts)]
            got, want = c.fill(list(parts)), filled(lv["scope"] + lv["xpath"], parts)
            sim.probe["partial_fill"] += None in parts
        elif how == 2:
            got, want = c.fill(None), filled(lv["scope"] + lv["xpath"], [None] * n)
        elif how == 3:
            got, want = c.fill(parts[-1], xpath=True), filled(lv["xpath"], [parts[-1]])
        else:
            got, want = c.fill(None, xpath=True), filled(lv["xpath"], [None])
        k.eq(got, want, "the XPath of a passage is not that of its level", level=lv["name"], parts=parts)
        sim.probe["fill"] += 1

    def change(o, s, op):
        i = op["level"] % len(s)
        c, lv, part = list(o)[i], s[i], op["part"]
        if part == "name":
            c.name = lv["name"] = op["name"]
        elif part == "xpath":
            c.xpath = lv["xpath"] = op["step"]
        elif part == "scope":
            lv["scope"] = BASES[op["k"] % 3] + STEPS[op["at"] % len(STEPS)] * i
            c.scope = lv["scope"]
        else:
            lv["scope"], lv["xpath"] = BASES[op["k"] % 3] + STEPS[op["at"] % len(STEPS)] * i, op["step"]
            c.refsDecl = number(lv["scope"] + lv["xpath"])
        sim.probe["set_" + part] += 1

    def exported(o, s, form):
        """What a scheme is exported as, and what a reader must find."""
        if form == "pickle":
            return pickle.dumps(o), s
        if form == "cts":
            return o.export(Mimetypes.XML.CTS), [dict(lv, xpath=lv["xpath"].replace('"', "'"), scope=lv["scope"].replace('"', "'")) for lv in s]
        if form == "tei":
            if any('"' in lv["xpath"] + lv["scope"] for lv in s):
                return None, None
            return tei_xml([c.export(Mimetypes.XML.TEI) for c in reversed(list(o))]), s
        return pickle.dumps(o.export(Mimetypes.JSON.DTS.Std, context=True)), chain(s)

    def bare(o, s, i):
        """A level has no name for a while: it has no label in the exports either."""
        lv = list(o)[i]
        lv.name = None
        names = [x["name"] for x in s]
        names[i] = ""
        out = k.attempt({"op": "bare"}, lambda: o.export(Mimetypes.XML.CTS), "exporting a citation scheme")
        root = etree.fromstring('<r xmlns:ti="http://chs.harvard.edu/xmlns/cts" xmlns="http://chs.harvard.edu/xmlns/cts">%s</r>' % out)
        k.eq([e.get("label") or "" for e in root.iter("{*}citation")], names, "a level without a name has one in an export")
        lv.name = s[i]["name"]
        sim.probe["bare"] += 1

    def chain(s):
        t = []
        for lv in reversed(s):
            t = [[lv["name"], t]]
        return t

    # -- DTS structures ----------------------------------------------------------------
    def dts_json(tree):
        return [dict({"https://w3id.org/dts/api#citeType": n}, **({STRUCT: dts_json(t)} if t else {})) for n, t in tree]

    def build_dts(op):
        sim.probe[op["how"]] += 1
        sim.probe["branches"] += len(op["tree"]) > 1
        if op["how"] == "dtsset":
            return DtsCitationSet.ingest(jsonld.expand({STRUCT: dts_json(op["tree"])})[0][STRUCT])

        def level(n, t):
            return DtsCitation(name=n, children=[level(*x) for x in t])
        if op["k"] % 2:
            return DtsCitationSet(children=[level(*x) for x in op["tree"]])
        o = DtsCitationSet()
        for x in op["tree"]:
            o.add_child(level(*x))
        return o

    def flat(tree):
        return [n for name, t in tree for n in [name] + flat(t)]

    def at_level(tree, i):
        return [n for n, _ in tree] if i == 0 else [n for _, t in tree for n in at_level(t, i - 1)]

    def depth_of(tree):
        return 1 + max(depth_of(t) for _, t in tree) if tree else 0

    def check_dts(o, tree):
        sim.begin_op({"op": "check"})
        names = flat(tree)
        k.eq([c.name for c in o], names, "the levels of a citation structure are not those it was made of")
        k.eq((len(o), o.depth, o.is_empty(), o.is_root()), (len(names), depth_of(tree), False, True), "a citation structure is not what it was made", names=names)
        d = depth_of(tree)
        for i in range(d):
            k.eq([c.name for c in o[i]], at_level(tree, i), "a level of a citation structure does not hold what it was made of", level=i)
            k.eq([c.name for c in o[i - d]], at_level(tree, i), "a level of a citation structure does not hold what it was made of", level=i - d)
        for c in o:
            k.eq(c.root is o, True, "a level does not lead to the root of its structure", level=c.name)
            k.eq((c.is_root(), bool(c.is_set())), (False, True), "a level is not what it was made", level=c.name)
        def down(cs, t):
            for c, (n, sub) in zip(cs, t):
                k.eq(([x.name for x in c.children], c.depth, len(c), c.is_empty()), ([x for x, _ in sub], 1 + depth_of(sub), len(flat(sub)), not sub),
                     "the levels under another one are not those it was made of", level=n)
                down(c.children, sub)
        down(o.children, tree)

    def body(ops):
        def run(c):
            mine = []
            for op in ops:
                kind = op["op"]
                cts = [x for x in mine if x[0] == "cts"]
                if kind == "make":
                    o = k.attempt({"op": "make", "how": op["how"]}, lambda: build(op), "putting a citation scheme together")
                    mine.append(("cts", o, copy.deepcopy(op["scheme"])))
                    check(o, op["scheme"])
                elif kind == "dts":
                    o = k.attempt({"op": "make", "how": op["how"]}, lambda: build_dts(op), "putting a citation structure together")
                    mine.append(("dts", o, op["tree"]))
                    check_dts(o, op["tree"])
                elif kind == "set" and cts:
                    x = cts[op["at"] % len(cts)]
                    k.attempt({"op": "set", "part": op["part"]}, lambda: change(x[1], x[2], op), "changing a level")
                    check(x[1], x[2])
                elif kind in ("match", "fill") and cts:
                    x = cts[op["at"] % len(cts)]
                    if kind == "match":
                        match(x[1], x[2], op)
                    else:
                        k.attempt({"op": "fill"}, lambda: fill(x[1], x[2], op), "filling the XPath of a level")
                elif kind == "detach" and cts:
                    # the levels below one are taken away
                    x = cts[op["at"] % len(cts)]
                    if len(x[2]) > 1:
                        i = op["level"] % (len(x[2]) - 1)
                        lv = list(x[1])[i]
                        if op["k"] % 2:
                            lv.child = None
                        else:
                            lv.children = []
                        del x[2][i + 1:]
                        check(x[1], x[2])
                        sim.probe["detached"] += 1
                elif kind == "copy" and mine:
                    x = mine[op["at"] % len(mine)]
                    o = k.attempt({"op": "copy", "kind": x[0]}, lambda: copy.deepcopy(x[1]), "copying a citation scheme")
                    mine.append((x[0], o, copy.deepcopy(x[2])))
                    sim.probe["copied"] += 1
                elif kind == "export" and mine:
                    x = mine[op["at"] % len(mine)]
                    got = k.attempt({"op": "export"}, lambda: x[1].export(Mimetypes.JSON.DTS.Std, context=False), "exporting a citation scheme")
                    want = x[2] if x[0] == "dts" else chain(x[2])
                    def plain(js):
                        return [[n["dts:citeType"], plain(n.get("dts:citeStructure", []))] for n in js]
                    k.eq(plain(got if x[0] == "dts" else [got]), want, "the export of a citation scheme is not the scheme")
                elif kind == "store" and mine:
                    x = mine[op["at"] % len(mine)]
                    form = op["form"] if x[0] == "cts" else ("pickle" if op["form"] in ("pickle", "tei") else "dts")
                    if x[0] == "cts" and op.get("bare"):
                        bare(x[1], x[2], op["level"] % len(x[2]))
                    if x[0] == "cts":
                        data, want = k.attempt({"op": "store", "form": form}, lambda: exported(x[1], x[2], form), "exporting a citation scheme")
                    else:
                        data = k.attempt({"op": "store", "form": form}, lambda: pickle.dumps(
                            x[1] if form == "pickle" else x[1].export(Mimetypes.JSON.DTS.Std, context=True)), "exporting a citation structure")
                        want = x[2]
                    if data is None:
                        continue
                    if op["torn"] is not None:
                        sim.fired("torn write")
                        whole = data.rstrip() if isinstance(data, str) else data
                        data = whole[:max(1, min(len(whole) - 1, int(len(whole) * op["torn"])))]
                    disk.append((data, op["torn"] is not None, x[0], form, copy.deepcopy(want)))
                    sim.probe["stored"] += 1
                    sim.pause()
            sim.pause()
            for kind, o, m in mine:
                (check if kind == "cts" else check_dts)(o, m)
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run

    def load(data, kind, form):
        if form == "pickle":
            return pickle.loads(data)
        if form == "cts":
            return XmlCtsCitation.ingest(xmlparser('<ti:online xmlns:ti="http://chs.harvard.edu/xmlns/cts" xmlns="http://chs.harvard.edu/xmlns/cts">%s</ti:online>' % data))
        if form == "tei":
            return Citation.ingest(xmlparser(data))
        js = pickle.loads(data)
        return DtsCitationSet.ingest(jsonld.expand(js if STRUCT_KEY(js) else {"@context": js["@context"], "dts:citeStructure": [js]})[0][STRUCT])

    def STRUCT_KEY(js):
        return "dts:citeType" not in js

    def later(c):
        set_graph(bind_graph())
        for data, torn, kind, form, want in disk:
            if torn:
                k.refused({"op": "load", "form": form}, lambda: load(data, kind, form), "half a citation scheme is loaded")
                sim.probe["torn"] += 1
                continue
            o = k.attempt({"op": "load", "form": form}, lambda: load(data, kind, form), "loading a citation scheme")
            if form == "dts" or kind == "dts":
                check_dts(o, want)
            else:
                check(o, want)
            sim.probe["loaded"] += 1
    sim.run_clients([body(ops) for ops in plan["clients"]], preempt=plan.get("preempt"))
    sim.run_clients([later])
    return {"checks": k.checks, "nontrivial": k.checks > 0}
