"""L04: passages of local texts hold exactly what lies between their ends."""
from sim.core import Violation
from sim.worlds import library, localread, simrepo
from sim.worlds.ctsread import Held
from sim.worlds.localread import rand_ref, form

META = {
    "runs": {"quick": 4500, "thorough": 112500},
    "rule": "one evaluation = one seeded run of 1-3 clients, possibly interrupting one another inside the library, opening passages of "
            "generated texts through a shared resolver, shared texts and other passages; distinct = distinct event trace",
    "real": ["MyCapytain local resolver, texts, passages, citations", "lxml"],
    "stub": ["file opens (real scratch files, faults and locale)", "thread scheduling"],
    "assumptions": ["citable units of a text are not empty of identity: references are unique", "ranges run forwards"],
    "must_probe": ["single", "range", "whole", "described", "simple", "excluded", "nested", "from_passage", "from_simple", "work_urn",
                   "no_edition", "group_urn", "refused", "too_deep", "mixed_range", "equal_content", "comment", "preempted", "failed_by_fault",
                   "wide", "other_attribute", "containers", "shared_text", "joined", "nested_excluded"],
}
KINDS = ["resolver"] * 4 + ["text"] * 3 + ["simple"] * 2 + ["from"] * 3 + ["nested", "work", "bad", "whole", "join"]


def mixed(rng, t):
    """A range between passages of different depths, neither inside the other."""
    ns = [p for p, _ in library.nodes(t)]
    for _ in range(10):
        i, j = sorted([rng.randrange(len(ns)), rng.randrange(len(ns))])
        a, b = ns[i], ns[j]
        if len(a) != len(b) and a[:len(b)] != b and b[:len(a)] != a:
            return "%s-%s" % (".".join(a), ".".join(b))
    return None


def generate(rng, tier, index):
    world = simrepo.gen_world(rng, groups=2, works=2, texts=2, sm=False, small=rng.random() < 0.4)
    texts = localread.texts_of(world)
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(2, 9)):
            t = rng.choice(texts)
            op = {"op": rng.choice(KINDS), "id": t["urn"], "ref": rand_ref(rng, t, ranges=0.45, whole=0), "as": rng.choice(["str", "cts", "list"]),
                  "metadata": rng.random() < 0.3, "k": rng.randrange(60), "h": rng.randrange(9), "share": rng.random() < 0.5,
                  "skip": rng.choice([None, None, ["note"], ["note", "head"], ["hi"], ["note", "hi"]])}
            if rng.random() < 0.15:
                op["ref"] = mixed(rng, t) or op["ref"]
            ops.append(localread.disk_faults(rng, op, 2, 0.08))
        clients.append(ops)
    return {"world": world, "clients": clients, "delays": [rng.randrange(1, 30) for _ in range(60)] if len(clients) > 1 else [],
            "preempt": localread.gen_preempt(rng, clients)}


def execute(plan, sim):
    import lxml.etree
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.common.reference import URN
    world = plan["world"]
    k = localread.Checker(sim, world)
    fs, resolver = simrepo.start(sim, world)
    texts = localread.Texts(sim, world, resolver)
    TEI = "<TEI xmlns=\"%s\">" % library.TEI

    def same(xml, want, where):
        got = [[a, [x for x in b if not x[0].startswith("{http://codespeak.net")]] for a, b in library.elements(xml)]
        k.eq(got, want, "the XML of a passage is not the one of its text", **where)

    def check(h, simple=False, skip=None):
        t = k.text(h.tid)
        ref, o = h.ref, h.obj
        where = {"id": h.tid, "ref": ref}
        # the scheme of the text, at the level of the passage
        names = [l["name"] for l in t["levels"]]
        at = len(library.split_ref(ref)[0]) if ref else 1
        k.eq([x.name for x in o.citation.root], names, "a passage does not have the citation scheme of its text", **where)
        k.eq([x.name for x in o.citation], names[at - 1:], "the citation of a passage is not that of its level", **where)
        # several clients may be using this object: look at it in one go
        if ref is None:
            k.eq(o.export(Mimetypes.PLAINTEXT).split(), library.header_words(t) + library.words(t), "the text of a whole text is not its own", **where)
            same(o.export(Mimetypes.XML.TEI), library.elements(library.tei_xml(t).encode("utf-8")), where)
            k.eq(str(o.urn), h.tid, "a text has the wrong URN", **where)
            sim.probe["whole"] += 1
            return
        join = getattr(h, "join", " ")
        k.eq(o.plaintext_string_join, join, "what joins the pieces of a text is not what was asked for it", **where)
        if join != " ":
            k.eq(o.export(Mimetypes.PLAINTEXT).replace(join, " ").split(), library.words(t, ref), "the text of a passage is not what lies between its ends", **where)
            pieces = [x for x in lxml.etree.fromstring(o.export(Mimetypes.XML.TEI)).xpath(".//text()")]
            k.eq(o.export(Mimetypes.PLAINTEXT).split(), join.join(pieces).split(), "the text of a passage is not joined as asked", **where)
            sim.probe["joined"] += len(pieces) > 1
            return
        k.eq(o.export(Mimetypes.PLAINTEXT).split(), library.words(t, ref), "the text of a passage is not what lies between its ends", **where)
        want = library.elements(TEI + library.body_xml(t, ref) + "</TEI>")
        if simple:
            want = want[library.ancestors(t, ref):]
        same(o.export(Mimetypes.XML.Std), want, where)
        same(str(o), want, where)
        k.eq(o.text, o.export(Mimetypes.PLAINTEXT), "the text of a passage is not what it exports", **where)
        k.eq(o.export(Mimetypes.PYTHON.ETREE) is o.xml, True, "the element of a passage is not what it exports", **where)
        k.eq((str(o.urn), str(o.reference)), (h.tid + ":" + ref, ref), "a passage has the wrong identity", **where)
        k.eq(o.depth, len(library.split_ref(ref)[0]), "a passage has the wrong depth", **where)
        if skip:
            k.eq(o.export(Mimetypes.PLAINTEXT, exclude=["tei:" + x for x in skip]).split(), library.words(t, ref, skip),
                 "the text of a passage without some elements is not right", skip=skip, **where)
            sim.probe["excluded"] += library.words(t, ref) != library.words(t, ref, skip)
        if "-" in ref:
            a, b = library.split_ref(ref)
            sim.probe["range"] += 1
            sim.probe["mixed_range"] += len(a) != len(b)
        else:
            sim.probe["single"] += 1
        leaves = [str(n.get("p")) for _, n in library.nodes(t) if "p" in n]
        sim.probe["equal_content"] += len(set(leaves)) < len(leaves)
        sim.probe["comment"] += "'!'" in str(t["items"])
        sim.probe["wide"] += any(t["wide"])
        sim.probe["other_attribute"] += bool(t["attrs"] and set(t["attrs"]) != {"n"})
        sim.probe["containers"] += "'in'" in str(t["items"])

    def one(c, held, op):
        kind, tid, ref = op["op"], op["id"], op["ref"]
        t = k.text(tid)
        fault = {a: b for a, b in op.items() if a == "faults"}
        o = {"op": kind, "id": tid, "ref": ref, **fault}
        if kind == "resolver":
            how = "cts" if op["as"] == "cts" else "str"
            tid_ = URN(tid) if op["k"] % 4 == 0 else tid
            out = k.attempt(c, o, lambda: resolver.getTextualNode(tid_, form(ref, how), metadata=op["metadata"]), "opening a passage")
            if out.ok:
                h = Held(out.value, tid, ref)
                if op["metadata"]:
                    k.described(out.value, h)
                    sim.probe["described"] += 1
        elif kind == "whole":
            ref = None
            out = k.attempt(c, o, lambda: resolver.getTextualNode(tid, metadata=op["metadata"]), "opening a text")
        elif kind in ("text", "simple", "nested"):
            out = k.attempt(c, o, lambda: texts.text(t, op["share"]), "opening a text")
            if not out.ok:
                return
            sim.probe["shared_text"] += op["share"]
            text = out.value
            o = {"op": kind, "id": tid, "ref": ref}
            if kind == "nested":
                skip = op["skip"]
                out = k.attempt(c, o, lambda: text.export(Mimetypes.PYTHON.NestedDict, **({"exclude": ["tei:" + x for x in skip]} if skip else {})), "exporting a text")
                k.eq(plain(out.value), nested(t, skip), "the nested text is not the text", id=tid, skip=skip)
                sim.probe["nested"] += 1
                sim.probe["nested_excluded"] += bool(skip)
                return
            if kind == "simple":
                ref = ref.split("-")[0]
                out = k.attempt(c, o, lambda: text.getTextualNode(form(ref, op["as"]), simple=True), "opening a simple passage")
                h = Held(out.value, tid, ref)
                h.simple = True
                check(h, simple=True, skip=op["skip"])
                sim.probe["simple"] += 1
                held.append(h)
                return
            out = k.attempt(c, o, lambda: text.getTextualNode(form(ref, op["as"])), "opening a passage")
        elif kind == "from":
            if not held:
                return
            h = held[op["h"] % len(held)]
            tid = h.tid
            refs = [".".join(p) for p, _ in library.nodes(k.text(tid))]
            ref = refs[op["k"] % len(refs)]
            out = k.attempt(c, {"op": kind, "id": tid, "from": h.ref, "ref": ref}, lambda: h.obj.getTextualNode(form(ref, "cts")),
                            "opening a passage from another one")
            sim.probe["from_simple" if getattr(h, "simple", False) else "from_passage"] += 1
        elif kind == "join":
            # what joins the pieces of one passage is a matter of that one
            if held:
                h = held[op["h"] % len(held)]
                if h.ref:
                    h.obj.plaintext_string_join = h.join = ["|", "##", " "][op["k"] % 3]
                    check(h, simple=getattr(h, "simple", False))
            return
        elif kind == "work":
            work(c, op)
            return
        else:
            bad(c, op)
            return
        if out.ok:
            h = Held(out.value, tid, ref)
            check(h, skip=op["skip"])
            held.append(h)

    def plain(d):
        return {a: (plain(b) if isinstance(b, dict) else b.split()) for a, b in d.items()}

    def nested(t, skip):
        out = {}
        for r in library.reffs(t, library.depth(t)):
            d = out
            for x in r.split(".")[:-1]:
                d = d.setdefault(x, {})
            d[r.split(".")[-1]] = library.words(t, r, skip or ())
        return out

    def work(c, op):
        """A work instead of a text: one of its editions."""
        g, w, t = library.find_text(world["lib"], op["id"])
        eds = [x for x in w["texts"] if x["kind"] == "edition"]
        o = {"op": "work", "id": w["urn"]}
        if op["k"] % 3 == 0:
            k.refused({"op": "group", "id": g["urn"]}, lambda: resolver.getTextualNode(g["urn"], op["ref"]),
                      "a text group is opened as if it were a text")
            sim.probe["group_urn"] += 1
        if not eds:
            k.refused(o, lambda: resolver.getTextualNode(w["urn"]), "a work without edition is opened as if it had one")
            sim.probe["no_edition"] += 1
            return
        out = k.attempt(c, o, lambda: resolver.getTextualNode(w["urn"]), "opening the edition of a work")
        got = str(out.value.urn)
        k.eq(got in [e["urn"] for e in eds], True, "a work gives a text which is not an edition of it", id=w["urn"], got_text=got)
        check(Held(out.value, got, None))
        sim.probe["work_urn"] += 1

    def bad(c, op):
        t = k.text(op["id"])
        have = {".".join(p) for p, _ in library.nodes(t)}
        some = [".".join(p) for p, _ in library.nodes(t) if len(p) == library.depth(t)][op["k"] % len(library.reffs(t, library.depth(t)))]
        refs = ["99", "zz", some + ".1", some[:-1] + "9x", "99-" + some, some + "-99", "1'"]
        ref = refs[op["h"] % len(refs)]
        o = {"op": "bad", "id": op["id"], "ref": ref}
        if any(r in have for r in [ref]):
            return
        how = op["k"] % 3
        text = texts.text(t, op["share"])
        if how == 0:
            k.refused(o, lambda: resolver.getTextualNode(op["id"], ref), "a passage which does not exist is opened")
        elif how == 1:
            k.refused(o, lambda: text.getTextualNode(ref), "a passage which does not exist is opened")
        elif "-" not in ref:
            k.refused(o, lambda: text.getTextualNode(ref, simple=True), "a passage which does not exist is opened")
        sim.probe["too_deep"] += ref == some + ".1"
        k.refused(o, lambda: resolver.getTextualNode(op["id"] + "x", some), "a text which does not exist is opened")

    def body(ops):
        def run(c):
            held = []
            for op in ops:
                one(c, held, op)
                if op.get("faults"):
                    one(c, held, {a: b for a, b in op.items() if a != "faults"})
            sim.begin_op({"op": "end"})
            for h in held:
                check(h, simple=getattr(h, "simple", False))
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]], preempt=plan.get("preempt"))
    texts.unchanged(k)
    return {"checks": k.checks, "nontrivial": k.checks > 0}
