"""D05: DTS documents: content, links, and walking through a text."""
from sim import net
from sim.core import Violation
from sim.worlds import simdts
from sim.props.D04 import make_ref, check_set

META = {
    "runs": {"quick": 5000, "thorough": 125000},
    "rule": "one evaluation = one seeded run of 1-2 concurrent clients opening passages of generated texts and walking "
            "along their links; distinct = distinct event trace",
    "real": ["MyCapytain resolver, retriever, documents", "requests", "urllib3 response decoding", "lxml", "link_header", "pyld"],
    "stub": ["the DTS server (generated texts)", "sockets", "clock"],
    "assumptions": ["a text does not change while it is walked through",
                    "documents are UTF-8 and served as application/xml or application/tei+xml"],
    "must_probe": ["walked_next", "walked_prev", "parent_ref", "whole_text", "range_passage", "children", "no_links",
                   "failed_by_fault", "level2_reffs", "meta", "unknown_passage", "excluded"],
}

OPS = ["text", "text", "xml", "ids", "next", "next", "next", "prev", "prev", "parent", "up_id", "reffs", "reffs", "children",
       "first_child", "last_child", "sub", "title", "meta", "depth", "walk"]


def generate(rng, tier, index):
    world = simdts.gen_world(rng, n=3, rich=False)
    ids = simdts.add_texts(rng, world, rng.choice([1, 2]), sizes=[1, 2, 3, 5, 8])
    clients = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        ops = []
        for _ in range(rng.randrange(2, 9)):
            r = rng.random()
            if r < 0.3 or not ops:
                tid = rng.choice(ids)
                nodes = simdts.text_levels(world["texts"][tid])
                op = {"op": "open", "id": tid}
                q = rng.random()
                if q < 0.5:
                    op["ref"] = [rng.choice(nodes)[1]["start"]]
                elif q < 0.75:
                    d = rng.choice(nodes)[0]
                    same = [n["start"] for dd, n, _ in nodes if dd == d]
                    i = rng.randrange(len(same))
                    j = rng.randrange(i, len(same))
                    op["ref"] = [same[i], same[j]] if j > i else [same[i]]
                if op.get("ref"):
                    op["as"] = rng.choice(["dts", "base", "str"]) if len(op["ref"]) == 1 else rng.choice(["dts", "base"])
                if rng.random() < 0.05:
                    op = {"op": "unknown", "id": tid}
                ops.append(op)
            else:
                ops.append({"op": rng.choice(OPS), "h": rng.randrange(20), "k": rng.randrange(20),
                            "level": rng.choice([1, 1, 2, 3])})
        clients.append(ops)
    if rng.random() < 0.5:
        for ops in clients:
            for op in ops:
                if rng.random() < 0.4:
                    op["faults"] = {str(rng.randrange(4)): rng.choice(net.DISRUPTIVE + net.BENIGN * 2)}
    delays = [rng.randrange(1, 50) for _ in range(60)] if len(clients) > 1 else []
    return {"world": world, "clients": clients, "delays": delays}


def shape(el):
    """The element tree without blank text: tag, attributes, text, children, tail."""
    kids = [shape(c) for c in el.iterchildren()]
    tag = el.tag if isinstance(el.tag, str) else "#comment"
    return [tag, sorted((k, v) for k, v in el.attrib.items()), (el.text or "").strip() and el.text, kids,
            (el.tail or "").strip() and el.tail]


class Doc(object):
    def __init__(self, obj, tid, ref):
        self.obj, self.tid, self.ref = obj, tid, ref      # ref: [], [r] or [a, b]


def execute(plan, sim):
    from lxml import etree
    from rdflib import URIRef
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
    world = plan["world"]
    n = net.Net(sim)
    server = simdts.DtsServer(world)
    n.servers[world["base"]] = server
    resolver = HttpDtsResolver(server.endpoint)
    checks = [0]

    def eq(a, b, what, **d):
        checks[0] += 1
        if a != b:
            raise Violation(what, got=a, expected=b, **d)

    def published(d):
        r = d.ref
        return simdts.document(world["texts"][d.tid], d.tid, *([None, None, None] if not r else
                               [r[0], None, None] if len(r) == 1 else [None, r[0], r[1]]))

    def parts(link):
        if link is None or world["no_links"]:
            return None
        if "ref" in link:
            return [link["ref"]]
        if "start" in link:
            return [link["start"], link["end"]]
        return None

    def ref_parts(x):
        if x is None:
            return None
        return [str(x.start)] + ([str(x.end)] if x.end else [])

    def same_document(d, obj):
        want = published(d)
        where = {"id": d.tid, "ref": d.ref}
        eq(obj.id, d.tid, "a passage has the wrong text identifier", **where)
        eq(obj.export(Mimetypes.PLAINTEXT), want["text"], "the text of a passage is not the published one", **where)
        eq(obj.text, want["text"], "the text of a passage is not the published one", **where)
        if not d.ref:
            sim.probe["whole_text"] += 1
        if len(d.ref) == 2:
            sim.probe["range_passage"] += 1

    def attempt(c, op, fn, what):
        sim.begin_op(op)
        out = sim.call(fn)
        if not out.ok:
            checks[0] += 1
            if not c.op_faults:
                raise Violation("%s failed although nothing went wrong on the network" % what, op=op, error=out.describe())
            sim.probe["failed_by_fault"] += 1
        return out

    def one(c, docs, op):
        kind = op["op"]
        if kind == "unknown":
            sim.begin_op(op)
            out = sim.call(lambda: resolver.getTextualNode(op["id"], "not.a.ref"))
            if out.ok:
                raise Violation("an unknown passage is returned", got=str(out.value))
            sim.probe["unknown_passage"] += 1
            return
        if kind == "open":
            r = op.get("ref") or []
            out = attempt(c, op, lambda: resolver.getTextualNode(op["id"], subreference=make_ref(r, op["as"]) if r else None),
                          "opening a passage")
            if out.ok:
                d = Doc(out.value, op["id"], r)
                same_document(d, d.obj)
                docs.append(d)
            return
        if not docs:
            return
        d = docs[op["h"] % len(docs)]
        want = published(d)
        where = {"id": d.tid, "ref": d.ref}
        t = world["texts"][d.tid]
        if kind == "text":
            same_document(d, d.obj)
        elif kind == "xml":
            out = attempt(c, op, lambda: etree.fromstring(d.obj.export(Mimetypes.XML.TEI)), "exporting a passage")
            eq(shape(out.value), shape(etree.fromstring(want["xml"])), "the XML of a passage is not the published one", **where)
            eq(shape(etree.fromstring(str(d.obj))), shape(out.value), "the XML of a passage is not the published one", **where)
            skip = sorted({etree.QName(x).localname for x in out.value.iter() if isinstance(x.tag, str)} & {"note", "head", "hi", "l", "p", "seg", "ab"})[:2]
            if skip:
                left = out.value.xpath(".//text()[%s]" % " and ".join("not(ancestor::*[local-name()='%s'])" % x for x in skip))
                eq(d.obj.export(Mimetypes.PLAINTEXT, exclude=["tei:" + x for x in skip]).split(), " ".join(left).split(),
                   "the text of a passage without some elements is not right", skip=skip, **where)
                sim.probe["excluded"] += 1
        elif kind in ("ids", "up_id"):
            eq(ref_parts(d.obj.nextId), parts(want.get("next")), "the next passage is not the published one", **where)
            eq(ref_parts(d.obj.prevId), parts(want.get("prev")), "the previous passage is not the published one", **where)
            eq([ref_parts(x) for x in d.obj.siblingsId], [parts(want.get("prev")), parts(want.get("next"))],
               "the siblings of a passage are not the published ones", **where)
            eq(ref_parts(d.obj.parentId), parts(want.get("up")), "the parent passage is not the published one", **where)
            sim.probe["parent_ref"] += parts(want.get("up")) is not None
            sim.probe["no_links"] += bool(world["no_links"])
        elif kind in ("next", "prev"):
            link = parts(want.get(kind))
            out = attempt(c, op, lambda: getattr(d.obj, kind), "following a link")
            if out.ok:
                if link is None:
                    eq(out.value, None, "there is a passage beyond the end of the text", **where)
                    return
                if out.value is None:
                    raise Violation("a linked passage is not reachable", direction=kind, **where)
                new = Doc(out.value, d.tid, link)
                same_document(new, new.obj)
                docs.append(new)
                sim.probe["walked_" + kind] += 1
        elif kind == "walk":
            # from here to the end, in reading order
            cur, steps = d, 0
            while True:
                link = parts(published(cur).get("next"))
                out = attempt(c, dict(op, faults={}), lambda: cur.obj.next, "following a link")
                if link is None:
                    eq(out.value, None, "there is a passage beyond the end of the text", **where)
                    break
                if out.value is None:
                    raise Violation("a linked passage is not reachable", **where)
                cur = Doc(out.value, d.tid, link)
                same_document(cur, cur.obj)
                steps += 1
        elif kind == "parent":
            up = parts(want.get("up"))
            out = attempt(c, op, lambda: d.obj.parent, "opening the parent passage")
            if out.ok:
                new = Doc(out.value, d.tid, up or [])
                same_document(new, new.obj)
                docs.append(new)
        elif kind in ("reffs", "children", "first_child", "last_child"):
            level = op["level"] if kind == "reffs" else 1
            r = d.ref
            answer = simdts.nav_answer(t, level, *([None, None, None] if not r else [r[0], None, None] if len(r) == 1
                                                   else [None, r[0], r[1]]))
            if kind == "reffs":
                out = attempt(c, op, lambda: d.obj.getReffs(level=level), "listing references")
                if out.ok:
                    check_set(sim, out.value, answer, where, checks)
                    sim.probe["level2_reffs"] += level > 1
            elif kind == "children":
                out = attempt(c, op, lambda: [ref_parts(x) for x in d.obj.childIds], "listing child passages")
                if out.ok:
                    eq(out.value, [[x["start"]] for x in answer["refs"]], "the children of a passage are not the published ones",
                       **where)
                    sim.probe["children"] += 1
                    kids = attempt(c, dict(op, faults={}), lambda: list(d.obj.children), "opening child passages").value
                    eq(len(kids), len(answer["refs"]), "the children of a passage are not the published ones", **where)
                    for o, x in zip(kids, answer["refs"]):
                        same_document(Doc(o, d.tid, [x["start"]]), o)
            else:
                name = "first" if kind == "first_child" else "last"
                out = attempt(c, op, lambda: getattr(d.obj, name), "opening a child passage")
                if out.ok:
                    if not answer["refs"]:
                        eq(out.value, None, "a passage without children has a first or last child", **where)
                    else:
                        x = answer["refs"][0 if name == "first" else -1]
                        same_document(Doc(out.value, d.tid, [x["start"]]), out.value)
        elif kind == "sub":
            nodes = simdts.text_levels(t)
            ref = nodes[op["k"] % len(nodes)][1]["start"]
            out = attempt(c, op, lambda: d.obj.getTextualNode(make_ref([ref], "dts")), "opening a passage of a text")
            if out.ok:
                new = Doc(out.value, d.tid, [ref])
                same_document(new, new.obj)
                docs.append(new)
        elif kind == "title":
            out = attempt(c, op, lambda: str(d.obj.collection.get_label()), "reading the title")
            if out.ok:
                eq(out.value, world["coll"][d.tid]["title"], "the title of a text is not the published one", **where)
        elif kind == "meta":
            out = attempt(c, op, lambda: d.obj.metadata, "reading the metadata of a text")
            if out.ok:
                eq([str(x) for x in out.value.get(URIRef("http://www.w3.org/2004/02/skos/core#prefLabel"))], [world["coll"][d.tid]["title"]],
                   "the metadata of a passage is not that of its text", **where)
                eq(str(out.value.asNode()), d.tid, "the metadata of a passage is not that of its text", **where)
                sim.probe["meta"] += 1
        elif kind == "depth":
            out = attempt(c, op, lambda: d.obj.depth, "reading the depth")
            if out.ok:
                eq(out.value, t["depth"], "the citation depth of a text is not the published one", **where)

    def body(ops):
        def run(c):
            docs = []
            for op in ops:
                one(c, docs, op)
            for d in list(docs):        # what was read before still stands; recovery without faults
                same_document(d, d.obj)
                for kind in ("ids", "next", "reffs"):
                    one(c, [d], {"op": kind, "h": 0, "k": 0, "level": 1})
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]])
    return {"checks": checks[0], "nontrivial": checks[0] > 0}
