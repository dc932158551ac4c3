"""L10: local resolvers made of other pieces (classes, XML parser, cleaning)."""
import io
import os

from sim.core import Violation
from sim.worlds import library, localread, simrepo
from sim.worlds.catalog import Catalog, pruned
from sim.worlds.localread import rand_ref, form
from sim.props.L02 import spoil

META = {
    "runs": {"quick": 3500, "thorough": 87500},
    "rule": "one evaluation = one seeded run of 1-3 clients, possibly interrupting one another inside the library, which open local resolvers "
            "made of generated classes, parsers and cleaning rules over the same repositories and read through all of them; distinct = distinct event trace",
    "real": ["MyCapytain local resolver, collections, texts, passages, citations", "lxml", "rdflib"],
    "stub": ["file opens and directory listings (real scratch files, simulated order, faults and locale)", "thread scheduling"],
    "assumptions": ["the classes given derive from those they replace", "a text is in one repository only", "text files are damaged for a whole run"],
    "must_probe": ["own_class", "own_instance", "plain_resolver", "parser", "cached", "cache_read", "cleaned", "kept_invalid", "narrowed", "passage",
                   "note_gone", "reffs", "siblings", "opened_meanwhile", "refused", "failed_by_fault", "preempted", "shared_group", "whole"],
}
PIECES = ["text", "edition", "translation", "commentary", "work", "textgroup", "inventory", "inventory_collection", "citation"]
DAMAGE = ["missing", "empty", "garbage", "nocite"]


def gen_resolver(rng):
    own = rng.choice([[], PIECES, PIECES, rng.sample(PIECES, 4), rng.sample(PIECES, 2)])
    return {"own": sorted(own), "how": rng.choice(["class", "class", "instance"]), "parser": rng.choice(["plain", "nonotes", "nonotes", "cache", "cache"]),
            "clean": rng.random() < 0.5}


def generate(rng, tier, index):
    world = simrepo.gen_world(rng, groups=2, works=2, texts=2, small=True, sm=False)
    for u in world["place"]:
        world["place"][u] = world["place"][u][:1]
    texts = localread.texts_of(world)
    damage = {}
    if rng.random() < 0.5:
        for t in rng.sample(texts, rng.choice([1, 1, 2]) if len(texts) > 2 else 1):
            damage[t["urn"]] = rng.choice(DAMAGE)
    n = rng.choice([1, 2, 2, 3])
    resolvers = [gen_resolver(rng) for _ in range(n)]
    ids = [x["urn"] for g, w, t in library.all_texts(world["lib"]) for x in (g, w, t)]
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(2, 8)):
            t = rng.choice(texts)
            op = {"op": rng.choice(["catalogue", "narrow", "narrow", "passage", "passage", "whole", "reffs", "siblings", "open"]), "r": rng.randrange(n),
                  "id": t["urn"], "of": rng.choice(ids), "ref": rand_ref(rng, t, ranges=0.3, whole=0), "level": rng.randrange(1, 4),
                  "as": rng.choice(["str", "cts"]), "metadata": rng.random() < 0.3}
            if op["op"] == "open":
                op["new"] = gen_resolver(rng)
            ops.append(localread.disk_faults(rng, op, 2, 0.06) if op["op"] != "open" else op)
        clients.append(ops)
    return {"world": world, "damage": damage, "resolvers": resolvers, "clients": clients,
            "delays": [rng.randrange(1, 30) for _ in range(40)] if len(clients) > 1 else [], "preempt": localread.gen_preempt(rng, clients, 0.6)}


def pieces(spec, tag):
    """The classes of a resolver: its own for the pieces it replaces, made to fit together."""
    from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
    base = CtsCapitainsLocalResolver.CLASSES
    out = dict(base)

    def own(key, **members):
        if key in spec["own"] or any(out[x] is not base[x] for x in members.pop("needs", ())):
            out[key] = type(str("%s_%s" % (tag, base[key].__name__)), (base[key],), members)
    own("citation")
    own("text")
    for kind in ("edition", "translation", "commentary"):
        own(kind, CLASS_CITATION=out["citation"], needs=["citation"])
    own("work", CLASS_EDITION=out["edition"], CLASS_TRANSLATION=out["translation"], CLASS_COMMENTARY=out["commentary"],
        needs=["edition", "translation", "commentary"])
    own("textgroup", CLASS_WORK=out["work"], needs=["work"])
    own("inventory", CLASS_TEXTGROUP=out["textgroup"], needs=["textgroup"])
    own("inventory_collection")
    return out


def words_without_notes(t, ref):
    return library.words(t, ref, ["note"])


class Custom(object):
    """A resolver made of its own pieces, and what is expected of it."""

    def __init__(self, sim, world, spec, tag):
        from lxml import etree
        from MyCapytain.common.utils.xml import xmlparser
        from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
        self.spec, self.classes = spec, pieces(spec, tag)
        self.cache, self.first, self.invalid = {}, {}, []
        me = self

        def xmlparse(self, file):
            if spec["parser"] == "cache":
                # as resolvers with a cache do: one parsed document for everybody
                data = file.read() if hasattr(file, "read") else file
                key = data if isinstance(data, bytes) else data.encode("utf-8")
                if key not in me.cache:
                    tree = xmlparser(io.BytesIO(data) if isinstance(data, bytes) else data)
                    me.first.setdefault(key, etree.tostring(tree))
                    me.cache.setdefault(key, tree)
                else:
                    sim.probe["cache_read"] += 1
                return me.cache[key]
            tree = xmlparser(file)
            for x in list(tree.iter("{%s}note" % library.TEI)):
                x.clear(keep_tail=True)
            return tree

        def clean(self, invalids):
            me.invalid.append(sorted(t.id for t in invalids))
            if spec["clean"]:
                for t in invalids:
                    del self.dispatcher.collection[t.id]
        members = {"_clean_invalids": clean}
        if spec["parser"] != "plain":
            members["xmlparse"] = xmlparse
        if spec["how"] == "class":
            members["CLASSES"] = self.classes
        cls = type(str(tag + "_Resolver"), (CtsCapitainsLocalResolver,), members)
        # what a resolver makes when it is created, before its instance is given other classes
        self.roots = {x: (self.classes if spec["how"] == "class" else CtsCapitainsLocalResolver.CLASSES)[x]
                      for x in ("inventory", "inventory_collection")}
        if spec["how"] == "class":
            self.resolver = cls(simrepo.folders(world))
        else:
            self.resolver = cls(simrepo.folders(world), autoparse=False)
            self.resolver.classes.update(self.classes)
            self.resolver.parse(simrepo.folders(world))


def execute(plan, sim):
    from lxml import etree
    from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
    world = plan["world"]
    lib = world["lib"]
    k = localread.Checker(sim, world)
    cat = Catalog(k, sim)
    fs, _ = simrepo.start(sim, world, parse=False)
    before = dict(CtsCapitainsLocalResolver.CLASSES)
    bad = sorted(u for u in plan["damage"] if u in world["place"])
    for u in bad:
        p = simrepo.paths(world, k.text(u))[0]
        data = spoil(simrepo.encode(library.tei_xml(k.text(u)), world["enc"].get(u)), plan["damage"][u], 0)
        if data is None:
            fs.remove(p)
        else:
            fs.write(p, data)
    sim.probe["shared_group"] += any(len(simrepo.holders(world, g)) > 1 for g in lib["groups"])

    def opened(spec, tag):
        c = Custom(sim, world, spec, tag)
        # (files are as they are for the whole run: what cannot be read is known when the repositories are opened)
        k.eq(c.invalid, [bad], "a resolver is not told which texts cannot be read")
        sim.probe["own_class"] += bool(spec["own"]) and spec["how"] == "class"
        sim.probe["own_instance"] += bool(spec["own"]) and spec["how"] == "instance"
        sim.probe["plain_resolver"] += not spec["own"]
        sim.probe["cleaned"] += bool(bad) and spec["clean"]
        sim.probe["kept_invalid"] += bool(bad) and not spec["clean"]
        return c

    def kind(x, want, id_):
        k.eq(type(x).__name__, want.__name__, "an object is not of the class the resolver was given for it", id=id_)
        k.eq(type(x) is want, True, "an object is not of the class the resolver was given for it", id=id_)

    def left(r, u=None):
        return [(g, ws) for g, ws in [(g, [(w, [t for t in ts if not (r.spec["clean"] and t["urn"] in bad)]) for w, ts in ws]) for g, ws in pruned(lib, u)]]

    def compare(r, o, g, ws, whole):
        """A group with its works and texts."""
        kind(o, r.classes["textgroup"], g["urn"])
        k.eq(sorted(o.children), sorted(w["urn"] for w, ts in ws if ts or whole), "the works are not those of the library", id=g["urn"])
        for w, ts in ws:
            if not (ts or whole):
                continue
            x = o.children[w["urn"]]
            kind(x, r.classes["work"], w["urn"])
            k.eq(sorted(x.children), sorted(t["urn"] for t in ts), "the texts are not those of the library", id=w["urn"])
            for t in ts:
                text(r, x.children[t["urn"]], t)

    def text(r, o, t):
        kind(o, r.classes[t["kind"]], t["urn"])
        if t["urn"] in bad:
            return
        cat.citation(o.citation, t, {"id": t["urn"]})
        for c in o.citation:
            kind(c, r.classes["citation"], t["urn"])

    def catalogue(r):
        inv = r.resolver.getMetadata()
        kind(inv, r.roots["inventory_collection"], "defaultTic")
        kind(inv.children["default"], r.roots["inventory"], "default")
        want = left(r)
        k.eq(sorted(inv.children["default"].children), sorted(g["urn"] for g, _ in want), "the groups are not those of the library")
        for g, ws in want:
            compare(r, inv.children["default"].children[g["urn"]], g, ws, True)
        k.eq(sorted(x.id for x in r.resolver.texts), sorted(t["urn"] for _, ws in want for _, ts in ws for t in ts), "the texts are not those which can be read")
        k.eq({x: v.__name__ for x, v in r.resolver.classes.items()}, {x: v.__name__ for x, v in r.classes.items()}, "the classes of a resolver are not those it was given")

    def cited(r, u):
        """What a narrowed catalogue holds: texts whose scheme is known."""
        return [(g, [(w, [t for t in ts if world["online"] or t["urn"] not in bad]) for w, ts in ws]) for g, ws in left(r, u)]

    def narrowed(r, o, u):
        (g, ws), = cited(r, u)
        up = [r.classes["work"], r.classes["textgroup"], r.classes["inventory"]]
        if u == g["urn"]:
            compare(r, o, g, ws, False)
            up = up[2:]
        elif u == ws[0][0]["urn"]:
            kind(o, r.classes["work"], u)
            k.eq(sorted(o.children), sorted(t["urn"] for t in ws[0][1]), "the texts are not those of the library", id=u)
            for t in ws[0][1]:
                text(r, o.children[t["urn"]], t)
            up = up[1:]
        else:
            text(r, o, ws[0][1][0])
        for x, want in zip(o.parents, up):
            kind(x, want, x.id)
        k.eq(len(o.parents), len(up), "a narrowed catalogue does not lead back to its groups", id=u)
        sim.probe["narrowed"] += 1

    def one(c, rs, op):
        kind_, tid, ref = op["op"], op["id"], op["ref"]
        r = rs[op["r"] % len(rs)]
        t = k.text(tid)
        o = {"op": kind_, "id": tid, "ref": ref}
        faults = {a: b for a, b in op.items() if a == "faults"}
        if kind_ == "open":
            out = k.attempt(c, {"op": kind_}, lambda: opened(op["new"], "C%d_%d_" % (c.idx, len(rs))), "opening repositories")
            rs.append(out.value)
            sim.probe["opened_meanwhile"] += 1
            kind_, r = "catalogue", out.value
        if kind_ == "catalogue":
            k.attempt(c, {"op": "catalogue"}, lambda: catalogue(r), "looking at the catalogue")
            return
        if kind_ == "narrow":
            u = op["of"]
            o = {"op": kind_, "id": u}
            if not [t for _, ws in cited(r, u) for _, ts in ws for t in ts]:
                k.refused(o, lambda: r.resolver.getMetadata(u), "a collection without texts which can be read is given")
                return
            out = k.attempt(c, o, lambda: r.resolver.getMetadata(u), "asking for a part of the catalogue")
            narrowed(r, out.value, u)
            return
        get = r.resolver
        calls = {"passage": lambda: get.getTextualNode(tid, form(ref, op["as"]), metadata=op["metadata"]),
                 "whole": lambda: get.getTextualNode(tid),
                 "reffs": lambda: get.getReffs(tid, level=op["level"] % library.depth(t) + 1),
                 "siblings": lambda: get.getSiblings(tid, form(ref, op["as"]))}
        if tid in bad:
            k.refused(o, calls[kind_], "a text which cannot be read is given")
            return
        out = k.attempt(c, dict(o, **faults), calls[kind_], "reading a text")
        if not out.ok:
            return
        if kind_ in ("passage", "whole"):
            ref = ref if kind_ == "passage" else None
            want = (words_without_notes if r.spec["parser"] == "nonotes" else library.words)(t, ref)
            got = out.value.export("text/plain").split()
            if ref is None:
                head = len(library.header_words(t))
                got = got[head:] if r.spec["parser"] != "nonotes" else got[-len(want):] if want else []
            k.eq(got, want, "what is read is not what the parser of the resolver makes of the file", id=tid, ref=ref, parser=r.spec["parser"])
            sim.probe["note_gone"] += want != library.words(t, ref)
            kind(out.value.textObject, r.classes["text"], tid)
            sim.probe[kind_] += 1
        elif kind_ == "reffs":
            k.eq([str(x) for x in out.value], library.reffs(t, op["level"] % library.depth(t) + 1), "the references are not those of the text", id=tid)
            sim.probe["reffs"] += 1
        else:
            k.eq([None if x is None else str(x) for x in out.value], list(library.siblings(t, ref)), "the siblings of a passage are not its neighbours", id=tid, ref=ref)
            sim.probe["siblings"] += 1
        sim.probe["parser"] += r.spec["parser"] == "nonotes"
        sim.probe["cached"] += r.spec["parser"] == "cache"

    common = [opened(spec, "R%d" % i) for i, spec in enumerate(plan["resolvers"])]

    def body(ops):
        def run(c):
            rs = list(common)
            for op in ops:
                one(c, rs, op)
            sim.begin_op({"op": "end"})
            for r in rs:
                catalogue(r)
                for key, tree in sorted(r.cache.items()):
                    k.eq(etree.tostring(tree) == r.first[key], True, "a document which a resolver keeps was changed by reading it", file=key[:80].decode("utf-8", "replace"))
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]], preempt=plan.get("preempt"))
    k.eq(CtsCapitainsLocalResolver.CLASSES == before, True, "the classes of every resolver were changed by customising one")
    return {"checks": k.checks, "nontrivial": k.checks > 0}
