"""D03: what a DTS collection says about itself is what was published, whatever else is read."""
from sim import net
from sim.core import Violation
from sim.worlds import simdts, dtsread
from sim.props import D01

META = {
    "runs": {"quick": 6000, "thorough": 150000},
    "rule": "one evaluation = one seeded run reading several collections of a generated catalogue in random order and "
            "comparing every description read with the publication; distinct = distinct event trace",
    "real": D01.META["real"], "stub": D01.META["stub"],
    "assumptions": ["member summaries are consistent with the full descriptions (a subset of them)",
                    "values are strings, language-tagged or typed strings, numbers, booleans or links"],
    "must_probe": ["rich_metadata", "citation_trees", "retrieved_from_summary", "checked_after_others"],
}


def generate(rng, tier, index):
    n = rng.choice([2, 3, 4, 6, 8])
    world = simdts.gen_world(rng, n=n, rich=True, dag=rng.choice([0, 0.3]))
    world["rich_members"] = rng.random() < 0.5
    ops = [{"op": "open", "id": world["root"]}]
    for _ in range(rng.randrange(2, 12)):
        r = rng.random()
        if r < 0.35:
            ops.append({"op": "open", "id": rng.choice(world["ids"])})
        elif r < 0.6:
            ops.append({"op": "down", "h": rng.randrange(50), "k": rng.randrange(50)})
        elif r < 0.85:
            ops.append({"op": "retrieve", "h": rng.randrange(50)})
        elif r < 0.93:
            ops.append({"op": "children", "h": rng.randrange(50), "how": "list", "k": 0})
        else:
            ops.append({"op": "parents", "h": rng.randrange(50), "how": "list"})
    if rng.random() < 0.35:
        for op in ops:
            if rng.random() < 0.4:
                op["faults"] = {str(rng.randrange(3)): rng.choice(net.DISRUPTIVE + net.BENIGN)}
    return {"world": world, "clients": [ops], "delays": [], "recheck": rng.randrange(2)}


def values(objs):
    out = []
    for o in objs:
        lang, dt = getattr(o, "language", None), getattr(o, "datatype", None)
        kind = "id" if not hasattr(o, "language") else type(o.toPython()).__name__
        if kind not in ("id", "int", "float", "bool", "str"):
            kind = "str" if dt is None else str(dt)
        out.append([str(float(o)) if kind == "float" else str(o), lang.lower() if lang else None, kind])
    return sorted(out, key=str)


def published(vs):
    out = []
    for v in vs:
        if isinstance(v, dict) and "@id" in v:
            out.append([v["@id"], None, "id"])
        elif isinstance(v, dict):
            out.append([v["@value"], v.get("@language", "").lower() or None, v.get("@type", "str")])
        else:
            out.append([str(v).lower() if isinstance(v, bool) else str(v), None, type(v).__name__])
    return sorted(out, key=str)


def cite_tree(c):
    return [{"type": x.name, "sub": cite_tree(x)} for x in c.children]


def flat(nodes):
    out = []
    for n in nodes:
        out.append(n["type"])
        out.extend(flat(n["sub"]))
    return out


def cite_depth(nodes):
    return max([1 + cite_depth(n["sub"]) for n in nodes]) if nodes else 0


def execute(plan, sim):
    from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
    from rdflib import URIRef
    world = plan["world"]
    n = net.Net(sim)
    server = simdts.DtsServer(world)
    n.servers[world["base"]] = server
    resolver = HttpDtsResolver(server.endpoint)
    r = dtsread.Reader(sim, world, server, resolver, faulty=True)

    def compare(h, when):
        m = world["coll"][h.id]
        o = h.obj
        full = h.retrieved or world["rich_members"]
        r.eq(o.id, h.id, "a collection changed identifier", when=when)
        r.eq(str(o.type), simdts.HYD + m["type"], "the type of a collection is not the published one", of=h.id, when=when)
        r.eq(bool(o.readable), m["type"] == "Resource", "readability does not follow the published type", of=h.id, when=when)
        r.eq(str(o.get_label()), m["title"], "the title of a collection is not the published one", of=h.id, when=when)
        r.eq(o.size, len(m["children"]), "the published member count is wrong", of=h.id, when=when)
        want_desc = [m["description"]] if "description" in m else []
        desc = [str(x) for x in o.metadata.get(URIRef(simdts.HYD + "description"))]
        if full or desc:
            r.eq(desc, want_desc, "the description of a collection is not the published one", of=h.id, when=when)
        for t in simdts.DC_TERMS + simdts.EXT_TERMS:
            uri = URIRef(t if ":" in t else simdts.DCT + t)
            want = published(((m.get("dc") or {}).get(t) if ":" not in t else (m.get("ext") or {}).get(t)) or [])
            got = values(o.metadata.get(uri))
            if full or got:
                r.eq(got, want, "a metadata value of a collection is not the published one", of=h.id, term=str(uri), when=when)
            if want:
                sim.probe["rich_metadata"] += 1
            if full:
                for v, lang, _ in want:
                    if lang and sum(1 for x in want if x[1] == lang) == 1:
                        tag = [x["@language"] for x in ((m.get("dc") or {}).get(t) or (m.get("ext") or {}).get(t))
                               if isinstance(x, dict) and x.get("@language", "").lower() == lang][0]
                        r.eq(str(o.metadata.get_single(uri, tag)), v, "a metadata value is not found by its language",
                             of=h.id, term=str(uri), lang=tag, when=when)
        if full:
            cite = m.get("cite") or []
            r.eq(cite_tree(o.citation), cite, "the citation structure is not the published one", of=h.id, when=when)
            r.eq([c.name for c in o.citation], flat(cite), "walking the citation structure does not give every level once",
                 of=h.id, when=when)
            r.eq(o.citation.depth, m.get("depth") or cite_depth(cite), "the citation depth is not the published one",
                 of=h.id, when=when)
            r.eq(o.citation.is_empty(), not cite, "an absent citation structure is reported", of=h.id, when=when)
            if cite_depth(cite) > 1:
                sim.probe["citation_trees"] += 1
            if h.summary:
                sim.probe["retrieved_from_summary"] += 1
            for c in o.citation:
                r.eq(c.root is o.citation, True, "a citation level is not attached to its own collection", of=h.id, when=when)

    def body(c):
        for op in plan["clients"][0]:
            r.run(op)
            if r.handles and plan.get("recheck"):
                compare(r.handles[-1], "right after")
        for h in r.handles:
            compare(h, "at the end")
            sim.probe["checked_after_others"] += len(r.handles) > 1
        for i, h in enumerate(list(r.handles)):
            r.run({"op": "retrieve", "h": i})
            compare(h, "after retrieval")
    sim.run_clients([body])
    return {"checks": r.checks, "nontrivial": r.checks > 0, "state": str(len(r.handles))}
