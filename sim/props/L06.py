"""L06: walking through local texts."""
from sim.core import Violation
from sim.worlds import library, localread, simrepo
from sim.worlds.localread import rand_ref, form
from sim.props.L04 import mixed

META = {
    "runs": {"quick": 4500, "thorough": 112500},
    "rule": "one evaluation = one seeded run of 1-3 clients, possibly interrupting one another inside the library, walking through generated "
            "texts along previous, next, first, last and children links; distinct = distinct event trace",
    "real": ["MyCapytain local resolver, texts, passages, citations, references", "lxml"],
    "stub": ["file opens (real scratch files, faults and locale)", "thread scheduling"],
    "assumptions": ["references are unique", "ranges run forwards"],
    "must_probe": ["next", "prev", "first", "last", "child", "siblings", "at_end", "at_start", "range_step", "short_range", "mixed", "simple",
                   "long_walk", "preempted", "failed_by_fault", "shared_text", "deepest", "whole", "to_the_end"],
}
STEPS = ["next", "next", "next", "prev", "prev", "first", "last", "child", "ids", "ids"]


def generate(rng, tier, index):
    world = simrepo.gen_world(rng, repos=1, groups=1, works=1, texts=2, sm=False, small=rng.random() < 0.2)
    texts = localread.texts_of(world)
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(1, 5)):
            t = rng.choice(texts)
            steps = [[rng.choice(STEPS), rng.randrange(40)] for _ in range(rng.choice([2, 5, 10]))]
            if rng.random() < 0.3:
                steps = [[rng.choice(["next", "prev"]), 0]] * 9
            op = {"op": rng.choice(["walk", "walk", "walk", "siblings", "simple", "sweep"]), "id": t["urn"], "as": rng.choice(["str", "cts"]),
                  "ref": rand_ref(rng, t, ranges=0.35, whole=0.1), "share": rng.random() < 0.6, "steps": steps, "level": rng.randrange(3),
                  "shared_passage": rng.random() < 0.3}
            if rng.random() < 0.08:
                op["ref"] = mixed(rng, t) or op["ref"]
            ops.append(localread.disk_faults(rng, op, 1, 0.08))
        clients.append(ops)
    return {"world": world, "clients": clients, "delays": [rng.randrange(1, 30) for _ in range(60)] if len(clients) > 1 else [],
            "preempt": localread.gen_preempt(rng, clients)}


def execute(plan, sim):
    from MyCapytain.errors import InvalidSiblingRequest
    world = plan["world"]
    k = localread.Checker(sim, world)
    fs, resolver = simrepo.start(sim, world)
    texts = localread.Texts(sim, world, resolver)
    passages = {}

    def same(o, t, ref, where):
        k.eq(o.export("text/plain").split(), library.words(t, ref), "a step leads to a passage with another text", **where)
        k.eq((str(o.reference), str(o.urn)), (ref, t["urn"] + ":" + ref), "a step leads to another passage", **where)
        k.eq([x.name for x in o.citation], [l["name"] for l in t["levels"]][len(library.split_ref(ref)[0]) - 1:],
             "the citation of a passage is not that of its level", **where)

    def shown(x):
        return None if x is None else str(x)

    def links(o, t, ref, where):
        """(prev, next, first, last, children) as they should be; checks the identifiers of the passage."""
        a, b = library.split_ref(ref)
        prev, nxt = library.siblings(t, ref)
        deep = len(a)
        kids = library.under(t, ref, deep + 1) if deep < library.depth(t) else []
        k.eq((shown(o.prevId), shown(o.nextId)), (prev, nxt), "the siblings of a passage are not its neighbours", **where)
        k.eq([shown(x) for x in o.siblingsId], [prev, nxt], "the siblings of a passage are not its neighbours", **where)
        k.eq([str(x) for x in o.childIds], kids, "the children of a passage are not those of the text", **where)
        k.eq((shown(o.firstId), shown(o.lastId)), (kids[0], kids[-1]) if kids else (None, None),
             "the first and last passages of a passage are not its children", **where)
        sim.probe["deepest"] += not kids
        return prev, nxt, (kids[0] if kids else None), (kids[-1] if kids else None), kids

    def walk(o, t, ref, steps, simple=False):
        n = 0
        for step, x in steps:
            where = {"id": t["urn"], "ref": ref, "step": step, "steps_before": n}
            prev, nxt, first, last, kids = links(o, t, ref, where)
            if step == "ids":
                continue
            if step == "child":
                if not kids:
                    k.eq(list(o.children), [], "the deepest passages have children", **where)
                    continue
                got = list(o.children)
                k.eq([str(g.reference) for g in got], kids, "the children of a passage are not those of the text", **where)
                new, to = got[x % len(got)], kids[x % len(kids)]
            else:
                to = {"next": nxt, "prev": prev, "first": first, "last": last}[step]
                new = getattr(o, step)
                if to is None:
                    k.eq(new, None, "a passage has a neighbour beyond the end", **where)
                    sim.probe["at_end"] += step == "next"
                    sim.probe["at_start"] += step == "prev"
                    continue
            sim.probe[step] += 1
            sim.probe["range_step"] += "-" in to
            k.eq(new is not None, True, "a step leads nowhere", **where)
            same(new, t, to, where)
            n += 1
            o, ref = new, to
            if "-" in to and len(set(to.split("-"))) == 1:
                sim.probe["short_range"] += 1
                break
        sim.probe["long_walk"] += n > 4

    def one(c, op):
        tid, ref = op["id"], op["ref"]
        t = k.text(tid)
        clean = {"op": op["op"], "id": tid, "ref": ref}
        out = k.attempt(c, dict(clean, **{a: b for a, b in op.items() if a == "faults"}), lambda: texts.text(t, op["share"]), "opening a text")
        if not out.ok:
            return
        text = out.value
        sim.probe["shared_text"] += op["share"]

        def guarded(fn, what):
            k.attempt(c, clean, fn, what)
        if op["op"] == "sweep":
            # from one end of a level to the other
            level = op["level"] % library.depth(t) + 1
            rs = library.reffs(t, level)
            for link, order in (("next", rs), ("prev", rs[::-1])):
                out = k.attempt(c, clean, lambda: text.getTextualNode(form(order[0], op["as"])), "opening a passage")
                o, seen = out.value, []
                while o is not None and len(seen) <= len(rs):
                    seen.append(str(o.reference))
                    o = k.attempt(c, clean, lambda: getattr(o, link), "going to the %s passage" % link).value
                k.eq(seen, order, "following the %s links does not visit every passage once" % link, id=tid, level=level)
            sim.probe["to_the_end"] += 1
            return
        if ref is None:
            o = k.attempt(c, clean, lambda: resolver.getTextualNode(tid), "opening a text").value
            kids = library.reffs(t, 1)
            where = {"id": tid}

            def whole():
                k.eq([str(x) for x in o.childIds], kids, "the children of a text are not its first level", **where)
                k.eq((str(o.firstId), str(o.lastId)), (kids[0], kids[-1]), "the first and last passages of a text are not its children", **where)
                for x, y in zip(o.children, kids):
                    same(x, t, y, where)
                same(o.first, t, kids[0], where)
                same(o.last, t, kids[-1], where)
            guarded(whole, "walking into a text")
            sim.probe["whole"] += 1
            return
        a, b = library.split_ref(ref)
        if op["op"] == "siblings" and len(a) == len(b):
            out = k.attempt(c, clean, lambda: resolver.getSiblings(tid, form(ref, op["as"])), "asking for siblings")
            k.eq(tuple(map(shown, out.value)), library.siblings(t, ref), "the siblings of a passage are not its neighbours", id=tid, ref=ref)
            sim.probe["siblings"] += 1
            return
        if op["op"] == "simple":
            ref = a = ".".join(a)
            o = k.attempt(c, clean, lambda: text.getTextualNode(form(ref, op["as"]), simple=True), "opening a passage").value
            guarded(lambda: walk(o, t, ref, op["steps"], True), "walking from a simple passage")
            sim.probe["simple"] += 1
            return
        key = (tid, ref)
        if op["shared_passage"] and key in passages:
            o = passages[key]
        else:
            o = k.attempt(c, clean, lambda: text.getTextualNode(form(ref, op["as"])), "opening a passage").value
            passages[key] = o
        if len(a) != len(b):
            for what in ("next", "prev", "siblingsId", "childIds"):
                sim.begin_op(clean)
                got = sim.call(lambda: getattr(o, what))
                k.eq(got.ok is False and isinstance(got.exc, InvalidSiblingRequest), True,
                     "a range between two depths has neighbours", id=tid, ref=ref, asked=what, outcome=got.describe())
            k.refused(clean, lambda: resolver.getSiblings(tid, ref), "a range between two depths has neighbours")
            sim.probe["mixed"] += 1
            return
        guarded(lambda: walk(o, t, ref, op["steps"]), "walking through a text")

    def body(ops):
        def run(c):
            for op in ops:
                one(c, op)
                if op.get("faults"):
                    one(c, {a: b for a, b in op.items() if a != "faults"})
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]], preempt=plan.get("preempt"))
    return {"checks": k.checks, "nontrivial": k.checks > 0}
