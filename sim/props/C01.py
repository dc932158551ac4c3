"""C01: CTS passages carry the served text, identity and description."""
from sim.worlds import library, simcts, ctsread
from sim.worlds.ctsread import Held, form, rand_ref, FORMS

META = {
    "runs": {"quick": 3500, "thorough": 87500},
    "rule": "one evaluation = one seeded run of 1-3 concurrent clients opening passages of a generated library through a "
            "simulated CTS service; distinct = distinct event trace",
    "real": ["MyCapytain CTS resolver, retriever, texts, passages", "requests", "urllib3 response decoding", "lxml"],
    "stub": ["the CTS service (generated library)", "sockets", "clock"],
    "assumptions": ["the library does not change during a run", "replies are UTF-8 XML"],
    "must_probe": ["range_passage", "whole_text", "plus", "several_languages", "failed_by_fault", "refused", "label", "from_passage", "exported", "excluded"],
}


def generate(rng, tier, index):
    from sim import net
    world = simcts.gen_world(rng, groups=2, works=2, texts=2, sm=False, empty=True)
    texts = [t for _, _, t in library.all_texts(world["lib"])]
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(2, 9)):
            t = rng.choice(texts)
            op = {"op": rng.choice(["open", "open", "text", "text", "from", "from", "label", "unknown", "ids", "export"]),
                  "id": t["urn"], "ref": rand_ref(rng, t), "form": rng.choice(FORMS), "h": rng.randrange(20), "k": rng.randrange(50),
                  "prevnext": rng.random() < 0.3, "metadata": rng.random() < 0.3}
            if op["op"] == "unknown":
                op["ref"] = rng.choice(["99", "1.99.1", "zz", "1-99"])
            ops.append(op)
        clients.append(ops)
    if rng.random() < 0.5:
        for ops in clients:
            for op in ops:
                if rng.random() < 0.4:
                    op["faults"] = {str(rng.randrange(2)): rng.choice(simcts.DISRUPTIVE + net.BENIGN * 2)}
    return {"world": world, "clients": clients, "delays": [rng.randrange(1, 40) for _ in range(40)] if len(clients) > 1 else []}


def execute(plan, sim):
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.resolvers.cts.api import HttpCtsResolver
    from MyCapytain.resources.texts.remote.cts import CtsText
    world = plan["world"]
    n, server, retriever = simcts.start(sim, world)
    resolver = HttpCtsResolver(retriever)
    k = ctsread.Checker(sim, world)

    def check(h):
        k.passage(h)
        t = k.text(h.tid)
        where = {"id": h.tid, "ref": h.ref}
        if h.plus or world["described"]:
            k.citation(h.obj.citation, t, where)
        if h.plus:
            k.described(h.obj, h)
            if h.ref:
                sib = library.siblings(t, h.ref)
                if sib:
                    before = n.requests
                    k.eq((h.obj.prevId, h.obj.nextId), sib, "the siblings carried by a passage are not the published ones", **where)
                    k.eq(n.requests, before, "known siblings are requested again", **where)
            sim.probe["plus"] += 1

    def one(c, held, op):
        kind, tid, ref = op["op"], op["id"], op["ref"]
        plus = op["prevnext"] or op["metadata"]
        if kind == "unknown":
            k.refused(op, lambda: resolver.getTextualNode(tid, ref, prevnext=op["prevnext"], metadata=op["metadata"]),
                      "an unknown passage is returned")
            return
        if kind == "label":
            text = CtsText(urn=tid, retriever=retriever)
            out = k.attempt(c, op, text.getLabel, "reading the description of a text")
            if out.ok:
                k.described(text, Held(text, tid, None))
                k.citation(text.citation, k.text(tid), {"id": tid})
                sim.probe["label"] += 1
            return
        if kind == "export":
            # the text itself, without opening it
            text = CtsText(urn=tid, retriever=retriever)
            skip = [None, ["note"], ["hi", "head"]][op["k"] % 3]
            more = {"exclude": ["tei:" + x for x in skip]} if skip else {}
            out = k.attempt(c, op, lambda: text.export(Mimetypes.PLAINTEXT, **more), "exporting a text")
            if out.ok:
                k.eq(out.value.split(), library.words(k.text(tid), None, skip or ()), "the text exported is not the published one", id=tid, skip=skip)
                sim.probe["exported"] += 1
            return
        if kind == "open":
            how = op["form"] if op["form"] in ("str", "cts") else "str"
            out = k.attempt(c, op, lambda: resolver.getTextualNode(tid, form(tid, ref, how), prevnext=op["prevnext"],
                                                                   metadata=op["metadata"]), "opening a passage")
        elif kind == "text":
            text = CtsText(urn=tid, retriever=retriever)
            if plus:
                out = k.attempt(c, op, lambda: text.getPassagePlus(form(tid, ref, "cts" if op["k"] % 2 else "str")), "opening a passage")
            else:
                out = k.attempt(c, op, lambda: text.getTextualNode(form(tid, ref, op["form"])), "opening a passage")
                if out.ok and world["described"]:
                    k.described(text, Held(text, tid, None))
                    k.citation(text.citation, k.text(tid), {"id": tid})
        else:
            if not held:
                return
            h = held[op["h"] % len(held)]
            if kind == "ids":
                check(h)
                return
            tid = h.tid
            refs = [".".join(p) for p, _ in library.nodes(k.text(tid))]
            ref, plus = refs[op["k"] % len(refs)], False
            out = k.attempt(c, op, lambda: h.obj.getTextualNode(form(tid, ref, op["form"])), "opening a passage from another one")
            sim.probe["from_passage"] += out.ok
        if out.ok:
            h = Held(out.value, tid, ref, plus)
            check(h)
            held.append(h)

    def body(ops):
        def run(c):
            held = []
            for op in ops:
                one(c, held, op)
            for op in ops:
                one(c, held, {a: b for a, b in op.items() if a != "faults"})
            sim.begin_op({"op": "end"})
            for h in held:
                check(h)
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]])
    return {"checks": k.checks, "nontrivial": k.checks > 0}
