"""M03: merging catalogues."""
from sim.core import Violation
from sim.worlds import tree

META = {
    "runs": {"quick": 5000, "thorough": 125000},
    "rule": "one evaluation = one seeded history of 1-2 clients, possibly interrupting one another inside the library, each building several "
            "copies of overlapping text groups and works and merging them in some order; distinct = distinct event trace",
    "real": ["MyCapytain collections, CTS collections, metadata", "rdflib store"],
    "stub": ["thread scheduling"],
    "assumptions": ["copies of a collection which share an identifier agree about its description",
                    "a work whose texts were taken by another one is not merged again"],
    "must_probe": ["group", "work", "shared_work", "new_work", "shared_text", "new_text", "refused", "self", "twice", "chain", "pruned_after", "described_after",
                   "preempted", "in_inventory"],
}


def generate(rng, tier, index):
    count = rng.choice([1, 1, 2])
    clients = []
    for c in range(count):
        groups = []
        for g in range(rng.randrange(1, 3)):
            works = []
            for w in range(rng.randrange(1, 4)):
                works.append({"id": "w%d" % w, "texts": [{"id": "t%d" % t, "kind": rng.choice(tree.TEXTS), "lang": rng.choice(["eng", "lat", "fre"])}
                                                         for t in range(rng.randrange(1, 4))]})
            groups.append({"id": "g%d" % g, "works": works})
        copies = []
        for _ in range(rng.randrange(2, 6)):
            g = rng.randrange(len(groups))
            copies.append({"g": g, "inv": rng.random() < 0.4, "xml": rng.random() < 0.3,
                           "keep": [[wi, [ti for ti in range(len(w["texts"])) if rng.random() < 0.6]]
                                    for wi, w in enumerate(groups[g]["works"]) if rng.random() < 0.7]})
        ops = [{"op": "library", "groups": groups, "copies": copies}]
        for _ in range(rng.randrange(1, 9)):
            ops.append({"op": rng.choice(["group", "group", "group", "work", "work", "bad", "delete", "label", "add"]), "a": rng.randrange(60), "b": rng.randrange(60),
                        "k": rng.randrange(60)})
        clients.append(ops)
    pre = {}
    if count > 1:
        pre = {str(i): sorted(rng.randrange(1, 1500) for _ in range(rng.randrange(1, 8))) for i in range(count)}
    return {"clients": clients, "delays": [rng.randrange(1, 20) for _ in range(40)] if count > 1 else [], "preempt": pre}


def execute(plan, sim):
    from MyCapytain.common.reference import Citation
    from MyCapytain.errors import InvalidURN
    f = tree.Forest(sim)

    def body(idx, ops):
        heads = []                      # [Node] one per copy of a text group

        def build(op):
            for ci, cp in enumerate(op["copies"]):
                g = op["groups"][cp["g"]]
                gid = "urn:cts:latinLit:c%d%s" % (idx, g["id"])
                parent = None
                if cp["inv"]:
                    parent = tree.Node("ti", "inv%d.%d" % (idx, ci), tree.make("ti", "inv%d.%d" % (idx, ci)))
                    sim.probe["in_inventory"] += 1
                kind = "tg"
                n = tree.Node(kind, gid, tree.make(kind, gid, parent.obj if parent else None, xml=cp["xml"]), parent)
                if parent:
                    parent.children[gid] = n
                for wi, tis in cp["keep"]:
                    w = g["works"][wi]
                    wid = gid + "." + w["id"]
                    wn = tree.Node("work", wid, tree.make("work", wid, n.obj, xml=cp["xml"]), n)
                    n.children[wid] = wn
                    for ti in tis:
                        t = w["texts"][ti]
                        tid = wid + "." + t["id"]
                        wn.children[tid] = tree.Node(t["kind"], tid, tree.make(t["kind"], tid, wn.obj, t["lang"], cp["xml"]), wn, t["lang"])
                        wn.children[tid].obj.citation = Citation(name="citation of " + tid)
                heads.append(n)

        def adopt(node, obj):
            """Python objects a merge made: the structure is checked, the identities are taken as they are."""
            node.obj = obj
            for k in node.children.values():
                if k.id not in obj.children:
                    raise Violation("a merged collection lost a member", id=node.id, member=k.id)
                adopt(k, obj.children[k.id])

        def copy(n, parent):
            out = tree.Node(n.kind, n.id, n.obj, parent, n.lang)
            for k in n.children.values():
                out.children[k.id] = copy(k, out)
            return out

        def merge_work(a, b, how):
            for tid, t in list(b.children.items()):
                sim.probe["shared_text" if tid in a.children else "new_text"] += 1
                new = tree.Node(t.kind, t.id, t.obj, a, t.lang)
                if how == "move" and b is not a:
                    t.unsure = True     # the object now belongs to the other work
                a.children[tid] = new

        def everything():
            for h in heads:
                root = h.root()
                f.whole(root)
                for w in h.children.values():
                    for t in w.children.values():
                        f.eq(getattr(t.obj.citation, "name", None), "citation of " + t.id, "a text lost its citation scheme in a merge", id=t.id)

        def run(c):
            for op in ops:
                kind = op["op"]
                if kind == "library":
                    build(op)
                    everything()
                    continue
                if not heads:
                    continue
                a = heads[op["a"] % len(heads)]
                sim.begin_op({x: y for x, y in op.items() if isinstance(y, (int, str))})
                if kind == "group":
                    pool = [h for h in heads if h.id == a.id and not any(x.unsure for x in h.down())] or [a]
                    b = pool[op["b"] % len(pool)]
                    sim.probe["group"] += 1
                    sim.probe["self"] += a is b
                    sim.probe["twice"] += getattr(a, "merged", None) is b
                    sim.probe["chain"] += getattr(b, "merged", None) is not None
                    got = f.attempt(op, lambda: a.obj.update(b.obj), "merging two text groups")
                    f.eq(got is a.obj, True, "merging gives something else than the object merged into", id=a.id)
                    for wid, w in list(b.children.items()):
                        if wid in a.children:
                            if a is not b:
                                merge_work(a.children[wid], w, "copy")
                            sim.probe["shared_work"] += 1
                        else:
                            a.children[wid] = copy(w, a)
                            sim.probe["new_work"] += 1
                    a.merged = b
                    adopt(a, a.obj)
                    if a is not b:
                        mine = {id(x.obj) for x in a.down()}
                        f.eq([x.id for x in b.down() if id(x.obj) in mine and not x.unsure], [], "a merge shares objects with the text group merged", id=a.id)
                elif kind == "work":
                    if not a.children:
                        continue
                    w = list(a.children.values())[op["k"] % len(a.children)]
                    pool = [x for h in heads for x in h.children.values() if x.id == w.id and not any(y.unsure for y in x.down())] or [w]
                    b = pool[op["b"] % len(pool)]
                    if b is not w:
                        got = f.attempt(op, lambda: w.obj.update(b.obj), "merging two works")
                        f.eq(got is w.obj, True, "merging gives something else than the object merged into", id=w.id)
                        sim.probe["work"] += 1
                        merge_work(w, b, "move")
                        adopt(w, w.obj)
                elif kind == "bad":
                    others = [h for h in heads if h.id != a.id]
                    ws = [x for h in heads for x in h.children.values()]
                    ts = [x for x in ws for x in x.children.values()]
                    if others and op["k"] % 3 == 0:
                        b = others[op["b"] % len(others)]
                        f.refused(op, lambda: a.obj.update(b.obj), "text groups of different URNs are merged", InvalidURN)
                    elif ws and op["k"] % 3 == 1:
                        x = ws[op["b"] % len(ws)]
                        diff = [y for y in ws if y.id != x.id]
                        if diff:
                            f.refused(op, lambda: x.obj.update(diff[op["k"] % len(diff)].obj), "works of different URNs are merged", InvalidURN)
                        f.refused(op, lambda: x.obj.update(a.obj), "a text group is merged into a work", TypeError)
                    elif ts or ws:
                        pool = ts or ws
                        f.refused(op, lambda: a.obj.update(pool[op["b"] % len(pool)].obj), "something else is merged into a text group", TypeError)
                elif kind == "add":
                    # a new text in one copy of a work is not in the others
                    if a.children:
                        w = list(a.children.values())[op["k"] % len(a.children)]
                        tid = w.id + ".n%d.%d" % (op["b"], op["k"])
                        if tid not in w.children:
                            o = f.attempt(op, lambda: tree.make("edition", tid, w.obj, "lat"), "making a text")
                            o.citation = Citation(name="citation of " + tid)
                            w.children[tid] = tree.Node("edition", tid, o, w, "lat")
                elif kind == "delete":
                    ns = [x for x in a.down() if x.kind in tree.TEXTS and not x.unsure and sum(y.id == x.id for h in heads for y in h.down()) == 1]
                    if ns:
                        n = ns[op["b"] % len(ns)]
                        def delete():
                            del a.obj[n.id]
                        f.attempt(op, delete, "deleting a collection")
                        del n.parent.children[n.id]
                        for d in (f.labels, f.props, f.links, f.version):
                            d.pop(n.id, None)
                        sim.probe["pruned_after"] += getattr(a, "merged", None) is not None
                elif kind == "label":
                    ns = [a] + a.down()
                    n = ns[op["b"] % len(ns)]
                    lang = ["eng", "lat", "fre"][op["k"] % 3]
                    f.attempt(op, lambda: n.obj.set_label("label %d" % op["k"], lang), "labelling a collection")
                    if (lang, "label %d" % op["k"]) not in f.labels.setdefault(n.id, []):
                        f.labels[n.id].append((lang, "label %d" % op["k"]))
                    sim.probe["described_after"] += getattr(a, "merged", None) is not None
                everything()
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run
    sim.run_clients([body(i, ops) for i, ops in enumerate(plan["clients"])], preempt=plan.get("preempt"))
    return {"checks": f.checks, "nontrivial": f.checks > 0}
