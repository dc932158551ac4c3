"""L05: reference lists of local texts."""
from sim.core import Violation
from sim.worlds import library, localread, simrepo
from sim.worlds.ctsread import Held
from sim.worlds.localread import rand_ref, form
from sim.props.L04 import mixed

META = {
    "runs": {"quick": 5000, "thorough": 125000},
    "rule": "one evaluation = one seeded run of 1-3 clients, possibly interrupting one another inside the library, listing references of "
            "generated texts through a shared resolver, shared texts and passages; distinct = distinct event trace",
    "real": ["MyCapytain local resolver, texts, passages, citations, references", "lxml"],
    "stub": ["file opens (real scratch files, faults and locale)", "thread scheduling"],
    "assumptions": ["references are unique and every passage above the deepest level has some below", "ranges run forwards"],
    "must_probe": ["whole", "single", "range", "mixed", "deep", "too_deep", "raised_level", "inside_range", "passage", "simple", "children",
                   "all", "refused", "preempted", "failed_by_fault", "shared_text", "common"],
}
KINDS = ["resolver"] * 4 + ["text"] * 3 + ["passage"] * 3 + ["simple"] * 2 + ["children", "all", "bad"]


def related(rng, t, ref):
    """References sharing an end, a prefix or nothing but the depth with one."""
    start, end = ref.split("-")[0], ref.split("-")[-1]
    order = library.reffs(t, len(start.split(".")))
    i = order.index(start)
    after = order[i + 1:i + 6]
    pool = [start, end, start.rsplit(".", 1)[0]] + [start + "-" + x for x in after] + ([rng.choice(order)] if order else [])
    if end in order:
        pool += [x + "-" + end for x in order[max(0, i - 3):order.index(end)]]
    return [rng.choice(pool) for _ in range(rng.randrange(1, 4))]


def generate(rng, tier, index):
    world = simrepo.gen_world(rng, repos=1, groups=1, works=2, texts=2, sm=False, small=rng.random() < 0.3)
    texts = localread.texts_of(world)
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(2, 10)):
            t = rng.choice(texts)
            op = {"op": rng.choice(KINDS), "id": t["urn"], "ref": rand_ref(rng, t, ranges=0.5, whole=0.25), "as": rng.choice(["str", "cts"]),
                  "level": rng.choice([0, 1, 1, 1, 2, 2, 3, 4]), "k": rng.randrange(60), "share": rng.random() < 0.5}
            if rng.random() < 0.15:
                op["ref"] = mixed(rng, t) or op["ref"]
            ops.append(localread.disk_faults(rng, op, 1, 0.08))
            if op["ref"] and rng.random() < 0.4:
                # questions which only differ by one thing, put to the same object
                for ref in related(rng, t, op["ref"]):
                    ops.append(dict(op, ref=ref, faults=[], share=True, k=rng.randrange(60), op=rng.choice(["text", "text", "passage", op["op"]]),
                                    level=op["level"] if rng.random() < 0.8 else rng.randrange(4)))
        clients.append(ops)
    return {"world": world, "clients": clients, "delays": [rng.randrange(1, 30) for _ in range(60)] if len(clients) > 1 else [],
            "preempt": localread.gen_preempt(rng, clients)}


def effective(t, ref, level):
    """The level at which references are listed, None when what is asked for is not meaningful."""
    if ref is None:
        return max(level, 1) if level else None
    a, b = library.split_ref(ref)
    if "-" not in ref:
        return max(level, len(a) + 1)
    if level == 1:
        return len(a) + 1
    if level == 0:
        return len(a) if len(a) == len(b) else None
    return level if level >= max(len(a), len(b)) else None


def execute(plan, sim):
    world = plan["world"]
    k = localread.Checker(sim, world)
    fs, resolver = simrepo.start(sim, world)
    texts = localread.Texts(sim, world, resolver)

    def listed(c, op, fn, t, ref, level, what="listing references"):
        """level: absolute"""
        if level is None:
            return
        if level > library.depth(t):
            k.refused({a: b for a, b in op.items() if a != "faults"}, fn, "references deeper than the text are listed")
            sim.probe["too_deep"] += 1
            return
        out = k.attempt(c, op, fn, what)
        if not out.ok:
            return
        got = out.value
        where = {"id": t["urn"], "ref": ref, "level": level}
        k.eq([str(x) for x in got], library.under(t, ref, level), "the references listed are not those of the text", **where)
        k.eq([x.depth for x in got], [level] * len(got), "references do not have the depth of their level", **where)
        k.eq((got.level, got.citation.name), (level, t["levels"][level - 1]["name"]), "a reference list does not know its level", **where)
        sim.probe["whole" if ref is None else ("range" if "-" in ref else "single")] += 1
        sim.probe["deep"] += level > 1
        if ref and "-" in ref:
            a, b = library.split_ref(ref)
            sim.probe["mixed"] += len(a) != len(b)
            sim.probe["inside_range"] += level == len(a)
            sim.probe["common"] += a[0] == b[0]

    def one(c, held, op):
        kind, tid, ref, level = op["op"], op["id"], op["ref"], op["level"]
        t = k.text(tid)
        f = form(ref, op["as"])
        o = {a: b for a, b in op.items() if a in ("op", "id", "ref", "level", "as", "faults")}
        clean = {a: b for a, b in o.items() if a != "faults"}
        if ref and "-" not in ref:
            sim.probe["raised_level"] += level <= len(ref.split("."))
        if kind == "resolver":
            listed(c, o, lambda: resolver.getReffs(tid, level=level, subreference=f), t, ref, effective(t, ref, level))
            return
        out = k.attempt(c, o, lambda: texts.text(t, op["share"]), "opening a text")
        if not out.ok:
            return
        text = out.value
        sim.probe["shared_text"] += op["share"]
        if kind == "text":
            fn = text.getReffs if op["k"] % 2 else (lambda level, subreference: text.getValidReff(level=level, reference=form(ref, "cts")))
            listed(c, clean, lambda: fn(level=level, subreference=f), t, ref, effective(t, ref, level))
        elif kind in ("passage", "children"):
            if ref is None:
                p = k.attempt(c, clean, lambda: resolver.getTextualNode(tid), "opening a text").value
                sim.probe["simple"] += 1
                if kind == "children":
                    listed(c, clean, lambda: p.childIds, t, None, 1)
                else:
                    listed(c, clean, lambda: p.getReffs(level=level), t, None, level or None)
                return
            p = k.attempt(c, clean, lambda: text.getTextualNode(f), "opening a passage").value
            sim.probe["passage"] += 1
            if kind == "passage":
                listed(c, clean, lambda: p.getReffs(level=level), t, ref, effective(t, ref, level))
                return
            a, b = library.split_ref(ref)
            if len(a) == len(b):
                sim.probe["children"] += 1
                if len(a) == library.depth(t):
                    k.eq(list(p.childIds), [], "the deepest passages have children", id=tid, ref=ref)
                else:
                    listed(c, clean, lambda: p.childIds, t, ref, len(a) + 1)
                    listed(c, clean, lambda: p.childIds, t, ref, len(a) + 1)
        elif kind == "simple":
            if ref is None:
                return
            ref = ref.split("-")[0]
            p = k.attempt(c, clean, lambda: text.getTextualNode(form(ref, op["as"]), simple=True), "opening a passage").value
            deep = len(ref.split("."))
            # from a simple passage, levels are counted from the passage
            listed(c, clean, lambda: p.getReffs(level=level), t, ref, max(level, 1) + deep)
            if deep < library.depth(t):
                listed(c, clean, lambda: p.childIds, t, ref, deep + 1)
            else:
                k.eq(list(p.childIds), [], "the deepest passages have children", id=tid, ref=ref)
            sim.probe["simple"] += 1
        elif kind == "all":
            out = k.attempt(c, clean, lambda: text.reffs, "listing every reference of a text")
            k.eq([str(x) for x in out.value], [r for l in range(1, library.depth(t) + 1) for r in library.reffs(t, l)],
                 "the references of a text are not all listed", id=tid)
            sim.probe["all"] += 1
        elif kind == "bad":
            ref = ["99", "zz.1", "99-100"][op["k"] % 3]
            if op["k"] % 2:
                k.refused(dict(clean, ref=ref), lambda: resolver.getReffs(tid, level=level, subreference=ref), "references of a passage which does not exist are listed")
            else:
                k.refused(dict(clean, ref=ref), lambda: text.getReffs(level=level, subreference=ref), "references of a passage which does not exist are listed")
            k.refused(dict(clean, ref=None), lambda: resolver.getReffs(tid + "x", level=level), "references of a text which does not exist are listed")

    def body(ops):
        def run(c):
            held = []
            for op in ops:
                one(c, held, op)
                if op.get("faults"):
                    one(c, held, {a: b for a, b in op.items() if a != "faults"})
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]], preempt=plan.get("preempt"))
    return {"checks": k.checks, "nontrivial": k.checks > 0}
