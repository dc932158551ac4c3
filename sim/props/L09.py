"""L09: what is wrong with the numbering of local texts."""
import io
import warnings

from sim.core import Violation
from sim.worlds import library, localread, numbering, simrepo
from sim.worlds.localread import form

META = {
    "runs": {"quick": 4000, "thorough": 100000},
    "rule": "one evaluation = one seeded run of 1-3 clients checking the numbering of texts, possibly interrupting one another inside the "
            "library, while another client spoils and mends the numbering in the files and disk faults strike; distinct = distinct event trace",
    "real": ["MyCapytain local resolver, texts, citations, references, errors", "lxml", "Python's warnings"],
    "stub": ["file opens (real scratch files, faults and locale)", "thread scheduling", "where warnings are shown"],
    "assumptions": ["files are replaced, not overwritten in place", "the levels above the one checked are numbered well"],
    "must_probe": ["clean", "duplicates", "empties", "both", "several", "unnumbered", "below", "strict", "strict_raised", "silent", "mended",
                   "changed_during_read", "failed_by_fault", "scope", "undeclared", "scope_ok", "shared_text", "preempted", "deep", "too_deep"],
}


def generate(rng, tier, index):
    world = simrepo.gen_world(rng, repos=1, groups=1, works=2, texts=2, sm=False, small=rng.random() < 0.5)
    texts = localread.texts_of(world)
    for t in texts:
        t["attrs"] = t["attrs"] and [a.replace("xml:id", "key") for a in t["attrs"]]     # two passages of one @xml:id are no XML
    versions = {t["urn"]: [dict(numbering.spoil(rng, t), enc=rng.choice(simrepo.ENCODINGS)) for _ in range(rng.choice([1, 2, 3]))] for t in texts}
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(3, 10)):
            t = rng.choice(texts)
            v = rng.choice(versions[t["urn"]])
            level = rng.choice([1, 1, 2, 2, 3])
            op = {"op": rng.choice(["check", "check", "check", "check", "test", "hold", "list"]), "id": t["urn"], "level": level, "ref": None,
                  "as": rng.choice(["resolver", "text"]), "strict": rng.random() < 0.2, "v": rng.randrange(3), "share": rng.random() < 0.4}
            if rng.random() < 0.35:
                ps = [p for l in range(1, library.depth(t)) for p in numbering.found(v, l) or [] if "" not in p]
                if ps:
                    op["ref"] = ".".join(rng.choice(ps))
            ops.append(localread.disk_faults(rng, op, 1, 0.08))
        clients.append(ops)
    ops = []
    for _ in range(rng.randrange(1, 8)):
        t = rng.choice(texts)
        ops.append({"op": rng.choice(["spoil", "spoil", "spoil", "mend"]), "id": t["urn"], "v": rng.randrange(3), "wait": rng.randrange(1, 40), "write": True})
    clients.append(ops)
    return {"world": world, "versions": versions, "clients": clients, "delays": [rng.randrange(1, 30) for _ in range(80)],
            "preempt": localread.gen_preempt(rng, clients)}


def execute(plan, sim):
    from MyCapytain.common.reference import CtsReference
    from MyCapytain.errors import CitationDepthError, DuplicateReference, EmptyReference, MissingRefsDecl, RefsDeclError
    from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
    world, versions = plan["world"], plan["versions"]
    k = localread.Checker(sim, world)
    fs, resolver = simrepo.start(sim, world)
    path = {t["urn"]: simrepo.paths(world, t)[0] for t in localread.texts_of(world)}
    states = {t["urn"]: [t] for t in localread.texts_of(world)}
    shared = {}
    said = {}                       # client: what was said during its operation
    strict = {}

    def show(message, category, *a, **kw):
        if not issubclass(category, (DuplicateReference, EmptyReference)):
            return
        c = sim.current
        if strict.get(c):
            raise message
        said.setdefault(c, []).append(message)

    def report(messages):
        """(references found several times, number of empty ones) as said"""
        dup, empty = set(), 0
        for m in messages:
            if isinstance(m, DuplicateReference):
                dup |= {x.strip() for x in str(m).split(",")}
            else:
                empty += int(str(m).split()[0])
        return dup, empty

    def write(op):
        u = op["id"]
        vs = versions[u]
        new = k.text(u) if op["op"] == "mend" else vs[op["v"] % len(vs)]
        fs.write(path[u], simrepo.encode(numbering.xml(new), new.get("enc", world["enc"].get(u))))
        sim.probe["mended"] += op["op"] == "mend" and len(states[u]) > 1
        states[u].append(new)
        sim.log("disk", what=op["op"], id=u)

    def expected(t, op):
        """What is to come: an error, or (complete references in order, duplicates, empty ones); None when left open"""
        if t.get("undeclared"):
            return MissingRefsDecl
        level = op["level"]
        deep = len(op["ref"].split(".")) if op["ref"] else 0
        level = max(level, deep + 1)
        if level > library.depth(t):
            return CitationDepthError
        if t.get("scope"):
            return KeyError
        ps = numbering.found(t, level, op["ref"])
        if ps is None:
            return None
        if not ps:
            return KeyError
        dup, empty = numbering.faults(ps)
        return [".".join(p) for p in ps if p[-1] != ""], dup, empty

    def open_text(op, t=None):
        if op["op"] == "hold":
            # a text which is in no file
            return CapitainsCtsText(urn=op["id"], resource=io.BytesIO(numbering.xml(t).encode("utf-8")) if op["v"] % 2 else numbering.xml(dict(t, decl="none")))
        if op["as"] == "resolver":
            return resolver.getTextualNode(op["id"])
        with open(path[op["id"]], "rb") as f:
            return CapitainsCtsText(urn=op["id"], resource=f)

    def ask(c, op, text):
        debug = op["op"] != "list"
        ref = CtsReference(op["ref"]) if op["ref"] else None
        said[c] = []
        strict[c] = op["strict"]
        try:
            got = text.getValidReff(level=op["level"], reference=ref, _debug=True) if debug else text.getValidReff(level=op["level"], reference=ref)
        finally:
            strict[c] = False
        return got

    def one(c, op):
        u = op["id"]
        shown = {a: b for a, b in op.items() if a != "faults"}
        sim.begin_op(op)
        before = len(states[u]) - 1
        v = versions[u][op["v"] % len(versions[u])]
        key = (u, op["v"] % len(versions[u]))
        if op["op"] == "hold" and op["share"] and key in shared:
            out = shared[key]
            sim.probe["shared_text"] += 1
        else:
            out = sim.call(lambda: open_text(op, v))
            if op["op"] == "hold" and op["share"] and out.ok:
                shared[key] = out
        seen = states[u][before:] if op["op"] != "hold" else [v]
        sim.probe["changed_during_read"] += len(seen) > 1
        k.checks += 1
        if not out.ok:
            sim.probe["undeclared"] += isinstance(out.exc, MissingRefsDecl)
            if c.op_faults:
                sim.probe["failed_by_fault"] += 1
            elif not (isinstance(out.exc, MissingRefsDecl) and any(t.get("undeclared") for t in seen)):
                raise Violation("a text cannot be opened to be checked", op=shown, error=out.describe())
            return
        if all(t.get("undeclared") for t in seen):
            raise Violation("a text which declares no citation scheme is opened as if it had", op=shown)
        seen = [t for t in seen if not t.get("undeclared")]
        text = out.value
        sim.begin_op(shown)
        if op["op"] == "test":
            out = sim.call(lambda: text.textObject.test())
            k.checks += 1
            broken = [bool(t.get("scope")) for t in seen]
            if out.ok and all(broken):
                raise Violation("a citation scheme which finds nothing passes its test", op=shown)
            if not out.ok and (not any(broken) or not isinstance(out.exc, RefsDeclError)):
                raise Violation("a citation scheme does not pass its test", op=shown, error=out.describe())
            sim.probe["scope" if not out.ok else "scope_ok"] += 1
            return
        wants = [expected(t, op) for t in seen]
        out = sim.call(lambda: ask(c, op, text))
        if None in wants:
            return
        heard = report(said[c])
        raised = None
        if not out.ok and op["strict"] and isinstance(out.exc, (DuplicateReference, EmptyReference)):
            raised = report([out.exc])
        k.checks += 1
        for want in wants:
            if isinstance(want, type):
                if not out.ok and isinstance(out.exc, want) and not said[c]:
                    sim.probe["too_deep"] += want is CitationDepthError
                    return
                continue
            refs, dup, empty = want
            if raised is not None:
                # the first thing said was made an error
                if op["op"] != "list" and raised == ((dup, 0) if dup else (set(), empty)):
                    sim.probe["strict_raised"] += 1
                    return
                continue
            if not out.ok:
                continue
            if op["strict"] and op["op"] != "list" and (dup or empty):
                continue
            got = [str(x) for x in out.value if x is not None and str(x) and not str(x).endswith(".")]
            if got != refs or len(out.value) != len(refs) + empty:
                continue
            if op["op"] == "list":
                if not said[c]:
                    sim.probe["silent"] += bool(dup or empty)
                    return
                continue
            if heard != (dup, empty):
                continue
            sim.probe["clean" if not dup and not empty else ("both" if dup and empty else ("duplicates" if dup else "empties"))] += 1
            sim.probe["several"] += len(dup) > 1 or empty > 1
            sim.probe["strict"] += op["strict"]
            sim.probe["below"] += op["ref"] is not None
            sim.probe["deep"] += op["level"] > 1
            sim.probe["unnumbered"] += any(it["n"] is None for t in seen for ls in numbering.levels_of(t) for ns in ls for it in ns)
            return
        raise Violation("checking the numbering of a text does not say what is wrong with it", op=shown,
                        found=out.describe() if not out.ok else [str(x) for x in out.value], duplicates=sorted(heard[0]), empty=heard[1],
                        expected=[w.__name__ if isinstance(w, type) else [w[0], sorted(w[1]), w[2]] for w in wants])

    def checker(ops):
        def run(c):
            for op in ops:
                sim.pause()
                one(c, op)
                if op.get("faults"):
                    one(c, {a: b for a, b in op.items() if a != "faults"})
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run

    def writer(ops):
        def run(c):
            for op in ops:
                sim.begin_op(op)
                sim.pause(op["wait"] / 1000.0)
                write(op)
        return run
    was = warnings.showwarning, warnings.filters[:]
    warnings.simplefilter("always")
    warnings.showwarning = show
    try:
        sim.run_clients([writer(ops) if ops and ops[0].get("write") else checker(ops) for ops in plan["clients"]], preempt=plan.get("preempt"))
    finally:
        warnings.showwarning = was[0]
        warnings.filters[:] = was[1]
        warnings._filters_mutated()
    return {"checks": k.checks, "nontrivial": k.checks > 0}
