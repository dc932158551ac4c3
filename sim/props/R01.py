"""R01: URNs and references as values which are changed, copied and sent to other processes."""
from sim.worlds import localread, values

META = {
    "runs": {"quick": 6000, "thorough": 150000},
    "rule": "one evaluation = one seeded history of 1-3 clients, possibly interrupting one another inside the library, which make, change, read, compare "
            "and copy URNs, references and reference sets, followed by a process which loads those that were stored; distinct = distinct event trace",
    "real": ["MyCapytain URNs, CTS and DTS references and reference sets"],
    "stub": ["thread scheduling", "processes (fresh shared graph)", "the disk (in memory, torn writes)"],
    "assumptions": ["a URN has no part below a missing one, and a reference only below a work", "words of references are made of letters and digits"],
    "must_probe": ["urn", "set", "unset", "fragment", "compared", "copied", "stored", "loaded", "torn", "ref", "range", "word", "refset", "dtsref", "typed", "preempted",
                   "contains", "index", "described"],
}


def generate(rng, tier, index):
    clients = []
    for c in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(4, 22)):
            kind = rng.choice(["urn", "urn", "set", "set", "set", "set", "read", "read", "compare", "copy", "ref", "ref", "refset", "dtsref", "dtsset", "store"])
            op = {"op": kind, "at": rng.randrange(1000), "k": rng.randrange(1000), "deep": rng.random() < 0.5}
            if kind == "urn":
                op.update(urn=values.gen_urn(rng), fragment=rng.random() < 0.15)
            elif kind == "set":
                part = rng.choice(values.PARTS)
                op.update(part=part, value=values.gen_part(rng, part), how=rng.choice(["str", "tuple", "ref"]))
                if part in ("work", "version", "reference", "textgroup") and rng.random() < 0.3:
                    op["value"] = None
            elif kind == "read":
                op["key"] = rng.choice(values.KEYS)
            elif kind == "ref":
                op.update(ref=values.gen_ref(rng), how=rng.choice(["str", "tuple", "pair", "parts"]))
            elif kind == "refset":
                op.update(refs=[values.gen_ref(rng, words=0.1) for _ in range(rng.randrange(0, 6))], level=rng.randrange(1, 4), name=rng.choice([None, "book"]))
            elif kind in ("dtsref", "dtsset"):
                op.update(refs=[[values.single_text(s) for s in values.gen_ref(rng, words=0)] + [rng.choice([None, "book", "poème"])]
                                for _ in range(1 if kind == "dtsref" else rng.randrange(0, 6))], level=rng.randrange(1, 4), name=rng.choice([None, "book"]), title=rng.choice([None, "Liber I", "1"]))
            elif kind == "store":
                op["torn"] = rng.random() if rng.random() < 0.2 else None
            ops.append(op)
        ops.insert(0, {"op": "urn", "urn": values.gen_urn(rng), "fragment": False, "at": 0, "k": 0, "deep": False})
        clients.append(ops)
    return {"clients": clients, "delays": [rng.randrange(1, 20) for _ in range(40)] if len(clients) > 1 else [],
            "preempt": localread.gen_preempt(rng, clients, rate=0.8, lines=1200)}


def execute(plan, sim):
    import copy
    import pickle
    from rdflib.namespace import DC
    from MyCapytain.common.metadata import Metadata
    from MyCapytain.common.constants import bind_graph, set_graph
    from MyCapytain.common.reference import (URN, BaseReference, BaseCitationSet, Citation, CtsReference, CtsReferenceSet, DtsCitation, DtsReference,
                                             DtsReferenceSet)
    k = values.Checker(sim)
    disk = []

    def make(op):
        """(kind, object, model)"""
        kind = op["op"]
        if kind == "urn":
            u = dict(op["urn"])
            text = values.upto(u, "COMPLETE")
            if op.get("fragment"):
                text += "#fragment"
                sim.probe["fragment"] += 1
            return "urn", k.attempt({"op": "urn"}, lambda: URN(text), "making a URN"), u
        if kind == "ref":
            o = k.attempt({"op": "ref"}, lambda: values.make_ref(op["ref"], op["how"]), "making a reference")
            sim.probe["range"] += len(op["ref"]) > 1
            sim.probe["word"] += any(s[1] for s in op["ref"])
            return "ref", o, op["ref"]
        if kind == "refset":
            refs = [CtsReference(values.ref_text(r)) for r in op["refs"]]
            cit = Citation(name=op["name"], refsDecl="/a[@n='$1']") if op["name"] else None
            if op["deep"] or len(refs) == 0:
                o = k.attempt({"op": "refset"}, lambda: CtsReferenceSet(refs, citation=cit, level=op["level"]), "making a set of references")
            else:
                o = k.attempt({"op": "refset"}, lambda: CtsReferenceSet(*refs, citation=cit, level=op["level"]), "making a set of references")
            return "refset", o, op
        if kind == "dtsref":
            if not op["title"]:
                return "dtsref", dts(op["refs"][0]), op["refs"][0]
            about = Metadata()
            about.add(DC.title, op["title"], lang="eng")
            o = dts(op["refs"][0], metadata=about)
            titled.append((o, op["title"]))
            sim.probe["described"] += 1
            return "dtsref", o, op["refs"][0]
        refs = [dts(r) for r in op["refs"]]
        cit = DtsCitation(name=op["name"]) if op["name"] else None
        return "dtsset", k.attempt({"op": "dtsset"}, lambda: DtsReferenceSet(*refs, citation=cit, level=op["level"]), "making a set of references"), op

    titled = []

    def dts(r, **kw):
        sim.probe["typed"] += r[-1] is not None
        return k.attempt({"op": "dtsref"}, lambda: DtsReference(*r[:-1], type_=r[-1], **kw), "making a reference")

    def check_dts(o, r):
        k.eq((o.start, o.end, bool(o.is_range())), (r[0], r[1] if len(r) > 2 else None, len(r) > 2), "the ends of a reference are not those it was given", ref=r)
        k.eq(None if o.type is None else str(o.type), r[-1], "the type of a reference is not the one it was given", ref=r)

    def check_set(o, op, refs, one):
        k.eq((len(o), o.level), (len(refs), op["level"]), "a set of references does not have the size and level it was given", kind=op["op"])
        k.eq(None if o.citation is None else o.citation.name, op["name"], "a set of references does not have the citation it was given", kind=op["op"])
        for x, r in zip(o, refs):
            one(x, r)

    def check(kind, o, m, key=None):
        sim.begin_op({"op": "check", "kind": kind})
        if kind == "urn":
            values.check_urn(k, o, m, key)
        elif kind == "ref":
            values.check_ref(k, o, m)
        elif kind == "dtsref":
            check_dts(o, m)
        elif kind == "refset":
            check_set(o, m, m["refs"], lambda x, r: values.check_ref(k, x, r))
            keys = [values.ref_key(r) for r in m["refs"]]
            for r in m["refs"]:
                t = values.ref_text(r)
                k.eq((t in o, CtsReference(t) in o), (True, True), "a set of references does not contain what it holds", ref=t)
                k.eq((o.index(t), o.index(CtsReference(t))), (keys.index(values.ref_key(r)),) * 2, "a reference is not found at its place", ref=t)
                sim.probe["index"] += 1
            for t in ("9.9", "9-10", values.ref_text(m["refs"][0]) + "9" if m["refs"] else "9"):
                if t not in [values.ref_text(r) for r in m["refs"]]:
                    k.eq(t in o, False, "a set of references contains what it does not hold", ref=t)
            sim.probe["contains"] += 1
        else:
            check_set(o, m, m["refs"], check_dts)
            for r in m["refs"]:
                k.eq(DtsReference(*r[:-1], type_=r[-1]) in o, True, "a set of references does not contain what it holds", ref=r)
                if len(r) == 2:
                    k.eq(r[0] in o, True, "a set of references does not contain what it holds", ref=r[0])
            for r in (["9.9", None], ["9", "10", "book"]):
                if r not in m["refs"]:
                    k.eq(DtsReference(*r[:-1], type_=r[-1]) in o, False, "a set of references contains what it does not hold", ref=r)
            k.eq("9.9" in o, False, "a set of references contains what it does not hold")

    def pure(m):
        """The comparable part of the model of a value."""
        if isinstance(m, list) and m and isinstance(m[0], str):
            return ("dts", m[0], m[1] if len(m) > 2 else None, m[-1])
        return values.ref_key(m)

    def compare(a, b):
        (ka, oa, ma), (kb, ob, mb) = a, b
        if ka == kb == "urn":
            values.same_urn(k, oa, ma, ob, mb)
        elif ka == kb == "ref":
            values.same_ref(k, oa, ma, ob, mb)
        elif ka == kb == "dtsref":
            same = pure(ma) == pure(mb)
            k.eq((oa == ob, oa != ob), (same, not same), "two references are not equal exactly when their parts are", a=ma, b=mb)
            if same:
                k.eq({oa: 1}.get(ob), 1, "equal references are not found for one another", a=ma)
        elif ka == kb == "dtsset":
            same = [pure(r) for r in ma["refs"]] == [pure(r) for r in mb["refs"]] and ma["level"] == mb["level"] and ma["name"] == mb["name"]
            k.eq((oa == ob, oa != ob), (same, not same), "two sets of references are not equal exactly when their parts are")
        elif ka == kb == "refset":
            same = [pure(r) for r in ma["refs"]] == [pure(r) for r in mb["refs"]]
            if same is False:
                k.eq((oa == ob, oa != ob), (False, True), "two sets of references are equal though their parts are not")
        else:
            k.eq(oa == None, False, "a value equals nothing at all")      # noqa
            k.eq(oa == 1, False, "a value equals something else")
            k.eq(oa != None, True, "a value equals nothing at all")      # noqa
            k.eq(bool(oa == ob), not (oa != ob), "a value both equals and differs from something else")
        sim.probe["compared"] += 1

    def body(ops):
        def run(c):
            mine = []
            for op in ops:
                kind = op["op"]
                urns = [x for x in mine if x[0] == "urn"]
                if kind in ("urn", "ref", "refset", "dtsref", "dtsset"):
                    mine.append(make(op))
                    check(*mine[-1])
                    sim.probe[kind] += 1
                elif kind == "set" and urns:
                    x = urns[op["at"] % len(urns)]
                    new = dict(x[2], **{op["part"]: op["value"]})
                    if not values.valid(new):
                        continue
                    v = op["value"]
                    if op["part"] == "reference" and v is not None:
                        v = {"str": values.ref_text, "tuple": values.ref_key, "ref": lambda r: CtsReference(values.ref_text(r))}[op["how"]](v)
                    if op["deep"]:
                        str(x[1])
                    k.attempt({"op": "set", "part": op["part"]}, lambda: setattr(x[1], op["part"], v), "changing a URN")
                    x[2].update(new)
                    sim.probe["set" if op["value"] is not None else "unset"] += 1
                    if op["k"] % 3:
                        check(*x)
                elif kind == "read" and urns:
                    x = urns[op["at"] % len(urns)]
                    check(x[0], x[1], x[2], op["key"])
                elif kind == "compare" and mine:
                    compare(mine[op["at"] % len(mine)], mine[op["k"] % len(mine)])
                elif kind == "copy" and mine:
                    x = mine[op["at"] % len(mine)]
                    do = copy.copy if not op["deep"] and x[0] != "urn" else copy.deepcopy
                    o = k.attempt({"op": "copy", "kind": x[0]}, lambda: do(x[1]), "copying a value")
                    y = (x[0], o, dict(x[2]) if x[0] == "urn" else x[2])
                    k.eq(type(o).__name__, type(x[1]).__name__, "a copy is of another kind")
                    check(*y)
                    compare(x, y)
                    if x[0] == "ref":
                        for s, w in zip(o, x[2]):
                            if s is not None and w[1]:
                                values.check_word(k, do(s.subreference), w[1])
                    mine.append(y)
                    sim.probe["copied"] += 1
                elif kind == "store" and mine:
                    x = mine[op["at"] % len(mine)]
                    data = k.attempt({"op": "store", "kind": x[0]}, lambda: pickle.dumps(x[1], protocol=2 + op["k"] % 4), "storing a value")
                    if op["torn"] is not None:
                        sim.fired("torn write")
                        data = data[:int(len(data) * op["torn"])]
                    disk.append((data, op["torn"] is not None, x[0], dict(x[2]) if isinstance(x[2], dict) else x[2]))
                    sim.probe["stored"] += 1
                    sim.pause()
            sim.pause()
            for x in mine:
                check(*x)
            for o, title in list(titled):
                got = o.metadata.get_single(DC.title)
                k.eq(None if got is None else str(got), title, "a reference lost what is said of it")
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run

    def later(c):
        set_graph(bind_graph())
        got = []
        for data, torn, kind, m in disk:
            if torn:
                k.refused({"op": "load"}, lambda: pickle.loads(data), "half a value is loaded")
                sim.probe["torn"] += 1
                continue
            o = k.attempt({"op": "load", "kind": kind}, lambda: pickle.loads(data), "loading a value")
            check(kind, o, m)
            if kind == "urn":
                compare((kind, o, m), (kind, URN(values.upto(m, "COMPLETE")), m))
            elif kind == "ref":
                compare((kind, o, m), (kind, CtsReference(values.ref_text(m)), m))
            got.append((kind, o, m))
            sim.probe["loaded"] += 1
        for a in got:
            compare(a, got[0])
            check(*a)
    sim.run_clients([body(ops) for ops in plan["clients"]], preempt=plan.get("preempt"))
    sim.run_clients([later])
    return {"checks": k.checks, "nontrivial": k.checks > 0}
