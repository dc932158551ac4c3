"""L03: what is read from a local repository is what is on the disk now."""
from sim.core import Violation
from sim.worlds import library, localread, simrepo
from sim.worlds.localread import rand_ref

META = {
    "runs": {"quick": 5000, "thorough": 125000},
    "rule": "one evaluation = one seeded run of 1-3 readers sharing one resolver while another client replaces, deletes, damages and "
            "restores text files and disk faults strike; every answer must be the one of a state the disk was in during the call; "
            "distinct = distinct event trace",
    "real": ["MyCapytain local resolver, texts and passages", "lxml"],
    "stub": ["file opens and directory listings (real scratch files, simulated order, faults and locale)", "clock"],
    "assumptions": ["files are replaced, not overwritten in place"],
    "must_probe": ["replaced", "deleted", "damaged", "changed_during_read", "failed_by_fault", "failed_by_state", "held_unchanged",
                   "reffs", "siblings", "passage", "whole", "new_version_read", "metadata", "absent_ref"],
}


def generate(rng, tier, index):
    world = simrepo.gen_world(rng, repos=1, groups=1, works=2, texts=2, small=True, sm=False)
    texts = localread.texts_of(world)
    versions = {}
    for i, t in enumerate(texts):
        vs = []
        for j in range(rng.choice([1, 2, 3])):
            new = dict(t, enc=rng.choice(simrepo.ENCODINGS))
            new.update(library.gen_content(rng, "v%d_%d_" % (i, j), small=True))
            vs.append(new)
        versions[t["urn"]] = vs
    clients = []
    for _ in range(rng.choice([1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(3, 10)):
            t = rng.choice(texts)
            v = rng.choice([t] + versions[t["urn"]])
            op = {"op": rng.choice(["passage", "passage", "whole", "reffs", "siblings"]), "id": t["urn"],
                  "ref": rand_ref(rng, v, ranges=0.25, whole=0), "level": rng.choice([1, 1, 2, 3]), "metadata": rng.random() < 0.3,
                  "sub": rng.random() < 0.4}
            ops.append(localread.disk_faults(rng, op, 2, 0.15))
        clients.append(ops)
    ops = []
    for _ in range(rng.randrange(1, 10)):
        t = rng.choice(texts)
        ops.append({"op": rng.choice(["replace", "replace", "replace", "delete", "damage", "original"]), "id": t["urn"],
                    "v": rng.randrange(3), "x": rng.random(), "wait": rng.randrange(1, 60), "write": True})
    clients.append(ops)
    return {"world": world, "versions": versions, "clients": clients, "delays": [rng.randrange(1, 30) for _ in range(120)]}


def execute(plan, sim):
    world = plan["world"]
    k = localread.Checker(sim, world)
    fs, resolver = simrepo.start(sim, world)
    paths = {t["urn"]: simrepo.paths(world, t)[0] for t in localread.texts_of(world)}
    # every state a file has been in: a content (dict) or None when nothing can be read
    states = {t["urn"]: [t] for t in localread.texts_of(world)}
    checks = k

    def write(op):
        u = op["id"]
        t = k.text(u)
        if op["op"] == "delete":
            fs.remove(paths[u])
            states[u].append(None)
            sim.probe["deleted"] += 1
        elif op["op"] == "damage":
            data = library.tei_xml(t).encode("utf-8").rstrip()
            fs.write(paths[u], data[:1 + int((len(data) - 3) * op["x"])])
            states[u].append(None)
            sim.probe["damaged"] += 1
        else:
            vs = plan["versions"][u]
            new = t if op["op"] == "original" else vs[op["v"] % len(vs)]
            fs.write(paths[u], simrepo.encode(library.tei_xml(new), new.get("enc", world["enc"].get(u))))
            states[u].append(new)
            sim.probe["replaced"] += 1
        sim.log("disk", what=op["op"], id=u)

    def answer(op, t):
        """What an operation must give on a content (ValueError when it must fail)."""
        if t is None:
            raise ValueError
        ref = op["ref"]
        if op["op"] == "whole":
            return library.header_words(t) + library.words(t)
        if op["op"] == "reffs":
            sub = op["sub"] and "-" not in ref
            if sub and not library.exists(t, ref):
                raise ValueError
            deep = len(ref.split(".")) if sub else 0
            level = max(op["level"], deep + 1)
            out = library.under(t, ref, level) if sub else library.reffs(t, level)
            if level > library.depth(t) or not out:
                raise ValueError
            return out
        if not library.exists(t, ref):
            raise ValueError
        order = [".".join(p) for p, _ in library.nodes(t)]
        if order.index(ref.split("-")[0]) > order.index(ref.split("-")[-1]):
            raise KeyError              # a range which is reversed in this version: anything goes
        if op["op"] == "passage":
            return [library.words(t, ref), t["urn"] + ":" + ref]
        return list(library.siblings(t, ref))

    def invoke(op):
        if op["op"] == "whole":
            return resolver.getTextualNode(op["id"], metadata=op["metadata"])
        if op["op"] == "passage":
            return resolver.getTextualNode(op["id"], op["ref"], metadata=op["metadata"])
        if op["op"] == "reffs":
            if op["sub"] and "-" not in op["ref"]:
                return resolver.getReffs(op["id"], level=op["level"], subreference=op["ref"])
            return resolver.getReffs(op["id"], level=op["level"])
        return resolver.getSiblings(op["id"], op["ref"])

    def result(op, v):
        if op["op"] == "whole":
            return v.export("text/plain").split()
        if op["op"] == "passage":
            return [v.export("text/plain").split(), str(v.urn)]
        if op["op"] == "reffs":
            return [str(x) for x in v]
        return [None if x is None or not str(x) else str(x) for x in v]

    def read(c, held, op):
        u = op["id"]
        sim.begin_op(op)
        before = len(states[u]) - 1
        out = sim.call(lambda: invoke(op))
        seen = states[u][before:]
        got = result(op, out.value) if out.ok else None
        allowed, may_fail = [], bool(c.op_faults)
        for t in seen:
            try:
                allowed.append(answer(op, t))
            except KeyError:
                return
            except ValueError:
                may_fail = True
        k.checks += 1
        shown = {a: b for a, b in op.items() if a != "faults"}
        if out.ok and got not in allowed:
            raise Violation("what is read is not what the file holds", op=shown, got=got, expected=allowed, states=len(seen))
        if not out.ok and not may_fail:
            raise Violation("a text which is on the disk cannot be read", op=shown, error=out.describe())
        sim.probe["changed_during_read"] += len(seen) > 1
        if out.ok:
            sim.probe[op["op"]] += 1
            sim.probe["new_version_read"] += before > 0
            if op["op"] in ("passage", "whole"):
                held.append((op, out.value, got))
                if op["metadata"]:
                    k.described(out.value, localread.ctsread.Held(out.value, u, None), getters=False)
                    sim.probe["metadata"] += 1
        else:
            sim.probe["failed_by_fault"] += bool(c.op_faults)
            sim.probe["failed_by_state"] += not c.op_faults
            sim.probe["absent_ref"] += not c.op_faults and None not in seen

    def reader(ops):
        def run(c):
            held = []
            for op in ops:
                sim.pause()
                read(c, held, op)
                if op.get("faults"):
                    read(c, held, {a: b for a, b in op.items() if a != "faults"})
            sim.begin_op({"op": "end"})
            for op, v, was in held:
                k.eq(result(op, v), was, "a passage already read changes", op=op["ref"], id=op["id"])
                sim.probe["held_unchanged"] += len(states[op["id"]]) > 1
        return run

    def writer(ops):
        def run(c):
            for op in ops:
                sim.begin_op(op)
                sim.pause(op["wait"] / 1000.0)
                write(op)
        return run
    sim.run_clients([writer(ops) if ops and ops[0].get("write") else reader(ops) for ops in plan["clients"]])
    # afterwards, everything is as the disk says
    for u in sorted(states):
        for op in ({"op": "whole", "id": u, "ref": None, "metadata": False, "sub": False, "level": 1},
                   {"op": "reffs", "id": u, "ref": None, "metadata": False, "sub": False, "level": 1}):
            out = sim.call(lambda: invoke(op))
            t = states[u][-1]
            if t is None:
                k.eq(out.ok, False, "a text which is not on the disk is read", id=u)
            else:
                k.eq(out.ok and result(op, out.value), answer(op, t), "in the end, what is read is not what is on the disk", id=u,
                     error=None if out.ok else out.describe())
    return {"checks": checks.checks, "nontrivial": checks.checks > 0}
