"""Random readers of a lazily crawled DTS catalogue, against the published world."""
from ..core import Violation
from . import simdts

CHILD_READS = ["list", "iter", "keys", "values", "items", "len", "get", "get_missing", "in", "members", "contains",
               "contains_missing", "getitem", "held", "reread", "nested"]
PARENT_READS = ["list", "iter", "len", "held", "reread", "nested", "copy"]


def gen_ops(rng, n, world, evolve=True):
    ops = [{"op": "open", "id": world["root"]}]
    ids = world["ids"]
    for _ in range(n):
        r = rng.random()
        if r < 0.12:
            ops.append({"op": "open", "id": rng.choice(ids)})
        elif r < 0.15 and evolve:
            ops.append({"op": "evolve", "how": rng.choice(["add", "add", "remove", "empty", "refill"]), "k": rng.randrange(50)})
            ops.append({"op": "open", "id": rng.choice(ids[:3])})
        elif r < 0.50:
            ops.append({"op": "children", "h": rng.randrange(50), "how": rng.choice(CHILD_READS), "k": rng.randrange(50)})
        elif r < 0.68:
            ops.append({"op": "parents", "h": rng.randrange(50), "how": rng.choice(PARENT_READS)})
        elif r < 0.80:
            ops.append({"op": "down", "h": rng.randrange(50), "k": rng.randrange(50)})
        elif r < 0.86:
            ops.append({"op": "up", "h": rng.randrange(50), "k": rng.randrange(50)})
        elif r < 0.91:
            ops.append({"op": "retrieve", "h": rng.randrange(50)})
        elif r < 0.96:
            ops.append({"op": "size", "h": rng.randrange(50)})
        else:
            ops.append({"op": "descendants", "h": rng.randrange(50), "how": rng.choice(["descendants", "readable"])})
    return ops


def descendants(world, c, out=None):
    out = set() if out is None else out
    for x in world["coll"][c]["children"]:
        if x not in out:
            out.add(x)
            descendants(world, x, out)
    return out


def paths(world, c, limit):
    """How many collections are met when everything below one is walked through, each as often as there are ways to it."""
    n = 0
    todo = [c]
    while todo and n <= limit:
        n += 1
        todo.extend(world["coll"][todo.pop()]["children"])
    return n


class Handle(object):
    def __init__(self, obj, cid, summary=False):
        self.obj, self.id = obj, cid
        self.held = {}
        self.complete = set()
        self.summary = summary      # known only from a summary in somebody else's member list
        self.retrieved = not summary


class Reader(object):
    """Executes the operations of one client; `strict` = no fault is planned anywhere in the run."""

    def __init__(self, sim, world, server, resolver, faulty):
        self.sim, self.w, self.server, self.resolver, self.faulty = sim, world, server, resolver, faulty
        self.handles = []
        self.checks = 0
        self.failed_reads = 0

    def new_handle(self, obj, cid, summary=False):
        if len(self.handles) < 24:
            self.handles.append(Handle(obj, cid, summary))

    def expected(self, cid, nav):
        return self.w["coll"][cid]["children" if nav == "children" else "parents"]

    def fail(self, what, **d):
        raise Violation(what, **d)

    def eq(self, got, want, what, **d):
        self.checks += 1
        if got != want:
            self.fail(what, got=got, expected=want, **d)

    def call(self, op, fn):
        """An operation may fail only if a disruptive fault hit it; otherwise failing is itself a violation."""
        c = self.sim.current
        self.sim.begin_op(op)
        out = self.sim.call(fn)
        if not out.ok and not c.op_faults:
            self.fail("an operation failed although nothing went wrong on the network", op=op, error=out.describe())
        if not out.ok:
            self.failed_reads += 1
            self.sim.probe["operation_failed_by_fault"] += 1
        return out

    def run(self, op):
        kind = op["op"]
        if kind == "open":
            out = self.call(op, lambda: self.resolver.getMetadata(op["id"]))
            if out.ok:
                self.eq(out.value.id, op["id"], "a collection opened by identifier has another identifier")
                self.new_handle(out.value, op["id"])
            return
        if kind == "evolve":
            self.evolve(op)
            return
        if not self.handles:
            return
        h = self.handles[op["h"] % len(self.handles)]
        if kind == "descendants" or op.get("how") in ("contains", "contains_missing", "getitem"):
            # the library walks through the whole tree: what it may ask for depends on the size of that tree
            n = paths(self.w, h.id, 1000)
            if n > 1000:
                return
            op = dict(op, io_more=4 * n)
        if kind == "children":
            self.read_children(h, op)
        elif kind == "parents":
            self.read_parents(h, op)
        elif kind == "down":
            kids = self.expected(h.id, "children")
            if kids:
                cid = kids[op["k"] % len(kids)]
                out = self.call(op, lambda: h.obj.children[cid])
                if out.ok:
                    self.eq(out.value.id, cid, "a member fetched by identifier is another one", of=h.id)
                    self.new_handle(out.value, cid, summary=True)
        elif kind == "up":
            out = self.call(op, lambda: sorted(list(h.obj.parents), key=lambda p: p.id))
            if out.ok:
                self.parents_equal(h, [p.id for p in out.value], op)
                if out.value:
                    p = out.value[op["k"] % len(out.value)]
                    self.new_handle(p, p.id, summary=True)
        elif kind == "retrieve":
            out = self.call(op, lambda: h.obj.retrieve())
            if out.ok:
                self.checks += 1
                if h.retrieved and self.sim.current.io_index:
                    self.fail("metadata that was completely retrieved is requested again", of=h.id)
                h.retrieved = True
        elif kind == "size":
            out = self.call(op, lambda: h.obj.size)
            self.eq(out.value, len(self.expected(h.id, "children")), "the published member count is wrong", of=h.id)
        elif kind == "descendants":
            want = descendants(self.w, h.id)
            if op["how"] == "readable":
                want = {c for c in want if self.w["coll"][c]["type"] == "Resource"}
                out = self.call(op, lambda: [c.id for c in h.obj.readableDescendants])
            else:
                out = self.call(op, lambda: [c.id for c in h.obj.descendants])
            if out.ok:
                self.sim.probe["descendants"] += 1
                self.eq(sorted(set(out.value)), sorted(want), "the descendants of a collection are not the published ones",
                        of=h.id, how=op["how"])

    def evolve(self, op):
        """The publisher edits the catalogue; what was read before is not looked at any more."""
        self.handles = []
        cols, ids = self.w["coll"], self.w["ids"]
        c = ids[op["k"] % min(len(ids), 3)]
        kids = cols[c]["children"]
        if op["how"] in ("add", "refill"):
            if cols[c]["type"] == "Resource":
                return
            for i in range(1 if op["how"] == "add" else 4):
                new = "urn:x:new-%d" % len(ids)
                ids.append(new)
                cols[new] = {"title": "New %d" % len(ids), "children": [], "parents": [c], "type": "Resource"}
                kids.append(new)
        elif kids:
            gone = kids[:] if op["how"] == "empty" else [kids[op["k"] % len(kids)]]
            for g in gone:
                kids.remove(g)
                cols[g]["parents"].remove(c)
        self.sim.probe["catalogue_changed"] += 1

    # -- members ----------------------------------------------------------------
    def read_children(self, h, op):
        how, kids = op["how"], self.expected(h.id, "children")
        was_complete = "children" in h.complete
        obj = h.obj
        complete = True            # does a successful read imply that everything was crawled?
        pairs = []

        def view():
            return obj.children
        if how == "held":
            view = lambda: h.held.setdefault("children", obj.children)      # noqa
        if how in ("list", "iter", "reread", "held"):
            fn = lambda: list(iter(view()))                                  # noqa
        elif how == "keys":
            fn = lambda: list(view().keys())                                 # noqa
        elif how == "values":
            fn = lambda: [c.id for c in view().values()]                     # noqa
        elif how == "items":
            fn = lambda: pairs.extend((k, v.id) for k, v in view().items()) or [k for k, _ in pairs]    # noqa
        elif how == "members":
            fn = lambda: [c.id for c in obj.members]                         # noqa
        elif how == "nested":
            # a listing taken while another one is being consumed
            def fn():
                out = []
                for k in view():
                    out.append(k)
                    inner = list(view())
                    if sorted(inner) != sorted(kids):
                        return inner
                return out
        elif how == "len":
            fn = lambda: len(view())                                         # noqa
        elif how in ("get", "in", "contains", "getitem"):
            if not kids:
                return
            cid = kids[op["k"] % len(kids)]
            complete = False
            fn = {"get": lambda: view()[cid].id, "in": lambda: cid in view(), "getitem": lambda: obj[cid].id,
                  "contains": lambda: cid in obj}[how]
        elif how == "get_missing":
            def fn():
                try:
                    return view()["urn:not:published"].id
                except KeyError:
                    return None
        elif how == "contains_missing":
            fn = lambda: "urn:not:published" in obj                          # noqa
            complete = False
        out = self.call(op, fn)
        used = self.sim.current.io_index
        if not out.ok:
            return
        v = out.value
        if how == "len":
            self.eq(v, len(kids), "the number of members is not the published one", of=h.id)
        elif how in ("get", "getitem"):
            self.eq(v, cid, "a member fetched by identifier is another one", of=h.id)
        elif how in ("in", "contains"):
            self.eq(v, True, "a published member is reported as absent", of=h.id, member=cid)
        elif how == "get_missing":
            self.eq(v, None, "a member that was never published was found", of=h.id)
        elif how == "contains_missing":
            self.eq(v, False, "a collection that was never published is reported as present", of=h.id)
        else:
            if sorted(v) != sorted(kids):
                self.fail("the members read are not exactly the published ones", of=h.id, how=how, got=v, expected=kids)
            self.eq(v, kids, "the members do not come in the published order", of=h.id, how=how)
            if how == "items":
                self.eq([b for _, b in pairs], kids, "identifiers and members do not match", of=h.id)
            if len(kids) > self.w["psize"]:
                self.sim.probe["multi_page_children"] += 1
        if was_complete and how not in ("contains", "contains_missing", "getitem"):
            self.checks += 1
            if used:
                self.fail("members that were completely read are requested again", of=h.id, how=how, requests=used)
            self.sim.probe["reread_without_requests"] += 1
        if complete:
            h.complete.add("children")

    # -- parents --------------------------------------------------------------------
    def parents_equal(self, h, got, op):
        want = self.expected(h.id, "parents")
        self.checks += 1
        if sorted(got) != sorted(want):
            self.fail("the parents read are not exactly the published ones", of=h.id, how=op.get("how"), got=sorted(got),
                      expected=sorted(want))
        if len(want) > self.w["ppsize"]:
            self.sim.probe["multi_page_parents"] += 1

    def read_parents(self, h, op):
        how = op["how"]
        was_complete = "parents" in h.complete
        obj = h.obj

        def view():
            return obj.parents
        if how == "held":
            view = lambda: h.held.setdefault("parents", obj.parents)         # noqa
        if how == "len":
            fn = lambda: len(view())                                         # noqa
        elif how == "copy":
            fn = lambda: [p.id for p in view().copy()]                       # noqa
        elif how == "nested":
            def fn():
                out = []
                for p in view():
                    out.append(p.id)
                    inner = [q.id for q in view()]
                    if sorted(inner) != sorted(self.expected(h.id, "parents")):
                        return inner
                return out
        else:
            fn = lambda: [p.id for p in view()]                              # noqa
        out = self.call(op, fn)
        used = self.sim.current.io_index
        if not out.ok:
            return
        if how == "len":
            self.eq(out.value, len(self.expected(h.id, "parents")), "the number of parents is not the published one", of=h.id)
        else:
            self.parents_equal(h, out.value, op)
        if was_complete:
            self.checks += 1
            if used:
                self.fail("parents that were completely read are requested again", of=h.id, how=how, requests=used)
            self.sim.probe["reread_without_requests"] += 1
        h.complete.add("parents")
