"""Shared pieces of the CTS checks: opening passages and comparing them with the library."""
from ..core import Violation
from . import library, simcts

FORMS = ["str", "cts", "urnstr", "urn", "list"]


def rand_ref(rng, text, ranges=0.3, whole=0.1):
    """A reference of the text: None, single or range."""
    if rng.random() < whole:
        return None
    ns = library.nodes(text)
    p, _ = rng.choice(ns)
    if rng.random() < ranges:
        same = [".".join(q) for q, _ in ns if len(q) == len(p)]
        i = rng.randrange(len(same))
        j = rng.randrange(i, len(same))
        return "%s-%s" % (same[i], same[j])
    return ".".join(p)


def form(tid, ref, how):
    from MyCapytain.common.reference import CtsReference, URN
    if ref is None:
        return None
    if how == "cts":
        return CtsReference(ref)
    if how == "urnstr":
        return "%s:%s" % (tid, ref)
    if how == "urn":
        return URN("%s:%s" % (tid, ref))
    if how == "list" and "-" not in ref:
        return ref.split(".")
    return ref


class Held(object):
    def __init__(self, obj, tid, ref, plus=False):
        self.obj, self.tid, self.ref, self.plus = obj, tid, ref, plus


class Checker(object):
    def __init__(self, sim, world):
        self.sim, self.w, self.lib = sim, world, world["lib"]
        self.checks = 0

    def eq(self, got, want, what, **d):
        self.checks += 1
        if got != want:
            raise Violation(what, got=got, expected=want, **d)

    def attempt(self, c, op, fn, what):
        """Run one operation: it may fail only if a disruptive fault hit it."""
        self.sim.begin_op(op)
        out = self.sim.call(fn)
        if not out.ok:
            self.checks += 1
            if not c.op_faults:
                raise Violation("%s failed although nothing went wrong on the network" % what,
                                op={k: v for k, v in op.items() if k != "faults"}, error=out.describe())
            self.sim.probe["failed_by_fault"] += 1
        return out

    def text(self, tid):
        return library.find_text(self.lib, tid)[2]

    def refused(self, op, fn, what):
        self.sim.begin_op(op)
        out = self.sim.call(fn)
        self.checks += 1
        if out.ok:
            raise Violation(what, got=str(out.value), op=op)
        self.sim.probe["refused"] += 1

    def passage(self, h, full=True):
        """The passage is the one of the library."""
        from MyCapytain.common.constants import Mimetypes
        t = self.text(h.tid)
        where = {"id": h.tid, "ref": h.ref}
        self.eq(h.obj.export(Mimetypes.PLAINTEXT).split(), library.words(t, h.ref), "the text of a passage is not the published one", **where)
        self.eq(str(h.obj.urn), h.tid + (":" + h.ref if h.ref else ""), "a passage has the wrong URN", **where)
        if h.ref:
            self.eq((h.obj.id, str(h.obj.reference)), (h.ref, h.ref), "a passage has the wrong identifier", **where)
            self.eq(h.obj.depth, len(library.split_ref(h.ref)[0]), "a passage has the wrong depth", **where)
            self.sim.probe["range_passage"] += "-" in h.ref
        else:
            self.sim.probe["whole_text"] += 1
        if full:
            want = library.elements("<TEI xmlns=\"%s\">%s</TEI>" % (library.TEI, library.body_xml(t, h.ref)))
            self.eq(library.elements(h.obj.export(Mimetypes.XML.TEI)), want, "the XML of a passage is not the published one", **where)
            self.eq(library.elements(str(h.obj)), want, "the XML of a passage is not the published one", **where)
            self.eq(h.obj.text, h.obj.export(Mimetypes.PLAINTEXT), "the text of a passage is not what it exports", **where)
            skip = ["note", "head"] if len(want) % 2 else ["hi"]
            self.eq(h.obj.export(Mimetypes.PLAINTEXT, exclude=["tei:" + x for x in skip]).split(), library.words(t, h.ref, skip),
                    "the text of a passage without some elements is not right", skip=skip, **where)
            self.sim.probe["excluded"] += library.words(t, h.ref) != library.words(t, h.ref, skip)

    def citation(self, cit, t, where):
        got = [(x.name, x.refsDecl) for x in cit]
        want = []
        for i, l in enumerate(t["levels"]):
            s, x = library.scope_xpath(t, i, quote="'")
            want.append((l["name"], s + x))
        self.eq(got, want, "the citation scheme of a text is not the published one", **where)

    def described(self, obj, h, getters=True):
        """The description carried by a text or passage is the published one, in every language."""
        from MyCapytain.common.constants import RDF_NAMESPACES
        g, w, t = library.find_text(self.lib, h.tid)
        where = {"id": h.tid, "ref": h.ref}
        for prop, pairs, get in (("groupname", g["names"], "get_creator"), ("title", w["titles"], "get_title"),
                                 ("label", t["labels"], "get_subject"), ("description", t["descs"], "get_description")):
            got = sorted(((x.language or "").lower(), str(x)) for x in obj.metadata.get(RDF_NAMESPACES.CTS.term(prop)))
            self.eq(got, sorted((l.lower(), v) for l, v in pairs), "the %s of a passage is not the published one" % prop, **where)
            for l, v in pairs:
                got = getattr(obj, get)(lang=l) if getters else obj.get_cts_metadata(prop, l)
                self.eq(got is not None and str(got), v, "the %s of a passage in one language is not the published one" % prop,
                        lang=l, **where)
            if len(pairs) > 1:
                self.sim.probe["several_languages"] += 1
