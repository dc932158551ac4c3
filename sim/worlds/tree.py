"""Catalogues built by hand: real collections next to a small model of what they must hold."""
from ..core import Violation

CTS = "http://chs.harvard.edu/xmlns/cts/"
LABEL = {"tg": "groupname", "work": "title", "edition": "label", "translation": "label", "commentary": "label"}
BELOW = {"tic": "ti", "ti": "tg", "tg": "work", "work": "text", "plain": "plain"}      # or "resource"
TEXTS = ["edition", "translation", "commentary"]
WITH_URN = ["tg", "work"] + TEXTS
DTS = "https://w3id.org/dts/api#"
# what a collection says it is
TYPE = {"plain": DTS + "collection", "resource": DTS + "collection", "tic": CTS + "CtsTextInventoryCollection", "ti": CTS + "TextInventory", "tg": CTS + "textgroup",
        "work": CTS + "work", "edition": CTS + "edition", "translation": CTS + "translation", "commentary": CTS + "commentary"}
DC = ["creator", "title", "description", "subject"]


def make(kind, oid, parent=None, lang=None, xml=False):
    """A real collection of one kind."""
    from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
    from MyCapytain.resources.prototypes.cts import inventory as i
    from MyCapytain.resources.collections import cts as x
    if kind == "plain":
        o = Collection(oid)
        if parent is not None:
            o.parent = parent
        return o
    if kind == "resource":
        o = ResourceCollection(oid)
        if parent is not None:
            o.parent = parent
        return o
    if kind == "tic":
        return i.CtsTextInventoryCollection(oid)
    if kind == "ti":
        return (x.XmlCtsTextInventoryMetadata if xml else i.CtsTextInventoryMetadata)(oid, parent=parent)
    if kind == "tg":
        return (x.XmlCtsTextgroupMetadata if xml else i.CtsTextgroupMetadata)(oid, parent=parent)
    if kind == "work":
        return (x.XmlCtsWorkMetadata if xml else i.CtsWorkMetadata)(oid, parent=parent)
    cls = {"edition": (i.CtsEditionMetadata, x.XmlCtsEditionMetadata), "translation": (i.CtsTranslationMetadata, x.XmlCtsTranslationMetadata),
           "commentary": (i.CtsCommentaryMetadata, x.XmlCtsCommentaryMetadata)}[kind][xml]
    return cls(oid, parent=parent, lang=lang)


class Node(object):
    def __init__(self, kind, oid, obj, parent=None, lang=None):
        self.kind, self.id, self.obj, self.parent = kind, oid, obj, parent
        self.children = {}              # id: Node, in order of addition
        self.lang = lang                # of a text, when known
        self.gone = False
        self.type = TYPE[kind]
        self.model = DTS + ("resource" if kind in TEXTS else "collection")
        self.unsure = False             # a text taken by another work: its parent may be either

    def up(self):
        out, p = [], self.parent
        while p is not None:
            out.append(p)
            p = p.parent
        return out

    def down(self):
        out = list(self.children.values())
        for c in list(self.children.values()):
            out += c.down()
        return out

    def root(self):
        return (self.up() or [self])[-1]


class Forest(object):
    """What every tree must look like. Descriptions belong to identifiers, structure to objects."""

    def __init__(self, sim):
        self.sim, self.checks = sim, 0
        self.labels = {}                # id: [(lang, value)]
        self.props = {}                 # id: {prop: [(lang, value)]}
        self.links = {}                 # id: [urn]
        self.version = {}
        self.dc = {}                    # id: {term: [(lang, value)]}

    def eq(self, got, want, what, **d):
        self.checks += 1
        if got != want:
            raise Violation(what, got=got, expected=want, **d)

    def attempt(self, op, fn, what):
        self.sim.begin_op({k: v for k, v in op.items() if isinstance(v, (str, int, bool))})
        out = self.sim.call(fn)
        if not out.ok:
            self.checks += 1
            raise Violation("%s failed" % what, op=op, error=out.describe())
        return out.value

    def refused(self, op, fn, what, errors=()):
        self.sim.begin_op({k: v for k, v in op.items() if isinstance(v, (str, int, bool))})
        out = self.sim.call(fn)
        self.checks += 1
        if out.ok:
            raise Violation(what, op=op, got=str(out.value))
        if errors and not isinstance(out.exc, errors):
            raise Violation(what + " without the documented error", op=op, error=out.describe())
        self.sim.probe["refused"] += 1

    # -- comparing ---------------------------------------------------------------
    def described(self, n):
        o, eq = n.obj, self.eq
        where = {"id": n.id}
        ls = self.labels.get(n.id, [])
        for l, v in ls:
            if l:
                eq((l, str(o.get_label(l))) in ls, True, "the label of a collection in one language is not the one it was given", lang=l, **where)
        got = o.get_label()
        eq(got is None if not ls else (got.language or "", str(got)) in ls, True, "the label of a collection is none it was given", label=str(got), **where)
        got = o.get_label("xx")
        eq(got is None if not ls else (got.language or "", str(got)) in ls, True, "the label of a collection is none it was given", label=str(got), **where)
        eq(None if o.version is None else str(o.version), self.version.get(n.id), "the version of a collection is not the one it was given", **where)
        eq((str(o.type), str(o.model)), (n.type, n.model), "a collection is not what it is said to be", **where)
        for term, vs in sorted(self.dc.get(n.id, {}).items()):
            get = getattr(o, "get_" + term)
            for l, v in vs:
                eq((l, str(get(l))) in vs, True, "what a resource says of itself in one language is not what it was given", term=term, lang=l, **where)
            got = get()
            eq(got is not None and (got.language, str(got)) in vs, True, "what a resource says of itself is not what it was given", term=term, **where)
        if n.kind == "resource":
            for term in DC:
                if not self.dc.get(n.id, {}).get(term):
                    eq(getattr(o, "get_" + term)(), None, "a resource says of itself what it was never given", term=term, **where)
        if n.kind not in ("plain", "resource"):
            given = self.props.get(n.id, {})
            for prop in ("groupname", "title", "label", "description"):
                want = given.get(prop, [])
                got = sorted((x.language or "", str(x)) for x in o.metadata.get(self.cts(prop)))
                eq(got, sorted(want), "a property of a collection does not hold what it was given", prop=prop, **where)
            eq(sorted(map(str, o.get_link(self.cts("about")))), sorted(self.links.get(n.id, [])),
               "the links of a collection are not those it was given", **where)
            if n.kind not in ("tic", "ti"):
                eq(str(o.urn), n.id, "a collection lost its URN", **where)
        if n.lang is not None:
            eq(o.lang, n.lang, "a collection lost its language", **where)
        eq(o.readable, n.kind in TEXTS, "a collection is not readable as its kind is", **where)
        if n.kind in TEXTS:
            eq(o.subtype, n.kind, "a text changed kind", **where)

    @staticmethod
    def cts(prop):
        from MyCapytain.common.constants import RDF_NAMESPACES
        return RDF_NAMESPACES.CTS.term(prop)

    def shape(self, n, order=True):
        """One node: members, parents, counts, lookups."""
        o, eq = n.obj, self.eq
        where = {"id": n.id}
        kids = list(n.children.values())
        text = n.kind in TEXTS
        eq(list(o.members), [] if text else [k.obj for k in kids], "the members of a collection are not those it was given", **where)
        if not text:
            eq([m is k.obj for m, k in zip(o.members, kids)], [True] * len(kids), "a member of a collection is another object", **where)
            eq(sorted(o.children), sorted(n.children), "the members of a collection are not those it was given", **where)
        eq(o.size, 0 if text else len(kids), "the size of a collection is not its number of members", **where)
        down = [] if text else n.down()
        eq(sorted(x.id for x in o.descendants), sorted(x.id for x in down), "the descendants of a collection are not those it was given", **where)
        eq(sorted(x.id for x in o.readableDescendants), sorted(x.id for x in down if x.kind in TEXTS),
           "the texts of a collection are not those it was given", **where)
        if not n.unsure:
            up = n.up()
            eq([p.id for p in o.parents], [p.id for p in up], "the parents of a collection are not those it was given", **where)
            eq([a is b.obj for a, b in zip(o.parents, up)], [True] * len(up), "a parent of a collection is another object", **where)
            eq(o.parent is (n.parent.obj if n.parent else None), True, "the parent of a collection is not the one it was given", **where)
        if n.kind in ("ti", "tic", "tg", "work"):
            eq(len(o), len([x for x in down if x.kind in TEXTS]), "a collection does not count its texts", **where)
        if n.kind == "work":
            for lang in sorted({t.lang for t in kids if t.lang}) + [None]:
                eq(sorted(x.id for x in o.get_translation_in(lang)), sorted(t.id for t in kids if t.kind == "translation" and lang in (None, t.lang)),
                   "the translations of a work are not those it was given", lang=lang, **where)
        if text and n.parent is not None and not n.unsure:
            eq(sorted(x.id for x in o.editions()), sorted(x.id for x in n.parent.children.values() if x.kind == "edition"),
               "the editions beside a text are not those of its work", **where)

    def lookup(self, n, oid):
        """Finding an identifier from a node."""
        from MyCapytain.errors import UnknownCollection
        o = n.obj
        found = [x for x in [n] + n.down() if x.id == oid]
        self.eq(oid in o, bool(found), "a collection is not found where it is", id=n.id, key=oid)
        if found:
            got = self.attempt({"op": "lookup"}, lambda: o[oid], "looking up a collection")
            self.eq(any(got is x.obj for x in found), True, "looking up a collection gives another one", id=n.id, key=oid)
        else:
            self.refused({"op": "lookup", "key": oid, "id": n.id}, lambda: o[oid], "a collection which is not there is found", UnknownCollection)

    def whole(self, root):
        for n in [root] + root.down():
            self.shape(n)
            self.described(n)
