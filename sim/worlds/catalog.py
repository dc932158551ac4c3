"""Comparing CTS metadata objects (inventory, text groups, works, texts) with a generated library."""
from ..core import Violation
from . import library

KIND = {"edition": "CtsEditionMetadata", "translation": "CtsTranslationMetadata", "commentary": "CtsCommentaryMetadata"}


def low(pairs):
    return sorted((l.lower(), v) for l, v in pairs)


class Catalog(object):
    """Checks; `k` counts and raises (eq)."""

    def __init__(self, k, sim):
        self.k, self.sim = k, sim

    # -- description -----------------------------------------------------------
    def values(self, o, prop, pairs, label, where):
        from MyCapytain.common.constants import RDF_NAMESPACES
        k = self.k
        got = sorted(((x.language or "").lower(), str(x)) for x in o.metadata.get(RDF_NAMESPACES.CTS.term(prop)))
        k.eq(got, low(pairs), "the %s of a collection is not the one of the library" % prop, **where)
        k.eq(sorted(((l or "").lower(), str(v)) for l, v in o.get_cts_property(prop).items()), low(pairs),
             "the %s of a collection by language is not the one of the library" % prop, **where)
        for l, v in pairs:
            k.eq(str(o.get_cts_property(prop, l)), v, "the %s of a collection in one language is not the one of the library" % prop,
                 lang=l, **where)
            # language tags are not case sensitive
            k.eq(str(o.get_cts_property(prop, l.upper())), v, "the %s of a collection in one language is not the one of the library" % prop,
                 lang=l.upper(), **where)
            if label:
                k.eq(str(o.get_label(l)), v, "the label of a collection in one language is not the one of the library",
                     lang=l, **where)
        other = o.get_cts_property(prop, "xx")
        k.eq(other is None if not pairs else str(other) in [v for _, v in pairs], True,
             "the %s of a collection in a language it does not have is none of those of the library" % prop, **where)
        if len(pairs) > 1:
            self.sim.probe["several_languages"] += 1

    def structured(self, o, sm, where):
        from rdflib import URIRef, Literal
        want = {}
        for p, t, lang, dt, v in sm:
            uri = library.sm_uri(v)
            kind = "uri" if uri else "literal"
            want.setdefault(library.SM_NS[p] + t, set()).add((kind, v, (lang or "").lower() if not uri else "",
                                                              library.datatype(dt) if not uri else None))
        for key in [ns + t for ns, t in self.SM_KEYS]:
            got = set()
            for x in o.metadata.get(URIRef(key)):
                if isinstance(x, Literal):
                    dt = str(x.datatype) if x.datatype else None
                    if dt in (library.XSD + "integer", library.XSD + "float"):
                        dt = None           # numbers are recognised without being declared
                    got.add(("literal", str(x), (x.language or "").lower(), dt))
                else:
                    got.add(("uri", str(x), "", None))
            self.k.eq(sorted(map(str, got)), sorted(map(str, want.get(key, ()))),
                      "the structured metadata of a collection are not those of the library", key=key, **where)
        if sm:
            self.sim.probe["structured"] += 1

    SM_KEYS = [(library.SM_NS[p], t) for p, ts in (("dc", ["contributor", "source", "coverage"]), ("dct", ["extent", "spatial"]),
                                                   ("foo", ["note", "x1"])) for t in ts]

    def text(self, o, g, w, t, citation=True, where=None):
        import MyCapytain.resources.prototypes.cts.inventory as inv
        from MyCapytain.common.constants import RDF_NAMESPACES
        k, where = self.k, dict(where or {}, id=t["urn"])
        k.eq((o.id, str(o.urn)), (t["urn"], t["urn"]), "a text does not have its URN", **where)
        k.eq(isinstance(o, getattr(inv, KIND[t["kind"]])), True, "a text is not of its published kind", kind=t["kind"],
             got_class=type(o).__name__, **where)
        k.eq(o.subtype, t["kind"], "a text is not of its published kind", **where)
        k.eq(o.readable, True, "a text is not readable", **where)
        k.eq((list(o.members), list(o.descendants), o.size), ([], [], 0), "a text has members", **where)
        k.eq(o.lang, t["lang"], "the language of a text is not the one of the library", **where)
        self.values(o, "label", t["labels"], True, where)
        self.values(o, "description", t["descs"], False, where)
        for l, v in t["descs"]:
            k.eq(str(o.get_description(l)), v, "the description of a text is not the one of the library", lang=l, **where)
        for l, v in t["labels"]:
            k.eq(str(o.get_subject(l)), v, "the label of a text is not the one of the library", lang=l, **where)
        for l, v in (w["titles"] if w else []):
            k.eq(str(o.get_title(l)), v, "the title of a text is not the one of its work", lang=l, **where)
        for l, v in (g["names"] if g else []):
            k.eq(str(o.get_creator(l)), v, "the creator of a text is not its text group", lang=l, **where)
        k.eq(sorted(map(str, o.get_link(RDF_NAMESPACES.CTS.term("about")))), sorted(set(t["about"])),
             "the texts a commentary is about are not those of the library", **where)
        if t["about"]:
            self.sim.probe["about"] += 1
        self.structured(o, t["sm"], where)
        if citation:
            self.citation(o.citation, t, where)

    def citation(self, cit, t, where):
        k = self.k
        want = [(l["name"],) + tuple(x.replace('"', "'") for x in library.scope_xpath(t, i, var=False)) for i, l in enumerate(t["levels"])]
        k.eq(cit is not None, True, "a text has no citation scheme", **where)
        import re
        # attributes keep the declared xpath; bound values are written $1, $2... in texts and ? in inventories
        got = [(c.name,) + tuple(re.sub(r"\$\d+", "?", (x or "").replace('"', "'")) for x in (c.scope, c.xpath)) for c in cit]
        k.eq(got, want, "the citation scheme of a text is not the one of the library", **where)
        k.eq(len(cit), len(want), "the citation scheme of a text does not have its depth", **where)

    def work(self, o, g, w, texts, where=None, deep=True, citation=True):
        import MyCapytain.resources.prototypes.cts.inventory as inv
        k, where = self.k, dict(where or {}, id=w["urn"])
        k.eq((o.id, str(o.urn)), (w["urn"], w["urn"]), "a work does not have its URN", **where)
        k.eq(isinstance(o, inv.CtsWorkMetadata), True, "a work is not a work", **where)
        k.eq(o.lang, w["lang"], "the language of a work is not the one of the library", **where)
        k.eq(o.readable, False, "a work is readable", **where)
        self.values(o, "title", w["titles"], True, where)
        self.structured(o, w["sm"], where)
        self.children(o, [t["urn"] for t in texts], where)
        k.eq(len(o), len(texts), "a work does not count its texts", **where)
        k.eq(sorted(o.texts), sorted(t["urn"] for t in texts), "a work does not hold its texts", **where)
        for lang in sorted({t["lang"] for t in texts}) + [None]:
            k.eq(sorted(x.id for x in o.get_translation_in(lang)),
                 sorted(t["urn"] for t in texts if t["kind"] == "translation" and lang in (None, t["lang"])),
                 "the translations of a work are not those of the library", lang=lang, **where)
        if deep:
            for t in texts:
                x = o.children[t["urn"]]
                k.eq(x.parent is o, True, "a text does not lead back to its work", id=t["urn"])
                self.text(x, g, w, t, citation=citation)
                k.eq(sorted(e.id for e in x.editions()), sorted(t["urn"] for t in texts if t["kind"] == "edition"),
                     "the editions beside a text are not those of its work", id=t["urn"])
                for lang in (None, t["lang"]):
                    k.eq(sorted(e.id for e in x.translations(lang)),
                         sorted(y["urn"] for y in texts if y["kind"] == "translation" and lang in (None, y["lang"])),
                         "the translations beside a text are not those of its work", id=t["urn"], lang=lang)

    def children(self, o, want, where):
        k = self.k
        k.eq(sorted(o.children), sorted(want), "the members of a collection are not those of the library", **where)
        k.eq(sorted(m.id for m in o.members), sorted(want), "the members of a collection are not those of the library", **where)
        k.eq(o.size, len(want), "the size of a collection is not its number of members", **where)

    def group(self, o, g, works, where=None, deep=True, citation=True):
        """works: [(work, [texts])]"""
        import MyCapytain.resources.prototypes.cts.inventory as inv
        k, where = self.k, dict(where or {}, id=g["urn"])
        k.eq((o.id, str(o.urn)), (g["urn"], g["urn"]), "a text group does not have its URN", **where)
        k.eq(isinstance(o, inv.CtsTextgroupMetadata), True, "a text group is not a text group", **where)
        k.eq(o.readable, False, "a text group is readable", **where)
        self.values(o, "groupname", g["names"], True, where)
        self.structured(o, g["sm"], where)
        self.children(o, [w["urn"] for w, _ in works], where)
        texts = [t["urn"] for _, ts in works for t in ts]
        k.eq(len(o), len(texts), "a text group does not count its texts", **where)
        k.eq(sorted(x.id for x in o.readableDescendants), sorted(texts), "the texts of a text group are not those of the library", **where)
        if deep:
            for w, ts in works:
                x = o.children[w["urn"]]
                k.eq(x.parent is o, True, "a work does not lead back to its text group", id=w["urn"])
                self.work(x, g, w, ts, citation=citation)

    def inventory(self, o, name, groups, where=None, deep=True, citation=True):
        """groups: [(group, [(work, [texts])])]"""
        k, where = self.k, dict(where or {}, id=name)
        k.eq(o.id, name, "an inventory does not have its name", **where)
        self.children(o, [g["urn"] for g, _ in groups], where)
        ids = [g["urn"] for g, _ in groups] + [w["urn"] for _, ws in groups for w, _ in ws] + \
              [t["urn"] for _, ws in groups for _, ts in ws for t in ts]
        texts = [t["urn"] for _, ws in groups for _, ts in ws for t in ts]
        k.eq(len(o), len(texts), "an inventory does not count its texts", **where)
        k.eq(sorted(x.id for x in o.descendants), sorted(ids), "the descendants of an inventory are not those of the library", **where)
        k.eq(sorted(x.id for x in o.readableDescendants), sorted(texts), "the texts of an inventory are not those of the library", **where)
        for i in ids:
            k.eq((i in o, o[i].id), (True, i), "a collection cannot be looked up by its URN", id=i)
        k.eq("urn:cts:latinLit:nobody" in o, False, "an unknown collection is said to be there")
        if deep:
            for g, ws in groups:
                x = o.children[g["urn"]]
                k.eq(x.parent is o, True, "a text group does not lead back to its inventory", id=g["urn"])
                self.group(x, g, ws, citation=citation)


def pruned(lib, urn=None):
    """[(group, [(work, [texts])])] of the texts at or under a URN (all of them without one)."""
    out = []
    for g in lib["groups"]:
        ws = []
        for w in g["works"]:
            ts = [t for t in w["texts"] if urn is None or urn in (g["urn"], w["urn"], t["urn"])]
            if ts:
                ws.append((w, ts))
        if ws:
            out.append((g, ws))
    return out
