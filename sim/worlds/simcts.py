"""A simulated CTS 5 service over a generated library."""
from xml.sax.saxutils import escape, quoteattr

from .. import net
from ..net import Reply
from . import library

DISRUPTIVE = net.DISRUPTIVE + ["app_error", "app_error"]
ENDPOINT = "http://cts.sim/api/cts"


def gen_world(rng, **kw):
    return {"lib": library.gen_library(rng, **kw), "inv": rng.choice([None, None, "inv1", "défaut & co"]),
            "prefix": rng.choice(["CTS", "ti", ""]), "error_status": rng.choice([200, 200, 404]),
            "endpoint": rng.choice([ENDPOINT, ENDPOINT, "http://cts.sim/remote.xq?fmt=xml"]),
            "described": rng.random() < 0.8, "ctype": rng.choice(["text/xml; charset=utf-8", "application/xml", "text/xml;charset=UTF-8", "text/xml", "text/xml; charset=ISO-8859-1", "text/xml; Charset=\"iso-8859-1\""])}


def split_urn(urn):
    parts = urn.split(":")
    return ":".join(parts[:4]), (parts[4] if len(parts) > 4 else None)


class CtsServer(object):
    def __init__(self, world):
        self.w = world
        self.lib = world["lib"]
        self.bad = []

    # -- replies ---------------------------------------------------------------
    def error(self, message="Syntactically valid URN refers to an invalid value", code=3, status=None):
        p = self.w["prefix"]
        c = p + ":" if p else ""
        ns = "xmlns:%s" % p if p else "xmlns"
        body = "<{c}CTSError {ns}=\"{u}\"><{c}message>{m}</{c}message><{c}code>{k}</{c}code></{c}CTSError>".format(
            c=c, ns=ns, u=library.CTS, m=message, k=code)
        return Reply(self.w["error_status"] if status is None else status, body, self.w["ctype"])

    def wrap(self, name, urn, described, reply):
        p = self.w["prefix"]
        c = p + ":" if p else ""
        ns = "xmlns:%s" % p if p else "xmlns"
        base, ref = split_urn(urn) if urn else (None, None)
        out = "<{c}requestName>{n}</{c}requestName><{c}requestUrn>{u}</{c}requestUrn><{c}psg>{r}</{c}psg>".format(
            c=c, n=name, u=escape(urn or ""), r=escape(ref or ""))
        if described:
            out += self.description(base) if described is True else self.names(base)
        # the default-namespace flavour also binds ti: for the shared renderers
        return Reply(200, "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<{c}{n} {ns}=\"{u}\"{ti} xmlns:tei=\"{t}\">"
                     "<{c}request>{q}</{c}request><{c}reply>{r}</{c}reply></{c}{n}>".format(
                         c=c, n=name, ns=ns, ti="" if p == "ti" else ' xmlns:ti="%s"' % library.CTS, u=library.CTS, t=library.TEI, q=out, r=reply), self.w["ctype"])

    def description(self, base):
        g, w, t = library.find_text(self.lib, base)
        return "%s%s%s%s%s" % (
            library._values("groupname", g["names"]), library._values("title", w["titles"]),
            library._values("label", t["labels"]), library._values("description", t["descs"]), library.citation_xml(t))

    def names(self, base):
        """What a request is said to be about: the first names only"""
        g, w, t = library.find_text(self.lib, base)
        return "%s%s%s" % (library._values("groupname", g["names"][:1]), library._values("title", w["titles"][:1]),
                           library._values("label", w["titles"][:1]))

    def passage(self, t, ref):
        body = library.body_xml(t, ref)
        return "<ti:passage><TEI xmlns=\"%s\">%s</TEI></ti:passage>" % (library.TEI, body)

    def prevnext(self, t, ref):
        out = ""
        sib = library.siblings(t, ref) if ref else None
        if sib:
            for k, r in zip(("prev", "next"), sib):
                if r:
                    out += "<ti:%s><ti:urn>%s:%s</ti:urn></ti:%s>" % (k, t["urn"], escape(r), k)
        return "<ti:prevnext>%s</ti:prevnext>" % out

    def inventory(self, urn):
        lib = self.lib
        if urn and self.w.get("whole"):
            # a service which gives its inventory whatever is asked for
            return library.inventory_xml(lib)
        if urn:
            keep = dict(lib, groups=[])
            for g in lib["groups"]:
                works = []
                for w in g["works"]:
                    ts = [t for t in w["texts"] if urn in (g["urn"], w["urn"], t["urn"], lib["tiid"])]
                    if ts:
                        works.append(dict(w, texts=ts))
                if works:
                    keep["groups"].append(dict(g, works=works))
            if not keep["groups"]:
                return None
            lib = keep
        return library.inventory_xml(lib)

    def __call__(self, req):
        reply = self.answer(req)
        if "8859" in self.w["ctype"] and "8859" in reply.headers.get("Content-Type", ""):
            reply.body = reply.body.decode("utf-8").replace("UTF-8", "ISO-8859-1").encode("latin-1", "xmlcharrefreplace")
        return reply

    # -- dispatch ----------------------------------------------------------------
    def answer(self, req):
        q = req.params
        name = q.get("request")
        if req.query and len(req.query) != len(q):
            return self.error("Duplicate parameter", 1, 400)
        urn = q.get("urn")
        if self.w["inv"] is not None and q.get("inv") != self.w["inv"]:
            return self.error("Invalid inventory", 6, 400)
        if name == "GetCapabilities":
            inv = self.inventory(urn)
            if inv is None:
                return self.error()
            return self.wrap(name, "", False, inv)
        if name not in ("GetPassage", "GetPassagePlus", "GetPrevNextUrn", "GetFirstUrn", "GetValidReff", "GetLabel") or not urn:
            return self.error("Invalid request", 1, 400)
        if len(urn.split(":")) not in (4, 5):
            return self.error("Invalid URN syntax", 2)
        base, ref = split_urn(urn)
        found = library.find_text(self.lib, base)
        if found is None or (ref and not library.exists(found[2], ref)):
            return self.error()
        t = found[2]
        if name == "GetPassage":
            return self.wrap(name, urn, self.w["described"], "<ti:urn>%s</ti:urn>%s" % (escape(urn), self.passage(t, ref)))
        if name == "GetPassagePlus":
            return self.wrap(name, urn, self.w["described"] and "names", "<ti:urn>%s</ti:urn><ti:label>%s</ti:label>%s%s" % (
                escape(urn), self.description(base), self.prevnext(t, ref), self.passage(t, ref)))
        if name == "GetPrevNextUrn":
            if not ref:
                return self.error("Invalid URN reference", 5)
            return self.wrap(name, urn, self.w["described"], self.prevnext(t, ref))
        if name == "GetLabel":
            return self.wrap(name, urn, self.w["described"] and "names", "<ti:urn>%s</ti:urn><ti:label>%s</ti:label>" % (escape(urn), self.description(base)))
        deep = len(library.split_ref(ref)[0]) if ref else 0
        if name == "GetFirstUrn":
            kids = library.under(t, ref, deep + 1)
            first = "<ti:urn>%s:%s</ti:urn>" % (base, escape(kids[0])) if kids else "<ti:urn/>"
            return self.wrap(name, urn, self.w["described"], first)
        level = max(int(q.get("level") or 1), deep + 1)
        kids = library.under(t, ref, level)
        return self.wrap(name, urn, self.w["described"], "<ti:reff level=\"%d\">%s</ti:reff>" % (
            level, "".join("<ti:urn>%s:%s</ti:urn>" % (base, escape(k)) for k in kids)))


def start(sim, world):
    """Bring up the service; returns (server, retriever)."""
    from MyCapytain.retrievers.cts5 import HttpCtsRetriever
    n = net.Net(sim)
    server = CtsServer(world)
    n.servers["http://cts.sim"] = server
    n.app_error = lambda req: server.error("Overloaded, try again later", 3, 200)
    return n, server, HttpCtsRetriever(world["endpoint"], inventory=world["inv"])
