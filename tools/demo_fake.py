"""A service for demonstrations: every request made with the requests library is answered by a function."""
import io
import json

import requests
from requests.adapters import HTTPAdapter
from urllib.parse import urlparse, parse_qs

LOG = []


def serve(handler):
    """handler(path, params) -> (status, body, headers), a str body or a dict"""
    def send(self, request, **kwargs):
        u = urlparse(request.url)
        params = {k: v if len(v) > 1 else v[0] for k, v in parse_qs(u.query, keep_blank_values=True).items()}
        LOG.append((u.path, params))
        out = handler(u.path, params)
        if isinstance(out, Exception):
            raise out
        if not isinstance(out, tuple):
            out = (200, out, {})
        status, body, headers = out
        if isinstance(body, dict):
            body = json.dumps(body)
            headers = dict({"Content-Type": "application/ld+json"}, **headers)
        r = requests.Response()
        r.status_code = status
        r.raw = io.BytesIO(body.encode("utf-8"))
        r.headers.update(dict({"Content-Type": "application/xml; charset=utf-8"}, **headers))
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        r.url = request.url
        r.request = request
        return r
    HTTPAdapter.send = send


CONTEXT = {"@vocab": "https://www.w3.org/ns/hydra/core#", "dc": "http://purl.org/dc/terms/", "dts": "https://w3id.org/dts/api#"}
ENTRY = {"@context": "/c", "@id": "/dts/", "@type": "EntryPoint", "collections": "/dts/collections", "documents": "/dts/documents",
         "navigation": "/dts/navigation"}


def collection(id, total, title=None, type="Collection", member=None, view=None, **more):
    d = {"@context": CONTEXT, "@id": id, "@type": type, "title": title or id, "totalItems": total}
    if member is not None:
        d["member"] = member
    if view:
        d["view"] = view
    d.update(more)
    return d


def member(id, total=0, type="Collection", title=None):
    return {"@id": id, "@type": type, "title": title or id, "totalItems": total}


def view(id, page, last):
    v = {"@id": "/dts/collections?id=%s&page=%d" % (id, page), "@type": "PartialCollectionView"}
    if page < last:
        v["next"] = "/dts/collections?id=%s&page=%d" % (id, page + 1)
    return v


CTS = "http://chs.harvard.edu/xmlns/cts"
TEI = "http://www.tei-c.org/ns/1.0"

TEXT = '''<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader><encodingDesc><refsDecl n="CTS">%s</refsDecl></encodingDesc></teiHeader>
<text><body><div type="edition" n="%s">%s</div></body></text></TEI>'''


def text(urn, body, depth=2, leaf="l"):
    """A text whose citable units are div[@n] and, at the deepest level, l[@n]"""
    path, decl = "/tei:TEI/tei:text/tei:body/tei:div", ""
    for i in range(1, depth + 1):
        path += "/tei:%s[@n='$%d']" % (leaf if i == depth else "div", i)
        decl = '<cRefPattern n="level%d" matchPattern="%s" replacementPattern="#xpath(%s)"><p>x</p></cRefPattern>' % (
            i, r"\\.".join([r"(\\w+)"] * i), path) + decl
    return TEXT % (decl, urn, body)


def repository(folder, texts, groups={}, works={}):
    """texts: {urn: (kind, lang, body)}; writes a CapiTainS repository"""
    import os
    tree = {}
    for urn, t in texts.items():
        ns, rest = urn.rsplit(":", 1)
        g, w, v = rest.split(".")
        tree.setdefault((ns, g), {}).setdefault(w, []).append((urn, v, t))
    for (ns, g), ws in tree.items():
        gd = os.path.join(folder, "data", g)
        os.makedirs(gd, exist_ok=True)
        with open(os.path.join(gd, "__cts__.xml"), "w", encoding="utf-8") as f:
            f.write('<ti:textgroup xmlns:ti="%s" urn="%s:%s">%s</ti:textgroup>' % (
                CTS, ns, g, groups.get("%s:%s" % (ns, g), '<ti:groupname xml:lang="eng">Group</ti:groupname>')))
        for w, ts in ws.items():
            wd = os.path.join(gd, w)
            os.makedirs(wd, exist_ok=True)
            wu = "%s:%s.%s" % (ns, g, w)
            inner = works.get(wu, '<ti:title xml:lang="eng">Work</ti:title>')
            for urn, v, (kind, lang, body) in ts:
                inner += '<ti:%s urn="%s" workUrn="%s"%s><ti:label xml:lang="eng">Label</ti:label></ti:%s>' % (
                    kind, urn, wu, "" if kind == "edition" else ' xml:lang="%s"' % lang, kind)
                if body is not None:
                    with open(os.path.join(wd, "%s.%s.%s.xml" % (g, w, v)), "w", encoding="utf-8") as f:
                        f.write(body)
            with open(os.path.join(wd, "__cts__.xml"), "w", encoding="utf-8") as f:
                f.write('<ti:work xmlns:ti="%s" urn="%s" groupUrn="%s:%s" xml:lang="lat">%s</ti:work>' % (CTS, wu, ns, g, inner))
    return folder


def lines(n, m, pre=""):
    """n divs of m lines"""
    return "".join('<div n="%d">%s</div>' % (i, "".join('<l n="%d">%sw%d_%d</l>' % (j, pre, i, j) for j in range(1, m + 1)))
                   for i in range(1, n + 1))
