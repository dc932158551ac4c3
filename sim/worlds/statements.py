"""What a graph says of an object, and comparing it with what was exported."""
from ..core import Violation

BASE = "http://base.invalid/"           # identifiers which are not absolute are read relatively to it
XSD = "http://www.w3.org/2001/XMLSchema#"


def canon(x):
    from rdflib import Literal, URIRef
    if isinstance(x, Literal):
        v = x.toPython()
        if x.datatype and isinstance(v, (bool, int, float)) and str(x.datatype) != XSD + "decimal":
            return Literal(str(v), datatype=x.datatype)
        return Literal(str(x), lang=x.language.lower() if x.language else None, datatype=None if str(x.datatype) == XSD + "string" else x.datatype, normalize=False)
    if isinstance(x, URIRef) and x.startswith(BASE):
        return URIRef(x[len(BASE):])
    return x


def about(graph, target):
    """The statements of an object, of what it leads to, and those which lead to it."""
    from rdflib import Graph, Literal
    statements, by_subject = list(graph), {}
    for s, p, o in statements:
        by_subject.setdefault(s, []).append((s, p, o))
    out, todo, seen = Graph(), [target], set()
    while todo:
        n = todo.pop()
        if n in seen or isinstance(n, Literal):
            continue
        seen.add(n)
        for s, p, o in by_subject.get(n, ()):
            out.add((s, p, canon(o)))
            todo.append(o)
    for s, p, o in statements:
        if o == target:
            out.add((s, p, o))
    return out


def opened(s, p, o):
    """What an open passage says of its text, in whatever graph is the current one."""
    from rdflib import BNode
    return isinstance(s, BNode) and str(p) == "https://w3id.org/dts/api#implements"


def same(sim, text, fmt, want, passages=True, **where):
    """An export read by something else holds these statements and no other (passages=False: passages may be opened or closed meanwhile)."""
    from rdflib import Graph
    from rdflib.compare import isomorphic, graph_diff, to_isomorphic
    raw, got = Graph(), Graph()
    out = sim.call(lambda: raw.parse(data=text, format=fmt, publicID=BASE))
    if not out.ok:
        raise Violation("an exported collection cannot be read", as_=fmt, error=out.describe(), **where)
    for s, p, x in raw:
        got.add((canon(s), p, canon(x)))
    if not passages:
        for g in (got, want):
            for st in [st for st in g if opened(*st)]:
                g.remove(st)
    if not isomorphic(got, want):
        both, extra, missing = graph_diff(to_isomorphic(got), to_isomorphic(want))
        raise Violation("an exported collection does not hold the statements about it", as_=fmt,
                        extra=sorted(str(x) for x in extra)[:4], missing=sorted(str(x) for x in missing)[:4], **where)
