"""D06: DTS requests on the wire: route discovery and parameters."""
from sim import net
from sim.core import Violation
from sim.net import Reply
from sim.worlds import simdts

META = {
    "runs": {"quick": 6000, "thorough": 150000},
    "rule": "one evaluation = one seeded run of 1-3 concurrent clients sharing a retriever; every request that reaches the "
            "simulated servers is compared with the one the call should make; distinct = distinct event trace",
    "real": ["MyCapytain DTS retriever", "requests", "urllib3 response decoding"],
    "stub": ["the DTS servers", "sockets", "clock"],
    "assumptions": ["the entry point advertises the three routes as URI references, with or without their own parameters"],
    "must_probe": ["rediscovered_after_failure", "other_host", "route_parameters", "relative_route", "range_ref", "tuple_ref",
                   "failed_by_fault", "shared", "half_entry", "page_links", "no_page_links"],
}

STRINGS = ["urn:cts:latinLit:phi1294.phi002", "a b", "é/ü?x=1&y=2", "100%", "1+1", "#1", "", "http://x.y/z?a=b", "詩"]


def rand_ref(rng):
    r = rng.random()
    if r < 0.25:
        return None
    if r < 0.5:
        return {"as": "str", "v": [rng.choice(["1", "1.pr", "é 1", "1-2"])]}
    if r < 0.6:
        return {"as": "dts", "v": [rng.choice(["1", "1.1"])]}
    if r < 0.8:
        return {"as": rng.choice(["dts", "cts", "base"]), "v": rng.choice([["1.1", "1.5"], ["1.1", "2.1"], ["9", "10"], ["2.pr", "1.1"], ["pr", "1"]])}
    if r < 0.9:
        return {"as": "tuple", "v": rng.choice([["1", "3"], ["9", "10"], ["pr", "1"], ["é 1", "a&b"], ["1.1", "1.1"], ["2", "1"]])}
    return {"as": "int", "v": [rng.randrange(1, 9)]}


def generate(rng, tier, index):
    base, other = "http://dts.sim", "https://other.sim:8080"
    entry = rng.choice(["/api/dts/", "/api/dts", "/", "", "/deep/er/dts.json", "/api/dts/?v=1"])
    routes = {}
    for r in ("collections", "documents", "navigation"):
        style = rng.choice(["abs", "abs", "rel", "reldot", "full", "full", "other", "scheme"])
        path = {"abs": "/x/%s", "rel": "%s/v1", "reldot": "../%s", "full": base + "/y/%s/", "other": other + "/z/%s",
                "scheme": "//dts.sim/w/%s"}[style] % r
        q = rng.choice(["", "", "?key=1", "?key=a%20b&tenant=%C3%A9", "?k=1&k=2"])
        routes[r] = {"uri": path + q, "style": style}
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(1, 7)):
            kind = rng.choice(["collection", "navigation", "document"])
            op = {"op": kind}
            if kind == "collection":
                if rng.random() < 0.8:
                    op["id"] = rng.choice(STRINGS)
                if rng.random() < 0.4:
                    op["nav"] = rng.choice(["children", "parents"])
                if rng.random() < 0.4:
                    op["page"] = rng.choice([1, 2, 10, "3"])
            elif kind == "navigation":
                op["id"] = rng.choice(STRINGS)
                op["ref"] = rand_ref(rng)
                for k in ("level", "group_by", "max_", "page"):
                    if rng.random() < 0.35:
                        op[k] = rng.choice([0, 1, 2, 11])
                if rng.random() < 0.2:
                    op["exclude"] = rng.choice(["dts:extensions", "dc:title"])
            else:
                op["id"] = rng.choice(STRINGS)
                op["ref"] = rand_ref(rng)
                if rng.random() < 0.3:
                    op["mimetype"] = rng.choice(["text/html", "application/tei+xml"])
            if rng.random() < 0.3:
                op["faults"] = {str(rng.randrange(2)): rng.choice(net.DISRUPTIVE + net.BENIGN + ["app_error"])}
            ops.append(op)
        if rng.random() < 0.1:
            ops[0]["faults"] = {"0": "app_error"}
        clients.append(ops)
    delays = [rng.randrange(1, 40) for _ in range(60)] if len(clients) > 1 else []
    return {"base": base, "other": other, "entry": entry, "routes": routes, "clients": clients, "delays": delays}


def resolve(plan, which):
    """(base, path, own parameters) of an advertised route, worked out by hand."""
    uri, style = plan["routes"][which]["uri"], plan["routes"][which]["style"]
    from urllib.parse import parse_qsl
    path, _, q = uri.partition("?")
    base = plan["base"]
    entry = (plan["entry"] or "/").split("?")[0]
    folder = entry.rsplit("/", 1)[0] + "/"
    if style == "rel":
        path = folder + path
    elif style == "reldot":
        up = folder.rstrip("/").rsplit("/", 1)[0] + "/" if folder != "/" else "/"
        path = up + path[3:]
    elif style == "full":
        path = path[len(base):]
    elif style == "other":
        base, path = plan["other"], path[len(plan["other"]):]
    elif style == "scheme":
        path = path[len("//dts.sim"):]
    return base, path, parse_qsl(q)


def make_ref(r):
    from MyCapytain.common.reference import DtsReference, CtsReference, BaseReference
    if r is None:
        return None
    v = r["v"]
    if r["as"] in ("str", "int"):
        return v[0]
    if r["as"] == "tuple":
        return tuple(v)
    if r["as"] == "cts":
        return CtsReference("-".join(v))
    return (DtsReference if r["as"] == "dts" else BaseReference)(*v)


def ref_params(r):
    if r is None:
        return []
    if len(r["v"]) == 2:
        return [("start", r["v"][0]), ("end", r["v"][1])]
    return [("ref", str(r["v"][0]))]


def page_links(rng, plan, route):
    """({rel: page}, headers): links to other pages of an answer, among others."""
    from urllib.parse import quote
    base, path, own = route
    pages, links = {}, []
    last = rng.choice([1, 2, 9, 10, 500])
    at = rng.randrange(1, last + 1)
    some = {"first": 1, "prev": at - 1 if at > 1 else None, "current": at, "next": at + 1 if at < last else None, "last": last}
    way = rng.choice(["after", "first", "only", "middle"])
    for rel, page in some.items():
        if page is None or rng.random() < 0.3:
            continue
        params = [("id", rng.choice(STRINGS))] + own
        params = {"after": params + [("page", page)], "first": [("page", page)] + params, "only": [("page", page)],
                  "middle": params + [("page", page), ("nav", "parents")]}[way]
        links.append('<%s%s?%s>; rel="%s"' % (rng.choice([base, ""]), path, "&".join("%s=%s" % (k, quote(str(v), safe="")) for k, v in params),
                                               "previous" if rel == "prev" else rel))
        pages[rel] = str(page)
    if rng.random() < 0.4:
        links.append('</about?id=1>; rel="collection"; title="a, b; c"')
    rng.shuffle(links)
    if not links:
        return pages, {}
    return pages, {"Link": ", ".join(links)}


def execute(plan, sim):
    from MyCapytain.common.utils import parse_pagination
    from MyCapytain.retrievers.dts import HttpDtsRetriever
    import json
    n = net.Net(sim)
    checks = [0]
    entry = (plan["entry"] or "/").split("?")[0]
    where = {r: resolve(plan, r) for r in plan["routes"]}
    by_address = {(b, p): r for r, (b, p, _) in where.items()}
    log = {}

    def handler(req):
        c = sim.current
        log.setdefault(c.idx, []).append(req)
        which = by_address.get((req.base, req.path))
        if which:
            pages, headers = page_links(sim.keyed("pages", req.url), plan, where[which])
            return Reply(200, json.dumps({"answer": req.url, "pages": pages}, ensure_ascii=False), "application/ld+json", headers)
        if req.base == plan["base"] and req.path == entry:
            body = {"@id": entry, "@type": "EntryPoint"}
            body.update({r: v["uri"] for r, v in plan["routes"].items()})
            return Reply(200, json.dumps(body), "application/json")
        return Reply(404, "nothing here", "text/plain; charset=utf-8")

    def half(req):
        # the entry point only knows some of its routes (it is being deployed)
        if req.base == plan["base"] and req.path == entry and not by_address.get((req.base, req.path)):
            rng = sim.keyed("half", n.requests)
            body = {"@id": entry, "@type": "EntryPoint"}
            body.update({r: plan["routes"][r]["uri"] for r in rng.sample(sorted(plan["routes"]), rng.choice([1, 2]))})
            sim.probe["half_entry"] += 1
            return Reply(200, json.dumps(body), "application/json")
        return Reply(503, "not yet", "text/plain; charset=utf-8")
    n.app_error = half
    n.servers[plan["base"]] = n.servers[plan["other"]] = handler
    seen = {"discovered": 0, "failed": False}

    def eq(a, b, what, **d):
        checks[0] += 1
        if a != b:
            raise Violation(what, got=a, expected=b, **d)

    retriever = HttpDtsRetriever(plan["base"] + plan["entry"])

    def one(c, op):
        kind = op["op"]
        sim.begin_op(op)
        log[c.idx] = []
        discovered_before = seen["discovered"]
        io_before = c.io_index
        attempts = []
        observer = lambda req: attempts.append(req) if sim.current is c else None       # noqa
        n.observers.append(observer)
        params = []
        if kind == "collection":
            kw = {}
            if "id" in op:
                kw["collection_id"] = op["id"]
                params.append(("id", op["id"]))
            for k, default in (("nav", "children"), ("page", 1)):
                if k in op:
                    kw[k] = op[k]
                    if op[k] != default:
                        params.append((k, str(op[k])))
            route, accept = "collections", "application/ld+json"
            out = sim.call(lambda: retriever.get_collection(**kw))
        elif kind == "navigation":
            kw = {k: op[k] for k in ("level", "group_by", "max_", "exclude", "page") if k in op}
            names = {"group_by": "groupBy", "max_": "max"}
            params = [("id", op["id"])] + [(names.get(k, k), str(v)) for k, v in kw.items()] + ref_params(op["ref"])
            route, accept = "navigation", "application/ld+json"
            out = sim.call(lambda: retriever.get_navigation(op["id"], ref=make_ref(op["ref"]), **kw))
        else:
            kw = {k: op[k] for k in ("mimetype",) if k in op}
            params = [("id", op["id"])] + ref_params(op["ref"])
            route, accept = "documents", op.get("mimetype", "application/tei+xml, application/xml")
            out = sim.call(lambda: retriever.get_document(op["id"], ref=make_ref(op["ref"]), **kw))
        n.observers.remove(observer)
        base, path, own = where[route]
        d = {"op": {k: v for k, v in op.items() if k != "faults"}, "routes": plan["routes"], "entry": plan["entry"]}
        if not out.ok:
            if not c.op_faults:
                raise Violation("a request failed although nothing went wrong on the network", error=out.describe(), **d)
            sim.probe["failed_by_fault"] += 1
        # requests attempted: the entry point only while routes are unknown, then exactly one to the route
        disc = [r for r in attempts if (r.base, r.path) == (plan["base"], entry)
                and (r.base, r.path) not in by_address]
        calls = [r for r in attempts if r not in disc]
        if discovered_before:
            eq([r.url for r in disc], [],
               "the entry point is asked again although the routes are known", **d)
        else:
            asked = len(disc)
            if len(plan["clients"]) == 1 or asked > 1:      # another client may be discovering meanwhile
                eq(asked, 1, "the entry point is not asked exactly once while the routes are unknown", **d)
            if not out.ok and not calls:
                seen["failed"] = True
            elif seen["failed"]:
                sim.probe["rediscovered_after_failure"] += 1
        if calls:
            seen["discovered"] += 1
        if out.ok:
            eq(len(calls), 1, "one call does not make exactly one request to its route", **d)
        for r in calls:
            eq([r.method, r.base, r.path], ["GET", base, path], "a request does not go to the advertised route", url=r.url, **d)
            eq(sorted(r.query), sorted(params + own), "a request does not carry exactly the parameters of the call", url=r.url, **d)
            eq(r.headers.get("Accept"), accept, "a request does not ask for the right media type", url=r.url, **d)
        if out.ok and not c.op_faults:
            moved = [r for r in log[c.idx]]
            eq(json.loads(out.value.text).get("answer"), moved[-1].url, "the answer is not the one of the request", **d)
            want = json.loads(out.value.text)["pages"]
            read = sim.call(lambda: parse_pagination(out.value.headers))
            if not read.ok:
                raise Violation("the page links of an answer cannot be read", link=out.value.headers.get("Link"), error=read.describe())
            eq(read.value._asdict(), {r: want.get(r) for r in ("prev", "next", "last", "current", "first")},
               "the page links of an answer are not those sent", link=out.value.headers.get("Link"))
            sim.probe["page_links"] += bool(want)
            sim.probe["no_page_links"] += not want
        style = plan["routes"][route]["style"]
        sim.probe["other_host"] += style == "other"
        sim.probe["relative_route"] += style in ("rel", "reldot")
        sim.probe["route_parameters"] += bool(own)
        sim.probe["range_ref"] += bool(op.get("ref")) and len(op["ref"]["v"]) == 2
        sim.probe["tuple_ref"] += bool(op.get("ref")) and op["ref"]["as"] == "tuple"
        sim.probe["shared"] += len(plan["clients"]) > 1

    def body(ops):
        def run(c):
            for op in ops:
                one(c, op)
            for op in ops:
                one(c, {k: v for k, v in op.items() if k != "faults"})
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]])
    return {"checks": checks[0], "nontrivial": checks[0] > 0}
