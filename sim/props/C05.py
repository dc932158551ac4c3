"""C05: CTS requests on the wire."""
from sim import net
from sim.core import Violation
from sim.net import Reply

META = {
    "runs": {"quick": 8000, "thorough": 200000},
    "rule": "one evaluation = one seeded run of 1-3 concurrent clients sharing a retriever; every request that reaches the "
            "simulated server is compared with the one the call should make and every reply with the one sent; distinct = distinct event trace",
    "real": ["MyCapytain CTS retriever", "requests", "urllib3 response decoding"],
    "stub": ["the CTS server (echoes a generated document)", "sockets", "clock"],
    "assumptions": ["replies are UTF-8 unless their content type says otherwise"],
    "must_probe": ["inventory", "own_inventory", "endpoint_parameters", "level", "context", "failed_by_fault", "shared", "relative_level",
                   "reply"],
}

URNS = ["urn:cts:latinLit:phi1294.phi002.perseus-lat2", "urn:cts:latinLit:phi1294", "urn:cts:greekLit:tlg0012.tlg001.a b+c:1.2@é[1]-1.3",
        "urn:cts:farsiLit:hafez.divan.perseus-far1:1.1", "urn:x:a&b=c#d%20", "詩:1"]
REFS = ["1", "1.pr", "1.2.3", "1.1-1.5", "1.α@μῆνιν[1]", "2-4"]
INVS = ["inv1", "défaut & co", "a+b=c", "0"]
BODIES = ["<r>Ἰλιάς &amp; arma</r>", "<r>\n  x\r\n</r>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?><r>é詩</r>", "<r/>", "<r>plain</r>",
          "<r>" + "μῆνιν ἄειδε θεὰ " * 40 + "</r>", "<r>ÃŽ mojibake Ã©</r>"]
TYPES = ["text/xml; Charset=ISO-8859-1", "text/xml; charset=utf-8", "application/xml", "text/xml", None, "text/xml; charset=ISO-8859-1", "application/xml;charset=\"utf-8\""]
METHODS = ["getCapabilities", "getValidReff", "getFirstUrn", "getPrevNextUrn", "getLabel", "getPassage", "getPassagePlus",
           "getMetadata", "getTextualNode", "getSiblings", "getReffs", "call"]


def generate(rng, tier, index):
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(1, 8)):
            m = rng.choice(METHODS)
            op = {"op": m, "urn": rng.choice(URNS), "body": rng.randrange(len(BODIES)), "type": rng.randrange(len(TYPES))}
            if m in ("getCapabilities", "getMetadata") and rng.random() < 0.4:
                op["urn"] = None
            if m not in ("getTextualNode", "getSiblings", "getReffs") and rng.random() < 0.35:
                op["inv"] = rng.choice(INVS)
            if m == "getValidReff" and rng.random() < 0.7 or m == "getReffs":
                op["level"] = rng.choice([1, 1, 2, 3, 12])
            if m in ("getPassage", "getPassagePlus") and rng.random() < 0.5:
                op["context"] = rng.choice([0, 1, 2, 11])
            if m == "getSiblings" or m in ("getTextualNode", "getReffs") and rng.random() < 0.6:
                op["ref"] = rng.choice(REFS)
                op["as"] = rng.choice(["str", "cts"])
            if m == "getTextualNode":
                op["prevnext"], op["metadata"] = rng.random() < 0.4, rng.random() < 0.4
            if rng.random() < 0.3:
                op["faults"] = {str(rng.randrange(2)): rng.choice(net.DISRUPTIVE + net.BENIGN * 2)}
            ops.append(op)
        clients.append(ops)
    return {"endpoint": rng.choice(["http://cts.sim/api/cts", "http://cts.sim/cts/", "http://cts.sim/remote.xq?fmt=xml&k=a%20b",
                                    "http://cts.sim"]),
            "inv": rng.choice([None, None] + INVS), "clients": clients,
            "delays": [rng.randrange(1, 40) for _ in range(60)] if len(clients) > 1 else []}


def expected(plan, op):
    from urllib.parse import parse_qsl, urlsplit
    u = urlsplit(plan["endpoint"])
    p = dict(parse_qsl(u.query))
    name, urn = op["op"], op["urn"]
    deep = len(op["ref"].split("-")[0].split("@")[0].split(".")) if "ref" in op else 0
    if name == "getMetadata":
        name = "getCapabilities"
    elif name == "getTextualNode":
        name = "getPassagePlus" if op["prevnext"] or op["metadata"] else "getPassage"
    elif name == "getSiblings":
        name = "getPrevNextUrn"
    elif name == "getReffs":
        name = "getValidReff"
    elif name == "call":
        p["extra"] = "1"
        name = "getLabel"
    p["request"] = "G" + name[1:]
    if urn is not None:
        p["urn"] = urn + (":" + op["ref"] if "ref" in op else "")
    inv = op.get("inv", plan["inv"])
    if inv is not None:
        p["inv"] = inv
    if "level" in op:
        p["level"] = str(op["level"] + deep)        # levels of getReffs are counted from the passage
    if "context" in op:
        p["context"] = str(op["context"])
    return (u.path or "/"), sorted(p.items())


def execute(plan, sim):
    from MyCapytain.retrievers.cts5 import HttpCtsRetriever
    from MyCapytain.common.reference import CtsReference
    from sim.core import current_client
    n = net.Net(sim)
    retriever = HttpCtsRetriever(plan["endpoint"], inventory=plan["inv"])
    seen = {}
    checks = [0]

    def server(req):
        op = current_client().op
        body, ctype = BODIES[op["body"]], TYPES[op["type"]]
        enc = "utf-8"
        if ctype and "8859" in ctype:
            enc = "latin-1"
        return Reply(200, body.encode(enc, "replace"), ctype)

    def observe(req):
        seen.setdefault(current_client().idx, []).append((req.method, req.base, req.path, sorted(req.query)))
    n.servers["http://cts.sim"] = server
    n.observers.append(observe)

    def invoke(op):
        m = getattr(retriever, op["op"])
        kw = {}
        if "inv" in op:
            kw["inventory"] = op["inv"]
        for a in ("level", "context", "prevnext", "metadata"):
            if a in op:
                kw[a] = op[a]
        if op["op"] == "call":
            p = {"request": "GetLabel", "urn": op["urn"], "extra": 1, "nothing": None}
            if "inv" in op:
                p["inv"] = op["inv"]
            return m(p)
        if op["op"] == "getCapabilities":
            return m(urn=op["urn"], **kw)
        if op["op"] == "getMetadata":
            return m(op["urn"], **kw)
        if "ref" in op:
            ref = op["ref"] if op["as"] == "str" else CtsReference(op["ref"])
            if op["op"] == "getSiblings":
                return m(op["urn"], ref)
            return m(op["urn"], subreference=ref, **kw)
        return m(op["urn"], **kw)

    def body(ops):
        def run(c):
            for op in ops:
                sim.begin_op(op)
                seen[c.idx] = []
                out = sim.call(lambda: invoke(op))
                want = expected(plan, op)
                shown = {k: v for k, v in op.items() if k != "faults"}
                got = seen[c.idx]
                checks[0] += 1
                if got != [("GET", "http://cts.sim", want[0], want[1])]:
                    raise Violation("a call does not make exactly the request it stands for", op=shown, got=got, expected=want,
                                    outcome=out.describe())
                if c.op_faults:
                    hit = sorted(set((op.get("faults") or {}).values()))
                    # what a retriever can notice: transport errors and error statuses
                    if out.ok and any(f.startswith(("conn", "timeout", "http_", "truncated_cl", "broken")) for f in hit):
                        raise Violation("a failed request is not reported", op=op)
                    sim.probe["failed_by_fault"] += not out.ok
                else:
                    if not out.ok:
                        raise Violation("a request which was answered fails", op=shown, error=out.describe())
                    text, ctype = BODIES[op["body"]], TYPES[op["type"]]
                    if ctype and "8859" in ctype:
                        text = text.encode("latin-1", "replace").decode("latin-1")
                    if out.value != text:
                        raise Violation("a reply is not given as it was sent", op=shown, got=out.value, expected=text, type=ctype)
                    sim.probe["reply"] += 1
                q = dict(want[1])
                sim.probe["inventory"] += "inv" in q
                sim.probe["own_inventory"] += "inv" in op and plan["inv"] is not None
                sim.probe["endpoint_parameters"] += "fmt" in q
                sim.probe["level"] += "level" in op
                sim.probe["relative_level"] += "level" in op and "ref" in op
                sim.probe["context"] += "context" in op
                sim.probe["shared"] += len(plan["clients"]) > 1
        return run
    sim.run_clients([body(ops) for ops in plan["clients"]])
    return {"checks": checks[0], "nontrivial": checks[0] > 0}
