"""Network seam: requests' lowest layer (HTTPAdapter.send) delivers to simulated servers.

Everything above it is real: requests' sessions, redirects, encodings, urllib3's response decoding."""
import io
import json
from urllib.parse import urlsplit, parse_qsl

from .core import current_sim, HarnessError

DISRUPTIVE = ["conn_refused", "conn_reset", "timeout", "http_500", "http_503", "http_404", "http_403",
              "truncated_cl", "truncated", "broken_stream", "garbage", "empty_body",
              "json_error", "json_empty"]
BENIGN = ["redirect", "slow", "gzip", "tiny_chunks"]


class Request(object):
    def __init__(self, prepared):
        u = urlsplit(prepared.url)
        self.url = prepared.url
        self.method = prepared.method
        self.base = "%s://%s" % (u.scheme, u.netloc)
        self.path = u.path
        self.query = parse_qsl(u.query, keep_blank_values=True, encoding="utf-8", errors="strict")
        self.params = dict(self.query)
        self.headers = dict(prepared.headers)


class Reply(object):
    def __init__(self, status=200, body="", ctype=None, headers=None):
        self.status = status
        self.body = body.encode("utf-8") if isinstance(body, str) else body
        self.headers = dict(headers or {})
        if ctype:
            self.headers["Content-Type"] = ctype


class _Body(io.BytesIO):
    """A body that may break in the middle, or arrive in small pieces."""

    def __init__(self, data, break_at=None, piece=None):
        super(_Body, self).__init__(data)
        self.break_at, self.piece = break_at, piece

    def read(self, amt=-1, *a):
        if self.break_at is not None and self.tell() >= self.break_at:
            raise ConnectionResetError(104, "Connection reset by peer (simulated)")
        if amt is None or amt < 0:
            amt = len(self.getbuffer()) - self.tell()
        if self.piece:
            amt = min(amt, self.piece)
        if self.break_at is not None:
            amt = min(amt, self.break_at - self.tell())
        return super(_Body, self).read(amt)

    read1 = read


def _send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    import requests
    from urllib3.response import HTTPResponse
    sim = current_sim()
    net = getattr(sim, "net", None) if sim else None
    if net is None:
        raise HarnessError("network use outside a simulation: %s" % request.url)
    req = Request(request)
    second_leg = req.path.endswith("/__moved")
    if second_leg:
        # second leg of a benign redirect
        fault, req = None, net.moved.pop(req.url)
    else:
        fault = sim.io("net")
    sim.log("net", url=req.url, fault=fault or "")
    sim.pause()
    net.requests += 1
    for h in net.observers if not second_leg else ():
        h(req)
    if fault == "conn_refused":
        sim.fired(fault)
        raise requests.exceptions.ConnectionError("simulated: connection refused", request=request)
    if fault == "conn_reset":
        sim.fired(fault)
        raise requests.exceptions.ConnectionError("simulated: connection reset", request=request)
    if fault == "timeout":
        sim.now += 60.0
        sim.fired(fault)
        raise requests.exceptions.ReadTimeout("simulated: read timed out", request=request)
    if fault == "redirect":
        sim.fired(fault, disruptive=False)
        net.moves += 1
        loc = "%s/m%d/__moved" % (req.base, net.moves)
        net.moved[loc] = req
        reply = Reply(302, "", headers={"Location": loc})
    elif fault in ("http_500", "http_503", "http_404", "http_403"):
        sim.fired(fault)
        reply = Reply(int(fault[5:]), "<html><body><h1>Simulated failure</h1><br></body></html>", "text/html; charset=utf-8")
    elif fault == "garbage":
        sim.fired(fault)
        reply = Reply(200, "<!DOCTYPE html><html><head><meta charset=utf-8><title>Sign in</title></head>"
                           "<body><br>Please sign in to this network & continue</body></html>", "text/html; charset=utf-8")
    elif fault == "empty_body":
        sim.fired(fault)
        reply = Reply(200, "", "text/plain; charset=utf-8")
    elif fault in ("json_error", "json_empty"):
        sim.fired(fault)
        reply = Reply(200, '{"error": "overloaded, try later"}' if fault == "json_error" else "{}", "application/json")
    elif fault == "app_error":
        # the service answers, in its own protocol, that it cannot
        sim.fired(fault)
        reply = net.app_error(req)
    else:
        handler = net.servers.get(req.base)
        if handler is None:
            # a name that does not resolve: also what a wrongly built URL would meet
            net.unknown += 1
            sim.log("net-unknown", url=req.url)
            raise requests.exceptions.ConnectionError("simulated: cannot resolve %s" % req.base, request=request)
        try:
            reply = handler(req)
        except (ValueError, KeyError, TypeError, AttributeError, IndexError) as e:
            # a request the server cannot make sense of
            sim.probe["server_rejected"] += 1
            reply = Reply(400, "bad request: %r" % (e,), "text/plain; charset=utf-8")
    data, headers = reply.body, dict(reply.headers)
    break_at = piece = None
    if fault == "gzip":
        import gzip
        sim.fired(fault, disruptive=False)
        data = gzip.compress(data, mtime=0)
        headers["Content-Encoding"] = "gzip"
    cut = None
    if fault in ("truncated_cl", "truncated", "broken_stream"):
        if len(data) >= 2:
            cut = 1 + sim.keyed("cut", req.url, net.requests).randrange(len(data.rstrip()) - 1)
            sim.fired(fault)
    if fault == "truncated_cl" and cut:
        headers["Content-Length"] = str(len(data))
        data = data[:cut]
    elif fault == "truncated" and cut:
        data = data[:cut]
    elif fault == "broken_stream" and cut:
        break_at = cut
    else:
        headers.setdefault("Content-Length", str(len(data)))
    if fault == "slow":
        sim.fired(fault, disruptive=False)
        sim.pause(5.0)
    if fault == "tiny_chunks":
        sim.fired(fault, disruptive=False)
        piece = 3
    raw = HTTPResponse(body=_Body(data, break_at, piece), headers=headers, status=reply.status,
                       preload_content=False, request_method=request.method, request_url=request.url)
    return adapter.build_response(request, raw)


class Net(object):
    def __init__(self, sim):
        self.sim = sim
        self.servers = {}
        self.requests = 0
        self.unknown = 0
        self.moves = 0
        self.moved = {}
        self.observers = []
        sim.net = self


def install():
    import requests.adapters
    requests.adapters.HTTPAdapter.send = _send
