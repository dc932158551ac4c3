"""Small models of the value objects of the library: URNs and references."""
from ..core import Violation

PARTS = ["urn_namespace", "namespace", "textgroup", "work", "version", "reference"]
WORDS = ["Arma", "Ἄειδε", "1879", "mot", "été", "M.", "δ᾽", "a.b.c", "l'an", "et al."]


class Checker(object):
    def __init__(self, sim):
        self.sim, self.checks = sim, 0

    def eq(self, got, want, what, **d):
        self.checks += 1
        if got != want or type(got) is bool and type(want) is not bool:
            raise Violation(what, got=got, expected=want, **d)

    def attempt(self, op, fn, what):
        self.sim.begin_op({k: v for k, v in op.items() if isinstance(v, (str, int, bool))})
        out = self.sim.call(fn)
        if not out.ok:
            self.checks += 1
            raise Violation("%s failed" % what, op=op, error=out.describe())
        return out.value

    def refused(self, op, fn, what, errors=()):
        self.sim.begin_op({k: v for k, v in op.items() if isinstance(v, (str, int, bool))})
        out = self.sim.call(fn)
        self.checks += 1
        if out.ok:
            raise Violation(what, op=op, got=str(out.value))
        if errors and not isinstance(out.exc, errors):
            raise Violation(what + " without the documented error", op=op, error=out.describe())
        self.sim.probe["refused"] += 1


# -- references ----------------------------------------------------------------------------

def gen_single(rng, depth, words=0.3):
    """[[levels], [word, counter] or None]"""
    w = None
    if rng.random() < words:
        w = [rng.choice(WORDS), rng.choice([None, 1, 2, 12])]
    return [[rng.choice(["1", "2", "3", "10", "pr", "1a", "12"]) for _ in range(depth)], w]


def gen_ref(rng, words=0.3):
    """[start] or [start, end]"""
    d = rng.randrange(1, 5)
    if rng.random() < 0.5:
        return [gen_single(rng, d, words)]
    return [gen_single(rng, d, words), gen_single(rng, d if rng.random() < 0.7 else rng.randrange(1, 5), words)]


def word_text(w):
    return "" if w is None else "@" + w[0] + ("" if w[1] is None else "[%d]" % w[1])


def single_text(s):
    return ".".join(s[0]) + word_text(s[1])


def ref_text(r):
    return "-".join(single_text(s) for s in r)


def ref_key(r):
    return (single_text(r[0]), single_text(r[1]) if len(r) > 1 else None)


def parent(r):
    """Model of the parent of a reference; False where it has no defined meaning."""
    depths = {len(s[0]) for s in r}
    if depths == {1}:
        return None
    if len(r) == 1:
        return [[r[0][0][:-1], r[0][1]]]
    if len(depths) > 1 and 1 in depths:
        return False
    up = [[s[0][:-1], s[1]] for s in r]
    if up[0][0] == up[1][0] and up[0][1] is None and up[1][1] is None:
        return [up[0]]
    return up


def make_ref(r, how):
    from MyCapytain.common.reference import CtsReference
    a, b = ref_key(r)
    if how == "tuple":
        return CtsReference((a, b))
    if how == "pair" and b is not None:
        return CtsReference(a, b)
    if how == "parts" and b is not None:
        return CtsReference(CtsReference(a).start, CtsReference(b).start)
    return CtsReference(ref_text(r))


def check_single(k, o, s, **w):
    k.eq(str(o), single_text(s), "the text of one end of a reference is not the one it was given", **w)
    k.eq(list(o.list), s[0], "the levels of a reference are not those it was given", **w)
    k.eq(list(o), s[0], "the levels of a reference are not those it was given", **w)
    k.eq((o.depth, len(o)), (len(s[0]), len(s[0])), "the depth of one end of a reference is not its number of levels", **w)
    check_word(k, o.subreference, s[1], **w)


def check_word(k, o, word, **w):
    if word is None:
        k.eq(o, None, "a reference got a word it was not given", **w)
    else:
        k.eq((str(o), o.word, o.counter), (word_text(word), word[0], word[1] or 0), "the word of a reference is not the one it was given", **w)
        k.eq((o.tuple(), list(o)), ((word[0], word[1] or 0), [word[0], word[1] or 0]), "the word of a reference is not the one it was given", **w)


def check_ref(k, o, r, deep=True, **w):
    w = dict(w, ref=ref_text(r))
    k.eq(str(o), ref_text(r), "the text of a reference is not the one it was given", **w)
    check_single(k, o.start, r[0], **w)
    if len(r) > 1:
        check_single(k, o.end, r[1], **w)
        k.eq(o.subreference, None, "a range has a word of its own", **w)
    else:
        k.eq(o.end, None, "a single reference has an end", **w)
        check_word(k, o.subreference, r[0][1], **w)
    k.eq(bool(o.is_range()), len(r) > 1, "a reference is not the range it was given as", **w)
    high = min(r, key=lambda s: len(s[0]))
    k.eq(str(o.highest), single_text(high), "the highest level of a reference is not that of its ends", **w)
    k.eq(o.depth, len(high[0]), "the depth of a reference is not that of its highest level", **w)
    if deep:
        p = parent(r)
        if p is not False:
            got = o.parent
            if p is None:
                k.eq(got, None, "a reference to the first level has a parent", **w)
            else:
                k.eq(got is not None, True, "a reference has no parent", **w)
                check_ref(k, got, p, deep=False, child=ref_text(r))


def same_ref(k, a, ra, b, rb, **w):
    want = ref_key(ra) == ref_key(rb)
    k.eq((a == b, a != b), (want, not want), "two references are not equal exactly when their parts are", a=ref_text(ra), b=ref_text(rb), **w)
    if want:
        k.eq(hash(a) == hash(b), True, "equal references are not found for one another", a=ref_text(ra), **w)


# -- URNs ----------------------------------------------------------------------------

def gen_urn(rng):
    u = {"urn_namespace": "cts", "namespace": rng.choice(["latinLit", "greekLit", "fraLit"]), "textgroup": None, "work": None, "version": None, "reference": None}
    n = rng.choice([0, 1, 2, 2, 3, 3, 3])
    for key in ["textgroup", "work", "version"][:n]:
        u[key] = gen_part(rng, key)
    if n >= 2 and rng.random() < 0.6:
        u["reference"] = gen_ref(rng)
    return u


def gen_part(rng, key):
    if key == "reference":
        return gen_ref(rng)
    return rng.choice({"urn_namespace": ["cts", "cite"], "namespace": ["latinLit", "greekLit", "pdlrefwk"], "textgroup": ["phi1294", "tlg0012", "stoa0040a"],
                       "work": ["phi002", "tlg001", "1st1K001"], "version": ["perseus-lat2", "opp-grc1", "perseus-eng2"]}[key])


def valid(u):
    """What a URN may hold: no part below a missing one, and references below a work."""
    chain = [u["textgroup"], u["work"], u["version"]]
    for a, b in zip(chain, chain[1:]):
        if a is None and b is not None:
            return False
    return u["reference"] is None or u["work"] is not None


def upto(u, key):
    """Partial forms; None where asking raises, False where it is not claimed."""
    base = "urn:%s:%s" % (u["urn_namespace"], u["namespace"])
    chain = [u["textgroup"], u["work"], u["version"]]
    def at(n):
        return base + ":" + ".".join(chain[:n]) if chain[n - 1] else None
    ref = u["reference"]
    body = base + ":" + ".".join(c for c in chain if c)
    if key == "NAMESPACE":
        return base
    if key in ("TEXTGROUP", "WORK", "VERSION"):
        return at({"TEXTGROUP": 1, "WORK": 2, "VERSION": 3}[key])
    if key == "NO_PASSAGE":
        return body if u["work"] else False
    if key == "COMPLETE":
        return (body if u["textgroup"] else base) + (":" + ref_text(ref) if ref else "")
    if not ref:
        return None
    if key == "PASSAGE":
        return body + ":" + ref_text(ref)
    if key == "PASSAGE_START":
        return body + ":" + single_text(ref[0])
    return body + ":" + single_text(ref[1]) if len(ref) > 1 else None


KEYS = ["NAMESPACE", "TEXTGROUP", "WORK", "VERSION", "PASSAGE", "PASSAGE_START", "PASSAGE_END", "NO_PASSAGE", "COMPLETE"]


def check_parts(k, o, u, **w):
    got = {p: getattr(o, p) for p in PARTS[:5]}
    k.eq(got, {p: u[p] for p in PARTS[:5]}, "the parts of a URN are not those it was given", **w)
    if u["reference"] is None:
        k.eq(o.reference, None, "a URN has a reference it was not given", **w)
    else:
        check_ref(k, o.reference, u["reference"], **w)


def check_urn(k, o, u, key=None, **w):
    from MyCapytain.common.reference import URN
    want = upto(u, "COMPLETE")
    w = dict(w, urn=want)
    k.eq(str(o), want, "the text of a URN is not that of its parts", **w)
    check_parts(k, o, u, **w)
    k.eq(len(o), len([1 for p in PARTS[:5] if u[p] is not None]), "the length of a URN is not its number of parts", **w)
    for name in [key] if key else KEYS:
        want = upto(u, name)
        if want is False:
            continue
        if want is None:
            k.refused({"op": "upTo", "key": name}, lambda: o.upTo(getattr(URN, name)), "a partial form of a URN exists without its part", KeyError)
        else:
            got = k.attempt({"op": "upTo", "key": name}, lambda: o.upTo(getattr(URN, name)), "a partial form of a URN")
            k.eq(str(got), want, "a partial form of a URN is not that of its parts", key=name, **w)


def same_urn(k, a, ua, b, ub):
    want = upto(ua, "COMPLETE") == upto(ub, "COMPLETE")
    k.eq((a == b, a != b), (want, not want), "two URNs are not equal exactly when their parts are", a=upto(ua, "COMPLETE"), b=upto(ub, "COMPLETE"))
    la, lb = [len([1 for p in PARTS[:5] if u[p] is not None]) for u in (ua, ub)]
    k.eq((a > b, a < b), (la > lb, la < lb), "two URNs are not compared by their number of parts", a=upto(ua, "COMPLETE"), b=upto(ub, "COMPLETE"))
