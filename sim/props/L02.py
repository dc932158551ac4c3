"""L02: one bad file of a repository does not spoil the others."""
import re

from lxml import etree
from sim.core import Violation
from sim.worlds import library, localread, simrepo
from sim.worlds.catalog import Catalog

META = {
    "runs": {"quick": 6000, "thorough": 150000},
    "rule": "one evaluation = one seeded run that damages some files of generated repositories or makes them unreadable while they are "
            "opened, strictly or leniently, and compares what is left with what the intact files say; distinct = distinct event trace",
    "real": ["MyCapytain local resolver, collections, texts", "lxml", "rdflib"],
    "stub": ["file opens and directory listings (real scratch files, simulated order, faults and locale)"],
    "assumptions": ["directory listings themselves do not fail", "a file is damaged or unreadable for a whole opening"],
    "must_probe": ["strict", "lenient", "raised", "bad_text", "bad_group", "bad_work", "bad_semantic", "hit_text", "hit_metadata",
                   "nothing_bad", "read_good", "read_bad", "repaired", "uncited", "halfcite"],
}
TEXT = ["missing", "empty", "truncated", "garbage", "nocite", "halfcite", "binary"]
META_ = ["missing", "empty", "truncated", "garbage", "binary", "semantic"]


def generate(rng, tier, index):
    world = simrepo.gen_world(rng, groups=3, works=2, texts=2, small=True, sm=False, extras=False)
    files = sorted(p for p in simrepo.layout(world) if p.endswith(".xml") and "/draft/" not in p)
    damage = {}
    for p in rng.sample(files, min(len(files), rng.choice([0, 1, 1, 2, 3]))):
        damage[p] = [rng.choice(META_ if p.endswith("__cts__.xml") else TEXT), rng.random()]
    if rng.random() < 0.5:
        damage = {p: d for p, d in damage.items() if not p.endswith("__cts__.xml")}
    op = {"op": "open", "lenient": rng.random() < 0.6, "order": rng.randrange(1 << 20)}
    if rng.random() < 0.4:
        op["faults"] = {str(rng.randrange(8)): rng.choice(simrepo.DISRUPTIVE) for _ in range(rng.choice([1, 1, 2]))}
    return {"world": world, "damage": damage, "clients": [[op]], "delays": []}


def wellformed(data):
    try:
        etree.fromstring(data)
    except etree.XMLSyntaxError:
        return False
    return True


def spoil(data, kind, x):
    """The damaged content of a file (None: no file)."""
    if kind == "missing":
        return None
    if kind == "empty":
        return b""
    if kind == "truncated":
        return data.rstrip()[:max(1, int((len(data.rstrip()) - 3) * x))]
    if kind == "garbage":
        for at in (len(data) // 2, len(data.rstrip()) - 1):
            bad = data[:at] + b"<<&" + data[at:]
            if not wellformed(bad):  # what was written into a comment does no harm
                return bad
    if kind == "binary":
        return b"\x89PNG\x00\xff\xfe" + data[:40]
    u16 = data[:2] in (b"\xff\xfe", b"\xfe\xff")
    s = data.decode("utf-16" if u16 else "latin-1")
    if kind == "nocite":
        s = s.replace("n=\"CTS\"", "n=\"other\"")
    elif kind == "halfcite":
        # the pattern of one of the levels is lost
        at = [m.end() for m in re.finditer(r"replacementPattern=[\"']", s)]
        i = at[int(x * len(at))]
        s = s[:i] + "#xpath()" + s[s.index(s[i - 1], i):]
    else:
        # the last urn of the file is forgotten: a text without identity (or a group, when it has no works)
        i = s.rindex(" urn=")
        s = s[:i] + " nourn=" + s[i + 5:]
    return s.encode("utf-16" if u16 else "latin-1")


def execute(plan, sim):
    world = plan["world"]
    lib = world["lib"]
    k = localread.Checker(sim, world)
    cat = Catalog(k, sim)
    fs, _ = simrepo.start(sim, world, parse=False)
    good = simrepo.layout(world)
    for p, (kind, x) in plan["damage"].items():
        if p not in good:
            continue
        data = spoil(good[p], kind, x)
        if data is None:
            fs.remove(p)
        else:
            fs.write(p, data)
        which = "bad_text" if not p.endswith("__cts__.xml") else ("bad_group" if p.count("/") == 3 else "bad_work")
        sim.probe[which] += 1
        sim.probe["bad_semantic"] += kind == "semantic"
        sim.probe["halfcite"] += kind == "halfcite"

    def expected(bad):
        """What the intact metadata files say: [(group, [(work, [texts])])], and the files of every text."""
        out, files = [], {}
        for g in lib["groups"]:
            works, seen, names = [], False, []
            for ri, repo in enumerate(world["repos"]):
                p = simrepo.group_path(repo, g)
                if p not in good or p in bad:
                    continue
                seen = True
                names += [n for n in simrepo.share(world, g, "names", ri) if n not in names]
                for w in g["works"]:
                    q = simrepo.work_path(repo, w)
                    if q not in good or q in bad:
                        continue
                    found = [x for x in works if x[0]["urn"] == w["urn"]]
                    if not found:
                        found = [(dict(w, titles=[]), [])]
                        works.append(found[0])
                    found[0][0]["titles"] += [n for n in simrepo.share(world, w, "titles", ri) if n not in found[0][0]["titles"]]
                    for t in w["texts"]:
                        if ri in world["place"][t["urn"]]:
                            files.setdefault(t["urn"], []).append(simrepo.text_path(repo, t))
                            if t["urn"] not in [x["urn"] for x in found[0][1]]:
                                found[0][1].append(t)
            if seen:
                out.append((dict(g, names=names), works))
        return out, files

    def compare(resolver, bad, leaked):
        """The catalogue is what the intact files say."""
        want, files = expected(bad)
        inv = resolver.inventory.children["default"]
        k.eq(sorted(inv.children), sorted(g["urn"] for g, _ in want), "the text groups are not those of the readable files")
        for g, works in want:
            o = inv.children[g["urn"]]
            k.eq(sorted(o.children), sorted(w["urn"] for w, _ in works), "the works are not those of the readable files", id=g["urn"])
            if g["urn"] not in leaked:
                cat.values(o, "groupname", g["names"], True, {"id": g["urn"]})
            for w, ts in works:
                x = o.children[w["urn"]]
                k.eq(sorted(x.children), sorted(t["urn"] for t in ts), "the texts are not those of the readable files", id=w["urn"])
                if w["urn"] not in leaked:
                    cat.values(x, "title", w["titles"], True, {"id": w["urn"]})
            # narrowed catalogues hold the texts which have a scheme
            narrowed = {}
            for w, ts in works:
                cited = [t["urn"] for t in ts if o.children[w["urn"]].children[t["urn"]].citation is not None]
                if cited:
                    narrowed[w["urn"]] = cited
                    narrowed[g["urn"]] = narrowed.get(g["urn"], []) + cited
            for u, cited in sorted(narrowed.items()):
                k.eq(sorted(y.id for y in resolver.getMetadata(u).readableDescendants), sorted(cited),
                     "the texts under a collection are not those of the readable files", id=u)
        k.eq(sorted(x.id for x in resolver.texts), sorted(files), "the texts are not those of the readable files")
        for x in resolver.texts:
            k.eq(x.path is not None and __import__("os").path.normpath(x.path) in files[x.id], True,
                 "a text does not lead to a file of its own", id=x.id, path=x.path)
        return files

    def body(c):
        op = plan["clients"][0][0]
        fs.shuffle = op["order"]
        invalid = []

        def clean(self, texts):
            invalid.extend(sorted({t.id for t in texts}))
        cls = simrepo.resolver_class(op["lenient"], _clean_invalids=clean)
        sim.begin_op(op)
        fs.hits = []
        out = sim.call(lambda: cls(simrepo.folders(world)))
        hit = {p for p, _ in fs.hits}
        spoilt = {p for p, d in plan["damage"].items() if p in good}
        meta = {p for p in spoilt | hit if p.endswith("__cts__.xml")}
        sim.probe["hit_metadata"] += any(p.endswith("__cts__.xml") for p in hit)
        sim.probe["hit_text"] += any(not p.endswith("__cts__.xml") for p in hit)
        sim.probe["nothing_bad"] += not (spoilt or hit)
        sim.probe["lenient" if op["lenient"] else "strict"] += 1
        # a metadata file which is not there is simply not seen (and those below a group without one neither)
        visible = set()
        for p in meta:
            if p in spoilt and plan["damage"][p][0] == "missing":
                continue
            group = "/".join(p.split("/")[:3]) + "/__cts__.xml"
            if p == group or group not in meta:
                visible.add(p)
        k.checks += 1
        if not op["lenient"] and visible:
            if out.ok:
                raise Violation("a metadata file which cannot be read is silently ignored", files=sorted(visible))
            sim.probe["raised"] += 1
            resolver = None
        elif not out.ok:
            raise Violation("a bad file prevents repositories from being opened", lenient=op["lenient"], files=sorted(spoilt | hit),
                            error=out.describe())
        else:
            resolver = out.value
        sim.begin_op({"op": "check"})
        leaked = {u for p, d in plan["damage"].items() if d[0] == "semantic"
                  for g in lib["groups"] for u in [g["urn"]] + [w["urn"] for w in g["works"]]}
        if resolver is not None:
            files = compare(resolver, meta, leaked)
            bad_texts = []
            for u, ps in files.items():
                bad = [p for p in ps if p in spoilt | hit]
                if len(bad) == len(ps):
                    bad_texts.append(u)
                elif bad:
                    bad_texts.append(None)      # readable in one of its repositories
            if None not in bad_texts:
                k.eq(sorted(invalid), sorted(bad_texts), "the texts reported as invalid are not those whose file is")
            for u, ps in sorted(files.items()):
                t = k.text(u)
                out = sim.call(lambda: resolver.getTextualNode(u))
                k.checks += 1
                broken = [p in spoilt for p in ps]
                if out.ok:
                    if all(broken) and "halfcite" not in [plan["damage"][p][0] for p in ps]:
                        raise Violation("the content of a damaged file is returned", id=u, damage=[plan["damage"][p] for p in ps])
                    k.eq(out.value.export("text/plain").split(), library.header_words(t) + library.words(t),
                         "the content of an intact file is not returned", id=u)
                    sim.probe["read_good"] += 1
                else:
                    if not any(broken):
                        raise Violation("an intact file cannot be read", id=u, error=out.describe(), damage=plan["damage"])
                    sim.probe["read_bad"] += 1
                if not any(broken) and not any(p in hit for p in ps):
                    cat.citation(resolver.getMetadata()[u].citation, t, {"id": u})
                elif all(p in spoilt or p in hit for p in ps):
                    # nothing of a scheme which cannot be read
                    if world["online"]:
                        cat.citation(resolver.getMetadata()[u].citation, t, {"id": u})
                    else:
                        k.eq(resolver.getMetadata()[u].citation is None, True, "a text whose file is bad has a citation scheme", id=u)
                        sim.probe["uncited"] += 1
        # once repaired, everything is there
        for p in spoilt:
            fs.write(p, good[p])
        out = sim.call(lambda: simrepo.make(world))
        k.checks += 1
        if not out.ok:
            raise Violation("repaired repositories cannot be opened", error=out.describe())
        compare(out.value, set(), leaked)
        sim.probe["repaired"] += bool(spoilt)
    sim.run_clients([body])
    return {"checks": k.checks, "nontrivial": k.checks > 0}
