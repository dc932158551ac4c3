"""CapiTainS repositories on a simulated disk: a generated library laid out over one or more folders."""
from .. import fs as fs_module
from . import library

DISRUPTIVE = fs_module.DISRUPTIVE
ENCODINGS = ["utf-8"] * 8 + ["latin1", "utf16", "bom"]


def gen_world(rng, repos=None, encodings=True, damage=False, **kw):
    """A library, where its texts are, and how its files are written."""
    lib = library.gen_library(rng, **kw)
    n = repos or rng.choice([1, 1, 2, 2, 3])
    w = {"lib": lib, "repos": ["repo%s" % c for c in "bac"[:n]], "place": {}, "enc": {}, "names": {}, "noise": rng.random() < 0.4,
         "ghost": rng.random() < 0.2, "locale": rng.choice(["utf-8", "utf-8", "utf-8", "cp1252"]) if encodings else "utf-8",
         "shuffle": rng.randrange(1, 1 << 30), "online": rng.random() < 0.3}
    for g, wk, t in library.all_texts(lib):
        w["place"][t["urn"]] = [rng.randrange(n)]
        if n > 1 and rng.random() < 0.1:
            other = rng.randrange(n)
            if other not in w["place"][t["urn"]]:
                w["place"][t["urn"]].append(other)
        if encodings:
            w["enc"][t["urn"]] = rng.choice(ENCODINGS)
            w["enc"][wk["urn"]] = rng.choice(ENCODINGS)
            w["enc"][g["urn"]] = rng.choice(ENCODINGS)
    # the names of what several repositories share may be spread over them
    for g in lib["groups"]:
        w["names"][g["urn"]] = [rng.randrange(n) for _ in g["names"]] if rng.random() < 0.3 else None
        for wk in g["works"]:
            w["names"][wk["urn"]] = [rng.randrange(n) for _ in wk["titles"]] if rng.random() < 0.3 else None
    # a repository may describe a work of which it has no text
    w["bare"] = {wk["urn"]: rng.randrange(n) for g in lib["groups"] for wk in g["works"] if n > 1 and rng.random() < 0.15}
    return w


def encode(xml, enc):
    """Bytes of a document in the given encoding, declared when it has to be."""
    head = ""
    if xml.startswith("<?xml"):
        head, xml = xml.split("?>", 1)
        head += "?>"
    if enc == "latin1":
        return ("<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n" + xml.lstrip()).encode("latin-1", "xmlcharrefreplace")
    if enc == "utf16":
        return ("<?xml version=\"1.0\" encoding=\"UTF-16\"?>\n" + xml.lstrip()).encode("utf-16")
    if enc == "bom":
        return b"\xef\xbb\xbf" + (head + xml).encode("utf-8")
    return (head + xml).encode("utf-8")


def last(urn, i):
    return urn.split(":")[3].split(".")[i]


def group_path(repo, g):
    return "%s/data/%s/__cts__.xml" % (repo, last(g["urn"], 0))


def work_path(repo, w):
    return "%s/data/%s/%s/__cts__.xml" % (repo, last(w["urn"], 0), last(w["urn"], 1))


def text_path(repo, t):
    return "%s/data/%s/%s/%s.xml" % (repo, last(t["urn"], 0), last(t["urn"], 1), t["urn"].split(":")[3])


def paths(world, t):
    """The files of a text (more than one when two repositories have it)."""
    return [text_path(world["repos"][i], t) for i in world["place"][t["urn"]]]


def layout(world):
    """{path: bytes} of every repository."""
    out = {}
    lib = world["lib"]
    for ri, repo in enumerate(world["repos"]):
        for g in lib["groups"]:
            works = []
            for w in g["works"]:
                ts = [t for t in w["texts"] if ri in world["place"][t["urn"]]]
                if ts or world.get("bare", {}).get(w["urn"]) == ri:
                    works.append((w, ts))
            if not works:
                continue
            out[group_path(repo, g)] = encode(library.group_xml(dict(g, names=share(world, g, "names", ri)), works=False, root=True),
                                              world["enc"].get(g["urn"]))
            for w, ts in works:
                out[work_path(repo, w)] = encode(
                    library.work_xml(g, dict(w, titles=share(world, w, "titles", ri)), ts, online=world["online"], root=True),
                    world["enc"].get(w["urn"]))
                for t in ts:
                    out[text_path(repo, t)] = encode(library.tei_xml(t), world["enc"].get(t["urn"]))
        if world["noise"]:
            out["%s/README.md" % repo] = b"# noise"
            out["%s/data/.gitkeep" % repo] = b""
            out["%s/data/empty/notes.txt" % repo] = b"<not xml"
            for g in lib["groups"][:1]:
                if group_path(repo, g) in out:
                    out["%s/data/%s/draft/notes.xml" % (repo, last(g["urn"], 0))] = b"<x"
    if world["noise"]:
        out.setdefault("%s/README.md" % world["repos"][0], b"# noise")
    return out


def share(world, x, key, ri):
    """The names of a collection given by one repository; every name is given by one that has the collection."""
    where = world["names"].get(x["urn"])
    if where is None:
        return x[key]
    has = holders(world, x)
    return [v for v, r in zip(x[key], where) if (r if r in has else has[0]) == ri]


def holders(world, x):
    """Repositories which have something of a group or work."""
    urns = [t["urn"] for g, w, t in library.all_texts(world["lib"]) if x["urn"] in (g["urn"], w["urn"])]
    bare = [i for u, i in world.get("bare", {}).items() if u == x["urn"] or u.startswith(x["urn"] + ".")]
    return sorted({i for u in urns for i in world["place"][u]} | set(bare))


def start(sim, world, parse=True, lenient=False, dispatcher=None):
    """Write the repositories and open them; returns (fs, resolver)."""
    fs = fs_module.Fs(sim, shuffle=world["shuffle"])
    fs.locale = world["locale"]
    for p, data in layout(world).items():
        fs.write(p, data)
    return fs, (make(world, lenient, dispatcher) if parse else None)


def folders(world):
    return list(world["repos"]) + (["nowhere"] if world["ghost"] else [])


def resolver_class(lenient=False, **cls):
    from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
    if lenient:
        cls["RAISE_ON_GENERIC_PARSING_ERROR"] = False
    return type("Resolver", (CtsCapitainsLocalResolver,), cls) if cls else CtsCapitainsLocalResolver


def make(world, lenient=False, dispatcher=None):
    return resolver_class(lenient)(folders(world), dispatcher=dispatcher)
