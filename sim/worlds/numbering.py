"""Texts whose numbering is at fault, and what is to be said of them."""
import copy
from collections import Counter

from . import library


def levels_of(text):
    """[[lists of numbered siblings of a level]...]"""
    out = [[] for _ in text["levels"]]

    def walk(items, d):
        ns = [it for it in items if "n" in it]
        out[d].append(ns)
        for it in ns:
            if "items" in it:
                walk(it["items"], d + 1)
    walk(text["items"], 0)
    return out


def spoil(rng, text):
    """A copy of a text with a few faults of numbering."""
    t = copy.deepcopy(text)
    lists = levels_of(t)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        d = rng.randrange(len(lists)) if rng.random() < 0.4 else len(lists) - 1
        ns = rng.choice(lists[d])
        if not ns:
            continue
        r, it = rng.random(), rng.choice(ns)
        if r < 0.5:
            it["n"] = rng.choice(ns)["n"]
        elif r < 0.8:
            it["n"] = ""
        elif r < 0.9:
            it["n"] = None
        elif ns[0]["n"] is not None:
            for x in ns[:rng.randrange(2, 5)]:
                x["n"] = ns[0]["n"]
    r = rng.random()
    if r < 0.07:
        t["scope"] = rng.choice(["back", "front", "body/tei:figure"])
    elif r < 0.12:
        t["undeclared"] = True
    return t


def xml(text):
    """The document of such a text."""
    out = library.tei_xml(text)
    if text.get("scope"):
        out = out.replace("/tei:TEI/tei:text/tei:body", "/tei:TEI/tei:text/tei:" + text["scope"])
    if text.get("undeclared"):
        out = out.replace("<refsDecl n=\"CTS\">", "<refsDecl n=\"other\">")
    return out


def found(text, level, ref=None):
    """The paths of the passages of a level, in the order of the text; None when faults above leave that open."""
    paths, sure = [], True

    def walk(items, path):
        nonlocal sure
        ns = [it["n"] for it in items if "n" in it and it["n"] is not None]
        if len(path) + 1 < level and (len(set(ns)) < len(ns) or "" in ns):
            sure = False
        for it in items:
            if "n" not in it or it["n"] is None:
                continue
            p = path + [it["n"]]
            if len(p) == level:
                paths.append(p)
            else:
                walk(it["items"], p)
    walk(text["items"], [])
    if not sure:
        return None
    if ref is not None:
        a = ref.split(".")
        paths = [p for p in paths if p[:len(a)] == a]
    return paths


def faults(paths):
    """(references found several times, number of references without a number)"""
    counts = Counter(".".join(p) for p in paths)
    return {r for r, n in counts.items() if n > 1}, sum(p[-1] == "" for p in paths)
