"""M02: catalogues built, described and pruned by hand."""
from sim.core import Violation
from sim.worlds import tree

META = {
    "runs": {"quick": 6000, "thorough": 150000},
    "rule": "one evaluation = one seeded history of 1-3 clients, possibly interrupting one another inside the library, each building, "
            "describing, looking up and pruning trees of collections in the shared graph; distinct = distinct event trace",
    "real": ["MyCapytain collections, CTS collections, metadata", "rdflib store"],
    "stub": ["thread scheduling"],
    "assumptions": ["an object gets one parent", "an identifier is used again only after its object was deleted"],
    "must_probe": ["plain", "tic", "ti", "tg", "work", "edition", "translation", "commentary", "xml_class", "late_parent", "label", "prop", "link", "delete",
                   "delete_subtree", "delete_deep", "recreated", "refused", "lookup", "preempted", "version", "inherited_lang", "same_again", "linked_member", "link_deleted",
                   "compared", "resource", "dc", "retype"],
}
WORDS = ["Martialis", "Épigrammes", "Ἰλιάς", "A < B", "Carmina", "1879", "de bello Gallico"]
LANGS = ["eng", "lat", "fre", "grc"]


def generate(rng, tier, index):
    count = rng.choice([1, 1, 2, 3])
    clients = []
    for c in range(count):
        ops = []
        for _ in range(rng.randrange(6, 30)):
            ops.append({"op": rng.choice(["new"] * 8 + ["label", "label", "prop", "prop", "link", "version", "lang", "delete", "delete", "lookup", "lookup", "bad",
                                          "again", "dc", "retype"]),
                        "at": rng.randrange(1000), "k": rng.randrange(60), "word": rng.choice(WORDS), "lang": rng.choice(LANGS),
                        "kind": rng.choice(tree.TEXTS), "xml": rng.random() < 0.4, "late": rng.random() < 0.4, "plain": rng.random() < 0.2})
        clients.append(ops)
    pre = {}
    if count > 1:
        pre = {str(i): sorted(rng.randrange(1, 1500) for _ in range(rng.randrange(1, 8))) for i in range(count)}
    return {"clients": clients, "delays": [rng.randrange(1, 20) for _ in range(40)] if count > 1 else [], "preempt": pre}


def execute(plan, sim):
    f = tree.Forest(sim)

    def body(idx, ops):
        roots, dead, serial = [], [], [0]

        def alive():
            return [n for r in roots for n in [r] + r.down()]

        def new_id(kind, parent):
            serial[0] += 1
            i = serial[0]
            if kind in ("plain", "resource"):
                return "http://foo.bar/%d/%d" % (idx, i)
            if kind in ("tic", "ti"):
                return "%s%d.%d" % (kind, idx, i)
            if kind == "tg":
                return "urn:cts:latinLit:phi%d.%d" % (idx, i) if i % 7 == 0 else "urn:cts:latinLit:phi%d%03d" % (idx, i)
            base = parent.id if parent is not None else "urn:cts:greekLit:tlg%d%03d" % (idx, i) + (".tlg001" if kind != "work" else "")
            return base + ".x%d" % i

        def create(op):
            places = [n for n in alive() if n.kind in tree.BELOW]
            pool = [None] + places if len(roots) < 3 else places
            parent = pool[op["at"] % len(pool)]
            if parent is None:
                kind = "plain" if op["plain"] else ["tic", "ti", "tg", "work"][op["k"] % 4]
            else:
                kind = tree.BELOW[parent.kind]
                if kind == "text":
                    kind = op["kind"]
                if kind == "plain" and op["xml"]:
                    kind = "resource"
            oid = new_id(kind, parent)
            if dead and op["k"] % 3 == 0 and any(d.kind == kind for d in dead):
                d = [d for d in dead if d.kind == kind][0]
                dead.remove(d)
                oid = d.id
                sim.probe["recreated"] += 1
            lang = op["lang"] if kind in tree.TEXTS else None
            late = op["late"] and parent is not None
            given = lang
            if kind in tree.TEXTS and not late and parent is not None and parent.lang and op["k"] % 4 == 0:
                given, lang = None, parent.lang
                sim.probe["inherited_lang"] += 1
            o = f.attempt(op, lambda: tree.make(kind, oid, None if late or parent is None else parent.obj, given, op["xml"]), "making a collection")
            if late:
                def attach():
                    o.parent = parent.obj
                f.attempt(op, attach, "giving a collection its parent")
                sim.probe["late_parent"] += 1
            n = tree.Node(kind, oid, o, parent, lang)
            if parent is None:
                roots.append(n)
            else:
                parent.children[oid] = n
            sim.probe[kind] += 1
            sim.probe["xml_class"] += op["xml"]
            return n

        def describe(op, n):
            kind, word, lang = op["op"], op["word"], op["lang"]
            if kind == "label":
                f.attempt(op, lambda: n.obj.set_label(word, lang), "labelling a collection")
                add(f.labels, n.id, (lang, word))
                sim.probe["label"] += 1
            elif kind == "version":
                def set_version():
                    n.obj.version = word
                f.attempt(op, set_version, "giving a version to a collection")
                f.version[n.id] = word
                sim.probe["version"] += 1
            elif kind == "lang" and n.kind in ["work", "resource"] + tree.TEXTS:
                def set_lang():
                    n.obj.lang = lang
                f.attempt(op, set_lang, "giving a language to a collection")
                n.lang = lang
            elif kind == "dc" and n.kind == "resource":
                from rdflib.namespace import DC
                term = tree.DC[op["k"] % 4]
                f.attempt(op, lambda: n.obj.metadata.add(DC[term], word, lang), "describing a resource")
                add(f.dc.setdefault(n.id, {}), term, (lang, word))
                sim.probe["dc"] += 1
            elif kind == "retype":
                from rdflib import URIRef
                what = ["type", "model"][op["k"] % 2]
                value = tree.DTS + ["resource", "collection", "serie"][op["at"] % 3]
                f.attempt(op, lambda: setattr(n.obj, what, value if op["late"] else URIRef(value)), "saying what a collection is")
                setattr(n, what, value)
                sim.probe["retype"] += 1
            elif kind == "prop" and n.kind in tree.LABEL:
                prop = tree.LABEL[n.kind] if op["k"] % 3 else "description"
                if op["k"] % 7 == 3:
                    lang = ""       # a property can be given without saying in which language it is
                # each language has one value
                if not any(l == lang for l, _ in f.props.get(n.id, {}).get(prop, [])):
                    f.attempt(op, lambda: n.obj.set_cts_property(prop, word, lang or None), "giving a property to a collection")
                    f.props.setdefault(n.id, {})
                    add(f.props[n.id], prop, (lang, word))
                    if prop == tree.LABEL[n.kind]:
                        add(f.labels, n.id, (lang, word))
                    sim.probe["prop"] += 1
                for l, v in f.props[n.id][prop]:
                    if not l:
                        continue
                    f.eq(str(n.obj.get_cts_property(prop, l)), v, "a property of a collection is not the one it was given", id=n.id, prop=prop, lang=l)
                f.eq(sorted((l or "", str(v)) for l, v in n.obj.get_cts_property(prop).items()), sorted(f.props[n.id][prop]),
                     "a property of a collection is not the one it was given", id=n.id, prop=prop)
            elif kind == "link" and n.kind == "commentary":
                urn = "urn:cts:latinLit:phi%d" % op["k"]
                others = [x for x in alive() if x.kind in tree.TEXTS and x is not n]
                if others and op["k"] % 3:
                    urn = others[op["k"] % len(others)].id
                    sim.probe["linked_member"] += 1
                f.attempt(op, lambda: n.obj.set_link(f.cts("about"), urn), "linking a collection")
                if urn not in f.links.setdefault(n.id, []):
                    f.links[n.id].append(urn)
                sim.probe["link"] += 1

        def add(d, key, value):
            if value not in d.setdefault(key, []):
                d[key].append(value)

        def remove(op):
            ns = [n for n in alive() if n.parent is not None]
            if not ns:
                return
            n = ns[op["at"] % len(ns)]
            up = n.up()
            start = up[op["k"] % len(up)]
            sim.probe["delete_deep"] += start is not n.parent
            sim.probe["delete_subtree"] += bool(n.children)
            def delete():
                del start.obj[n.id]
            f.attempt(op, delete, "deleting a collection")
            del n.parent.children[n.id]
            sim.probe["delete"] += 1
            for d in (f.labels, f.props, f.links, f.version, f.dc):
                d.pop(n.id, None)
            for links in f.links.values():              # nothing leads to what was deleted
                sim.probe["link_deleted"] += n.id in links
                links[:] = [u for u in links if u != n.id]
            left = list(n.obj.graph.predicate_objects(n.obj.asNode()))
            f.eq(left, [], "the description of a deleted collection remains", id=n.id)
            f.eq([str(s) for s in n.obj.graph.subjects(None, n.obj.asNode())], [], "something still leads to a deleted collection", id=n.id)
            if not n.children:
                dead.append(n)
            for x in [start] + start.down():
                f.lookup(x, n.id)

        def run(c):
            for op in ops:
                kind = op["op"]
                ns = alive()
                if kind == "new" or not ns:
                    n = create(op)
                    f.shape(n)
                    if n.parent is not None:
                        f.shape(n.parent)
                elif kind in ("label", "prop", "link", "version", "lang", "dc", "retype"):
                    describe(op, ns[op["at"] % len(ns)])
                elif kind == "delete":
                    remove(op)
                elif kind == "lookup":
                    a, b = ns[op["at"] % len(ns)], ns[op["k"] % len(ns)]
                    f.lookup(a, b.id)
                    f.lookup(a.root(), b.id)
                    if a.kind in tree.WITH_URN and b.kind in tree.WITH_URN:
                        f.eq((a.obj == b.obj, a.obj != b.obj), (a is b, a is not b), "collections are equal though their URNs differ, or differ from themselves",
                             id=a.id, other=b.id)
                        sim.probe["compared"] += 1
                    sim.probe["lookup"] += 1
                elif kind == "bad":
                    from MyCapytain.errors import UnknownCollection
                    n = ns[op["at"] % len(ns)]
                    others = [x.id for x in ns if x not in [n] + n.down()] + [n.id + ".nothing", n.id[:-1], ""]
                    oid = others[op["k"] % len(others)]
                    if oid in [x.id for x in [n] + n.down()]:
                        continue
                    f.lookup(n, oid)
                    def delete():
                        del n.obj[oid]
                    f.refused(op, delete, "a collection which is not there is deleted", UnknownCollection)
                elif kind == "again":
                    # what a parent already has is not added twice
                    n = ns[op["at"] % len(ns)]
                    if n.parent is not None:
                        def attach():
                            n.obj.parent = n.parent.obj
                        f.attempt(op, attach, "giving a collection its parent")
                        sim.probe["same_again"] += 1
                n = ns[op["k"] % len(ns)] if ns else None
                if n is not None and n in alive():
                    f.shape(n)
                    f.described(n)
            for r in roots:
                f.whole(r)
            sim.probe["preempted"] += bool(c.preempt and c.lines > min(c.preempt))
        return run
    sim.run_clients([body(i, ops) for i, ops in enumerate(plan["clients"])], preempt=plan.get("preempt"))
    return {"checks": f.checks, "nontrivial": f.checks > 0}
