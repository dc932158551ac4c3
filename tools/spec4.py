# Objects built by hand, merged, exported and read back (executed by spec.py)
META_ = R + "common/metadata.py"
PROTO = R + "resources/prototypes/metadata.py"
CTSP = R + "resources/prototypes/cts/inventory.py"
prop("M01", "Metadata of an object are exactly what was recorded for it",
     "Whatever is set, added, removed or unlinked through any handle on the metadata of an object, the object holds exactly the values "
     "recorded and not removed: every value of a key with its language or type, and a single value in the language asked for when there is "
     "one. Exports (JSON, RDF, JSON-LD, XML), whole, limited to or without some namespaces or keys, hold exactly those values, and change "
     "nothing. Operations on one object never change another one, also when threads interrupt one another.",
     ["histories", "schedules", "inputs"],
     "every history of operations on objects of the shared graph, by any interleaving of threads",
     "All objects share one process-wide graph, so each call depends on everything recorded before; tests do a few calls on one object.",
     [META_, R + "common/constants.py"],
     [("metadata over the shared graph", META_), ("shared graph", R + "common/constants.py")],
     "Seeded histories compared with a map per object after every step.",
     [("get_graph()", "the graph shared by all objects")])
prop("M02", "A tree of collections holds what was put in it and loses only what is deleted",
     "However collections (plain ones, inventories, text groups, works, texts) are made, attached, described and deleted, each one lists "
     "exactly its members in order, its parents, descendants and texts, finds each descendant by its identifier and nothing else, and keeps "
     "exactly the labels, properties and links given to it. Deleting a descendant removes it, its own description and the links to it only; an unknown "
     "identifier raises UnknownCollection and changes nothing. Collections with a URN are equal exactly when their URNs are.",
     ["histories", "schedules", "inputs"],
     "every sequence of construction, description, lookup and deletion, by any interleaving of threads",
     "The answers depend on the whole history of the shared graph; tests build one small tree and delete nothing.",
     [PROTO, CTSP, R + "resources/collections/cts.py"],
     [("collections", PROTO), ("CTS collections", CTSP)],
     "Random trees next to a small reference model, every node compared.",
     [("get_graph()", "the graph shared by all objects")])
prop("M03", "Merging catalogues gives the union, once, and leaves the merged copy alone",
     "Merging text groups of one URN gives a group with every work and text of both, each once, under its right parents and with its citation "
     "scheme and description; merging works gives the union of their texts. The group merged in keeps its own works, and later changes of either do not "
     "show in the other. Merging again or with itself changes nothing; objects of other URNs or kinds are refused and nothing changes.",
     ["histories", "schedules", "inputs"],
     "every set of overlapping copies, order of merges and later changes, by any interleaving of threads",
     "Tests merge two small groups once and do not look at them again.",
     [CTSP], [("update", CTSP)],
     "Random copies of overlapping groups are merged in random order and compared with a model.")
prop("M04", "Exported inventories bring the same catalogue back in another process",
     "An inventory, text group, work or text exported as CTS or CapiTainS XML and read by another process gives the same objects: members, "
     "parents, kinds, languages, names in each language, citation schemes and (CapiTainS) structured metadata; exporting what was read and reading "
     "it again changes nothing more. Exporting changes no object, does not depend on what else the process knows, and a half written "
     "export is refused when it is read.",
     ["inputs", "histories", "crash_points", "schedules"],
     "every library, exported object, format, neighbour in the shared graph, interleaving and length of a torn write",
     "Tests compare exports of fixtures with strings in a process that knows nothing else.",
     [CTSP, R + "resources/collections/cts.py", R + "common/reference/_capitains_cts.py", R + "common/utils/xml.py", META_],
     [("export", CTSP), ("reading", R + "resources/collections/cts.py"), ("XML nodes", R + "common/utils/xml.py")],
     "Successive simulated processes with fresh graphs store and read exports; torn writes injected.")
prop("M05", "A catalogue served as DTS JSON is the same catalogue for whoever reads it",
     "The DTS description exported for any collection (of a CTS inventory, of CapiTainS folders, made by hand, or itself read from DTS) is JSON which, read in "
     "another process, gives the same identifier, type, title, number of members, members in order with theirs, description, citation structure and depth, and "
     "every metadata value with its language or type. Read as a parents answer it gives the members as parents. Exporting again what was read adds and loses nothing, and "
     "exporting changes nothing and does not depend on other objects or prefixes the process knows. The same holds for several inventories "
     "together, and with a given namespace manager, whose prefixes are used.",
     ["inputs", "histories", "schedules"],
     "every catalogue, exported object, prefix bindings and neighbours in the shared graph, number of processes it goes through and interleaving",
     "Tests compare exports of four fixtures with constants, and never read an export back.",
     [PROTO, R + "resources/collections/dts/_base.py", R + "common/utils/_json_ld.py", R + "common/utils/_graph.py", R + "common/utils/dts.py", R + "common/reference/_base.py"],
     [("export", PROTO), ("reading", R + "resources/collections/dts/_base.py"), ("values", R + "common/utils/_json_ld.py")],
     "Successive simulated processes with fresh graphs exchange DTS JSON; every fact compared with the first process.")
prop("M06", "RDF and JSON-LD exports hold exactly the statements about the object",
     "Exporting a collection as RDF or JSON-LD gives exactly the recorded statements about it, about what it leads to from link to link, and those "
     "which lead to it, and nothing about other objects of the process. This holds for chains, loops, blank nodes and strings which look like identifiers, "
     "whatever was exported before and by any interleaving of threads. A process which loads the export knows the description of the object.",
     ["histories", "inputs", "schedules"],
     "every graph of linked objects, exported object, format and interleaving",
     "No test exports a collection to RDF or JSON-LD.",
     [PROTO, R + "common/utils/_graph.py", META_],
     [("export", PROTO), ("subgraph", R + "common/utils/_graph.py")],
     "Random linked graphs; the export is compared with an independent reachability model up to blank node names.")
