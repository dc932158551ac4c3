# Values shared by everything else (executed by spec.py)
URN_ = R + "common/reference/_capitains_cts.py"
BASE_ = R + "common/reference/_base.py"
DTSR = R + "common/reference/_dts_1.py"
prop("R01", "URNs and references are those of the parts they were given, copies included",
     "Whatever is set on a URN or read from it, in any order, its parts, text, length, comparisons and partial forms are those of the parts last given, and asking "
     "for a part it does not have raises. References (single or range, with or without words) keep their ends, depth, parent and highest level however "
     "they are made, and are equal exactly when their parts are. Copies, and pickles loaded by another process, are equal to the original and "
     "independent of it; half a pickle raises; reference sets keep order, level and citation and contain exactly their references.",
     ["histories", "inputs", "crash_points", "schedules"],
     "every history of assignments, reads, copies and pickles of URNs, references and reference sets, torn writes and interleaving of threads",
     "URNs compute and keep their forms on demand, so every read depends on the assignments before it; tests assign once and never copy.",
     [URN_, BASE_, DTSR],
     [("URNs and CTS references", URN_), ("reference sets", BASE_), ("DTS references", DTSR)],
     "Random histories next to a model made of lists of parts; successive simulated processes exchange pickles with torn writes.")
prop("R02", "A citation scheme is the same however it was put together, changed or sent",
     "Citation schemes which are nested, attached in any order, or read from TEI, CTS inventories or DTS have the same levels, names, XPaths, depth and "
     "root, match the same references with the same level, and fill in the same XPaths. Changing one level changes that level only, everywhere it is seen, "
     "and never another scheme or copy. Exports (TEI, CTS XML, DTS) and pickles read by another process give the same scheme; half of one raises.",
     ["histories", "inputs", "crash_points", "schedules"],
     "every way of building, every history of changes, matches, fills, copies and exports, torn writes and interleaving of threads",
     "Levels are shared, linked and changed in place, so each answer depends on what was attached and changed before; tests build one scheme in one way.",
     [URN_, BASE_, DTSR],
     [("CTS citations", URN_), ("citation trees", BASE_), ("DTS citations", DTSR)],
     "Schemes are built in every way the API offers and compared with a list of levels after every change and in another simulated process.")
prop("M07", "Stored catalogues, texts and reference lists are whole wherever they are loaded",
     "A catalogue (or a group, work or text of it), an opened local text, a passage or a reference list which is copied, or pickled and loaded by another process, is "
     "complete: same members, parents, names, links, citation schemes, content and answers to questions. Describing or deleting in a loaded or copied "
     "one changes neither the original, nor another loaded one, nor anything else the process knows, even about the same identifiers; it can be "
     "exported and stored again, and half a pickle raises.",
     ["histories", "crash_points", "inputs"],
     "every library, stored object, history of loads, changes and stores over several processes, and length of a torn write",
     "Objects live in a process-wide graph which a pickle must carry along and keep apart; one test pickles one inventory and loads it in the same process.",
     [PROTO, CTSP, META_, BASE_, R + "resources/texts/local/capitains/cts.py"],
     [("collections", PROTO), ("metadata over the shared graph", META_), ("local texts", R + "resources/texts/local/capitains/cts.py")],
     "Chains of simulated processes, each with its own graph and neighbours, store, load, change and store again; compared with the library model each time.")
prop("M08", "Catalogues kept in different graphs of one process do not mix",
     "The application may replace the graph of the process (set_graph) at any moment, by a bound, bare or earlier one. Collections, texts and passages made or "
     "read before keep exactly their descriptions, members, links, citation schemes and exports (CTS and CapiTainS XML, RDF, JSON-LD, DTS), which can be read "
     "back whole; those made afterwards, even of the same identifiers, start without any description and share nothing with the former. Describing or "
     "deleting in one catalogue changes no other one, whichever graph is the current one.",
     ["histories", "schedules", "inputs"],
     "every set of catalogues of common identifiers, history of graph replacements, changes, queries and exports, and interleaving of threads",
     "Objects must use the graph they were made in wherever the library could as well use the current one; tests never replace the graph of the process.",
     [PROTO, CTSP, META_, R + "common/constants.py", URN_],
     [("collections and their exports", PROTO), ("CTS collections", CTSP), ("metadata over a graph", META_), ("citation exports", URN_)],
     "Several catalogues of the same identifiers, each with a graph and a model of its own, while the graph of the process is swapped under them.")
