"""Single source of properties.jsonl and MANIFEST.json: python3 tools/spec.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = "deterministic simulation with fault injection (seeded search)"


def prop(id, title, statement, over, text, why, files, mech, note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None)
    NA.append({"property": id, "reason": reason})


R = "MyCapytain/"
prop("D01", "A lazily read DTS catalogue gives every member and parent exactly once",
     "Reading the members or parents of a collection obtained from a DTS service, in any order, way (listing, counting, "
     "looking up, testing membership, listing descendants) and number of repetitions, and whatever the page size of the "
     "service, gives exactly the published members in published order and exactly the published parents, each once. Once "
     "members, parents or full metadata have been completely read they are never requested again. Opening a collection "
     "again after the publisher changed it gives its current members and member count.",
     ["inputs", "histories"],
     "every catalogue shape, page size, next-page link style and every sequence of reads on the opened collections",
     "Tests read a few fixed fixtures in one fixed order each; laziness makes the answer depend on the whole history of reads.",
     [R + "resources/collections/dts/_resolver.py", R + "resources/collections/dts/_base.py", R + "resolvers/dts/api_v1.py"],
     [("paginated proxy", R + "resources/collections/dts/_resolver.py"), ("member parsing", R + "resources/collections/dts/_base.py")],
     "Random readers over generated catalogues served by a simulated DTS server; trusts the catalogue model and the stubbed transport.",
     [("_parsed", "which directions are complete"), ("_last_page_parsed", "where an interrupted crawl resumes")])
prop("D02", "An interrupted DTS crawl fails visibly and later completes",
     "If the network or the service fails while a collection, its members, parents or metadata are being read from a DTS "
     "service, the read either raises an ordinary exception or gives the complete published answer, never a partial or wrong "
     "one. A failed read leaves nothing marked as complete: as soon as the faults stop, the next read succeeds, gives the "
     "complete answer with nothing duplicated, and needs no more requests than there are pages (plus service discovery).",
     ["fault_sequences", "histories", "inputs"],
     "every position and kind of visible network fault (transport error, error status, truncated or foreign body) in every read history",
     "No test makes a request fail in the middle of a crawl.",
     [R + "resources/collections/dts/_resolver.py", R + "resolvers/dts/api_v1.py", R + "retrievers/dts/__init__.py", R + "errors.py"],
     [("crawl bookkeeping", R + "resources/collections/dts/_resolver.py"), ("status checking", R + "retrievers/dts/__init__.py")],
     "Same readers with planned faults and a fault-free recovery phase; faults are limited to those a client can notice.",
     [("_parsed", "which directions are complete"), ("_last_page_parsed", "where an interrupted crawl resumes")])
prop("D03", "A DTS collection is described exactly as published",
     "A collection read from a DTS service carries exactly the published identifier, type, readability, title, member count, "
     "description, Dublin Core and extension values with their languages, and citation structure and depth, each value found by "
     "its language. Reading other collections, before or after, or failing to read something, never adds, changes or removes any "
     "of it; a collection first met as a member carries its full description once it has been retrieved.",
     ["inputs", "histories", "fault_sequences"],
     "every catalogue with rich metadata and every order of opening, descending, retrieving and failing",
     "All collections share one process-wide graph, so any read may disturb any other; tests look at one collection at a time.",
     [R + "resources/collections/dts/_base.py", R + "common/utils/dts.py", R + "common/utils/_json_ld.py",
      R + "common/reference/_dts_1.py", R + "common/metadata.py"],
     [("metadata parsing", R + "resources/collections/dts/_base.py"), ("citation ingestion", R + "common/reference/_dts_1.py")],
     "Complete comparison of every handle against the published world after random histories.")
prop("D04", "DTS reference lists are complete, in order and once across pages",
     "Listing the references of a text (whole text, under one reference or a range, at any level, grouped or filtered) through a "
     "DTS service gives exactly the published references in published order, each once, with their type, metadata, level and "
     "citation name, whatever the page size and however many callers share the resolver. The restrictions asked for apply to every "
     "page. If a page cannot be read the call raises instead of returning a shorter list, and an unknown text raises.",
     ["inputs", "schedules", "fault_sequences"],
     "every text tree, request, page size, interleaving of concurrent callers and fault position",
     "Tests cover one three-page fixture and single-page examples, never a failing page or concurrent callers.",
     [R + "resolvers/dts/api_v1.py", R + "common/reference/_base.py", R + "common/reference/_dts_1.py"],
     [("navigation paging", R + "resolvers/dts/api_v1.py"), ("reference set", R + "common/reference/_base.py")],
     "1-3 simulated clients share one resolver; answers compared with the text tree.")
prop("D05", "DTS passages carry the published text and lead through it",
     "A passage (single, range or whole text) opened through a DTS service has exactly the published text and XML; its previous, "
     "next and parent references are those of the service's links, and following them, or its children, opens exactly those "
     "passages, ending where the published links end. References listed from a passage are those under it at the requested "
     "level, and its title, depth and metadata are those of its collection. A failing request raises and never yields another "
     "passage's content.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "every text tree, walk over links, children and parents, link header form, interleaving and fault",
     "Tests walk one three-passage fixture once.",
     [R + "resources/texts/remote/dts/_resolver_v1.py", R + "resources/prototypes/text.py", R + "common/utils/xml.py"],
     [("link parsing", R + "resources/texts/remote/dts/_resolver_v1.py"), ("walking", R + "resources/prototypes/text.py")],
     "Random walks compared with the published tree.")
prop("D06", "DTS requests go to the advertised route with exactly the asked parameters",
     "A client of a DTS service discovers the routes from the entry point once and remembers them only when discovery "
     "succeeded; a failed discovery raises and is retried by the next call. Every call then makes exactly one request, to the "
     "advertised route (relative, absolute, on another host, with parameters of its own), carrying the route's own parameters, "
     "every given parameter that is not the protocol default, correctly encoded, and nothing else; a range is sent as start and end. The pages an answer links to are read as sent. "
     "An error status or transport error surfaces as an exception.",
     ["inputs", "fault_sequences", "schedules"],
     "every route form, argument combination, fault position and interleaving of callers sharing the client",
     "Tests check a handful of argument combinations against one fixed entry point that never fails.",
     [R + "retrievers/dts/__init__.py", R + "common/utils/_http.py"],
     [("route discovery", R + "retrievers/dts/__init__.py"), ("route resolution", R + "common/utils/_http.py")],
     "Every request reaching the simulated servers is compared with the expected one.",
     [("_routes", "discovered routes")])

for name in ("spec2.py", "spec3.py", "spec4.py", "spec5.py"):
    path = os.path.join(VERIF, "tools", name)
    if os.path.exists(path):
        with open(path, encoding="utf-8") as part:
            exec(part.read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p, _ in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    skip = {n["property"] for n in NA}
    m = {"version": 1,
         "setup_cmd": "./check --selftest",
         "checks": [{"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                     "technique": TECH, "level": "exploration", "level_note": note}
                    for p, note in P if p["id"] not in skip],
         "not_applicable": NA,
         "notes": "See DESIGN.md. No hooks are needed in /repo: the seams (requests' adapter, open/scandir, blank-node ids, hash seed, "
                  "scheduler) are outside it. ./check --replay FILE replays a violation."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
