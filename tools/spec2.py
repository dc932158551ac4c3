# The CTS, local-library and metadata properties (executed by spec.py)
prop("C01", "Passages read through a CTS service carry the published text",
     "A passage (single, range or whole text) obtained from a CTS service, however the reference is written and whatever was read "
     "before, has exactly the published words, XML, URN, depth and citation scheme, and its creator, title, label and description "
     "are those published, each in its own language. If the network fails or the service answers with an error the "
     "call raises and never yields another passage's content.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every library, reference form, history of reads, interleaving of callers sharing a resolver and fault position",
     "Tests use a few canned replies, one request per object, and never an interrupted or failing service.",
     [R + "resolvers/cts/api.py", R + "retrievers/cts5.py", R + "resources/texts/remote/cts.py", R + "resources/texts/base/tei.py"],
     [("passage parsing", R + "resources/texts/remote/cts.py"), ("requests", R + "retrievers/cts5.py")],
     "1-3 simulated clients share one resolver; answers compared with the generated library.")
prop("C02", "Walking a CTS text remotely visits exactly the published passages",
     "From a passage opened through a CTS service, previous and next, first, last, parent and children, read in any order and "
     "repeatedly, are exactly those of the published text, and opening them gives those passages with their published words; walks end "
     "where the text ends. After a failed or refused request nothing wrong is remembered: the same step "
     "succeeds with the right answer once the service works again.",
     ["inputs", "histories", "fault_sequences"],
     "every text tree, every walk over it and every position and kind of network fault",
     "Siblings and children are cached lazily per object, so the answer depends on the whole history; tests make single steps on fixtures.",
     [R + "resources/texts/remote/cts.py", R + "resources/prototypes/text.py", R + "resolvers/cts/api.py"],
     [("lazy sibling cache", R + "resources/texts/remote/cts.py"), ("navigation prototype", R + "resources/prototypes/text.py")],
     "Random walks over generated texts with planned faults and retries.")
prop("C03", "CTS reference lists are complete and in order at the level asked for",
     "Listing the references of a text, passage or range served by a CTS service gives exactly the published references at the level "
     "asked for, in published order: counted from the top through the resolver or a text, and from the passage itself through a passage "
     "(never above the level just below what is asked about). All levels together, the deepest level and the first child agree with "
     "those lists. A failing service or an unknown text or passage makes the call raise, never return a shorter or wrong list.",
     ["inputs", "schedules", "histories", "fault_sequences"],
     "every text tree, level, reference form, history, interleaving of callers sharing a resolver and fault position",
     "Tests check the parameters of single mocked calls, not the answer against a text over many shapes, levels and failures.",
     [R + "resolvers/cts/api.py", R + "resources/texts/remote/cts.py", R + "retrievers/cts5.py"],
     [("valid references", R + "resources/texts/remote/cts.py"), ("resolver", R + "resolvers/cts/api.py")],
     "1-3 simulated clients share one resolver; answers compared with the text tree.")
prop("C04", "A CTS inventory is read exactly as published, whole or by object",
     "The inventory of a CTS service, or the group, work or text asked for, holds exactly the published members with their parents, kind, "
     "languages, names in each language, citation scheme, commentary links and structured metadata, and counts and finds them. "
     "An unknown object raises. Later reads, failures and passages opened in the same process change none of it.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "every library with rich metadata, every order of reading it whole or in part, and every fault position",
     "Metadata of all objects live in one shared graph, so any read may disturb any other; tests parse one fixture at a time.",
     [R + "resolvers/cts/api.py", R + "resources/collections/cts.py", R + "resources/prototypes/cts/inventory.py",
      R + "resources/prototypes/metadata.py", R + "common/metadata.py"],
     [("inventory parsing", R + "resources/collections/cts.py"), ("metadata graph", R + "common/metadata.py")],
     "Complete comparison of every held object with the library, at once and again at the end.")
prop("C05", "A CTS call makes exactly the request it stands for and gives the reply as sent",
     "Every method of the CTS retriever makes one GET request with exactly the parameters it documents: request name, URN with the "
     "reference, inventory (the given one, else the retriever's own), level counted from the passage, context, and the endpoint's own "
     "parameters. The reply is returned as the characters sent, whatever way its encoding is announced. Transport errors and error "
     "statuses raise, and concurrent callers never receive each other's replies.",
     ["inputs", "schedules", "fault_sequences"],
     "every call, parameter value, endpoint form, content type, interleaving and fault",
     "Tests mock the call and never exercise encodings, endpoint parameters, failures or concurrency.",
     [R + "retrievers/cts5.py", R + "retrievers/prototypes.py"],
     [("call", R + "retrievers/cts5.py")],
     "Requests observed at the simulated transport compared with an independent table.")
