# The local repositories (executed by spec.py)
LOCAL = R + "resolvers/cts/local.py"
CAP = R + "resources/texts/local/capitains/cts.py"
prop("L01", "The catalogue of CapiTainS repositories holds exactly what is on disk",
     "Opening any set of CapiTainS repositories, at once or one after the other and whatever the order in which folders are listed, "
     "gives a catalogue of exactly their groups, works and texts: each once, with its parents, kind, languages, names in each "
     "language, citation scheme, structured metadata and file. Repositories which share a group or a work are merged. A disk fault "
     "while opening raises, and opening again once the disk works gives the complete catalogue.",
     ["inputs", "fault_sequences", "histories"],
     "every library spread over every set of folders, every listing order, locale and position of disk faults",
     "Tests open two fixture folders in the order of the machine's own file system, on a disk that never fails.",
     [LOCAL, R + "resources/collections/cts.py", R + "resources/prototypes/cts/inventory.py", R + "resources/prototypes/metadata.py"],
     [("parse", LOCAL), ("inventory parsing", R + "resources/collections/cts.py"), ("merging", R + "resources/prototypes/cts/inventory.py")],
     "Generated folders on a simulated disk with seeded listing order, faults and locale; every object compared.")
prop("L02", "One damaged file of a repository neither hides nor alters the others",
     "When files of a repository are missing, damaged or unreadable, a strict resolver raises when it opens the repository, naming "
     "nothing wrong as good. A lenient one skips exactly what depends on the bad files: every other group, work and text stays in the "
     "catalogue, complete, and can be read. Nothing is left half parsed, and a repaired repository opens completely.",
     ["inputs", "fault_sequences"],
     "every library, set of damaged files, kind of damage, disk fault, listing order and strictness",
     "Tests damage one fixture in one way; the outcome depends on which file is hit, when, and what was parsed before it.",
     [LOCAL, R + "resources/collections/cts.py", R + "resources/texts/local/capitains/cts.py"],
     [("parse and its error switches", LOCAL)],
     "Damage and disk faults are generated; the expected remainder is computed from the intact files.")
prop("L03", "Every local read gives one state of the file on disk, never a mixture",
     "Each passage, reference list or neighbour read through a local resolver is that of the content its text file had at some moment "
     "of the call, also while other readers share the resolver and files are replaced, removed, damaged and restored. Passages opened "
     "earlier keep their content. A read of a missing or broken file or during a disk fault raises, and succeeds again afterwards.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every text, history of replacements and removals, interleaving with readers and position of disk faults",
     "Tests never change a file after opening it, read concurrently, or fail a read.",
     [LOCAL, CAP, R + "resources/texts/base/tei.py"],
     [("reading a text", LOCAL), ("parsing", CAP)],
     "Readers and a writer interleaved at every file operation; answers linearized against the history of each file.")
prop("L04", "A local passage holds exactly the text between its two ends",
     "A passage of a local text (single, range within or across levels, or whole), opened from the resolver, a text or another passage, in "
     "tree or simple mode, holds exactly the published words and elements from its start to its end, in place and without those excluded, with "
     "its URN, depth and citation scheme. References the text does not have raise. No read changes the shared text or another passage.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every text tree, reference pair, form and way of opening, history, interleaving of threads and file fault",
     "Cutting a range is a recursion over two paths, with caches and shared trees; tests cover a few references of two fixtures.",
     [CAP, R + "common/utils/xml.py", R + "resources/texts/base/tei.py", R + "common/reference/_capitains_cts.py", LOCAL],
     [("passageLoop", R + "common/utils/xml.py"), ("passages", CAP), ("citation", R + "common/reference/_capitains_cts.py")],
     "Threads are interrupted at seeded lines inside the library; passages compared with the generated tree.")
prop("L05", "Local reference lists are complete and in order at the level asked for",
     "Listing the references of a local text, or of the passages inside a single one or a range, gives exactly those of the level asked for "
     "(never above the one just below a single passage), all and in the order of the text, each with its depth. A level deeper than the text "
     "raises CitationDepthError and an unknown passage raises; the lists are the same whoever asks first and whatever else is read meanwhile.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every text tree, level, reference form, history, interleaving of threads and file fault",
     "Tests list references of two fixtures at a few levels, alone.",
     [CAP, R + "common/reference/_capitains_cts.py", LOCAL],
     [("getReffs", CAP), ("citation filling", R + "common/reference/_capitains_cts.py")],
     "Threads are interrupted at seeded lines inside the library; lists compared with the generated tree.")
prop("L06", "Walking a local text visits exactly its passages, in order, both ways",
     "From a passage of a local text, previous, next, first, last, first and last child and children are those of the text (for a range: "
     "the run of as many passages before or after it, shorter where the text ends), as identifiers, through the resolver and as "
     "opened passages with their text. Walking forth and back returns to the start; a walk of nexts visits every passage "
     "of the level once and ends with None.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every text tree, walk, reference form, interleaving of threads and file fault",
     "Links are computed lazily from lists and cached; tests check single steps of fixtures.",
     [CAP, R + "resources/prototypes/text.py", LOCAL],
     [("siblings", CAP), ("navigation prototype", R + "resources/prototypes/text.py"), ("getSiblings", LOCAL)],
     "Random walks by interrupted threads over generated texts.")
prop("L07", "Narrowed local catalogues hold just the asked object, and the whole stays whole",
     "Asking a local resolver for a group, work or text gives exactly that object with all its members and its parents and "
     "nothing else, whatever other URNs begin with the same characters; an unknown one raises UnknownCollection. The listing of texts "
     "filtered by collection, language or kind is exactly the matching ones, and its pages, with the number and size said, are all of them once; a page "
     "beyond the last is the last and the first is given by default. No such request, in any order or by any thread, changes the whole catalogue or an "
     "earlier answer.",
     ["histories", "schedules", "inputs"],
     "every library, order of requests and interleaving of threads",
     "Narrowing rebuilds parents in a graph shared with the whole; tests ask once and do not look at the rest afterwards.",
     [LOCAL, R + "resources/prototypes/cts/inventory.py", R + "resources/collections/cts.py"],
     [("getMetadata", LOCAL), ("listing", LOCAL)],
     "Requests from interrupted threads, with every held catalogue and the whole compared again at the end.")
prop("L08", "Text groups are dispatched to the inventories their rules name",
     "With a dispatcher, every text group of the opened repositories is in the inventory of the last added rule that returns True for "
     "it, else in the default one, complete and once; in no inventory otherwise, where the resolver raises UndispatchedTextError if told to. Rules see the group and its "
     "folder. Empty inventories remain, and opening more repositories later adds to the same ones.",
     ["inputs", "histories", "fault_sequences"],
     "every library, set of rules, default, listing order, strictness and disk fault",
     "Tests dispatch fixtures with one set of rules.",
     [R + "resolvers/utils.py", LOCAL, R + "resources/prototypes/cts/inventory.py"],
     [("dispatch", R + "resolvers/utils.py"), ("parse", LOCAL)],
     "Rules are generated; the expected inventory of each group is computed from them independently.")
prop("L09", "Faulty numbering of a local text is reported exactly",
     "Checking the references of a level of a local text, whole or below a passage (getValidReff with _debug), warns of exactly those which several passages "
     "share (DuplicateReference) and of how many passages have an empty number (EmptyReference), of nothing when there are none, and lists all as it does "
     "unchecked; passages without a number attribute are not counted. Made errors, the warnings raise. A text without a CTS declaration raises MissingRefsDecl; "
     "test() raises RefsDeclError exactly when the scope of the scheme finds nothing. What is said is that of the file now, whoever else checks or edits.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every text tree, set of numbering faults, level, passage, history of edits, interleaving of threads and file fault",
     "Two fixtures have faults; tests look at the class of the last warning only.",
     [CAP, R + "errors.py", LOCAL],
     [("getValidReff and test", CAP), ("warnings and errors", R + "errors.py")],
     "A client spoils and mends the numbering of files which others check, interrupted at seeded lines; what is said is compared with a count over the generated tree.")
prop("L10", "A customised local resolver uses its own pieces everywhere, and only it does",
     "A local resolver given its own classes (CLASSES of a subclass, or the classes of one resolver before it parses), XML parser (xmlparse) or cleaning of "
     "invalid texts (_clean_invalids) uses them everywhere: every object of its whole and narrowed catalogues, every citation level and text it opens is of "
     "the class given for it, every text is read through its parser, also one which gives the same document again, and the texts it removes as invalid are "
     "exactly those which cannot be read and are in no answer any more. Other resolvers of the process are not affected, whoever opens or reads meanwhile.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every set of replaced pieces, number of resolvers, library, damaged texts, interleaving of threads and file fault",
     "Tests replace a piece at a time in one resolver, over one fixture, and look at one object.",
     [LOCAL, R + "resources/collections/cts.py", CAP],
     [("classes, parser and cleaning", LOCAL), ("classes of what is parsed", R + "resources/collections/cts.py")],
     "Generated classes, parsers and cleaning rules; several resolvers over the same repositories are compared with what each was given, interrupted at seeded lines.")
