checks.update({
    "C05": ("exploration", MON + "model of what was genuinely written per object; every caller's result after each manipulation of stored records is compared with it",
            "All single-record exchanges and a dense set of byte mutations of every field; combinations are sampled."),
    "C06": ("exploration", MON + "every login, token and identity result after manipulation of user/group records or tokens compared with the identities genuinely issued",
            "All record exchanges and a dense set of mutations; combinations are sampled."),
    "C07": ("exploration", MON + "taint monitor at the IO Provider boundary (canary secrets searched in many encodings) and trace comparison of paired runs differing in secrets only",
            "Encodings searched: raw, hex, base64 at all alignments, UTF-16, other case, reversed, and nested in JSON/base64/hex; other covert encodings are only covered by the trace comparison."),
    "C08": ("exploration", MON + "the system's random source is replaced by a recorded one; keys, nonces and salts recovered from records by an independent implementation are traced to fresh draws",
            "Random histories of all operations."),
    "C09": ("exploration", MON + "differential monitor: independent AES-GCM/KWP/KMAC implementation opens every record written and writes records the library must accept; golden records of earlier versions",
            "Random histories and all record kinds; golden records from the original commit."),
    "C10": ("exploration", MON + "differential monitor of every primitive against an independent implementation and invariants of hash state machines",
            "All short lengths and boundary lengths; longer inputs and call histories are sampled. Known finding: customization strings filling a block."),
    "C11": ("exploration", MON + "tokens observed under a virtual clock at all instants around their expiry; manipulated tokens compared with what was sealed",
            "Virtual clock (testing/synctest); byte mutations of all fields, sampled combinations."),
    "C12": ("exploration", MON + "multiset/sequence model of all index histories compared with every Search, over four IO Providers and several instances",
            "All histories to a small length over confusable words; longer ones are sampled. Known finding: identifiers that are not valid UTF-8."),
    "C13": ("exploration", MON + "trace comparison at the IO Provider boundary between histories equal up to renaming; label distinctness and independence monitors",
            "Random histories; statistical independence only through distinctness and recomputation tests."),
    "C14": ("fault_enumeration", MON + "fault injection at every storage call of every short history, 14 modes of failure (before/after the effect, once, again, for good, every other call, per type or kind of call, cancelled, stopped), results compared with the allowed states",
            "All histories of length 5 (6 thorough) over two identifiers; longer ones are sampled."),
    "C15": ("exploration", MON + "hostile storage: mutations, exchanges and replays of nodes; every search result compared with what was genuinely added, storage calls bounded",
            "All exchanges within small indexes and a dense set of mutations; hostile schedules are sampled."),
    "C16": ("fault_enumeration", MON + "fault injection (failures before and after taking effect, process stops) at every storage call of every operation in many states; what all callers see afterwards, and after a retry, compared with the old and new states",
            "Every storage call of every operation; states and follow-up histories are sampled. Known finding: Update between the object and access writes."),
    "C17": ("fault_enumeration", MON + "storage failures and stops at every storage call of Delete, with retries by all kinds of callers; remaining records and all later results inspected",
            "Every storage call of Delete in many states; histories around it are sampled."),
    "C18": ("exploration", MON + "every provider call compared with a map model (sequential), and recorded concurrent histories checked for linearizability",
            "Random histories over hostile IDs, types and sizes; concurrent histories of Mem, Bolt and Proxy; bolt IDs over 32765 bytes may be refused."),
    "C19": ("fault_enumeration", MON + "bbolt's file writes recorded through hooks; power failures at every write and sync with all/none/random subsets of unsynced pages (torn too), the file reopened by the real code and compared with the acknowledged calls",
            "Every write of short histories; subsets of unsynced sectors are sampled. Assumes a durable directory entry. Known finding: first write of a new file."),
    "C20": ("exploration", MON + "Go race detector on stress workloads over shared instances, plus per-goroutine models of the results",
            "Scheduling by the runtime with injected yields; reports only races in executions that happened."),
    "C21": ("exploration", MON + "a scheduler at the IO Provider boundary runs all or sampled orders of the storage calls of two or three concurrent operations; results and final state compared with every sequential order",
            "Pairs are explored completely where few orders exist (60 quick, 2000 thorough), the rest and triples sampled; a phase with real parallelism looks for deadlocks. Known findings: lost updates from stale reads; overlapping index deletions."),
    "C22": ("exploration", MON + "canaries in and behind every slice, map and struct passed in, handed out, or exchanged with providers; everything overwritten afterwards and later results compared",
            "Every public operation and constructor, with a list of shapes (spare capacity, shared backing, aliasing arguments)."),
    "C23": ("exploration", MON + "model of users and passwords compared with every login and password change, also under storage failures",
            "Random histories; candidate passwords are all issued ones and a dense set of edits of them."),
    "C24": ("exploration", MON + "model of users, groups and memberships compared with every identity and membership call",
            "All 512 scope sets; random histories and hostile arguments."),
    "C25": ("exploration", MON + "panic, hang and heap monitors around every public call under random, truncated, type-confused and structure-aware hostile inputs and storage replies; results of non-genuine data must be errors",
            "Seeded generation and mutation; nil interfaces and other programming errors are out of scope."),
    "C26": ("exploration", MON + "a decision oracle for every construction with keys of all lengths, and for every read across instances whose key sets differ in every subset of slots",
            "All lengths 0 to 80 in every slot and all subsets of differing keys; contents are sampled."),
    "C27": ("exploration", MON + "lines written by loggers of every level and kind compared with a field model per call, the callers' loggers probed afterwards, lines searched for secrets, standard outputs captured; race detector on concurrent calls",
            "Every operation by several callers over a list of loggers; concurrent sharing is sampled."),
    "C28": ("fault_enumeration", MON + "failures of every kind injected at every storage call of every operation, and every condition that has an error; the error returned is compared (errors.Is/As) with those its cause allows",
            "Every storage call of every operation in one state; kinds of failure and wrappings are a list."),
    "C29": ("exploration", MON + "watched IO, Identity and Key Providers compare the context and token of each call with those of the operation that runs, end the context inside every call, and notice calls and goroutines after return",
            "Every operation with a list of context kinds, every provider call as the moment of cancellation; tokens are sampled."),
    "C30": ("exploration", MON + "after every operation of long histories of all parts, the records in storage are compared with a model of what exists, the storage calls received with the operation's target, and sizes of records with those of new ones",
            "Random histories; the number of storage calls is bounded, not compared exactly. Places of removed index entries may be cleared later."),
    "C31": ("exploration", MON + "differential monitor: every operation of an instance with a history is repeated by a new one on a copy of storage, results and everything readable afterwards compared; storage, identities and time change behind its back",
            "Random histories over small worlds, virtual clock."),
})
