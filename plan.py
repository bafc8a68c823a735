# property -> [(flavour, quick cases, thorough cases)]
PLAN = {
    "S01": [("np", 50000, 800000)],
    "S02": [("np", 30000, 500000)],
    "S03": [("np", 30000, 500000)],
    "S04": [("np", 30000, 500000)],
    "S05": [("np", 25000, 400000)],
    "S06": [("np", 25000, 400000)],
    "S07": [("np", 25000, 400000)],
    "S08": [("np", 25000, 400000)],
    "A01": [("np", 20000, 300000)],
    "A02": [("np", 20000, 300000)],
    "A05": [("np", 12000, 200000)],
    "A06": [("np", 20000, 300000)],
    "A08": [("np", 15000, 200000)],
    "A09": [("np", 12000, 160000), ("pw", 8000, 100000), ("npa", 4000, 60000)],
    "D01": [("np", 15000, 200000)],
    "D02": [("np", 15000, 200000)],
    "D03": [("np", 15000, 200000)],
    "U01": [("np", 30000, 300000)],
    "A11": [("np", 30000, 300000)],
    "L01": [("np", 20000, 300000), ("pw", 10000, 150000)],
    "L02": [("np", 15000, 200000), ("npa", 4000, 60000), ("pwa", 1500, 20000)],
    "L03": [("np", 7000, 100000), ("pw", 5000, 60000)],
    "L04": [("np", 20000, 300000), ("pw", 10000, 150000)],
    "A07": [("np", 12000, 150000), ("pw", 6000, 80000)],
    "A03": [("np", 12000, 150000), ("pw", 4000, 50000)],
    "A04": [("np", 12000, 150000), ("npa", 3000, 40000)],
    "A10": [("np", 20000, 300000), ("npa", 4000, 60000)],
    "L05": [("np", 8000, 100000), ("npa", 1500, 20000), ("pw", 3000, 40000)],
    "R01": [("pw", 15000, 60000)],
    "R02": [("pw", 20000, 150000)],
    "R03": [("pw", 20000, 150000)],
    "R04": [("pw", 20000, 150000)],
    "R05": [("pw", 15000, 60000)],
    "R06": [("pw", 20000, 150000)],
}
LEVELS = {}
# property -> (technique, level note)
NOTES = {
    "S01": ("generated concurrent programs and schedules; search for an explaining serial order",
            "programs of up to 9 transactions on up to 6 keys under seeded schedules; index replaced by a stand-in"),
    "S02": ("generated concurrent short transactions and schedules; search for a serial order that keeps real-time precedence",
            "up to 9 transactions on up to 6 keys under seeded schedules; index replaced by a stand-in"),
    "S03": ("generated scan-heavy programs with inserts and deletes around the scanned ranges; search for an explaining serial order",
            "up to 9 transactions on up to 8 keys under seeded schedules; index replaced by a stand-in"),
    "S04": ("generated long transactions with repeated reads; repeated reads compared and a snapshot position searched for",
            "up to 3 long transactions among short ones; reads of transactions that later abort are not judged"),
    "S05": ("generated read-only transactions among writers; snapshot position searched for, and runs with and without them compared",
            "comparison runs use fixed schedules without size-limited scans"),
    "S06": ("generated aborting transactions; serial order search over committed ones, and runs with and without the aborted ones compared",
            "comparison covers what happens after the aborted transactions have ended"),
    "S07": ("generated programs with declared write and read areas; every refusal and every commit compared with the declarations",
            "up to 4 storages and 3 long transactions"),
    "S08": ("generated programs with one oldest long transaction; its commit outcome, waiting and priority answers compared with the rule",
            "up to 3 long transactions among short and read-only ones"),
    "A01": ("generated operation sequences compared with an ordered-map model with a private overlay",
            "one session at a time, up to 3 storages and 6 keys; aborts caused by the collector are allowed where rows were removed before"),
    "A02": ("generated scans over generated contents and own writes compared with an ordered-map model",
            "right-to-left scans only in the supported form; up to 3 storages and 10 keys"),
    "A05": ("generated keys and values up to and beyond the size limit compared with an ordered-map model",
            "index replaced by a stand-in, so only the engine's own handling of bytes is decided"),
    "A06": ("generated concurrent programs; every notification, return value and recorded reason compared with the outcome",
            "reasons are judged by applicability, not predicted"),
    "A08": ("generated concurrent programs with identifier queries; form, stability and uniqueness checked",
            "runs are too short to wrap the identifier counters"),
    "A09": ("generated concurrent programs with state queries from several threads; releases at any time, with and without an address sanitizer; sequences compared with the documented life cycle",
            "log store and index replaced by stand-ins"),
    "D01": ("generated catalog operations, on one thread compared with a map, on several by a linearizability search",
            "up to 15 concurrent catalog operations; storages are not deleted while a transaction uses them"),
    "D02": ("generated programs that replace storages; compared with an ordered-map model, or by serial order search when threaded",
            "index replaced by a stand-in; storages are not deleted while a transaction uses them"),
    "D03": ("generated sequence operations in short and long transactions; every read compared with the committed versions",
            "up to 3 sequences; versions of one sequence are unique as the interface demands"),
    "R01": ("generated programs with stops and restarts; everything observable compared before the stop and after the restore",
            "log store replaced by a stand-in that restores the newest version of each entry"),
    "R02": ("generated concurrent programs with injected crashes and late threads; search for an explaining subset at each durable point",
            "log store replaced by a stand-in; a crash loses exactly what was not announced as durable"),
    "R03": ("generated concurrent programs, or programs with restarts; durability reports compared with the notifications and the state handles",
            "log store replaced by a stand-in with generated delays"),
    "R04": ("generated concurrent programs; every logged entry compared with the committed changes and their order",
            "log store replaced by a stand-in; changes hidden behind newer ones may be omitted"),
    "R05": ("generated programs with repeated orderly and forced stops and restarts; identifiers, sequences and contents compared",
            "log store replaced by a stand-in; up to 4 restarts per case"),
    "U01": ("generated bit patterns and field assignments compared with an independent model of the version word",
            "random and boundary words, not all of them; falls back to public calls if the type changes shape"),
    "A11": ("generated byte strings, options and enumerators rendered and parsed back or compared pairwise",
            "binary rendering judged on inputs without the escape character"),
    "L01": ("generated concurrent programs run under a deterministic scheduler with injected stalls; deadlock and starvation detection in virtual time",
            "progress judged in virtual time over the explored schedules; index and log store replaced by stand-ins"),
    "L02": ("generated delete and re-insert churn beside readers and cursors under a deterministic scheduler, with and without an address sanitizer; serial-order oracle",
            "the sanitizer sees the engine and the stand-in index, not the real index"),
    "L03": ("generated churn, or rounds that make and delete storages, followed by idle epochs; index entries compared with the records, live allocations compared over equal rounds",
            "memory measured with the stand-in index and without logging; reclamation judged after 60 idle epochs"),
    "L04": ("generated concurrent programs of data, catalog, sequence and state calls; error log and status oracle",
            "index and log store replaced by stand-ins; waiting bypass off"),
    "A03": ("generated interleaved programs run twice with different options in virtual time; statuses, rows, outcomes and contents compared",
            "programs of 1 to 4 sessions on one thread with limits and reverse scans left out; an empty range may be reported at opening or at the first read; index and log store replaced by stand-ins"),
    "A04": ("generated programs with calls out of order and unusable arguments; a model names the refusal each has to get, and the same program without the refused calls must give the same",
            "interleaved transactions of 2 to 3 sessions on one thread; operations on a session whose commit is pending other than commit, abort and begin are not specified and not generated; stale scan handles only for closing (the others are documented not to be looked up)"),
    "A10": ("generated operations of several threads on one transaction under a deterministic scheduler, with and without an address sanitizer; linearisation search, and serial-order oracle when others conflict",
            "at most 12 operations of 2 to 3 threads; ending the transaction while operations run is documented as undefined; with conflicts only one thread reads (known finding)"),
    "A07": ("generated interleavings of taking, using and giving back sessions; exclusion, limit and serialisability oracle, and comparison with an unused session",
            "at most 48 callers; waiting bypass off; index and log store replaced by stand-ins"),
    "L05": ("generated sequences of start, work and stop; the last run compared with the same run in a fresh process",
            "cooperative scheduling only; index and log store replaced by stand-ins; databases are created anew"),
    "R06": ("generated concurrent programs; every announced boundary compared with the later log entries and reads",
            "log store replaced by a stand-in"),
}
NOT_APPLICABLE = {}
