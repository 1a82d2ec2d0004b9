BASE = " Assumes the library models in checks/models.py and rustc's MIR; nothing is executed."
CLAIMS = {
    "P01": ("interprocedural value-flow analysis on MIR: assignment of every node ID to its numbering (label-space types), over all cache states of the front end",
            "Decides for every answer and every result method that lookups, comparisons and outputs agree on the numbering." + BASE),
    "P02": ("abstract exploration of the cache states of the analysis object (typestate) on top of value-flow analysis of MIR",
            "Search algorithms are opaque functions of the FBAS; answers are compared as terms after removing relabellings." + BASE),
    "P03": ("interprocedural dataflow on MIR: the recursive search steps as transition systems over their set arguments, compared branch by branch",
            "Decides branch completeness and bookkeeping of every step function; correctness of the pruning conditions themselves is not decided." + BASE),
    "P04": ("interprocedural dataflow on MIR: path conditions established before a set is put on a result list",
            "Decides which tests dominate each report and on which values; the tests themselves are opaque." + BASE),
    "P17": ("effect analysis: call-graph reachability of I/O from every public library function; lint for raw pointer writes, mutable statics, thread-local state and interior mutability in MIR and type definitions",
            "Safe Rust without interior mutability cannot change what it has by shared reference; the check establishes that the code stays within that fragment." + BASE),
    "P18": ("interprocedural value-flow analysis on MIR: loop invariants of the removal loops (initial, per-iteration and exit values of the symbolic loop variables)",
            "Decides where nodes come from, which test each removal and each exit depends on, and which sets the queries and searches pass on; the satisfaction test itself is opaque (decided in P08)." + BASE),
    "P08": ("interprocedural value-flow analysis on MIR: one level of each recursive operation with its recursive calls opaque; lint over field reads of quorum sets",
            "Decides which inner quorum sets each operation visits, under which conditions and in which context, and that results for them are used." + BASE),
    "P28": ("interprocedural value-flow analysis on MIR: linear normal forms of the counts and combination sizes of the operations on quorum sets",
            "Numbers are compared as linear expressions over threshold and member counts (usize overflow is P14)." + BASE),
    "P26": ("interprocedural value-flow analysis on MIR: the links every loop of a constructor enters or removes (ends and conditions), loop invariants of the running tables, result terms of the queries",
            "Which node is picked is left to the rand crate; which links there are at the end follows from those entered, not from a count." + BASE),
    "P27": ("interprocedural value-flow analysis on MIR: loop invariants of the ranking rounds (what is added where, from which list, under which conditions) and result terms of sorting and partitioning",
            "Decides terms, not floating-point values; the component algorithm itself (pathfinding crate) is trusted." + BASE),
    "P29": ("interprocedural value-flow analysis on MIR: loop invariants of the counting loop (map updates and reports with their conditions) and outcome terms of the top tier test",
            "Which nodes a quorum set contains and whether a set contains a quorum are opaque (P08, P18)." + BASE),
    "P30": ("interprocedural value-flow analysis on MIR: loop invariants of the reduction (conditions under which a set is kept, order in which sets are looked at), result terms of the filters",
            "That an element of a list satisfies the closure given by callers is P04; here the loss of sets is decided." + BASE),
    "P21": ("interprocedural value-flow analysis on MIR over the explored cache states (typestate) of the analysis object: case analysis of verdict terms",
            "Decides the verdict, the guard of the splitting set search and the alternative check as terms over the search results; the searches and the pairwise test are opaque (P03, P04, P24)." + BASE),
    "P24": ("interprocedural value-flow analysis on MIR: outcome terms of the test compared with the pairwise form",
            "The shortcut is compared as a linear term over set sizes; index loops over pairs are left undecided." + BASE),
    "P20": ("interprocedural value-flow analysis on MIR: case-wise comparison of the element-wise mapping terms with the representative table",
            "Decides which members each table, set and result consists of; list order and multiplicity are not compared." + BASE),
    "P05": ("interprocedural taint dataflow on MIR with function summaries: labels for hash order, clock and thread count from their sources to results, prints and output columns; call-graph reachability of random numbers and the environment",
            "Sorting in full order removes the hash order label, sorting by a key and searching by a condition leave the value undecided. Implicit flows are followed for the clock only." + BASE),
    "P06": ("interprocedural value-flow analysis on MIR: conversions as field-by-field terms; the derived Serialize/Deserialize code is analysed like any other for the names it writes and reads",
            "Decides fields, names, defaults of omitted fields, filters and order of lists; serde and serde_json themselves are trusted." + BASE),
    "P07": ("interprocedural value-flow analysis on MIR: the lines written for a pair of nodes, as terms under path conditions, composed with the edges inserted for such a line by the reader, over every ordering of the two nodes and link pattern between them; success-implies-success of every write step",
            "String parsing and formatting of integers are trusted (parse of a printed integer gives it back); the compressed stream's own correctness (bzip2) too." + BASE),
    "P14": ("interprocedural value-flow analysis on MIR with path conditions: every overflow assertion, narrowing, division, allocation size, repetition count, looked-up position or key and reachable panic whose term depends on a threshold, a member count or the characters of a name is shown to be within bounds",
            "Quorum sets of symmetric clusters are satisfiable (they are found among satisfiable nodes, P04). Sums of collection lengths fit a usize. Panics on malformed documents and repeated node keys are intended." + BASE),
    "P15": ("interprocedural value-flow analysis on MIR: representation invariant (key index = positions in the node list) over every function that builds or changes an FBAS, loops by induction",
            "Each function is decided on its own, assuming the invariant for its input." + BASE),
    "P19": ("interprocedural value-flow analysis on MIR: order tags of the lists at the end of each conversion",
            "The order itself is that of the derived comparison (P16)." + BASE),
    "P09": ("interprocedural value-flow analysis on MIR: reported value against the final state of the FBAS on every path of every configurator; loop variables of the simulation as transition systems with truth tables",
            "Configurators are opaque to the simulator and the simulator to them; what a quorum set should contain is P10." + BASE),
    "P10": ("interprocedural value-flow analysis on MIR: threshold terms against the member lists they go with, compared in a quasi-linear normal form (slope and offset per residue class)",
            "Thresholds are compared as functions over the reals (floating point rounding of the quotient is not modelled); n = 0 is left out. The symmetric higher-tier variant is decided for threshold, order and the node itself, not for its members." + BASE),
    "P11": ("interprocedural value-flow analysis on MIR: the term of every output column over the library's results against the term its name stands for; serializer field names",
            "Library results are opaque here except for number, minimum, maximum and mean, whose definitions are compared too. What the label of a file is, and the hash function, are left out." + BASE),
    "P12": ("interprocedural effect and value-flow analysis on MIR from main: facts at every place that opens the output file, the lists of rows that reach the writer, the fate of every I/O result",
            "The existence test and the opening are two steps (another process in between is left out); of several existing rows with one label the last is kept. par_map is taken to keep the order." + BASE),
    "P13": ("interprocedural value-flow analysis on MIR from main: for each of 5120 combinations of the options, the lines printed on every path with the term each label shows, against the term the label names; definitions of the three output forms",
            "Library results are opaque here except for what the output forms are made of (lengths, statistics, histogram, names). Quorum sets have no statistics: describing prints their IDs." + BASE),
    "P22": ("interprocedural value-flow analysis on MIR from main: constructor terms, sizes and output per subcommand",
            "Library functions are opaque here." + BASE),
    "P16": ("interprocedural value-flow analysis on MIR: which content each Eq/Hash/Ord implementation reads",
            "Decides for every implementation that equality, hash and order use all content fields whole and nothing else." + BASE),
}
NA = {
    "P23": "Completeness and minimality of the enumerations for every FBAS quantifies over runtime set values; no static argument in reach decides it. Structural parts are claimed as P03 and P04.",
    "P25": "Exactness of integer and floating-point formulas for every n is arithmetic over runtime values; it needs a solver or proof assistant, not static analysis of the source.",
}
