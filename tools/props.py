#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FE, RES, SHR = "src/analysis/front_end.rs", "src/analysis/results.rs", "src/core_types/shrinking.rs"
QU, BL, SP, SETS = "src/analysis/quorums.rs", "src/analysis/blocking_sets.rs", "src/analysis/splitting_sets.rs", "src/analysis/sets.rs"
PRE, SYM, MRG = "src/analysis/preprocessing.rs", "src/analysis/symmetric_clusters.rs", "src/analysis/merge_by_group.rs"
IOC, IOR, IOG, IOGR = "src/io/core_types.rs", "src/io/results.rs", "src/io/groupings.rs", "src/io/graph.rs"
CLI, BULK, PERF, QSIM, GGEN = ["src/bin/%s.rs" % x for x in ("fbas_analyzer", "bulk_fbas_analyzer", "bulk_performance_experiment", "qsc_simulator", "graph_generator")]
CF, CQ, CG = "src/core_types/fbas.rs", "src/core_types/quorum_set.rs", "src/core_types/groupings.rs"
SIM = "src/simulation/mod.rs"; QSC = "src/simulation/qsc/"

prop("P01", "Results name nodes by their IDs in the caller's FBAS",
 "Every node set that an analysis result hands out (as a set, a list of sets, the union of involved nodes, pretty names or serialized form, and after removing nodes or merging groups) consists of node IDs of the FBAS the caller passed in. IDs of an internally reduced copy of the FBAS never reach the caller, and an already translated result is never translated a second time.",
 ["inputs", "histories"], "every FBAS, every query on it, every way of reading, post-processing or printing the result",
 "In most test FBASs the reduced and the original numbering coincide (all nodes relevant, in order), so a missing or doubled translation is invisible there.",
 [FE, RES, SHR, IOR],
 [("results carry a translation table which every accessor must apply", RES), ("reduction builds the table and the inverse map from the same kept IDs", SHR), ("results are wrapped with the manager belonging to their numbering", FE)],
 observe=["public methods of the two result types", "public query methods of the analysis front end"])

prop("P02", "Answers do not depend on the history of earlier queries",
 "Whatever queries were made on an analysis object before, in whatever order and however often, each query returns the same answer as it would on a fresh analysis of the same FBAS. No order of queries panics.",
 ["histories"], "every sequence of queries on one analysis object",
 "The front end caches results and renumbers its internal FBAS the first time a top-tier-defining result is known; tests exercise a handful of the orders in which caches can be full or empty.",
 [FE],
 [("result caches in interior-mutable cells", FE), ("renumbering of cached sets, reduced FBAS and translation together", FE)],
 [("result caches", "empty, or a result expressed in the numbering of the current reduced FBAS", FE), ("reduced FBAS and its translation manager", "always replaced together", FE)],
 ["public query methods of the analysis front end"])

prop("P03", "Set searches try every node both ways with exact bookkeeping",
 "The exhaustive searches for minimal quorums, minimal blocking sets, minimal splitting sets and disjoint quorums branch on every candidate node both with the node taken and with it left out, and the partial sets each branch works with are exactly those implied by the choices made so far; after a branch is finished they are back to what they were. A branch is skipped only when the feasibility condition for it fails, so no node choice is lost to an earlier branch.",
 ["inputs"], "every FBAS without the symmetric-cluster shortcut, every node order",
 "A bookkeeping slip in one branch only loses or corrupts sets for particular topologies and node orders; the tests check a few small networks.",
 [QU, BL, SP],
 [("recursive finder steps that insert/remove the candidate around each recursive call", QU + ", " + BL + ", " + SP)],
 [("selected / available / remaining node sets and the queue of unprocessed nodes", "membership of every node determined by whether it is taken, left out or unprocessed", QU)])

prop("P04", "Only verified sets are reported",
 "A set found by the exhaustive search is reported as a minimal quorum only if it was tested to be a quorum and minimal; as a minimal blocking set only if the remaining nodes were tested to contain no quorum and minimality was tested against exactly those remaining nodes; as a splitting set only if removing it was tested to leave non-intersecting quorums; and two quorums are reported as disjoint only if each was established as a quorum of disjoint node sets. Sets extracted from symmetric clusters that mention a node more than once are filtered for minimality with the same criteria before they are reported.",
 ["inputs"], "every FBAS, including ones whose quorum sets contain nodes more than once",
 "The tests cover few networks, and none in which the minimality filter for blocking sets of clusters with repeated nodes decides the outcome.",
 [QU, BL, SP],
 [("guards in front of each place where a found set is recorded", QU + ", " + BL + ", " + SP), ("minimality filters of the symmetric-cluster shortcut", QU + ", " + BL)])

prop("P05", "Same input, same output, in every run and for any number of threads",
 "Analysis results, JSON and text output, parsed inputs, and every column of the bulk tool's CSV other than the measured durations are functions of the input alone. They do not depend on the order in which hash maps or hash sets are iterated, on random numbers, the clock, environment variables, or the number or scheduling of worker threads (measured durations that the command line tools report next to their results excepted).",
 ["inputs", "schedules", "configurations"], "every input, every run, every thread count",
 "Iteration order of hash maps differs from process to process and rarely shows in one run; a test compares against one expectation in one process.",
 ["src/analysis", "src/core_types", "src/io", BULK, CLI],
 [("hash maps are only used for lookup, or their keys are sorted before use", IOG), ("order-preserving parallel map", BULK)])

prop("P06", "Reading JSON and writing it back keeps the configuration",
 "Writing an FBAS or a grouping list as JSON and reading it again yields the same nodes in the same order with the same public keys, thresholds, validators and nested quorum sets (up to the order of entries within a quorum set), or the same groups with the same names and members. Every part of a quorum set is read from and written to the field meant for it, and a quorum set entry naming an unknown node is dropped without affecting threshold or other entries.",
 ["inputs"], "every FBAS / grouping list in the accepted format, any nesting depth",
 "Tests compare a few literal documents; swapped, dropped, capped or conditionally skipped parts show only on inputs that have them.",
 [IOC, IOG, CQ],
 [("conversion between raw (JSON) and internal form, field by field", IOC + ", " + IOG), ("serde field names and skip/default rules on the raw types", IOC)])

prop("P07", "Graph files: what is written is read back as the same edges",
 "Writing a graph with Graph::to_as_rel_string or to_as_rel_file (one-line comment or none) and reading the result with Graph::from_as_rel_string or from_as_rel_file yields the same directed and undirected edges between the same nodes (nodes with a higher ID than any connected node are not part of the format). Every edge of the graph, a node's link to itself included, is written; every line that is neither empty nor a comment is read and contributes exactly the edge it states: first|second|-1 one from the second to the first node, first|second|0 both directions. Errors while writing the file are returned to the caller.",
 ["inputs", "fault_sequences"], "every graph, every write failure",
 "Reader and writer are tested separately, each against its own literals; never one against the other, and never with a failing file system.",
 [IOGR],
 [("edge direction and relationship code in writer and reader", IOGR)])

prop("P08", "Nested quorum sets count at every depth",
 "Everything computed from a quorum set (satisfaction, contained nodes, duplicate detection, slices, blocking and splitting sets, splitting tests, reduction to fewer nodes, merging by group, conversion to and from JSON and to pretty form) takes the inner quorum sets into account at every nesting depth, in the same way as at the top level. Each inner quorum set is judged by its own threshold and members.",
 ["inputs"], "every quorum set of any depth and width",
 "Tests use depth 2 at most; an operation that ignores, flattens or truncates deeper levels passes them.",
 [CQ, BL, SP, SHR, MRG, IOC, IOR],
 [("recursion over the inner quorum sets in each operation", CQ + ", " + BL + ", " + SP + ", " + SHR)])

prop("P09", "Configurators and simulator report changes truthfully",
 "A quorum set configurator that reports no change left the FBAS exactly as it was, and one that reports a change changed the quorum set of the node it was asked to configure, and of no other node. A simulation of global reevaluation lets every node reconfigure once per round, goes on until a round without any change or until the allowed number of rounds is reached, and returns the number of rounds made; in each round the report of each node is passed to the monitor with that node, changed or not. Simulated growth adds the requested number of nodes, configures each under its own ID and announces it to the monitor, and the recording monitor keeps every event.",
 ["inputs", "histories", "configurations"], "every configurator, FBAS state, round limit and node",
 "Tests run each configurator on one or two start states.",
 [SIM, QSC],
 [("comparison of candidate and existing quorum set in each configurator", QSC), ("reevaluation loop", SIM)])

prop("P10", "Generated quorum sets have the threshold meant for their members",
 "Whenever a configurator based on a graph, or on all nodes, gives a node a quorum set, the threshold is computed from the number of validators actually put into that quorum set, using the configured relative threshold if there is one (that share rounded up, at least one) and the two-thirds rule otherwise (ceil((2n+1)/3); all of them for the super-safe policy); the random configurator uses its desired threshold, or the two-thirds rule on the target size. Neighbor-based quorum sets contain the node itself, added only if it is not there already, and are in ascending order; nodes without any link in the graph get none. The all-neighbors policy uses the node's neighbors, the higher-tier policy (unless symmetry is enforced) the neighbors with at least twice the node's rank or, if there are none, those within a factor of two, the global-rank policy the nodes with a rank above average.",
 ["inputs", "configurations"], "every graph, node, relative threshold and FBAS state",
 "Tests look at a few graphs in which the list is already sorted, and the node is or is not its own neighbor.",
 [QSC],
 [("threshold computed from the length of the validator list", QSC), ("self-inclusion and sort", QSC + "graph_based/")])

prop("P11", "Each CSV column holds the value its name promises",
 "In each freshly analyzed row of the bulk CSV output, every column holds the statistic it is named after (size, number, minimum, maximum or mean), of the analysis it is named after, merged (and reduced to minimal sets again) by the grouping it is named after or by none; grouped columns are empty exactly when that grouping is absent. The columns are written under their own names. Label, hash and durations belong to the same input and the same analysis; the minimum, maximum and mean of no sets are 0.",
 ["inputs", "configurations"], "every input with every combination of available groupings",
 "There are no tests of the bulk tools; about 60 columns pass through positional tuples.",
 [BULK, PERF, RES],
 [("positional tuples between analysis and output record", BULK)])

prop("P12", "Existing bulk results are neither overwritten unasked nor altered",
 "The bulk tools write to an existing output file only if the update option was given; otherwise they fail and leave it as it is. In update mode every existing row (of rows with the same label, one) is kept with all its values and every input without an existing row is analyzed, rows come in label order (by size for the performance experiment), and the analyses are done before the file is touched, so that one that fails loses nothing. Errors of reading or writing the file are reported instead of ignored.",
 ["inputs", "configurations", "fault_sequences"], "every set of inputs and existing rows, every option combination, every I/O error",
 "There are no tests of the bulk tools.",
 [BULK, PERF],
 [("existence check before the file is created", BULK), ("task list of reused and new rows", BULK)])

prop("P13", "Each line of the report carries the result its label names",
 "Each labelled line that the command line tool prints holds the result of the analysis named by the label on the given FBAS, merged by the selected grouping and then reduced to minimal sets again if merging is requested (country before ISP before organization), and each analysis is reported exactly when requested by its option or by the option for all of them (whether there is a quorum intersection unless switched off; totals and symmetric clusters always; the top tier when any of the three lists of sets is). The pretty, describe and results-only options only select the form: pretty names, statistics or IDs, and whether commentary is printed.",
 ["inputs", "configurations"], "every combination of options and every input",
 "Three end-to-end tests exist; each looks for one substring.",
 [CLI, IOR],
 [("label and computation paired at each report call", CLI), ("option to task mapping", CLI)])

prop("P14", "Extreme numbers and odd names in well-formed input do not crash",
 "Every well-formed JSON input is accepted and can be analyzed without panic, arithmetic overflow, division by zero or runaway allocation or repetition caused by a single value in it: thresholds of any size (up to 64 bits; also 0 or larger than the number of members), quorum sets without members, unknown validators, and ISP, country or organization names that are empty, end in punctuation or contain any characters.",
 ["inputs"], "every well-formed input document",
 "Tests use realistic thresholds and plain ASCII names.",
 [CQ, BL, SP, IOC, IOG],
 [("guards between input-controlled numbers and arithmetic or allocation sizes", CQ + ", " + SP + ", " + BL), ("string trimming of grouping names", IOG)])

prop("P15", "Public-key lookup agrees with the node list",
 "For every FBAS, however it was built (from JSON, node by node, as a reduced copy or in standard form), looking up a public key yields exactly the ID of the node with that key, and no node for keys it does not contain (public keys being distinct; adding a node with a key that is already there is refused). Changing quorum sets never affects this.",
 ["inputs", "histories"], "every way of constructing and changing an FBAS",
 "Tests look up keys only in FBASs read from JSON.",
 [CF, IOC, SHR, PRE],
 [("node list and key index are written together", CF + ", " + IOC + ", " + SHR)],
 [("node list / key index pair", "index maps each node's key to its position", CF)])

prop("P16", "Equality, hash and order of FBASs agree",
 "Equality, hashing and ordering of FBASs and quorum sets look at exactly the same content: all nodes with their public keys and complete quorum sets, and nothing else. Equal values therefore hash equally, compare as equal, and values differing in any key, threshold, validator or inner quorum set are unequal, so FBASs can serve as keys of result caches.",
 ["inputs"], "every pair of FBASs",
 "No test hashes or orders FBASs that differ in one component only.",
 [CF, CQ],
 [("hand-written and derived comparison and hash implementations", CF + ", " + CQ)])

prop("P17", "Analyses leave their input alone and have no side effects",
 "Analyzing an FBAS, reading results, merging by groups and converting to text or JSON never modify the FBAS, groupings or results passed in by reference, and the library writes nothing to standard output, standard error or files, keeps no state that one call leaves behind for later calls on other objects, and reads nothing but what it is given. Only the functions whose name says so read or write a file or read standard input.",
 ["inputs", "histories"], "every library call other than the ones documented to do I/O",
 "Tests do not observe output streams or the file system.",
 ["src/analysis", "src/core_types", "src/io", "src/simulation"],
 [("shared references and interior mutability confined to the analysis front end's caches", FE), ("I/O confined to the named reading/writing functions", "src/io")])

prop("P18", "Nodes split into satisfiable and unsatisfiable without loss",
 "Of any set of nodes, each is reported either as satisfiable or as unsatisfiable, never both and never neither; a node is reported as unsatisfiable only after its quorum set was found unsatisfied by the then remaining nodes, and the search ends only when the quorum set of every remaining node is satisfied by the remaining nodes. The test for whether a set contains a quorum follows the same rule, a set of nodes is a quorum exactly if it is not empty and satisfies the quorum sets of all its members, and the searches and the relevant nodes are based on exactly those strongly connected components of the satisfiable nodes that contain a quorum.",
 ["inputs"], "every FBAS and node subset",
 "Long chains of failures triggered by other failures, and their order, are not in the tests.",
 [PRE, QU],
 [("removal loop until no unsatisfied node remains", PRE + ", " + QU)])

prop("P19", "Equivalent quorum sets are represented identically",
 "Quorum sets read from JSON or reduced to a subset of nodes have their validators in ascending order and their inner quorum sets, themselves in this form, in ascending order too, so that the order of entries in the input does not matter for comparisons. The standard form of an FBAS contains exactly the analysis-relevant nodes, ordered by public key.",
 ["inputs"], "every permutation of entries, every nesting depth",
 "Tests compare single documents with lists mostly in order.",
 [IOC, SHR, PRE],
 [("sorting after conversion, at each level", IOC + ", " + SHR), ("sort by public key before rebuilding", PRE)])

prop("P20", "Merging by group maps every node to its group's one representative",
 "Merging replaces each member of a group by the same representative, which is a member of that group, and leaves nodes without a group as they are; the members of every set, result and quorum set are all mapped, none is lost or invented, and a quorum set is collapsed to one validator only if nothing but that one is left in it. A group is found by any of its members and by its name, ISP and country groups contain exactly the nodes with that ISP or country (up to commas and a trailing dot in its name), removing named nodes from a result removes exactly those, and pretty output shows the group's name for members and the public key for other nodes.",
 ["inputs"], "every grouping of every FBAS",
 "Tests use one or two groups with adjacent members.",
 [CG, MRG, IOG, IOR, RES],
 [("representative table and member index filled for all members", CG), ("element-wise mapping", MRG)])

prop("P21", "Quorum intersection verdict and splitting sets fit together",
 "An FBAS is said to enjoy quorum intersection exactly if it has a quorum and all its minimal quorums were found to intersect pairwise. Whenever intersection is denied the list of minimal splitting sets consists of exactly the empty set, and otherwise it is the outcome of the splitting set search on the same FBAS and its minimal quorums. The alternative check denies intersection if the search for disjoint quorums found at least two, which it then hands out, or if there is no quorum at all, and confirms it otherwise. This holds whatever was queried before.",
 ["inputs", "histories"], "every FBAS and query order",
 "Tests contain few FBASs without quorums, or without intersection.",
 [FE, SETS, QU],
 [("verdict computed from non-emptiness and pairwise test", FE), ("guard in front of splitting set search", FE)])

prop("P22", "The simulation tools run what was asked for",
 "The simulation tool runs the policy named by the subcommand with the sizes, thresholds and graph given, on an FBAS of the initial size given (or, if neither initial size nor growth is given, of the graph's size), grows it by the given number of nodes and prints the resulting FBAS. The graph tool generates the graph kind asked for with the parameters given, shuffled unless told otherwise, and writes it to the given file or, without one, prints it.",
 ["configurations", "inputs"], "every subcommand and parameter combination",
 "There are no tests of these tools.",
 [QSIM, GGEN],
 [("subcommand to configurator mapping", QSIM), ("subcommand to generator mapping", GGEN)])

prop("P23", "Blocking, splitting and quorum enumeration is exact",
 "The lists of minimal quorums, minimal blocking sets and minimal splitting sets are complete and contain only minimal sets, for every FBAS.",
 ["inputs"], "every FBAS",
 "Tests compare a few networks with known results.",
 [QU, BL, SP, SETS, SYM],
 [("finders and symmetric-cluster shortcuts", QU + ", " + BL + ", " + SP)])
prop("P24", "The pairwise intersection test compares every two sets",
 "A list of node sets is found to intersect pairwise without comparing them only if every set in it holds more than half of all the nodes involved in any of them; otherwise every two different sets of the list are compared, and the answer is yes exactly if each of these comparisons finds a common node.",
 ["inputs"], "every list of node sets, of any length and sizes", "Tests use a handful of short lists; the border case of sets holding exactly half the nodes, or a pair that is skipped, is not among them.", [SETS],
 [("size shortcut and pairwise loop", SETS)])
prop("P25", "Threshold formulas are exact",
 "The two-thirds threshold for n nodes is the least t such that quorums of size t tolerate the largest f with 3f+1 <= n failures, and relative thresholds are rounded up, for every n.",
 ["inputs"], "every n and relative threshold", "Tests sample small n.", [QSC + "mod.rs"], [("closed formulas in floating point", QSC + "mod.rs")])
prop("P26", "Generated graphs have the links of their model",
 "In a complete graph every node is linked to every other one and not to itself. In a tiered graph the nodes of each tier follow those of the tiers before it (tiers may be empty), and each is linked to all others of its tier and to all of the next higher tier and to no other. In a scale-free graph the first m0 nodes are all linked to one another and each further node to m different earlier ones, picked with a chance in proportion to their number of links. A small-world graph starts as a ring in which every node is linked to the k/2 next ones; each of these links is moved with the given chance, by removing it and adding one from the same node to a node not linked to it. Links of both kinds of random graphs are entered and removed in both directions. Shuffling renames every node the same way wherever it occurs. The number of nodes, the in-degrees and out-degrees, the connected nodes and whether a graph is undirected are told from all links.",
 ["inputs"], "all parameters and random choices",
 "Tests count the nodes and links of a few samples; repeated links, links in one direction only and unusual tier sizes are not sampled.", ["src/simulation/graph.rs"], [("constructors", "src/simulation/graph.rs"), ("shuffling", "src/simulation/graph.rs"), ("degrees and connected nodes", "src/simulation/graph.rs")])
prop("P27", "Ranking passes on every node's score to the nodes it trusts",
 "In each round of ranking, every node considered passes its score of the round before on, in equal parts, to all nodes in its quorum set (at any depth), or along all its links in a graph; parts for nodes that are not considered are lost. The new score of a node is the sum of the parts it got in this round, and all start with equal shares. Sorting nodes by rank returns each of them exactly once, highest score first. Strongly connected components are computed over the links from nodes to all nodes in their quorum sets, and every component is handed out with all its nodes that are in the given set.",
 ["inputs"], "every FBAS and graph",
 "Tests sample small graphs whose ranks come out right for many wrong formulas.",
 [PRE, "src/simulation/graph.rs"], [("rounds of ranking", PRE + ", src/simulation/graph.rs"), ("candidates sorted by score", PRE), ("components from the pathfinding crate, restricted to the set", PRE)])

prop("P28", "The number of members that count follows from the threshold",
 "A quorum set is satisfied by a set of nodes exactly if its threshold is not 0 and at least threshold many of its members - validators in the set and inner quorum sets satisfied by it, counted alike - are there. Wherever minimal sets are read off a quorum set (symmetric clusters), its slices consist of every choice of threshold many members, its blocking sets of every choice of one more than satisfiable members minus threshold, its splitting sets of every choice of twice the threshold minus satisfiable members minus those split already, and the splitting test asks for twice the threshold minus the number of members.",
 ["inputs"], "every quorum set and node set",
 "Tests use a few thresholds on flat sets; an off-by-one for unsatisfiable or nested members, or for threshold 0, is not sampled.",
 [CQ, BL, SP],
 [("counting of matching members", CQ + ", " + SP), ("number of groups combined", CQ + ", " + BL + ", " + SP)])

prop("P29", "Symmetric clusters are complete groups of nodes with one quorum set",
 "A quorum set is reported as a symmetric cluster exactly if, among the nodes looked at, as many nodes have exactly that quorum set and are contained in it as it contains nodes; it is reported once. The symmetric clusters of an FBAS are those of all its components that contain quorums. A symmetric top tier is reported exactly if there is only one symmetric cluster and the nodes not contained in it contain no quorum, and it is that cluster; the shortcut in the searches uses a cluster of the very component searched, whenever it has one.",
 ["inputs"], "every FBAS",
 "Tests have a few clusters; nested quorum sets, nodes with the same quorum set outside the group and incomplete groups are hardly sampled.",
 [SYM], [("nodes counted per quorum set", SYM), ("top tier test", SYM)])

prop("P30", "Reducing sets to minimal ones loses nothing else",
 "When a list of node sets is reduced to the minimal ones, a set is dropped only if it is a repetition or a kept set is a subset of it, sets are looked at from the smallest to the largest, and no two sets of the outcome contain one another. When sets are filtered by a test of minimality, exactly the repetitions and the sets failing the test are dropped, and the minimal sets found are all handed out. A list of sets is said to be minimal exactly if no set in it is a subset of one at another place in the list.",
 ["inputs"], "every list of node sets",
 "Tests reduce one list of a few sets; the order of sizes, empty sets and repetitions are not sampled.",
 [SETS], [("sets sorted into buckets by size and compared with the kept ones", SETS), ("filter by test", SETS)])

def write(path):
    with open(path, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    write(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))
