"""What decides each property: scenario files for the abstract interpreter and structural rules."""
import json, os
ASSUME = [
 "template parameters take the values instantiated by the scenarios (small shapes); histories of operations are unbounded",
 "event counters do not wrap around their integer type",
 "floating-point arithmetic is IEEE double, round to nearest; libm functions are monotone and within 1e-15 relative error",
 "clang 18 translates the headers to IR faithfully; the abstract interpreter engine/vpai.cpp is trusted",
]
AI = "abstract interpretation of the compiled headers under a most general client (path partitioning, joins and widening at every operation boundary): "
_r = os.path.join(os.path.dirname(os.path.abspath(__file__)), "scenarios", "reach.json")
REACH = json.load(open(_r)) if os.path.exists(_r) else {}
# alarm kinds the analysis cannot decide in some scenarios (documented in DESIGN.md): (scenario prefix, kind)
UNDECIDED = [("scn_C06_", "arith"), ("scn_C07_history", "arith"), ("thr_C07_history", "arith"), ("scn_C25_clusters_m", "arith"), ("scn_C13_split_", "arith"), ("thr_C13_split_", "arith")]
CHECKS = {}
def check(pid, **kw):
    CHECKS[pid] = kw
T_AI = "static analysis: abstract interpretation of LLVM IR under a most general client"
check("C01", technique=T_AI, files=["bloom.cpp"], explain=AI + "all histories of add/lookup/clear/set around one arbitrary element, with arbitrary pure hash functions", must_analyse=["::add(", "::lookup(", "::clear(", "::set("])
check("C02", technique=T_AI, files=["cuckoo.cpp"], explain=AI + "all histories of add/remove/clear over up to three elements with every choice of fingerprints and hashes; relocation loops analysed to a fixpoint", must_analyse=["::add(", "::lookup("], heavy=["b4s1", "same"])
check("C03", technique=T_AI, files=["cuckoo.cpp"], explain=AI + "all histories of add/remove/clear over up to three elements; removal of present and absent elements, clear and construction", must_analyse=["::remove(", "::clear("], heavy=["b4s1", "same"])
check("C04", technique=T_AI, files=["reservoir.cpp"], explain=AI + "all histories of add() against a shadow of the sample, for any values of the random function in [0,1]", must_analyse=["::add("])
check("C05", technique=T_AI, files=["chained.cpp"], explain=AI + "all random choices over streams of up to seven elements followed by obsolete() at every timestamp; the whole chain is compared with its documented successor order", must_analyse=["::add(", "::obsolete("])
check("C06", technique=T_AI, files=["ltc.cpp"], explain=AI + "all histories of add() with increasing timestamps against the documented protocol; short series whose outcome is independent of rounding decide when a segment must close", must_analyse=["::add(", "::get_value_to_transmit("])
check("C10", technique=T_AI, files=["metrics.cpp"], explain=AI + "all histories of updates, penalties, resets and copies up to a bounded total tally, scores compared with the documented function of shadow tallies", must_analyse=["ErrorMetrics<true>::score(", "ErrorMetrics<false>::score(", "::kappa<", "ReservoirSamplingMetrics::score("])
check("C08", technique=T_AI, files=["bayes.cpp"], explain=AI + "commutation of trainings of different labels in every reachable state (isolation), and every short training sequence over a grid of values and weights against the definition of the scores", must_analyse=["::train(", "::predict("])
check("C09", technique=T_AI, files=["perceptron.cpp"], explain=AI + "every network shape up to four neurons in up to five layers: setters, forward pass and backpropagation against the definition on plain arrays, including memory sizes that fit exactly", must_analyse=["::feed_forward(", "::backpropagate(", "::set_weights("])
check("C07", technique=T_AI, files=["mcnn.cpp"], explain=AI + "all histories of train() with any features, labels and cleaning methods against a shadow of the labels seen; short histories over a grid of points against the nearest centroid", must_analyse=["::train(", "::predict("], heavy=["c3"])
check("C11", technique=T_AI, files=["hoeffding.cpp"], explain=AI + "all histories of train() over trees with room for 1 to 7 nodes, structure and memory layout checked after every step; short streams against per-leaf counts of the data points; splits without room in every reachable state", must_analyse=["::train(", "::split(", "::predict("], heavy=["n7", "n5", "f3", "f2", "1f2"])
check("C26", technique=T_AI, files=["hoeffding.cpp"], explain=AI + "every short stream over a grid of values and labels: information gains, suggested splits and the limits of new leaves against their definition on the list of data points", must_analyse=["::train(", "::compute_information_gain("])
check("C12", technique=T_AI, files=["mondrian.cpp"], explain=AI + "all histories of train() and predict() with any data points, labels and random numbers over forests of one or two trees sharing 1 to 6 nodes: links, free nodes, boxes and the leaf answering each data point checked after every step", must_analyse=["::train(", "::extend_block(", "::predict("], heavy=["t2n6", "t2n4", "f2", "l3", "int"])
check("C14", technique=T_AI, files=["unbound.cpp"], explain=AI + "histories of up to six trainings (any data points, labels and random numbers) of forests of up to three trees, with predictions in between: links, boxes, counters, numbers of nodes, and every heap object freed exactly once by the destructor", must_analyse=["::extend_block(", "::predict_tree(", "::~MondrianForestUnbound("], heavy=["history_4", "history", "l2"])
T_EF = "static analysis: interprocedural effect analysis (write roots, call targets, globals) on LLVM IR"
T_CW = "static analysis: compile and link witnesses that fail to build on a violating tree"
check("C17", technique=T_EF, rules=["effects.queries"], explain="effect summaries of every query, computed over the call graph to a fixpoint: no store may go to memory reached from the instance or to a global")
check("C18", technique=T_EF, rules=["effects.embedded"], explain="all functions of the fixed-memory headers, explicitly instantiated, and everything they reach: allow-list of external call targets")
check("C19", technique=T_EF, rules=["effects.hidden"], explain="all functions of the headers and everything they reach: no mutable global or static, no address turned into a number, no external source of state")
check("C22", technique=T_CW, rules=["witness.include_all"], explain="translation units for every header alone, twice, in pairs and in many orders, around the standard headers, with every operation instantiated, at four language levels and two compilers, and programs of three translation units")
check("C23", technique=T_CW, rules=["witness.sizes"], explain="static assertions on the size of every fixed-memory class for many shapes")
check("C13", technique=T_AI, files=["coarse.cpp", "coarse_walk.cpp"], explain=AI + "all histories of train(), trimming, fading, chopping and resets with any data points, labels and random numbers over coarse forests of one or two trees sharing 1 to 5 nodes, for every way to extend a full tree: links, free nodes, boxes, depth limit and the leaf answering each data point checked after every step", must_analyse=["::train(", "::extend_block0(", "::tree_trim("], heavy=["trim", "bary", "noupdate", "partial5", "ghost5", "deep", "ops"])
check("C15", technique=T_AI, files=["answers.cpp", "mondrian.cpp", "coarse.cpp", "hoeffding.cpp"], only=[("(scn|thr)_C15_history", "predicted label|score|written")], heavy=["history"], explain=AI + "every classifier asked before and after up to four trainings with any data points, labels and random numbers: the label is valid, every score is written and no more than the scores, and no score exceeds that of the label answered; for the trees and bounded forests also after every step of every history", must_analyse=["::predict("])
check("C24", technique=T_AI, files=["copies.cpp"], explain="abstract interpretation of the copy operations on objects whose members (taken from the debug information) hold distinct arbitrary values: the copy must have the same value in every member; classes that own resources must not be copyable")
check("C27", technique=T_AI, files=["utils.cpp"], explain=AI + "every helper on arbitrary values (intervals picked, highest values, extrema, rounding, permutations) and on grids of values against its definition (shares, exponential law, quotients)", must_analyse=["Utils::"])
_TREES = ["mondrian.cpp", "unbound.cpp", "coarse.cpp", "coarse_walk.cpp", "hoeffding.cpp"]
check("C16", technique=T_AI, files=_TREES, explain=AI + "data points on both sides of and exactly on the split values of every tree reached: trained, counted and answered in the leaf the documented comparison selects", must_analyse=["::train(", "::predict("])
check("C25", technique=T_AI, files=_TREES + ["mcnn.cpp"], explain=AI + "models with too little memory for every data point: the reported success is compared with what was taken in, and a refusal leaves a consistent model", must_analyse=["::train("])
_ALL = ["bloom.cpp", "cuckoo.cpp", "reservoir.cpp", "chained.cpp", "ltc.cpp", "metrics.cpp", "bayes.cpp", "perceptron.cpp", "mcnn.cpp", "hoeffding.cpp", "mondrian.cpp", "unbound.cpp", "coarse.cpp", "coarse_walk.cpp", "answers.cpp", "copies.cpp", "utils.cpp"]
_SLOW = r"scn_C03_b|scn_C02_b(4s1_same|2s2_same)|scn_C11_refused_1f2|scn_C13_trim_fading|scn_C07_history_c3_m1|(scn|thr)_C15_history|scn_C16_\w+_train|scn_C25_(mondrian_(n3|t2n1)$|coarse(_none|_partial|_noupdate|_t2n1)?$|tree_n|unbound)" # the last three are the same histories as those of C11 to C14
_HEAVY = ["C02_b4s1", "trim_count", "c3_m2", "t2n4", "C13_bary", "unbound_l2", "noupdate5", "b8s2"]
check("C20", technique=T_AI, files=_ALL, all_scenarios=True, kinds={"memory"}, skip=_SLOW, heavy=_HEAVY, explain=AI + "every read and write of every operation, in every history of all scenarios, lies inside a live object; arguments that are arrays have exactly their documented sizes")
check("C21", technique=T_AI, files=_ALL, all_scenarios=True, kinds={"uninit"}, skip=_SLOW, heavy=_HEAVY, explain=AI + "no branch, address, library call or stored model value of any operation, in every history of all scenarios, depends on memory that was never written")
check("C28", technique=T_AI, files=_ALL, all_scenarios=True, kinds={"arith", "abort", "nonterm"}, skip=_SLOW, heavy=_HEAVY, explain=AI + "every arithmetic operation of every operation, in every history of all scenarios, is defined, every internal assertion holds and no loop repeats a state")
