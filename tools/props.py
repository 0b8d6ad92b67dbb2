#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate)."""
import json, os
H = "src/lpaggreg/headers/"; S = "src/lpaggreg/sources/"
def both(*names):
    out = []
    for n in names:
        out += [H + n + ".h", S + n + ".cpp"]
    return out
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOASSERT = "The ten stable tests only run a few fixed data sets and check that the program exits; none compares a result. "

prop("C01", "Value containers return what was stored, for every dimension count",
 "For every value container (ordered, hierarchical, spatiotemporal; every dimension count) and every shape, the value read at a coordinate tuple is the one given at construction or last written at exactly that tuple (initially zero for containers created from sizes), and the reported sizes are those of the data. "
 "The flattened per-series view that the algorithms consume has as many series as there are combinations of the inner coordinates and returns, for flat index n, the data of the n-th combination in row-major order.",
 ["inputs", "histories"], "all shapes (also non-square ones), all coordinates, all write histories",
 NOASSERT + "The shapes used are small and mostly symmetric, so swapped strides or dimensions stay invisible.",
 both("ovaluesn", "hvaluesn", "dvaluesn", "ovalues", "hvalues", "dvalues") + [H + "lpglobal.h"],
 [("flat index decoding toI/toJ/toK", S + "ovaluesn.cpp, hvaluesn.cpp, dvaluesn.cpp"), ("constructors computing vsize/osize from the data", S + "*valuesn.cpp")],
 observe=["operator()(coordinates)", "operator[](flat index)", "getI/getJ/getK/getVsize/getOsize"])
prop("C02", "Triangular storage keeps one independent cell per interval",
 "A triangular matrix of size n holds exactly n(n+1)/2 cells, one for each interval i<=j<n: distinct intervals never share a cell, every interval's cell lies inside the storage, and reading an interval returns the value last written to it or else the initial value. "
 "Cells of object type each start with a fresh object of their own.",
 ["inputs", "histories"], "all sizes, all intervals, all write sequences",
 NOASSERT + "An index formula that collides or overruns only for some sizes is not noticed.",
 both("uppertriangularmatrix"), [("operator()(i,j) index formula and element count", S + "uppertriangularmatrix.cpp")],
 observe=["operator()(i,j)", "operator()(i,j,value)", "getElements", "getSize"])
prop("C03", "Hierarchy metadata is right for every tree",
 "For every tree given as a parent list with its leaves numbered first (any shape, leaves at any depths, inner nodes in any order), the children lists are exactly the inverse of the parent relation, every node's size is the number of leaves below it, and the root is the node without parent. "
 "The traversal path lists every node exactly once, the leaves first and every child before its parent, and computing the metadata again gives the same result.",
 ["inputs", "histories"], "all rooted trees with leaves numbered first",
 NOASSERT + "The only hierarchies exercised are one small balanced tree and one three-node tree.",
 both("hvalues"), [("HValuesMetaData::setPath", S + "hvalues.cpp")],
 observe=["getChildren", "getSize", "getPath", "getRoot"])
prop("C04", "Entropy, entropy reduction and divergence follow their definitions",
 "For every value v, information e and element count n, the entropy reduction is v*log2(v)-e when v>0 and 0 otherwise, and the divergence is v*log2(n) minus that entropy reduction. "
 "The logarithm is never evaluated on a value that may be zero or negative.",
 ["inputs"], "all values, also zero and negative ones, and all element counts",
 NOASSERT + "Zero and boundary values appear at most once in the test data.",
 both("complexity"), [("entropy / entropyReduction / divergence", S + "complexity.cpp")], observe=["entropyReduction", "divergence"])
prop("C05", "Every interval's gain and loss come from exactly its own values",
 "For ordered data, the gain (loss) of every interval of at least two elements is the sum over all series of the entropy reduction (divergence over the interval's length) of the sum of exactly the interval's values, with the summed entropy of exactly those values; single-element intervals have gain and loss zero. "
 "Computing the qualities again gives the same result.",
 ["inputs", "histories"], "all lengths, numbers of series, values, intervals and call sequences",
 NOASSERT + "No test reads a computed quality.",
 both("oqualities", "complexity", "ovalues"), [("OQualities::computeQualities", S + "oqualities.cpp")], observe=["OQualities::getQualities"])
prop("C06", "Every node's gain and loss come from exactly the leaves below it",
 "For hierarchical data, the gain (loss) of every inner node is the sum over all series of the entropy reduction (divergence over the node's leaf count) of the sum of exactly the values of the leaves below it, with the summed entropy of exactly those values; leaves have gain and loss zero. "
 "Computing the qualities again gives the same result.",
 ["inputs", "histories"], "all trees, numbers of series, values and call sequences",
 NOASSERT + "No test reads a computed quality.",
 both("hqualities", "complexity", "hvalues"), [("HQualities::computeQualities", S + "hqualities.cpp")], observe=["HQualities::getQualities"])
prop("C07", "Every node-and-interval gain and loss come from exactly its own values",
 "For spatiotemporal data, the gain (loss) of every node and interval is the sum over all series of the entropy reduction (divergence over leaf count times interval length) of the sum of exactly the values of the leaves below the node at the instants of the interval, with the summed entropy of exactly those values; a single leaf at a single instant has gain and loss zero. "
 "Computing the qualities again gives the same result.",
 ["inputs", "histories"], "all trees, lengths, numbers of series, values, nodes, intervals and call sequences",
 NOASSERT + "No test reads a computed quality.",
 both("dqualities", "complexity", "dvalues"), [("DQualities::computeQualities", S + "dqualities.cpp")], observe=["DQualities::getQualities"])
prop("C08", "Normalisation divides every quality by the original whole exactly once",
 "Normalising divides the gain and the loss of every node and interval exactly once by the gain and loss that the full aggregate (root, whole interval) had before normalisation, wherever that full aggregate is stored. "
 "A full aggregate whose gain or loss is zero leaves that measure unchanged instead of producing undefined numbers, and qualities supplied ready-made can be normalised like computed ones.",
 ["inputs"], "all trees (root anywhere), lengths and data, computed or ready-made qualities",
 NOASSERT + "In the test trees the root is the last node, so the order of the divisions cannot matter.",
 both("oqualities", "hqualities", "dqualities", "quality"), [("normalize of the three quality classes", S + "{o,h,d}qualities.cpp")], observe=["getQualities after normalize"])
prop("C09", "The best ordered partition is optimal over all segmentations",
 "For every parameter, no division of the ordered dimension into consecutive intervals has a better summed trade-off than the one returned; a cut is adopted only where it is strictly better than the alternatives considered before it, starting from the uncut interval.",
 ["inputs"], "all qualities, lengths and parameters",
 NOASSERT + "A dynamic programme that skips or mis-pairs some candidate still returns some partition.",
 both("opartitioner", "tradeoff", "opartition"), [("OPartitioner::computeBestPartition", S + "opartitioner.cpp")], observe=["computeBestPartition(p)->getParts()"])
prop("C10", "The best hierarchical partition is optimal over all hierarchy cuts",
 "For every parameter and tree, no division of the hierarchy into subtrees has a better summed trade-off than the one returned; an inner node is split into its children only where that is strictly better than keeping it whole.",
 ["inputs"], "all qualities, trees and parameters",
 NOASSERT + "A dynamic programme that skips a node still returns some partition.",
 both("hpartitioner", "tradeoff", "hpartition"), [("HPartitioner::computeBestPartition", S + "hpartitioner.cpp")], observe=["computeBestPartition(p)->getParts()"])
prop("C11", "The best spatiotemporal partition is optimal over all recursive splits",
 "For every parameter, tree and length, no partition obtained by recursively splitting a node-and-interval area into its child nodes over the same interval or into two consecutive intervals of the same node has a better summed trade-off than the one returned; a split is adopted only where it is strictly better than the alternatives considered before it, starting from the whole area.",
 ["inputs"], "all qualities, trees, lengths and parameters",
 NOASSERT + "A dynamic programme that skips or mis-pairs some candidate still returns some partition.",
 both("dpartitioner", "tradeoff", "dpartition"), [("DPartitioner::computeBestPartition", S + "dpartitioner.cpp"), ("DPartition::computeSubPart", S + "dpartition.cpp")], observe=["computeBestPartition(p)->getParts()"])
prop("C12", "The parts of a partition tile the whole exactly once and describe themselves",
 "The parts of every partition built from well-formed cuts cover the whole (every element, leaf, or leaf and instant) exactly once, following exactly the cuts. "
 "Each part reports its own bounds, node and size (element count, leaf count, or their product) and carries the quality of exactly its own interval, node, or node and interval.",
 ["inputs"], "all well-formed cut structures over all lengths and trees",
 NOASSERT + "No test looks at the parts.",
 both("opartition", "hpartition", "dpartition"), [("computeParts / computeSubPart", S + "{o,h,d}partition.cpp")], observe=["getParts", "OPart/HPart/DPart getters"])
prop("C13", "A partition's quality is the sum of its parts' qualities",
 "For every partition the reported gain and loss equal the sums of the gains and losses of its parts, each part counted once, and the reported parameter is the one it was computed for.",
 ["inputs"], "all partitions of all three kinds",
 NOASSERT + "No test compares a partition's quality with its parts.",
 both("partition", "opartition", "hpartition", "dpartition", "quality"), [("computeQuality", S + "{o,h,d}partition.cpp")], observe=["getQuality", "getParameter"])
prop("C14", "A parameter sweep keeps, in order, the distinct best partitions",
 "After a sweep over [min,max], each retained partition is the best partition for the parameter it is filed under; the parameter list is strictly ascending, starts at min, and lists exactly the parameters of the retained partitions. "
 "A parameter is dropped only when its partition equals the one of the preceding parameter, and between two neighbours the midpoint is explored exactly while their partitions differ and their distance exceeds the threshold.",
 ["inputs", "configurations"], "all data, thresholds and ranges, also min equal to max, for all three partitioners",
 NOASSERT + "Lists are printed at most, never compared.",
 both("partitioner", "opartitioner", "hpartitioner", "dpartitioner"), [("computeBestPartitions / addBestQualities", S + "{o,h,d}partitioner.cpp")], observe=["getPList", "getPartitions"])
prop("C15", "A parameter sweep always terminates",
 "For every threshold (also zero, negative, or below the resolution of the parameter type) and every range, a sweep terminates: an interval is only refined at a point strictly between its ends, so the recursion shrinks strictly.",
 ["inputs"], "all thresholds and ranges",
 NOASSERT + "All tests use a threshold of 0.001.",
 both("opartitioner", "hpartitioner", "dpartitioner"), [("addBestQualities recursion guard", S + "{o,h,d}partitioner.cpp")], observe=["computeBestPartitions returns"])
prop("C16", "A new sweep starts afresh",
 "The results reported after a sweep depend only on that sweep's data and arguments: nothing of an earlier sweep on the same object (parameters, partitions, tuples, qualities) remains visible.",
 ["histories"], "all sequences of sweeps on one object, for all three partitioners",
 NOASSERT + "Every test performs a single sweep per object.",
 both("opartitioner", "hpartitioner", "dpartitioner", "partitioner"), [("clearing of the result containers", S + "{o,h,d}partitioner.cpp")], observe=["getPList", "getPartitions", "getPartitionsTuples", "getQualityList"])
prop("C17", "The reported tuples and quality list mirror the retained partitions",
 "After a sweep, the tuple list has exactly one row per part of each retained partition, in ascending parameter order, whose columns are the parameter, the part's own bounds (and node and size where the kind has them), gain and loss in the documented order; the quality list maps each retained parameter to the quality of its partition. "
 "The R interface exposes these same columns under the matching names with 1-based positions.",
 ["inputs"], "all sweeps of all three partitioners",
 NOASSERT + "No test reads the tuples; the R interface is not tested at all.",
 both("opartitioner", "hpartitioner", "dpartitioner", "partitioner") + ["R/lpaggreg.R"], [("tuple and quality list filling", S + "{o,h,d}partitioner.cpp"), ("column extraction", "R/lpaggreg.R")], observe=["getPartitionsTuples", "getQualityList", "R data frames"])
prop("C18", "Parameter and curve queries answer from the retained results",
 "The smallest-parameter and largest-parameter strategies return the first and last retained parameters; the optimal strategy returns a retained parameter whose quality is nearest to gain one and loss zero, the largest such one on ties; the area is one minus the trapezoid sum of loss over gain along all consecutive retained parameters. "
 "Every query also returns a defined value when nothing has been computed.",
 ["inputs", "histories"], "all retained results, also none and unnormalised ones",
 NOASSERT + "No test calls these queries.",
 both("partitioner"), [("getP / computePOpt / computeAUC", S + "partitioner.cpp")], observe=["getP", "computeAUC"])
prop("C19", "Aggregated values are the sum and mean of exactly the part's own data",
 "For every part of every partition and every series, the aggregate's sum is the sum of exactly the values covered by the part (its instants; the leaves below its node; both) and its mean is that sum divided by the number of those values; there is one aggregate per part, in part order.",
 ["inputs"], "all parts, nodes at every depth, dimension counts and values",
 NOASSERT + "No test touches the aggregation classes.",
 both("oaggregation", "oaggregationn", "haggregation", "haggregationn", "daggregation", "daggregationn"), [("compute / subSum", S + "{o,h,d}aggregationn.cpp")], observe=["getAggregates", "getSum", "getMean", "getPart"])
prop("C20", "Quality and trade-off arithmetic acts component by component",
 "For all operands, adding, subtracting, multiplying or dividing qualities or trade-offs combines gain with gain, loss with loss and value with value by that one operation, in both the in-place and the two-operand forms, leaving the right operand unchanged. "
 "A trade-off built or set from a quality and parameter p takes the value p*gain-(1-p)*loss and its own copy of that quality, and getters return what setters stored.",
 ["inputs"], "all operands and parameters, also an operand combined with itself",
 NOASSERT + "No test calls these operators directly.",
 both("quality", "tradeoff"), [("operators, setters, computePIC", S + "quality.cpp, tradeoff.cpp")], observe=["getGain/getLoss/getValue/getQuality"])
prop("C21", "Comparisons are coherent",
 "Trade-offs are totally ordered by value, then larger gain, then smaller loss: for any two of them exactly one of less, equal, greater holds, swapping the operands mirrors the answer, and the remaining comparison operators are the matching negations. "
 "Equality of qualities, parts and partitions is symmetric, holds for every object with itself, depends on every identifying component (gain and loss; start and end; node and size; all parts), and inequality is its negation.",
 ["inputs"], "all pairs of operands, in every ordering of their components",
 NOASSERT + "No test calls a comparison operator directly.",
 both("tradeoff", "quality", "opartition", "hpartition", "dpartition"), [("comparison operators", S + "tradeoff.cpp, quality.cpp, {o,h,d}partition.cpp")], observe=["operator== != < > <= >="])
prop("C22", "Computing never modifies its inputs, and copies are independent",
 "Computing partitions, sweeps, aggregations, queries and comparisons leaves the qualities and values they are given unchanged, so results do not depend on what was computed before; values handed over as containers are copied. "
 "Modifying a trade-off that was copied or built from another object never changes that other object.",
 ["inputs", "histories"], "all call histories over all inputs",
 NOASSERT + "No test looks at the inputs afterwards or computes twice and compares.",
 both("opartitioner", "hpartitioner", "dpartitioner", "opartition", "hpartition", "dpartition", "tradeoff", "partitioner") + both("oaggregationn", "haggregationn", "daggregationn"), [("fresh accumulators, copies in Tradeoff", S + "tradeoff.cpp, {o,h,d}partition*.cpp")], observe=["getQualities before and after"])
prop("C23", "Results depend on the arguments only",
 "Every operation is a deterministic function of its object and arguments: the library keeps no mutable state shared between objects, uses no randomness, time, environment, pointer order or input/output, and so distinct objects may be used concurrently.",
 ["schedules", "histories", "configurations"], "all interleavings of uses of distinct objects, all environments",
 NOASSERT + "Tests are single-threaded and run once.",
 [H + "complexity.h", H + "lpglobal.h"] + both("opartitioner", "quality"), [("absence of mutable globals and statics", "src/lpaggreg")], observe=["all public operations"])
prop("C24", "Every declared operation is usable in every configuration",
 "Every operation declared in the installed headers is defined by the library under exactly the declared name, every installed header can be included on its own, and the library compiles in every supported configuration (also comparing partitions by quality), where partition equality then means equality of quality values.",
 ["configurations", "programs"], "all client programs using the public headers, all compile-time options",
 NOASSERT + "Only one configuration is built and many declared operations are never referenced.",
 [H + "lpglobal.h"] + both("tradeoff", "quality", "opartition", "hpartition", "dpartition"), [("namespaces of operator definitions, PARTITION_COMPARE_QUALITY", S + "tradeoff.cpp, {o,h,d}partition.cpp")], observe=["linking client programs"])
prop("C25", "No operation leaves its containers or reads undefined data",
 "On well-formed input (any length of at least one, any tree with at least one leaf, also a hierarchy of a single node) no operation, called once the results it reports have been computed, accesses a container outside its bounds, uses an invalidated iterator, dereferences a null object, or reads a variable or member that was never set.",
 ["inputs", "histories"], "all well-formed inputs and all call orders that compute results before asking for them",
 NOASSERT + "Degenerate sizes are not tested and no sanitizer is used.",
 both("opartitioner", "hpartitioner", "dpartitioner", "oqualities", "hqualities", "dqualities", "hvalues", "partitioner"), [("loop bounds and guards", "src/lpaggreg/sources")], observe=["all public operations"])
prop("C26", "Quality numbers keep their extended precision end to end",
 "Gains, losses, trade-off values and the sums and entropies they are computed from are carried and computed in the library's quality type from the first accumulation to the reported tuples, with no intermediate step in a narrower type. The trade-off parameter itself is a single-precision number, and only the final area query computes in its own single-precision result type.",
 ["inputs"], "all data",
 NOASSERT + "No test compares numbers, so lost digits are invisible.",
 both("complexity", "quality", "tradeoff", "oqualities", "hqualities", "dqualities") + [H + "lpglobal.h"], [("lp_quality_type used throughout", "src/lpaggreg")], observe=["getGain/getLoss/getValue"])
prop("C27", "The R interface computes on exactly the data it is given",
 "For every array, hierarchy and threshold, each R entry point hands the library the entry (i,j,k) of the array at [i][j][k] for every i, j and k, and every parent of the 1-based hierarchy counted from zero; it computes and then normalises the qualities of those values, sweeps exactly the range from 0 to 1 with exactly the given threshold on them, and reports the answers of that sweep.",
 ["inputs"], "all arrays, hierarchies and thresholds, for all three entry points",
 "The R interface is neither built nor tested by the test suite.",
 ["R/lpaggreg.R"], [("convertToMicroModel, convertToHierarchy, oaggregate, haggregate, daggregate", "R/lpaggreg.R")], observe=["oaggregate", "haggregate", "daggregate"])
prop("C28", "Results stay valid on their own and every object is released exactly once",
 "Qualities, partitions, parts and aggregates stay valid after everything they were computed from has been released, because each object shares the ownership of what it needs and refers to nothing that ends earlier. "
 "Every object the library allocates is released exactly once, when its last user is gone: nothing leaks and nothing is released twice, for every history of computing, copying and releasing.",
 ["inputs", "histories"], "all orders of computing, copying and releasing objects, also through the R interface",
 NOASSERT + "Tests keep every object until they end and run without a sanitizer or leak detector.",
 both("opartition", "hpartition", "dpartition", "oqualities", "hqualities", "dqualities", "tradeoff") + both("oaggregation", "haggregation", "daggregation") + ["R/lpaggreg.R"], [("allocations, smart-pointer members, proxies", "src/lpaggreg")], observe=["use of results after their inputs are gone", "leak and double-free freedom"])
prop("C29", "Slicing a trace in R conserves the time spent in every state",
 "For every trace and number of time slices, the microscopic description the R helpers build attributes to every resource, state and slice exactly the time that resource spent in that state during that slice, so that over all slices the amounts add up to the durations in the trace, and it names each resource's parent in the hierarchy.",
 ["inputs"], "all traces and slice counts",
 "The R helpers are neither built nor run by the test suite.",
 ["R/lpaggreg_pjdump.R"], [("slicerstate, slicerprvcounter, pjdump2micro", "R/lpaggreg_pjdump.R")], observe=["pjdump2micro"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
