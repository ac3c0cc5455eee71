"""Source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
I = "include/ffcl/"


def P(pid, title, statement, over, qtext, why, files, mech, observe=None, technique="", note="", na=None):
    return dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=[I + f for f in files], mech=[(a, I + b) for a, b in mech], observe=observe or [],
                technique=technique, note=note, na=na)


TRUST = ("Held on every execution produced; says nothing about inputs the generators cannot produce. Trusts the "
         "reference computation in the harness, written without the library's code, and the compiler.")

PROPS = [
    P("P01", "Nearest-neighbour queries are exact",
      "A k-nearest-neighbour query over an index returns exactly the k closest indexed samples to the query with their "
      "true distances, in no particular order, whatever the index was built with. It returns fewer only when "
      "fewer samples are indexed, and a query without a limit returns all of them.",
      ["inputs", "configurations"],
      "all datasets (duplicates, ties, collinear, any unit of measure, signed, unsigned and floating point), subsets of "
      "indexed samples, leaf capacities, depth limits, axis selection policies, k and query points, one at a time or in batches",
      "The tests compare a few random datasets with one build configuration; pruning mistakes show only for particular "
      "positions of the query relative to a cut, ties and value types.",
      ["search/Search.hpp", "search/TreeTraverser.hpp", "search/buffer/Unsorted.hpp", "search/buffer/StaticBuffer.hpp",
       "datastruct/tree/kdtree/KDTree.hpp", "datastruct/tree/kdtree/KDNodeView.hpp"],
      [("branch and bound descent and backtracking to siblings", "search/TreeTraverser.hpp"),
       ("bounded candidate buffer", "search/buffer/StaticBuffer.hpp"),
       ("spatial partitioning", "datastruct/tree/kdtree/KDTree.hpp")],
      ["the buffers a search returns"],
      "runtime oracle: brute-force ranking of every answered query", TRUST),
    P("P02", "Range queries return exactly what lies in the range",
      "A query for the samples inside a ball or an axis-aligned box returns every indexed sample inside the range and "
      "nothing else, with true distances to the centre of the range. This holds for every index configuration and every "
      "way the range may be described.",
      ["inputs", "configurations"],
      "all datasets, indexed subsets, tree options, centres, radii, boxes, including empty and all-covering ranges and ranges whose border passes through samples",
      "The tests check a handful of centred ranges; whether a subtree is skipped depends on how the range overlaps its cell.",
      ["search/Search.hpp", "search/TreeTraverser.hpp", "datastruct/bounds/Ball.hpp", "datastruct/bounds/AABB.hpp",
       "datastruct/bounds/AABBWithCentroid.hpp"],
      [("bound membership tests", "datastruct/bounds/Ball.hpp"), ("range traversal", "search/TreeTraverser.hpp")],
      ["the buffers a search returns"], "runtime oracle: exhaustive membership test of every sample for every range", TRUST),
    P("P03", "Searches with exclusions stay exact over what remains",
      "A search told to ignore samples it has already visited, or all samples connected to the query's own component, "
      "returns exactly the nearest among the remaining samples, with or without a range or a limit. Results never contain an "
      "excluded sample, and a buffer answers the same after it was copied or moved.",
      ["inputs", "histories"],
      "all datasets, all visited sets (owned or referred to), all sequences of merges of components, index options, query points, ranges and limits",
      "The tests use one visited set at a time and no copies; an excluded sample that still tightens the pruning bound goes unnoticed.",
      ["search/buffer/WithMemory.hpp", "search/buffer/WithUnionFind.hpp", "datastruct/UnionFind.hpp"],
      [("visited set kept by the buffer", "search/buffer/WithMemory.hpp"),
       ("component filter", "search/buffer/WithUnionFind.hpp")],
      ["the buffers a search returns"], "runtime oracle: brute force over the eligible samples along histories of searches", TRUST),
    P("P04", "A spatial index partitions exactly the indexed samples",
      "Building an index over a set of samples keeps exactly these samples, each in exactly one node, with everything "
      "before a cut on its one side and everything after it on its other side, inside the box of its node, and within the requested leaf "
      "capacity and depth. The samples themselves are not modified, and the index keeps saying so after it is moved.",
      ["inputs", "configurations"],
      "all datasets including duplicates along the cut axis, all subsets of indices, leaf capacities, depth limits, axis policies, feature masks",
      "The tests print or serialize trees and never compare their content with the input.",
      ["datastruct/tree/kdtree/KDTree.hpp", "datastruct/tree/kdtree/KDNodeView.hpp",
       "datastruct/tree/kdtree/KDTreeAlgorithms.hpp", "datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp",
       "datastruct/tree/kdtree/policy/SplittingRulePolicy.hpp"],
      [("recursive median split", "datastruct/tree/kdtree/KDTree.hpp"),
       ("axis selection", "datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp")],
      ["the nodes of a built tree"], "structural invariant monitor walking every built index", TRUST),
    P("P05", "Closest pairs between two sets are the true closest pairs",
      "The search for the k-th shortest edge between a set of queries and a set of references returns the pair at that rank by distance "
      "over all eligible pairs, with its true distance. When samples carry components, only references outside the queries' component are eligible.",
      ["inputs", "configurations"],
      "all pairs of floating point datasets, all k up to the number of eligible pairs, all partitions into components, all tree options",
      "The tests compare the first edge on a few random inputs; the pruning of pairs of nodes depends on geometry and on how full the queue of candidates is.",
      ["search/Search.hpp", "search/DualTreeTraverser.hpp", "search/ClosestPairOfSamples.hpp",
       "search/buffer/IndicesToBuffersMap.hpp", "datastruct/bounds/distances/MinDistance.hpp"],
      [("pair pruning by minimal box distance", "search/DualTreeTraverser.hpp"),
       ("queue of shortest edges", "search/ClosestPairOfSamples.hpp")],
      ["the edges a search returns"], "runtime oracle: all pairs", TRUST),
    P("P06", "The spanning tree connects all samples with minimal total distance",
      "The spanning tree of a dataset has one edge fewer than samples, connects all of them and has the least possible "
      "total weight, every weight being the true distance of its end points. With a neighbourhood size, weights "
      "are mutual reachability distances and the tree is minimal for those.",
      ["inputs", "configurations"],
      "all floating point datasets including duplicates and equal distances, all neighbourhood sizes, all tree options",
      "The tests run it on a few datasets and look at neither weights nor connectivity; wrong edges appear only when components meet in a specific order.",
      ["datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp", "datastruct/graph/spanning_tree/MinimumSpanningTree.hpp",
       "datastruct/graph/spanning_tree/CoreDistances.hpp", "datastruct/UnionFind.hpp"],
      [("repeated merging of components along their closest edges", "datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"),
       ("mutual reachability", "datastruct/graph/spanning_tree/CoreDistances.hpp")],
      ["the edges returned"], "runtime oracle: Prim's algorithm, sorted weights and connectivity of every tree", TRUST),
    P("P07", "The single-linkage hierarchy reflects the spanning tree exactly",
      "The hierarchy made from a spanning tree contains every sample once as a leaf, sizes add up, and two samples merge "
      "exactly at the largest edge on their path. A flat cut at any level puts two samples together if and only if they merge "
      "below it, gives different labels to different clusters and marks clusters smaller than asked as noise.",
      ["inputs"], "all weighted spanning trees (chains, stars, random, equal weights), all cut levels and minimum sizes",
      "The tests print hierarchies without an oracle; mistakes depend on shape, ties and the position of the cut between levels.",
      ["datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp",
       "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp"],
      [("merging by increasing weight", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp")],
      ["nodes of the hierarchy", "labels of a cut"], "runtime oracle: minimax paths for all pairs of samples", TRUST),
    P("P08", "HDBSCAN selects the clusters of largest excess of mass",
      "Density-based hierarchical clustering returns the set of disjoint clusters of maximal total excess of mass in the hierarchy condensed by the "
      "minimum cluster size; every selected cluster has at least that size. Every sample below a selected cluster gets its "
      "label, every other sample is noise.",
      ["inputs", "configurations"], "all floating point datasets including duplicates and equal distances, all minimum cluster sizes and neighbourhood sizes",
      "The tests write label files without an oracle.",
      ["hdbscan/HDBSCAN.hpp", "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp",
       "datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp"],
      [("condensation", "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"),
       ("bottom-up selection", "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp")],
      ["labels", "nodes of the condensed tree"],
      "runtime oracle: independent condensation, stability and selection; ambiguous (tied) stabilities excluded", TRUST),
    P("P09", "DBSCAN clusters are exactly the density-connected samples",
      "Two core samples share a label if and only if a chain of core samples within the radius links them; a sample within the radius of a "
      "core sample is in the cluster of such a core, and every other sample is noise. This holds whatever the order of the samples.",
      ["inputs", "configurations"], "all floating point datasets, orders of samples, radii (distinct from all pairwise distances), density thresholds, tree options",
      "The tests compare nothing; border and noise mistakes depend on the order in which samples are visited.",
      ["dbscan/DBSCAN.hpp"], [("expansion of clusters from core samples", "dbscan/DBSCAN.hpp")], ["labels"],
      "runtime oracle: quadratic density-connectivity reference", TRUST),
    P("P10", "Every k-means iteration moves centroids to the means of their samples",
      "One step of either k-means algorithm moves each centroid to the mean of the samples that are closest to it, leaves a "
      "centroid without samples where it is, and never increases the sum of squared distances. The reported total deviation is the sum of the "
      "distances of all samples to their closest current centroid; both algorithms agree with this at every step of a run.",
      ["inputs", "histories"],
      "all floating point datasets, all initial centroids (duplicates, far away, bunched), all numbers of steps; samples equally close to several centroids may belong to any of them",
      "The tests check that labels of a few synthetic clusters come out; a bound that becomes stale after several steps shows on particular movements only.",
      ["kmeans/Lloyd.hpp", "kmeans/Hamerly.hpp", "kmeans/KMeansUtils.hpp"],
      [("skipping of samples whose bounds prove that they stay", "kmeans/Hamerly.hpp"), ("full reassignment", "kmeans/Lloyd.hpp")],
      ["the centroids and the total deviation after each step"],
      "runtime oracle: reassignment and means in extended precision after every step", TRUST),
    P("P11", "Fitting k-means keeps the best candidate and predicts the nearest centroid",
      "Fitting returns the centroids of the candidate with the least total deviation among its restarts, runs no more iterations than allowed, and continues "
      "from the given or previous centroids when told to. Prediction gives each sample its closest fitted centroid, "
      "distances to centroids are the true ones, and a converged fit is a fixed point.",
      ["inputs", "configurations", "histories"],
      "all floating point datasets, numbers of centroids, restarts, iteration limits, early stopping settings, initialisations, orders of fit and predict calls",
      "The tests use one configuration on well separated blobs, for which every candidate is best.",
      ["kmeans/KMeans.hpp"], [("restarts and early stopping", "kmeans/KMeans.hpp")],
      ["the fitted centroids", "predictions", "distances"],
      "runtime oracle: candidates replayed one by one, nearest centroids recomputed", TRUST),
    P("P12", "FasterPAM reduces the total deviation to a local optimum",
      "After every step the medoids are distinct samples and the reported total deviation is the sum of the distances of all samples to their nearest medoid; it never grows. "
      "When a step changes nothing, exchanging any medoid for any other sample would not reduce it (up to rounding). The nearest, second and third nearest "
      "medoids of every sample are the true ones, ties included.",
      ["inputs", "histories"],
      "all floating point and signed integer datasets (duplicates, ties, any unit), two or more initial medoids, all numbers of steps, distances on the fly or precomputed",
      "The tests look at the labels of separated blobs; stale nearest medoids after a sequence of swaps only show as a wrong deviation or a missed swap.",
      ["kmedoids/FasterPAM.hpp", "kmedoids/PAMUtils.hpp", "datastruct/matrix/PairwiseDistanceMatrix.hpp",
       "datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"],
      [("incremental update of nearest and second nearest medoids", "kmedoids/FasterPAM.hpp"), ("ranking of medoids", "kmedoids/PAMUtils.hpp")],
      ["the medoids and the total deviation after each step"],
      "runtime oracle: total deviation recomputed after every step, all swaps tried at fixed points", TRUST),
    P("P13", "FasterMSC reduces the medoid silhouette loss to a local optimum",
      "After every step the medoids are distinct samples and the reported loss is the sum over samples of the distance to the nearest medoid divided by the distance "
      "to the second nearest one (zero when both are zero); it never grows. When a step changes nothing, exchanging any medoid for "
      "any other sample would not reduce it (up to rounding).",
      ["inputs", "histories"],
      "all floating point datasets (duplicates, ties, any unit), two or more initial medoids, all numbers of steps, distances on the fly or precomputed",
      "The tests look at the labels of separated blobs; two medoids take a path of their own and stale ranks show on particular swap sequences only.",
      ["kmedoids/FasterMSC.hpp", "kmedoids/PAMUtils.hpp", "common/Utils.hpp"],
      [("incremental update of the three nearest medoids", "kmedoids/FasterMSC.hpp"), ("two medoid path", "kmedoids/FasterMSC.hpp")],
      ["the medoids and the loss after each step"],
      "runtime oracle: silhouette loss recomputed after every step, all swaps tried at fixed points", TRUST),
    P("P14", "Fitting k-medoids keeps the best candidate and predicts the nearest medoid",
      "Fitting runs the chosen algorithm from as many random sets of distinct medoids as asked (or from the given or previous medoids), stops at the iteration limit or when "
      "the medoids have not changed for more iterations than the patience, and returns the end of the run of least loss. Prediction gives each sample its "
      "nearest medoid, forwarding its distance, from samples and from distance matrices alike.",
      ["inputs", "configurations", "histories"],
      "all datasets, numbers of medoids from two on, restarts, iteration limits, early stopping settings, algorithms, with and without precomputed distances, orders of fit and predict calls",
      "The tests use one configuration on well separated blobs, for which every candidate is best.",
      ["kmedoids/KMedoids.hpp", "kmedoids/PAMUtils.hpp"], [("restarts and early stopping", "kmedoids/KMedoids.hpp")],
      ["what the front end asks of the algorithm", "the fitted medoids", "predictions", "distances"],
      "runtime monitor: recording and scripted algorithms plugged into the front end; nearest medoids recomputed", TRUST),
    P("P15", "Distances are what their names say",
      "The Euclidean, squared Euclidean, Manhattan, cosine and Levenshtein functions and their variants from the origin return the distance they are named after, the "
      "automatic one picks Euclidean for floating point and Manhattan for integers without wrapping around. The matrices of pairwise "
      "distances, stored or computed on demand, hold exactly these for every ordered pair of samples.",
      ["inputs"], "all vectors and words of all lengths including none, all arithmetic types whose sums of differences are representable, all units, all containers",
      "The tests use one pair of short vectors of one type; overflow, wrap around and dangling temporaries depend on type and length.",
      ["common/math/heuristics/Distances.hpp", "datastruct/matrix/PairwiseDistanceMatrix.hpp", "datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"],
      [("accumulators per type", "common/math/heuristics/Distances.hpp"), ("packed symmetric storage", "datastruct/matrix/PairwiseDistanceMatrix.hpp")],
      ["returned distances"], "runtime oracle: every distance recomputed in extended precision, edit distances by full table", TRUST),
    P("P16", "Silhouette scores follow their definition",
      "Cohesion is the mean distance of a sample to the others of its cluster, separation the least mean distance to the samples of another cluster, "
      "and the silhouette their difference over the larger one: zero for samples alone in their cluster, never outside of -1 to 1. Cluster sizes and the "
      "average score are those of all the labels and scores given.",
      ["inputs"], "all floating point datasets and labellings with at least two clusters, labels without samples and of any integer type included",
      "The tests print scores of k-means results; clusters of one sample, unused labels and narrow label types never occur.",
      ["common/math/heuristics/SilhouetteMethod.hpp"], [("accumulation per cluster", "common/math/heuristics/SilhouetteMethod.hpp")],
      ["returned scores"], "runtime oracle: scores recomputed by definition", TRUST),
    P("P17", "Random selections are fair and come from where they should",
      "Selecting elements or samples at random returns as many as asked, all from the given ones and none twice, and every element has the same chance. Drawing by "
      "weight follows the weights and never draws an element of no weight. Initial centroids are samples (or "
      "lie in the box of the samples), and k-means++ repeats a position only when no other is left.",
      ["inputs", "histories"],
      "all sizes, weights including zeros and widely different ones, datasets including duplicates and negative values, over many draws",
      "The tests look at the size of what is returned; an element that can never be drawn is invisible in a handful of draws.",
      ["common/math/random/Sampling.hpp", "common/math/random/VosesAliasMethod.hpp", "common/math/random/Distributions.hpp",
       "kmeans/KMeansPlusPlus.hpp"],
      [("partial shuffle", "common/math/random/Sampling.hpp"), ("alias table", "common/math/random/VosesAliasMethod.hpp")],
      ["what is drawn"], "runtime monitor: membership and multiplicity of every draw, exact-tail test on the frequencies over thousands of draws", TRUST),
    P("P18", "Sorting and selection order samples and only permute them",
      "Sorting samples along a feature leaves them ordered; partitioning and selection put the requested "
      "element at its place with no greater element before it and no smaller one after it. All of them return a permutation of what they were given.",
      ["inputs"], "all sequences incl. duplicates, presorted, reversed, tiny and huge magnitudes, all subranges and positions, all features",
      "The tests use random vectors, where ties and adversarial pivots hardly occur.",
      ["common/algorithms/Sorting.hpp"], [("in-place partitioning", "common/algorithms/Sorting.hpp")], ["the index sequence"],
      "runtime oracle: order and multiset comparison after every call", TRUST),
    P("P19", "Statistics and rearrangements of samples are what they claim",
      "Means, variances, extremes and ranges per feature, over all samples, a subset of samples or a mask of features, are those of exactly those samples and features; the axis "
      "selected for a cut has the largest range (or variance) among those allowed. Normalisation, translation, transposition and "
      "reordering of samples change exactly what they say.",
      ["inputs"], "all datasets of floating point, signed and unsigned values, negative ones included, whose sums (of squares, for variances) the type of the data represents, all subsets, masks and sizes down to one sample",
      "The tests compare with hand computed values of positive data and full masks.",
      ["common/math/statistics/Statistics.hpp", "common/math/linear_algebra/Transpose.hpp", "common/math/linear_algebra/Translation.hpp",
       "common/Utils.hpp", "datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp"],
      [("one-pass accumulators", "common/math/statistics/Statistics.hpp"), ("axis policies", "datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp")],
      ["returned values"], "runtime oracle: recomputation in extended precision of every result", TRUST),
    P("P20", "Bounding volumes contain what they should and measure correctly",
      "A segment, box or ball contains a point exactly when the point lies within its bounds (the surface belongs to boxes, not to balls), its centre, "
      "lengths, furthest and centre-to-bound distances are those of the shape, and the different ways of describing a shape agree. "
      "The box of a set of samples is the smallest one that contains them all, and the distance between two shapes is zero when they touch and the true gap otherwise.",
      ["inputs"], "all dimensions, segments and boxes of samples of all arithmetic types, boxes and balls of floating point ones, single points, overlapping, touching and disjoint shapes, values of all signs and units",
      "The tests check a few boxes with positive values; integer rounding, negative bounds and gaps along several axes differ by case.",
      ["datastruct/bounds/AABB.hpp", "datastruct/bounds/AABBWithCentroid.hpp", "datastruct/bounds/Ball.hpp", "datastruct/bounds/UnboundedBall.hpp",
       "datastruct/bounds/segment/LowerBoundAndUpperBound.hpp", "datastruct/bounds/segment/LowerBoundAndLength.hpp",
       "datastruct/bounds/distances/MinDistance.hpp", "datastruct/Interval.hpp"],
      [("membership and distance per axis", "datastruct/bounds/AABB.hpp"), ("segment representations", "datastruct/bounds/segment/LowerBoundAndLength.hpp")],
      ["returned memberships, centres and distances"], "runtime oracle: geometry recomputed in extended precision for every shape and point", TRUST),
    P("P21", "No call reads or writes memory it does not own",
      "Building, querying, fitting, predicting, scoring, sorting and serialising never access memory out of bounds, after its lifetime or before it is "
      "initialised, never leak, never overflow or convert out of range, and never end in a crash, whatever the valid data and options. "
      "What a call returns stays usable after the object that returned it is gone, and copies and moved-to objects work as the originals.",
      ["inputs", "histories of calls"], "all operations of the library from datasets without samples on, all capacities, neighbourhoods and options, copies and moves",
      "An access out of bounds usually goes unnoticed: the tests compare results, without instrumentation.",
      ["datastruct/tree/kdtree/KDTree.hpp", "search/TreeTraverser.hpp", "hdbscan/HDBSCAN.hpp", "dbscan/DBSCAN.hpp", "kmeans/KMeans.hpp", "kmedoids/KMedoids.hpp"],
      [("iterator ranges over user data", "datastruct/tree/kdtree/KDTree.hpp"), ("raw array of parents", "datastruct/UnionFind.hpp")],
      ["every memory access and arithmetic operation"],
      "AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer with container annotations, and memcheck for uninitialised reads, over all workloads", TRUST),
    P("P22", "Threads change neither the results nor the safety of the library",
      "With parallelism enabled, fits, distance matrices and transpositions give bit for bit the result of a single thread, whatever the number of threads and the schedule. "
      "One built index or fitted model can be queried, and separate pipelines can run, from several threads at the same time: each call gives the answer it "
      "gives alone, and no two threads touch the same memory without synchronisation when one of them writes.",
      ["schedules", "inputs"], "all numbers of threads, schedules and data; shared objects are only read through their const operations",
      "The test build disables the parallel code and runs one thread; a race shows only in some schedules.",
      ["kmeans/KMeans.hpp", "kmedoids/KMedoids.hpp", "common/math/linear_algebra/Transpose.hpp", "common/math/random/Distributions.hpp",
       "datastruct/matrix/PairwiseDistanceMatrix.hpp", "search/Search.hpp"],
      [("parallel restarts with a choice of the best", "kmeans/KMeans.hpp"), ("engine per thread", "common/math/random/Distributions.hpp")],
      ["results of calls", "memory accesses"], "race detector (ThreadSanitizer with a visible OpenMP runtime) plus result comparison across numbers of threads and schedules", TRUST),
    P("P23", "Serialised indexes and hierarchies read back as what they describe",
      "The JSON an index or a single-linkage hierarchy is serialised to is well formed and describes exactly the object: every node once with its kind, "
      "its samples, its cut and its box, respectively every merge with its parts, its members and its level, in the structure the object has. "
      "Serialising leaves the object as it was.",
      ["inputs", "configurations"], "all datasets of at least one sample with finite values, index options and spanning trees whose hierarchy is at most ten thousand levels deep",
      "The tests write files that nobody reads back.",
      ["datastruct/tree/kdtree/KDTree.hpp", "datastruct/tree/kdtree/KDNodeView.hpp",
       "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"],
      [("recursive writer of an index", "datastruct/tree/kdtree/KDTree.hpp"),
       ("recursive writer of a hierarchy", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp")],
      ["the files written"], "runtime oracle: strict independent JSON reader, content compared with the live object and the input", TRUST),
    P("P24", "Component tracking is an equivalence relation that only merges join",
      "After any sequence of merges and lookups, two elements have the same representative exactly when a chain of merges connects them, the "
      "representative is an element of the component, and a merge returns the representative of the joined component. "
      "Lookups never change any answer, components given at construction count as merged, and moves keep everything.",
      ["histories"], "all sizes and all sequences of merges, lookups and moves, from separate elements or given components",
      "The tests exercise it only through clustering; a wrong path compression shows only after particular sequences of merges.",
      ["datastruct/UnionFind.hpp"], [("path compression and union by rank", "datastruct/UnionFind.hpp")],
      ["representatives returned"], "trace checker: every history replayed on a table of labels", TRUST),
    P("P25", "Large and degenerate inputs are processed to the end",
      "Sorting, indexing, spanning trees, hierarchies, cuts and clusterings of many samples, also when they are all equal, sorted or form chains so that "
      "hierarchies are as deep as the number of samples, end with a correct result and never run out of stack.",
      ["inputs"], "large datasets of every shape, in particular equal values, sorted values and chains of growing gaps, run on a stack of 512 kB",
      "The tests use a few hundred balanced samples; depth grows only with degenerate data.",
      ["common/algorithms/Sorting.hpp", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp",
       "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp", "datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp"],
      [("walks over hierarchies", "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"),
       ("recursive sort", "common/algorithms/Sorting.hpp")],
      ["results", "end of the calls", "stack use"], "stress on a small stack with a watchdog, results judged in linear time", TRUST),
    P("P26", "Calls leave the caller's data alone and answer the same every time",
      "Samples, queries, ranges, labels, centroids, spanning trees and mappings given to an operation that does not document to rearrange them are never written to, and an index "
      "rearranges only the order of the indices given to it. The same call on the same object gives the same answer again, whatever was called in between, "
      "and what was drawn at random depends only on the state of the random engine.",
      ["inputs", "histories"], "all datasets and operations, interleaved with other calls on the same and on other objects",
      "The tests call every operation once on data they own and do not compare the data afterwards.",
      ["datastruct/tree/kdtree/KDTree.hpp", "search/Search.hpp", "kmeans/KMeans.hpp", "kmedoids/KMedoids.hpp", "dbscan/DBSCAN.hpp", "hdbscan/HDBSCAN.hpp"],
      [("iterators into user data", "datastruct/tree/kdtree/KDTree.hpp"), ("state kept between calls", "search/Search.hpp")],
      ["writes to read-only pages", "repeated answers"], "write monitor (inputs on write-protected pages) and repetition oracle", TRUST),
    P("P27", "Calls that fail in the middle leave nothing damaged",
      "When memory runs out at any point of building an index, searching, clustering, fitting, predicting, scoring, sorting, selecting at random or making and "
      "reading a hierarchy, or a centroid initialiser given by the caller throws, the exception reaches the caller: the process does not end, no wrong "
      "result is returned and no memory is lost. The samples are unchanged and an index sequence still holds exactly the indices it held. Indexes, hierarchies and "
      "clustering objects made before answer as before the failed call, and a model that failed to fit can be fitted again like one that never failed.",
      ["fault_sequences", "inputs"],
      "every allocation of every operation fails once (all of them up to 100 per call, a sample beyond), over all kinds of datasets and options",
      "The tests never run out of memory; the paths that unwind after a failure are not executed at all.",
      ["datastruct/tree/kdtree/KDTree.hpp", "datastruct/graph/spanning_tree/CoreDistances.hpp",
       "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp", "datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp",
       "kmeans/KMeans.hpp", "kmedoids/KMedoids.hpp"],
      [("ownership by containers and smart pointers", "datastruct/tree/kdtree/KDTree.hpp"), ("results assigned last", "kmeans/KMeans.hpp"),
       ("destructors of trees", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp")],
      ["exceptions", "blocks of memory alive", "answers of objects after the failure"],
      "fault injection (each allocation fails in turn) with a monitor of exceptions, live memory and of the answers of surviving objects", TRUST),
    P("P28", "Requests without an answer are refused, the others are not",
      "Asking for the nearest, second, third or n-th nearest medoid without medoids, for a rank of 0, above 3 or beyond the number of medoids, k-medoids algorithms over fewer "
      "than two medoids, drawing by weight without weights, and reordering with a number of indices other than that of the elements are refused with "
      "std::invalid_argument and change nothing. The same requests within these limits are answered.",
      ["inputs"], "all datasets, numbers of medoids, ranks, weights and index lists around the limits, with and without a distance matrix",
      "The tests make valid requests only.",
      ["kmedoids/PAMUtils.hpp", "kmedoids/FasterPAM.hpp", "kmedoids/FasterMSC.hpp", "common/math/random/VosesAliasMethod.hpp", "common/Utils.hpp"],
      [("checks of arguments", "kmedoids/PAMUtils.hpp")], ["exceptions", "samples after the call"],
      "trace monitor of accepted and refused requests against the limits of the arguments", TRUST),
    P("P29", "Answers do not depend on how samples and indices are stored",
      "Searching, clustering, fitting, predicting, scoring, sorting, selecting and statistics give, bit for bit, the same answer for the same samples whether they are "
      "stored in one block, in pieces (std::deque), as a part of a longer sequence or can only be read, and for the same indices in every integer type that can count the samples. "
      "Elements outside of the ranges given are neither looked at nor changed.",
      ["inputs"], "all datasets, operations, iterators of vectors, constant vectors, deques and parts of sequences, and index types",
      "The tests only use vectors, whole, and indices of type std::size_t.",
      ["datastruct/tree/kdtree/KDTree.hpp", "common/algorithms/Sorting.hpp", "common/math/statistics/Statistics.hpp", "common/math/heuristics/Distances.hpp",
       "kmeans/Lloyd.hpp", "kmedoids/FasterPAM.hpp", "search/Search.hpp"],
      [("iterator arithmetic", "common/algorithms/Sorting.hpp")], ["answers", "memory around the ranges"],
      "differential monitor: the answers over each storage and index type against those over a vector and std::size_t; the other properties judge the latter", TRUST),
]
