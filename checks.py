"""What each property's check runs: harness, build mode, number of cases per tier."""
GB = 1 << 30
BASE = ["-DTHREADS_ENABLED=false", "-DVERBOSE=false", "-fopenmp", "-D_GLIBCXX_ASSERTIONS"]
THREADED = ["-DTHREADS_ENABLED=true", "-DVERBOSE=false", "-fopenmp"]
MODES = {
    "plain": {"cxx": "g++", "flags": ["-O2", "-g1"] + BASE, "limit_as": 6 * GB},
    "asan": {"cxx": "g++",
             "flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
                       "-fno-sanitize-recover=all"] + BASE,
             "env": {"ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:"
                                     "strict_init_order=1:hard_rss_limit_mb=6000:allocator_may_return_null=0",
                     "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}},
    # the containers know their capacity too: writes between size() and capacity() are reported
    "asanvec": {"cxx": "g++",
                "flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
                          "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1"] + BASE},
    # built without any sanitizer or assertion: memcheck sees what the program itself does
    "memcheck": {"cxx": "g++", "flags": ["-O1", "-g", "-fno-inline-functions", "-DTHREADS_ENABLED=false", "-DVERBOSE=false", "-fopenmp"],
                 "wrap": ["valgrind", "--quiet", "--error-exitcode=99", "--exit-on-first-error=yes", "--undef-value-errors=yes",
                          "--leak-check=no", "--max-stackframe=8000000"]},
    # real OpenMP runtime, threads on
    "omp": {"cxx": "g++", "flags": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"] + THREADED, "limit_as": 12 * GB},
    # own OpenMP runtime (gomp_shim.cpp): the race detector sees every fork, join and hand-out of work
    "tsan": {"cxx": "g++", "flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"] + THREADED,
             "extra_src": ["gomp_shim.cpp"],
             "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"}},
}
MODES["asanvec"]["env"] = MODES["asan"]["env"]
for _slow in ("asan", "asanvec", "memcheck", "tsan"):  # no order-of-magnitude larger datasets where each costs minutes
    MODES[_slow].setdefault("env", {})["VF_LIGHT"] = "1"


def J(src, quick, thorough, **kw):
    return dict(src=src, quick=quick, thorough=thorough, **kw)


CHECKS = {
    "P01": {
        "rule": "one random dataset + build options + 10 queries x (single, explicit bound, batch, unlimited), answers "
                "compared with a brute-force ranking; non-trivial when the tree has more than one node; distinct by "
                "hash of data, indices and options",
        "jobs": [J("p01.cpp", 32000, 300000)],
        "floors": {"queries": 20000, "trees_depth_ge_2": 500},
    },
    "P02": {
        "rule": "one random dataset + index options + balls and boxes over it, every sample classified by the reference; "
                "non-trivial when the index has more than one node and some range is neither empty nor everything",
        "jobs": [J("p02.cpp", 32000, 400000)],
        "floors": {"range_queries": 20000, "trees_depth_ge_2": 500},
    },
    "P03": {
        "rule": "one random dataset + visited sets / component partitions and histories of searches over one buffer; "
                "non-trivial when something is excluded and something remains",
        "jobs": [J("p03.cpp", 40000, 600000)],
        "floors": {"queries": 20000},
    },
    "P04": {
        "rule": "one random dataset + subset + build options; every node of the built index judged; non-trivial when the index has inner nodes",
        "jobs": [J("p04.cpp", 60000, 800000)],
        "floors": {"inner_nodes": 10000},
    },
    "P05": {
        "rule": "two random sets (or one partitioned into components) and k; every returned edge judged against all pairs; "
                "non-trivial when both sides have several nodes",
        "jobs": [J("p05.cpp", 24000, 200000)],
        "floors": {"edges_judged": 5000, "component_cases": 500},
    },
    "P06": {
        "rule": "one random dataset + neighbourhood size; weights compared with Prim's algorithm; non-trivial from 3 samples on",
        "jobs": [J("p06.cpp", 32000, 300000)],
        "floors": {"edges_judged": 50000, "mutual_reachability_msts": 500},
    },
    "P07": {
        "rule": "one spanning tree (random shape or of a dataset); all pairs of samples judged in the hierarchy and in four cuts",
        "jobs": [J("p07.cpp", 40000, 400000)],
        "floors": {"pairs_judged": 1000000, "cuts": 5000},
    },
    "P08": {
        "rule": "one dataset + sizes; selection and labels compared with an independent implementation; non-trivial with at least two clusters",
        "jobs": [J("p08.cpp", 32000, 300000)],
        "floors": {"selections_judged": 5000},
    },
    "P09": {
        "rule": "one dataset in several orders + radius + threshold; every label judged; non-trivial with at least two clusters",
        "jobs": [J("p09.cpp", 28000, 250000)],
        "floors": {"runs": 5000},
    },
    "P10": {
        "rule": "one dataset + initial centroids + steps, followed with both algorithms; every step judged; non-trivial with 3 samples and 2 centroids",
        "jobs": [J("p10.cpp", 48000, 500000)],
        "floors": {"means_judged": 50000, "empty_clusters": 1000},
    },
    "P11": {
        "rule": "one dataset + one configuration of the front end, fitted, predicted and refitted; non-trivial with 3 samples and 2 centroids",
        "jobs": [J("p11.cpp", 160000, 2000000)],
        "floors": {"fits": 5000, "choices_judged": 1000, "predictions": 5000},
    },
    "P12": {
        "rule": "one dataset + initial medoids, followed to the end on the fly and precomputed; every step and every swap at the end judged; non-trivial with 4 samples and a free one",
        "jobs": [J("p12.cpp", 320000, 3000000)],
        "floors": {"steps_judged": 20000, "swaps_judged": 100000, "ranks_judged": 100000},
    },
    "P13": {
        "rule": "one dataset + initial medoids, followed to the end on the fly and precomputed; every step and every swap at the end judged; non-trivial with 4 samples and a free one",
        "jobs": [J("p13.cpp", 480000, 5000000)],
        "floors": {"steps_judged": 20000, "swaps_judged": 100000, "two_medoids": 2000, "more_medoids": 2000},
    },
    "P14": {
        "rule": "one dataset + one configuration of the front end, fitted with a recorded or scripted algorithm, predicted and refitted; non-trivial with 4 samples and a free one",
        "jobs": [J("p14.cpp", 400000, 4000000)],
        "floors": {"fits": 10000, "choices_judged": 2000, "predictions": 20000, "stopped_early": 1000, "refits": 1000},
    },
    "P15": {
        "rule": "two vectors (or words) and every distance of them, or one dataset and both kinds of matrices; non-trivial with 2 features or 3 samples",
        "jobs": [J("p15.cpp", 1600000, 16000000)],
        "floors": {"distances_judged": 200000, "cosines_judged": 10000, "edit_distances_judged": 10000, "matrix_entries": 100000},
    },
    "P16": {
        "rule": "one dataset + one labelling; every score judged; non-trivial with 4 samples",
        "jobs": [J("p16.cpp", 800000, 8000000)],
        "floors": {"labellings": 20000, "silhouettes_judged": 100000, "lone_samples": 5000},
    },
    "P17": {
        "rule": "one selection, weight table or dataset drawn from many times; membership of each draw and the frequencies judged; non-trivial with 3 elements",
        "jobs": [J("p17.cpp", 80000, 800000)],
        "floors": {"chances_judged": 10000, "alias_draws": 100000, "plusplus_centroids": 5000},
    },
    "P18": {
        "rule": "one sequence of samples and one call of each operation; non-trivial with at least 3 samples",
        "jobs": [J("p18.cpp", 120000, 2000000)],
        "floors": {"quicksort": 10000, "quickselect": 10000, "partition": 10000},
    },
    "P19": {
        "rule": "one dataset + subset + mask, every statistic and rearrangement of it judged; non-trivial with 3 samples",
        "jobs": [J("p19.cpp", 3000000, 20000000)],
        "floors": {"means_judged": 10000, "variances_judged": 10000, "axes_judged": 5000, "rearrangements": 5000},
    },
    "P20": {
        "rule": "one segment, box or ball in all its forms, or two boxes, and points in, on and around them; non-trivial when not a single point",
        "jobs": [J("p20.cpp", 2400000, 20000000)],
        "floors": {"memberships": 200000, "segments_judged": 10000, "shapes_judged": 20000, "disjoint_boxes": 5000, "touching_boxes": 2000, "tight_boxes": 5000},
    },
    "P21": {
        "rule": "every workload of the other monitors and sequences of calls at the extremes of the domain, with every access, "
                "allocation and arithmetic operation watched; non-trivial as in the other monitors; distinct by hash of the case",
        "jobs": [J(f"p{n:02d}.cpp", q, q * 25, mode="asanvec", shards=2, memory_only=True, base=1 << 24) for n, q in (
                    (1, 1600), (2, 2000), (3, 1600), (4, 6000), (5, 500), (6, 900), (7, 2000), (8, 900), (9, 1200), (10, 1800),
                    (11, 2000), (12, 4000), (13, 6000), (14, 2400), (15, 8000), (16, 8000), (17, 1400), (18, 12000), (19, 20000), (20, 12000), (23, 2000), (24, 4000), (27, 500), (28, 4000))]
                + [J("p21.cpp", 9000, 300000, mode="asanvec", memory_only=True),
                   J("p22.cpp", 440, 9000, mode="asanvec", shards=2, memory_only=True, flags=["-UTHREADS_ENABLED", "-DTHREADS_ENABLED=true"])]
                + [J(f"p{n:02d}.cpp", q, q * 25, mode="memcheck", shards=2, memory_only=True, base=1 << 25, stall=240) for n, q in (
                    (1, 200), (2, 200), (3, 200), (4, 800), (5, 60), (6, 120), (7, 300), (8, 120), (9, 150), (10, 300),
                    (11, 300), (12, 500), (13, 800), (14, 500), (15, 1000), (16, 1000), (17, 150), (18, 1500), (19, 2000), (20, 1500), (23, 200), (24, 400))]
                + [J("p21.cpp", 1600, 40000, mode="memcheck", memory_only=True, base=1 << 25, stall=240)],
        "floors": {"sequences": 5000, "tiny_datasets": 1000, "fits": 3000, "clusterings": 2000, "searches": 5000, "exceptions": 20},
    },
    "P22": {
        "rule": "one dataset fitted, queried or predicted with one and with several threads, or several pipelines at once; "
                "results compared bit by bit, every access watched by the race detector; non-trivial with at least two threads at work",
        "jobs": [J("p22.cpp", 2200, 40000, mode="tsan", shards=8), J("p22.cpp", 4200, 80000, mode="omp", shards=4)],
        "cores_per_shard": 1,
        "floors": {"parallel_fits": 300, "parallel_loops": 300, "concurrent_queries": 300, "concurrent_predictions": 100, "concurrent_pipelines": 100, "concurrent_operations": 500, "concurrent_hierarchies": 100},
    },
    "P23": {
        "rule": "one index or hierarchy written to a file and read back by an independent reader; non-trivial with at least two nodes",
        "jobs": [J("p23.cpp", 90000, 1200000)],
        "floors": {"files_read": 10000, "nodes_judged": 50000, "indices_judged": 5000, "hierarchies_judged": 5000},
    },
    "P24": {
        "rule": "one history of merges, lookups and moves replayed on a table of labels; non-trivial with at least two merges",
        "jobs": [J("p24.cpp", 300000, 5000000)],
        "floors": {"histories": 50000, "merges": 200000, "finds": 500000},
    },
    "P25": {
        "rule": "one large or degenerate dataset, spanning tree or sequence processed on a small stack; distinct by hash of the case",
        "jobs": [J("p25.cpp", 400, 6000, shards=8, stall=200)],
        "floors": {"large_sorts": 50, "deep_hierarchies": 50, "deep_cuts": 50, "degenerate_clusterings": 50},
    },
    "P26": {
        "rule": "one dataset on write-protected pages and a sequence of operations on it, each repeated; non-trivial with 3 samples",
        "jobs": [J("p26.cpp", 240000, 3500000)],
        "floors": {"searches": 20000, "fits": 5000, "clusterings": 5000, "repetitions": 20000, "indices_built": 10000, "selections": 5000, "medoids": 5000, "pairs": 5000, "statistics": 10000},
    },
    "P27": {
        "rule": "one dataset and operation, every allocation of which fails in turn, or objects that exist before such a call; "
                "non-trivial with 3 samples and 4 allocations",
        "jobs": [J("p27.cpp", 40000, 900000)],
        "floors": {"allocations_failed": 200000, "failures_reported": 200000, "builds_failed": 50000, "searches_failed": 50000, "fits_failed": 50000, "hierarchies_failed": 50000, "callbacks_thrown": 500, "clusterings_failed": 50000},
    },
    "P28": {
        "rule": "one dataset with requests around the limits of their arguments; non-trivial with two samples",
        "jobs": [J("p28.cpp", 160000, 4000000)],
        "floors": {"invalid_requests": 200000, "valid_requests": 200000, "models": 20000},
    },
    "P29": {
        "rule": "one operation on one dataset in two storages, and its indices in two types; non-trivial with three samples",
        "jobs": [J("p29.cpp", 240000, 6000000)],
        "floors": {"storages": 200000, "index_types": 200000, "searches": 100000, "fits": 10000, "clusterings": 20000},
    },
}
