// P05: closest pair between two sets (dual-tree search, kth shortest edge, component-restricted) against all pairs.
#include "trees.hpp"

#include "ffcl/search/ClosestPairOfSamples.hpp"
#include "ffcl/search/Search.hpp"

using namespace vf;
namespace SA = ffcl::search::algorithms;

struct PairD {
    double      dist;
    std::size_t q, r;
};

template <typename T, typename Edge>
void judge(Ctx& ctx, const Edge& e, const std::vector<PairD>& sorted, const std::map<std::pair<std::size_t, std::size_t>, double>& table,
           std::size_t k, double scale, const std::string& what) {
    const auto   q = std::get<0>(e), r = std::get<1>(e);
    const double dd = static_cast<double>(std::get<2>(e));
    auto         it = table.find({q, r});
    ctx.check(it != table.end(), "pair-outside-sets", what, ": (", q, ",", r, ") is not an eligible pair of the two sets");
    ctx.check(near<T>(dd, it->second, scale), "pair-distance", what, ": (", q, ",", r, ") reported at ", dd, ", is at ", it->second);
    const double expected = sorted[std::min(k, sorted.size()) - 1].dist;
    ctx.check(near<T>(dd, expected, scale), "not-closest-pair", what, ": (", q, ",", r, ") at ", dd, " but number ", k,
              " in order is at ", expected, " (", sorted[std::min(k, sorted.size()) - 1].q, ",", sorted[std::min(k, sorted.size()) - 1].r, ") of ",
              sorted.size(), " pairs");
    ctx.count("edges_judged");
}

template <typename T>
void one(Ctx& ctx) {
    Rng&        r    = ctx.rng;
    std::size_t n    = std::max<std::size_t>(2, pick_n(r, ctx.thorough ? 400 : 160));
    std::size_t d    = pick_d(r, 6);
    auto        data = any_data<T>(r, n, d);
    maybe_rescale(r, data);
    const double scale = coord_scale(data.v);
    auto         oq = pick_tree_opts(r, d), orf = pick_tree_opts(r, d);
    ctx.desc = data.str() + " Q{" + oq.str() + "} R{" + orf.str() + "}";
    seed_engine(r.next());

    // two subsets: a partition, overlapping, or identical
    std::vector<std::size_t> qi, ri;
    const int                how = static_cast<int>(r.range(0, 3));
    if (how <= 1) {
        std::vector<std::size_t> all(n);
        std::iota(all.begin(), all.end(), 0);
        r.shuffle(all);
        auto cut = static_cast<std::size_t>(r.range(1, static_cast<long long>(n) - 1));
        if (how == 1)  // spatially separated
            std::sort(all.begin(), all.end(), [&](auto a, auto b) { return data.at(a, 0) < data.at(b, 0); });
        qi.assign(all.begin(), all.begin() + cut);
        ri.assign(all.begin() + cut, all.end());
    } else {
        qi = pick_indices(r, n, how == 2 ? 1.0 : 0.3);
        ri = pick_indices(r, n, how == 2 ? 1.0 : 0.3);
    }

    auto all_pairs = [&](auto&& ok, std::vector<PairD>& sorted, std::map<std::pair<std::size_t, std::size_t>, double>& table) {
        for (auto a : qi)
            for (auto b : ri)
                if (ok(a, b)) {
                    double x     = ref_distance(&data.v[a * d], &data.v[b * d], d);
                    table[{a, b}] = x;
                    sorted.push_back({x, a, b});
                }
        std::sort(sorted.begin(), sorted.end(), [](auto& a, auto& b) { return a.dist < b.dist; });
    };
    std::vector<PairD>                                     sorted;
    std::map<std::pair<std::size_t, std::size_t>, double> table;
    all_pairs([](auto, auto) { return true; }, sorted, table);

    auto qcopy = qi, rcopy = ri;
    {
        auto qt       = make_tree(qcopy, data, oq);
        auto searcher = ffcl::search::Searcher(make_tree(rcopy, data, orf));
        for (std::size_t k : {std::size_t{1}, std::size_t{2}, static_cast<std::size_t>(r.range(1, 8)),
                              static_cast<std::size_t>(r.range(1, static_cast<long long>(std::min<std::size_t>(ri.size() + 2, 40))))}) {
            auto e = searcher.dual_tree_shortest_edge(qt, k);
            judge<T>(ctx, e, sorted, table, k, scale, "dual tree k=" + std::to_string(k));
        }
        std::size_t nodes = 0, leaves = 0, depth = 0;
        tree_shape(qt.root(), 0, nodes, leaves, depth);
        if (nodes > 1)
            ctx.nontrivial(Hasher().addv(data.v).addv(qi).addv(ri).add(oq.bucket).add(orf.bucket).h);

        // the second set restricted to other components than the query's
        ffcl::datastruct::UnionFind<std::size_t> uf(n);
        std::vector<char>                        mine(n, 0);
        for (std::size_t i = 1; i < qi.size(); ++i)
            uf.merge(qi[0], qi[i]);
        for (auto a : qi)
            mine[a] = 1;
        const auto extra = r.chance(0.5) ? r.range(0, static_cast<long long>(n)) : 0;
        for (long long m = 0; m < extra; ++m) {
            auto a = static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1));
            auto b = static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1));
            uf.merge(a, b);
        }
        const auto rep = uf.find(qi[0]);
        std::vector<char> in_comp(n);
        for (std::size_t i = 0; i < n; ++i)
            in_comp[i] = uf.find(i) == rep;
        std::vector<PairD>                                     s2;
        std::map<std::pair<std::size_t, std::size_t>, double> t2;
        all_pairs([&](auto, auto b) { return !in_comp[b]; }, s2, t2);
        if (!s2.empty()) {
            for (std::size_t k : {std::size_t{1}, static_cast<std::size_t>(r.range(1, 6))}) {
                auto e = searcher.dual_tree_shortest_edge(qt, uf, rep, k);
                judge<T>(ctx, e, s2, t2, k, scale, "dual tree across components k=" + std::to_string(k));
            }
            auto qc = qi, rc = ri;
            auto e  = SA::sequential_dual_set_shortest_edge(qc.begin(), qc.end(), data.v.begin(), data.v.end(), d, rc.begin(), rc.end(),
                                                           data.v.begin(), data.v.end(), d, uf, rep);
            judge<T>(ctx, e, s2, t2, 1, scale, "sequential across components");
            ctx.count("component_cases");
        }
    }
    {
        std::size_t k  = static_cast<std::size_t>(r.range(1, 4));
        auto        qc = qi, rc = ri;
        auto        e = SA::dual_set_shortest_edge(qc.begin(), qc.end(), data.v.begin(), data.v.end(), d, rc.begin(), rc.end(), data.v.begin(),
                                            data.v.end(), d, k);
        judge<T>(ctx, e, sorted, table, k, scale, "dual set k=" + std::to_string(k));
        const double x = static_cast<double>(SA::dual_set_shortest_distance(qc.begin(), qc.end(), data.v.begin(), data.v.end(), d, rc.begin(), rc.end(),
                                                                   data.v.begin(), data.v.end(), d, k));
        ctx.check(near<T>(x, sorted[std::min(k, sorted.size()) - 1].dist, scale), "not-closest-pair", "dual set distance k=", k, " is ", x,
                  " expected ", sorted[std::min(k, sorted.size()) - 1].dist);
    }
    {
        // the exhaustive one ranks pairs of distinct positions only
        std::vector<PairD>                                     s3;
        std::map<std::pair<std::size_t, std::size_t>, double> t3;
        all_pairs([&](auto a, auto b) { return std::memcmp(&data.v[a * d], &data.v[b * d], d * sizeof(T)) != 0; }, s3, t3);
        auto e = SA::simple_dual_set_shortest_edge(qi.begin(), qi.end(), data.v.begin(), data.v.end(), d, ri.begin(), ri.end(),
                                                   data.v.begin(), data.v.end(), d);
        if (!s3.empty() && s3[0].dist > 1e-15 * scale)
            judge<T>(ctx, e, s3, t3, 1, scale, "exhaustive");
    }
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    ctx.index % 3 ? one<double>(ctx) : one<float>(ctx);
}
