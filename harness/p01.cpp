// P01: k-nearest-neighbour queries return exactly the k nearest indexed samples.
#include "trees.hpp"

#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"

using namespace vf;

template <typename T>
struct Hit {
    double      dist;
    std::size_t index;
};

template <typename Buffer, typename T>
void judge(Ctx& ctx, const Buffer& b, const std::vector<double>& ref, std::size_t k, const std::vector<T>& q,
           const Data<T>& data, const std::vector<char>& indexed, double scale, const char* what, bool limited = true) {
    buffer_accessors(ctx, b, k, limited, q, true, what);
    const auto        idx  = b.indices();
    const auto        dist = b.distances();
    const std::size_t want = std::min(k, ref.size());
    ctx.check(idx.size() == want && dist.size() == want && b.size() == want, "knn-count", what, ": ", idx.size(),
              " neighbours returned, expected ", want, " q=", show(q));
    std::set<std::size_t> seen;
    std::vector<double>   got;
    for (std::size_t i = 0; i < want; ++i) {
        ctx.check(idx[i] < data.n && indexed[idx[i]], "knn-not-indexed", what, ": sample ", idx[i], " was not indexed");
        ctx.check(seen.insert(idx[i]).second, "knn-duplicate", what, ": sample ", idx[i], " returned twice");
        const double d = ref_distance(q.data(), &data.v[idx[i] * data.d], data.d);
        ctx.check(near<T>(static_cast<double>(dist[i]), d, scale), "knn-distance", what, ": reported distance ", dist[i],
                  " of sample ", idx[i], " is really ", d, " q=", show(q));
        got.push_back(d);
    }
    auto sorted = got;
    std::sort(sorted.begin(), sorted.end());
    for (std::size_t i = 0; i < want; ++i) {
        ctx.check(near<T>(sorted[i], ref[i], scale), "knn-not-nearest", what, ": neighbour rank ", i, " at distance ",
                  sorted[i], " but a sample at ", ref[i], " exists; k=", k, " q=", show(q), " got=", show(idx));
    }
    // summary accessors agree with the content
    const double mx = sorted.back(), mn = sorted.front();
    ctx.check(near<T>(static_cast<double>(b.furthest_distance()), mx, scale), "knn-furthest", what,
              ": furthest distance ", b.furthest_distance(), " but content says ", mx);
    ctx.check(near<T>(ref_distance(q.data(), &data.v[b.furthest_index() * data.d], data.d), mx, scale),
              "knn-furthest", what, ": furthest index is not the furthest one");
    ctx.check(near<T>(static_cast<double>(b.closest_distance()), mn, scale), "knn-closest", what,
              ": closest distance ", b.closest_distance(), " but content says ", mn);
    ctx.check(b.closest_index() < data.n && near<T>(ref_distance(q.data(), &data.v[b.closest_index() * data.d], data.d), mn, scale),
              "knn-closest", what, ": closest index is not the closest one");
    ctx.count("neighbours_checked", want);
    ctx.count("queries", 1);
}

template <typename T>
void one(Ctx& ctx) {
    Rng&        r    = ctx.rng;
    std::size_t n    = pick_n(r, ctx.thorough ? 3000 : 600);
    std::size_t d    = sizeof(T) < 4 ? std::min<std::size_t>(pick_d(r), 12) : pick_d(r);  // distances fit the type
    auto        data = any_data<T>(r, n, d);
    maybe_rescale(r, data);
    auto        idx  = pick_indices(r, n);
    auto        opts = pick_tree_opts(r, d, n);
    ctx.desc         = data.str() + " indexed=" + std::to_string(idx.size()) + " " + opts.str();
    std::vector<char> indexed(n, 0);
    for (auto i : idx)
        indexed[i] = 1;
    seed_engine(r.next());
    auto tree = make_tree(idx, data, opts);
    auto searcher = ffcl::search::Searcher(r.chance(0.5) ? Tree<T>(tree) : std::move(tree));

    std::vector<std::vector<T>> queries;
    std::vector<std::size_t>    ks;
    const std::size_t           nq = n > 300 ? 6 : 10;
    for (std::size_t i = 0; i < nq; ++i) {
        queries.push_back(pick_query(r, data));
        std::size_t k;
        double      u = r.unit();
        if (u < 0.3)
            k = 1;
        else if (u < 0.7)
            k = static_cast<std::size_t>(r.range(1, 8));
        else if (u < 0.85)
            k = static_cast<std::size_t>(r.range(1, static_cast<long long>(idx.size())));
        else if (u < 0.95)
            k = idx.size();
        else
            k = r.chance(0.2) ? maybe_large(r, static_cast<std::size_t>(r.range(0, 5)), 1) : idx.size() + static_cast<std::size_t>(r.range(1, 5));
        ks.push_back(k);
    }
    using It  = typename std::vector<T>::iterator;
    using Buf = ffcl::search::buffer::Unsorted<It>;
    std::vector<Buf>                 batch;
    std::vector<std::vector<double>> refs;
    for (std::size_t i = 0; i < nq; ++i) {
        std::vector<double> ref;
        for (auto j : idx)
            ref.push_back(ref_distance(queries[i].data(), &data.v[j * d], d));
        std::sort(ref.begin(), ref.end());
        refs.push_back(ref);
        const double scale = std::max(coord_scale(data.v), coord_scale(queries[i]));
        auto b = searcher(Buf(queries[i].begin(), queries[i].end(), ks[i]));
        judge<Buf, T>(ctx, b, ref, ks[i], queries[i], data, indexed, scale, "single query");
        // an explicitly unbounded ball is the same query
        using UB  = ffcl::datastruct::bounds::UnboundedBallView<It>;
        auto b2 = searcher(ffcl::search::buffer::Unsorted(UB(queries[i].begin(), queries[i].end()), ks[i]));
        judge<decltype(b2), T>(ctx, b2, ref, ks[i], queries[i], data, indexed, scale, "bound query");
        batch.emplace_back(queries[i].begin(), queries[i].end(), ks[i]);
    }
    // the batch interface answers like the single one
    const std::size_t before = batch.size();
    auto              out    = searcher(std::move(batch));
    ctx.check(out.size() == before, "knn-batch", "batch of ", before, " answered with ", out.size());
    for (std::size_t i = 0; i < nq; ++i) {
        const double scale = std::max(coord_scale(data.v), coord_scale(queries[i]));
        judge<Buf, T>(ctx, out[i], refs[i], ks[i], queries[i], data, indexed, scale, "batch query");
    }
    // no capacity: everything
    {
        auto b = searcher(Buf(queries[0].begin(), queries[0].end()));
        judge<Buf, T>(ctx, b, refs[0], idx.size(), queries[0], data, indexed,
                      std::max(coord_scale(data.v), coord_scale(queries[0])), "unlimited query", false);
    }
    std::size_t nodes = 0, leaves = 0, depth = 0;
    {
        auto t2 = make_tree(idx, data, opts);
        tree_shape(t2.root(), 0, nodes, leaves, depth);
    }
    ctx.count("tree_nodes", nodes);
    if (depth >= 2)
        ctx.count("trees_depth_ge_2");
    if (idx.size() < n)
        ctx.count("subset_indexed");
    if (nodes > 1)
        ctx.nontrivial(Hasher().addv(data.v).addv(idx).add(opts.bucket).add(opts.policy).h);
    ctx.sample(ctx.desc + " k=" + show(ks));
}

void vf::run_case(Ctx& ctx) {
    switch (ctx.index % 10) {
        case 0:
        case 1:
        case 2:
            return one<float>(ctx);
        case 3:
        case 4:
        case 5:
            return one<double>(ctx);
        case 6:
            return one<int>(ctx);
        case 7:
            return ctx.index / 10 % 3 == 0 ? one<std::int16_t>(ctx) : one<std::int64_t>(ctx);
        case 8:
            return one<std::uint32_t>(ctx);
        default:
            return one<std::size_t>(ctx);
    }
}
