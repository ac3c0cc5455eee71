// P06: the minimum spanning tree of a dataset, plain and under mutual reachability, against Prim's algorithm.
#include "mst.hpp"

#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"

using namespace vf;

template <typename T, typename Mst>
void judge(Ctx& ctx, const Mst& mst, const Data<T>& data, const std::vector<double>& core, double scale, const std::string& what) {
    ctx.check(mst.size() == data.n - 1, "not-spanning", what, ": ", mst.size(), " edges for ", data.n, " samples");
    RefUF               uf(data.n);
    std::vector<double> w;
    for (const auto& [a, b, x] : mst) {
        ctx.check(a < data.n && b < data.n, "bad-edge", what, ": edge (", a, ",", b, ")");
        ctx.check(uf.merge(a, b), "cycle", what, ": edge (", a, ",", b, ") closes a cycle");
        const double m = ref_mr(data, core, a, b);
        ctx.check(near<T>(static_cast<double>(x), m, scale), "edge-weight", what, ": edge (", a, ",", b, ") has weight ", x, " instead of ", m);
        w.push_back(static_cast<double>(x));
    }
    std::sort(w.begin(), w.end());
    auto ref = ref_mst_weights(data, core);
    for (std::size_t i = 0; i < w.size(); ++i)
        ctx.check(near<T>(w[i], ref[i], scale), "not-minimum", what, ": sorted weight number ", i, " is ", w[i], " a minimum tree has ", ref[i]);
    ctx.count("edges_judged", w.size());
}

template <typename T>
void one(Ctx& ctx) {
    Rng&        r    = ctx.rng;
    std::size_t n    = pick_n(r, ctx.thorough ? 500 : 200);
    std::size_t d    = pick_d(r, 6);
    auto        data = any_data<T>(r, n, d);
    maybe_rescale(r, data);
    std::vector<std::size_t> idx(n);
    std::iota(idx.begin(), idx.end(), 0);
    if (r.chance(0.4))
        r.shuffle(idx);
    auto         opts  = pick_tree_opts(r, d);
    const double scale = coord_scale(data.v);
    std::size_t  k     = r.chance(0.3) ? 1 : static_cast<std::size_t>(r.range(1, r.chance(0.7) ? 8 : static_cast<long long>(n) + 2));
    ctx.desc           = data.str() + " k=" + std::to_string(k) + " " + opts.str();
    seed_engine(r.next());
    using B = ffcl::BoruvkasAlgorithm<Tree<T>>;
    auto core = ref_core(data, k);
    {
        auto    tree = make_tree(idx, data, opts);
        typename B::Options bopt;
        set_unless_default(r, k, 3, [&](auto x) { bopt.k_nearest_neighbors(x); });
        typename B::Options before;
        before.k_nearest_neighbors(static_cast<std::size_t>(r.range(1, 12)));
        const auto algo = configured<B>(r, bopt, before, [&](const B& b) {
            auto ids = idx;
            b.make_tree(make_tree(ids, data, opts));
        });
        auto    mst = algo->make_tree(std::move(tree));
        judge<T>(ctx, mst, data, core, scale, "mst k=" + std::to_string(k));
        auto sorted = ffcl::datastruct::mst::sort_copy(mst);
        ctx.check(sorted.size() == mst.size() && std::is_sorted(sorted.begin(), sorted.end(), [](auto& a, auto& b) { return std::get<2>(a) < std::get<2>(b); }),
                  "sort-copy", "sorted edges are not in order");
        auto s1 = sorted, s2 = mst;
        std::sort(s1.begin(), s1.end());
        std::sort(s2.begin(), s2.end());
        ctx.check(s1 == s2, "sort-copy", "sorting changed the edges");
    }
    if (n <= 120 && r.chance(0.5)) {
        auto    tree = make_tree(idx, data, opts);
        const B algo(typename B::Options().k_nearest_neighbors(1));
        auto    mst = algo.make_tree_2(std::move(tree));
        judge<T>(ctx, mst, data, std::vector<double>(n, 0.0), scale, "dual tree mst");
        ctx.count("dual_tree_msts");
    }
    if (k > 1)
        ctx.count("mutual_reachability_msts");
    if (n > 2)
        ctx.nontrivial(Hasher().addv(data.v).add(k).add(opts.bucket).h);
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    ctx.index % 3 ? one<double>(ctx) : one<float>(ctx);
}
