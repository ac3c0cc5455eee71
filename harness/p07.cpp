// P07: the single-linkage hierarchy of a spanning tree: shape, heights (minimax path distances) and flat cuts.
#include "mst.hpp"

#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"

using namespace vf;

template <typename T, typename NodePtr>
void walk(Ctx& ctx, const NodePtr& root, std::size_t n, std::vector<std::vector<double>>& lca) {
    // iterative postorder: the hierarchy may be as deep as there are samples
    struct Fr {
        NodePtr                  node;
        int                      state;
        std::vector<std::size_t> left, right;
    };
    std::vector<Fr>          st;
    std::vector<std::size_t> ret;
    std::vector<char>        seen(n, 0);
    st.push_back({root, 0, {}, {}});
    std::size_t nodes = 0;
    while (!st.empty()) {
        Fr& f = st.back();
        if (f.state == 0) {
            ++nodes;
            ctx.check(nodes <= 2 * n - 1, "tree-shape", "more than 2n-1 nodes");
            if (f.node->is_leaf()) {
                const auto i = f.node->representative_;
                ctx.check(i < n && !seen[i], "tree-shape", "leaf ", i, " appears twice or is no sample");
                seen[i] = 1;
                ctx.check(f.node->size() == 1 && f.node->level_ == 0, "leaf", "leaf ", i, " size ", f.node->size(), " level ", f.node->level_);
                ret = {i};
                st.pop_back();
                continue;
            }
            ctx.check(f.node->left_ && f.node->right_, "tree-shape", "a node with one child");
            f.state = 1;
            auto c  = f.node->left_;
            st.push_back({c, 0, {}, {}});
        } else if (f.state == 1) {
            f.left  = ret;
            f.state = 2;
            auto c  = f.node->right_;
            st.push_back({c, 0, {}, {}});
        } else {
            f.right = ret;
            ctx.check(f.node->size() == f.left.size() + f.right.size(), "cluster-size", "node of ", f.left.size() + f.right.size(), " samples says ", f.node->size());
            ctx.check(f.node->left_->level_ <= f.node->level_ && f.node->right_->level_ <= f.node->level_, "heights", "a child is higher than its parent");
            for (auto a : f.left)
                for (auto b : f.right)
                    lca[a][b] = lca[b][a] = static_cast<double>(f.node->level_);
            std::vector<std::size_t> all = f.left;
            all.insert(all.end(), f.right.begin(), f.right.end());
            bool rep = std::find(all.begin(), all.end(), f.node->representative_) != all.end();
            ctx.check(rep, "representative", "node represented by ", f.node->representative_, " which isn't one of its samples");
            ret = std::move(all);
            st.pop_back();
        }
    }
    ctx.check(nodes == 2 * n - 1, "tree-shape", nodes, " nodes for ", n, " samples");
}

template <typename T, typename I, typename Mst>
void judge(Ctx& ctx, const Mst& mst, std::size_t n, bool by_move) {
    Rng& r  = ctx.rng;
    using S = ffcl::datastruct::SingleLinkageClusterTree<I, T>;
    using SO = typename S::Options;
    // minimax path weights of the spanning tree
    std::vector<std::vector<double>> mm(n, std::vector<double>(n, 0));
    {
        std::vector<std::vector<std::pair<std::size_t, double>>> adj(n);
        for (auto& [a, b, w] : mst) {
            adj[a].push_back({b, static_cast<double>(w)});
            adj[b].push_back({a, static_cast<double>(w)});
        }
        for (std::size_t s = 0; s < n; ++s) {
            std::vector<std::size_t> st{s};
            std::vector<char>        seen(n, 0);
            seen[s] = 1;
            while (!st.empty()) {
                auto u = st.back();
                st.pop_back();
                for (auto [v, w] : adj[u])
                    if (!seen[v]) {
                        seen[v]  = 1;
                        mm[s][v] = std::max(mm[s][u], w);
                        st.push_back(v);
                    }
            }
        }
    }
    auto copy = mst;
    S    tree = by_move ? S(std::move(copy)) : S(mst);
    std::vector<std::vector<double>> lca(n, std::vector<double>(n, 0));
    walk<T>(ctx, tree.root(), n, lca);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < i; ++j)
            ctx.check(lca[i][j] == mm[i][j], "height", "samples ", i, " and ", j, " join at ", lca[i][j], ", the largest step between them is ", mm[i][j]);
    ctx.count("pairs_judged", n * (n - 1) / 2);

    // flat cuts
    for (int rep = 0; rep < 4; ++rep) {
        T           cut = 0;
        std::size_t mcs = static_cast<std::size_t>(r.range(0, 5));
        if (rep == 0)
            cut = std::is_floating_point_v<T> ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
        else if (rep == 1 && !mst.empty())
            cut = std::get<2>(mst[static_cast<std::size_t>(r.range(0, static_cast<long long>(mst.size()) - 1))]);
        else if (!mst.empty())
            cut = static_cast<T>(std::get<2>(mst[static_cast<std::size_t>(r.range(0, static_cast<long long>(mst.size()) - 1))]) * r.real(0.5, 1.5));
        const SO opt    = SO().cut_level(cut).min_cluster_size(mcs);
        auto     labels = [&] {
            // the ways to ask for it
            switch (r.range(0, 7)) {
                case 0: {
                    const S other(mst, opt);
                    return other.predict();
                }
                case 1: {
                    auto    given = mst;
                    const S other(std::move(given), opt);
                    return other.extract_flat_clusters();
                }
                case 2: {
                    if (!std::is_floating_point_v<T>)
                        break;
                    // nothing asked for: everything in one cluster
                    const S other(mst);
                    cut = std::numeric_limits<T>::infinity();
                    mcs = 1;
                    return other.predict();
                }
                case 3: {
                    S other(mst, SO().cut_level(static_cast<T>(cut / 2)).min_cluster_size(mcs + 2));
                    if (r.chance(0.5))
                        other.predict();
                    other.set_options(opt);
                    const S last = std::move(other);
                    return last.predict();
                }
                default:
                    break;
            }
            tree.set_options(opt);
            return r.chance(0.5) ? tree.predict() : tree.extract_flat_clusters();
        }();
        ctx.check(labels.size() == n, "label-count", labels.size(), " labels for ", n, " samples");
        std::vector<std::size_t> csize(n, 0);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                csize[i] += i == j || mm[i][j] < static_cast<double>(cut);
        for (std::size_t i = 0; i < n; ++i) {
            const bool noise = csize[i] < mcs;
            if (noise)
                ctx.check(labels[i] == 0, "noise", "cut ", cut, " min size ", mcs, ": sample ", i, " of a cluster of ", csize[i], " is labelled ", labels[i]);
            for (std::size_t j = 0; j < i; ++j) {
                const bool together = !noise && csize[j] >= mcs && mm[i][j] < static_cast<double>(cut);
                const bool same     = labels[i] == labels[j];
                const bool both_noise = noise && csize[j] < mcs;
                if (both_noise)
                    continue;
                ctx.check(same == together, same ? "merged-clusters" : "split-cluster", "cut ", cut, " min size ", mcs, ": samples ", i, " and ", j,
                          " (largest step ", mm[i][j], ") get labels ", labels[i], " and ", labels[j]);
            }
        }
        ctx.count("cuts");
    }
}

template <typename T, typename I = std::size_t>
void one(Ctx& ctx) {
    Rng&        r = ctx.rng;
    std::size_t n = pick_n(r, ctx.thorough ? 250 : 120);
    using Edge    = std::tuple<I, I, T>;
    std::vector<Edge> mst;
    if (!std::is_same_v<I, std::size_t> || r.chance(0.5)) {
        // any spanning tree with any weights, in any order and orientation
        std::vector<std::size_t> perm(n);
        std::iota(perm.begin(), perm.end(), 0);
        r.shuffle(perm);
        const int shape = static_cast<int>(r.range(0, 3));
        const int wk    = static_cast<int>(r.range(0, 3));
        for (std::size_t i = 1; i < n; ++i) {
            std::size_t p = shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? i / 2 : static_cast<std::size_t>(r.range(0, static_cast<long long>(i) - 1));
            T           w = wk == 0 ? static_cast<T>(r.range(0, 3)) : wk == 1 ? static_cast<T>(i) : wk == 2 ? static_cast<T>(r.unit() * 1e-9) : static_cast<T>(r.unit() * 100);
            auto        a = perm[i], b = perm[p];
            if (r.chance(0.5))
                std::swap(a, b);
            mst.push_back({static_cast<I>(a), static_cast<I>(b), w});
        }
        r.shuffle(mst);
        ctx.desc = "random spanning tree n=" + std::to_string(n) + " shape=" + std::to_string(shape) + " weights=" + std::to_string(wk);
        ctx.count("random_trees");
    } else if constexpr (std::is_same_v<I, std::size_t>) {
        std::size_t d    = pick_d(r, 6);
        auto        data = any_data<T>(r, n, d);
        maybe_rescale(r, data);
        std::vector<std::size_t> idx(n);
        std::iota(idx.begin(), idx.end(), 0);
        auto opts = pick_tree_opts(r, d);
        auto k    = static_cast<std::size_t>(r.range(1, 6));
        ctx.desc  = data.str() + " k=" + std::to_string(k);
        seed_engine(r.next());
        using B = ffcl::BoruvkasAlgorithm<Tree<T>>;
        mst     = B(typename B::Options().k_nearest_neighbors(k)).make_tree(make_tree(idx, data, opts));
    }
    judge<T, I>(ctx, mst, n, r.chance(0.5));
    if (n > 2) {
        Hasher h;
        for (auto& [a, b, w] : mst)
            h.add(a).add(b).add(w);
        ctx.nontrivial(h.h);
    }
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    if (ctx.index % 16 == 7)
        one<int, std::uint32_t>(ctx);
    else if (ctx.index % 16 == 15)
        one<double, int>(ctx);
    else
        ctx.index % 3 ? one<double>(ctx) : one<float>(ctx);
}
