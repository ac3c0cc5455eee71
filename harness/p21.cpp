// P21: the extremes of the domain (no, one or few samples, capacities and neighbourhoods at and beyond the number of
// samples), objects that are copied, moved and outlived by what they returned, calls that end in an exception.
// Only what the sanitizers report counts; the answers are judged by the other monitors.
#include "trees.hpp"

#include "ffcl/common/algorithms/Sorting.hpp"
#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/Lloyd.hpp"
#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"

#include <cstdlib>

using namespace vf;
namespace SB = ffcl::search::buffer;
namespace B  = ffcl::datastruct::bounds;

namespace {

template <typename V>
std::uint64_t touch(const V& v) {
    std::uint64_t h = 0;
    for (const auto& x : v)
        h = h * 31 + static_cast<std::uint64_t>(static_cast<long long>(x == x ? (x > 1e15 ? 1 : x < -1e15 ? -1 : x) : 0));
    return h;
}
volatile std::uint64_t sink;

std::size_t extreme(Rng& r, std::size_t n) {
    const std::size_t c[] = {0, 1, 2, n ? n - 1 : 0, n, n + 1, 2 * n + 3, static_cast<std::size_t>(r.range(0, static_cast<long long>(n) + 2))};
    return c[r.range(0, 7)];
}

template <typename T>
void one(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = r.chance(0.7) ? static_cast<std::size_t>(r.range(0, 7)) : pick_n(r, 200);
    const std::size_t d = r.chance(0.7) ? static_cast<std::size_t>(r.range(1, 3)) : pick_d(r);
    Data<T>           data;
    if (n) {
        data = any_data<T>(r, n, d);
    } else {
        data.n = 0;
        data.d = d;
    }
    data.v.shrink_to_fit();
    std::vector<std::size_t> all(n);
    std::iota(all.begin(), all.end(), 0);
    auto idx  = n ? pick_indices(r, n, 0.3) : std::vector<std::size_t>{};
    auto opts = pick_tree_opts(r, d);
    idx.shrink_to_fit();
    ctx.desc = "n=" + std::to_string(n) + " d=" + std::to_string(d) + " " + opts.str();
    seed_engine(r.next());
    using It = DatIt<T>;
    std::vector<T> q(d);
    if (n)
        q = pick_query(r, data);
    q.shrink_to_fit();
    const int ops = static_cast<int>(r.range(2, 6));
    for (int o = 0; o < ops; ++o) {
        const auto what = r.range(0, 11);
        try {
            switch (what) {
            case 0: {  // a searcher outlives the tree it was made of, a copy its original
                auto tree = std::make_unique<Tree<T>>(make_tree(idx, data, opts));
                auto copy = std::make_unique<Tree<T>>(*tree);
                auto s    = std::make_unique<ffcl::search::Searcher<Tree<T>>>(std::move(*tree));
                tree.reset();
                auto s2 = std::make_unique<ffcl::search::Searcher<Tree<T>>>(*copy);
                copy.reset();
                for (int k = 0; k < 3; ++k) {
                    auto b = (*s)(SB::Unsorted<It>(q.begin(), q.end(), extreme(r, idx.size())));
                    auto c = (*s2)(SB::Unsorted<It>(q.begin(), q.end(), extreme(r, idx.size())));
                    if (k == 2) {
                        s.reset();
                        s2.reset();
                    }
                    sink = touch(b.indices()) + touch(b.distances()) + touch(c.indices()) + touch(c.distances());
                }
                ctx.count("searches", 6);
                break;
            }
            case 1: {  // one buffer, several searches, copies and moves of it
                auto s = ffcl::search::Searcher(make_tree(idx, data, opts));
                SB::Unsorted<It> b(q.begin(), q.end(), extreme(r, idx.size()));
                b      = s(SB::Unsorted<It>(b));
                auto c = b;
                b      = s(std::move(b));
                sink   = touch(c.indices()) + touch(b.indices()) + touch(b.distances());
                std::vector<SB::Unsorted<It>> batch;
                for (int i = 0; i < static_cast<int>(r.range(0, 4)); ++i)
                    batch.emplace_back(q.begin(), q.end(), extreme(r, idx.size()));
                const auto asked = batch.size();
                auto answers = s(std::move(batch));
                for (auto& a : answers)
                    sink = sink + touch(a.indices());
                ctx.count("searches", 2 + asked);
                break;
            }
            case 2: {  // balls and memories
                auto s = ffcl::search::Searcher(make_tree(idx, data, opts));
                std::unordered_set<std::size_t> visited;
                for (std::size_t i = 0; i < n; ++i)
                    if (r.chance(0.5))
                        visited.insert(i);
                auto b = s(SB::WithMemory<It>(q.begin(), q.end(), std::move(visited), 1 + extreme(r, idx.size())));
                auto c = s(SB::Unsorted<It, B::BallView<It>>(B::BallView<It>(q.begin(), q.end(), static_cast<T>(r.range(0, 20)))));
                sink   = touch(b.indices()) + touch(c.indices());
                if (n) {
                    ffcl::datastruct::UnionFind<std::size_t> uf(n);
                    for (std::size_t i = 0; i < n / 2; ++i)
                        uf.merge(static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1)),
                                 static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1)));
                    const auto rep = uf.find(static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1)));
                    auto       e   = s(SB::WithUnionFind<It>(q.begin(), q.end(), uf, rep, 1 + extreme(r, idx.size())));
                    sink           = sink + touch(e.indices());
                }
                ctx.count("searches", 3);
                break;
            }
            case 3: {
                using D = ffcl::DBSCAN<Tree<T>>;
                typename D::Options opt;
                opt.radius(static_cast<T>(r.range(0, 12))).min_samples(extreme(r, n));
                auto dd = std::make_unique<D>(opt);
                auto l  = dd->predict(make_tree(all, data, opts));
                dd.reset();
                sink = touch(l);
                ctx.count("clusterings");
                break;
            }
            case 4: {
                if constexpr (std::is_floating_point_v<T>) {
                    using H = ffcl::HDBSCAN<Tree<T>>;
                    typename H::Options opt;
                    opt.k_nearest_neighbors(extreme(r, n)).min_cluster_size(extreme(r, n)).return_leaf_nodes(r.chance(0.5)).allow_single_cluster(r.chance(0.5));
                    auto h = std::make_unique<H>(opt);
                    auto l = h->predict(make_tree(all, data, opts));
                    h.reset();
                    sink = touch(l);
                    ctx.count("clusterings");
                }
                break;
            }
            case 5: {
                if constexpr (std::is_floating_point_v<T>) {
                    if (n < 1)
                        break;
                    using BA = ffcl::BoruvkasAlgorithm<Tree<T>>;
                    auto mst = BA(typename BA::Options().k_nearest_neighbors(extreme(r, n))).make_tree(make_tree(all, data, opts));
                    auto slt = std::make_unique<ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>>(std::move(mst));
                    auto root = slt->root();
                    slt.reset();
                    sink = root->level_ > 0;
                    ctx.count("hierarchies");
                }
                break;
            }
            case 6:
            case 7: {
                if constexpr (std::is_floating_point_v<T>) {
                    if (n < 1)
                        break;
                    const auto k  = static_cast<std::size_t>(r.range(1, static_cast<long long>(n)));
                    auto       km = std::make_unique<ffcl::KMeans<T>>(k);
                    km->set_options(typename ffcl::KMeans<T>::Options().max_iter(r.range(0, 20)).early_stopping(true).patience(r.range(0, 2)).n_init(r.range(1, 3)));
                    auto c = what == 6 ? km->template fit<ffcl::Lloyd>(data.v.begin(), data.v.end(), d)
                                       : km->template fit<ffcl::Hamerly>(data.v.begin(), data.v.end(), d);
                    auto p = km->predict(data.v.begin(), data.v.end(), d);
                    km.reset();
                    sink = touch(c) + touch(p);
                    ctx.count("fits");
                }
                break;
            }
            case 8:
            case 9: {
                if constexpr (std::is_floating_point_v<T>) {
                    if (n < 2)
                        break;
                    const auto k  = static_cast<std::size_t>(r.range(2, static_cast<long long>(n)));
                    auto       km = std::make_unique<ffcl::KMedoids<T>>(k);
                    km->set_options(typename ffcl::KMedoids<T>::Options().max_iter(r.range(0, 20)).early_stopping(true).patience(r.range(0, 2)).n_init(r.range(1, 3)));
                    auto c = what == 8 ? km->template fit<ffcl::FasterPAM>(data.v.begin(), data.v.end(), d)
                                       : km->template fit<ffcl::FasterMSC>(data.v.begin(), data.v.end(), d);
                    auto p = km->predict(data.v.begin(), data.v.end(), d);
                    km.reset();
                    sink = touch(c) + touch(p);
                    ctx.count("fits");
                }
                break;
            }
            case 10: {
                if constexpr (std::is_floating_point_v<T>) {
                    // scores of whatever the fits return
                    if (n < 3)
                        break;
                    const auto  k = static_cast<std::size_t>(r.range(2, static_cast<long long>(n)));
                    ffcl::KMeans<T> km(k);
                    km.fit(data.v.begin(), data.v.end(), d);
                    auto l = km.predict(data.v.begin(), data.v.end(), d);
                    std::set<std::size_t> used(l.begin(), l.end());
                    if (used.size() < 2)
                        break;
                    auto s = ffcl::common::math::heuristics::silhouette(data.v.begin(), data.v.end(), d, l.begin(), l.end());
                    sink   = touch(s);
                    ctx.count("scores");
                }
                break;
            }
            default: {
                if (n < 1)
                    break;
                // subranges of the index sequence
                auto a = static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1));
                auto b = static_cast<std::size_t>(r.range(static_cast<long long>(a) + 1, static_cast<long long>(n)));
                auto f = static_cast<std::size_t>(r.range(0, static_cast<long long>(d) - 1));
                namespace A = ffcl::common::algorithms;
                auto ids = all;
                auto piv = static_cast<std::size_t>(r.range(0, static_cast<long long>(b - a) - 1));
                sink     = A::quicksort(ids.begin() + a, ids.begin() + b, data.v.begin(), data.v.end(), d, piv, f);
                A::quickselect(ids.begin() + a, ids.begin() + b, data.v.begin(), data.v.end(), d, piv, f);
                ctx.count("sorts", 2);
            }
            }
        } catch (const std::exception&) {
            ctx.count("exceptions");
        }
    }
    Hasher h;
    h.addv(data.v).addv(idx).add(opts.bucket).add(opts.policy).add(ops);
    ctx.nontrivial(h.h);
    ctx.count("sequences");
    if (n <= 3)
        ctx.count("tiny_datasets");
    ctx.sample(ctx.desc + " ops=" + std::to_string(ops));
}

}  // namespace

void vf::run_case(Ctx& ctx) {
    const auto u = ctx.rng.range(0, 9);
    if (u < 6)
        one<double>(ctx);
    else if (u < 9)
        one<float>(ctx);
    else
        one<int>(ctx);
}
