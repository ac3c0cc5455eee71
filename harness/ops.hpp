// The operations of the library on one input, for the monitors that run them again, elsewhere or at the same time.
#pragma once
#include "trees.hpp"

#include "ffcl/common/algorithms/Sorting.hpp"
#include "ffcl/common/math/heuristics/Distances.hpp"
#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"
#include "ffcl/common/math/linear_algebra/Translation.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/common/math/statistics/Statistics.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"
#include "ffcl/kmeans/Lloyd.hpp"
#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include "ffcl/kmedoids/PAMUtils.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"
#include <functional>
#include <unordered_set>

namespace vf::ops {

// ordinary memory of the caller
struct Plain {
    template <typename T>
    using Vec = std::vector<T>;
    template <typename T>
    static Vec<T> of(const std::vector<T>& v) {
        return v;
    }
    template <typename T>
    struct Guard {
        Guard(Vec<T>&, const char*) {}
    };
};

template <typename Mem, typename T>
using MTree = ffcl::datastruct::KDTree<typename Mem::template Vec<std::size_t>::iterator, typename Mem::template Vec<T>::iterator>;

template <typename Mem, typename T>
typename MTree<Mem, T>::Options options(const TreeOpts& o) {
    using I     = typename Mem::template Vec<std::size_t>::iterator;
    using S     = typename Mem::template Vec<T>::iterator;
    namespace P = ffcl::datastruct::kdtree::policy;
    typename MTree<Mem, T>::Options opt;
    if (o.defaults)
        return opt;
    opt.bucket_size(o.bucket).max_depth(o.max_depth);
    auto mask = o.mask;
    if (o.policy == 0) {
        P::CycleThroughAxesBuild<I, S> p;
        if (!mask.empty())
            p.feature_mask(mask);
        opt.axis_selection_policy(p);
    } else if (o.policy == 1) {
        P::HighestVarianceBuild<I, S> p;
        p.sampling_rate(o.rate);
        if (!mask.empty())
            p.feature_mask(mask);
        opt.axis_selection_policy(p);
    } else {
        P::MaximumSpreadBuild<I, S> p;
        if (!mask.empty())
            p.feature_mask(mask);
        opt.axis_selection_policy(p);
    }
    opt.splitting_rule_policy(P::QuickselectMedianRange<I, S>());
    return opt;
}

using Bytes = std::vector<std::uint64_t>;
template <typename V>
void put(Bytes& o, const V& v) {
    for (const auto& x : v) {
        std::uint64_t b = 0;
        auto          y = x;
        std::memcpy(&b, &y, sizeof y);
        o.push_back(b);
    }
    o.push_back(0xabcdef);
}

template <typename T>
struct Case {
    std::size_t              n, d;
    Data<T>                  data;
    std::vector<std::size_t> idx, labels;
    TreeOpts                 opts;
    std::vector<T>           q, q2;
    std::uint64_t            engine;
    std::size_t              k, kc;
    long long                what;
    T                        radius;
    bool                     flag;
    std::vector<T>           centroids;
    std::vector<std::size_t> medoids, visited;
};
constexpr long long kOperations = 17;

template <typename T>
Case<T> make_case(Rng& r, std::size_t n, std::size_t d, long long what) {
    Case<T> c{};
    c.n      = n;
    c.d      = d;
    c.data   = any_data<T>(r, n, d);
    c.idx    = pick_indices(r, n, 0.2);
    c.opts   = pick_tree_opts(r, d);
    c.q      = pick_query(r, c.data);
    c.q2     = pick_query(r, c.data);
    c.engine = r.next();
    c.k      = static_cast<std::size_t>(r.range(1, static_cast<long long>(n)));
    c.kc     = static_cast<std::size_t>(r.range(1, std::min<long long>(6, static_cast<long long>(n))));
    c.what   = what;
    c.radius = static_cast<T>(r.range(0, 12));
    c.flag   = r.chance(0.5);
    c.labels.resize(n);
    for (std::size_t i = 0; i < n; ++i)
        c.labels[i] = i < 2 ? i : static_cast<std::size_t>(r.range(0, 2));
    std::vector<std::size_t> order(n);
    std::iota(order.begin(), order.end(), 0);
    r.shuffle(order);
    for (std::size_t i = 0; i < c.kc; ++i) {
        c.medoids.push_back(order[i]);
        for (std::size_t f = 0; f < d; ++f)
            c.centroids.push_back(c.data.at(order[i], f));
    }
    for (auto i : order)
        if (r.chance(0.4))
            c.visited.push_back(i);
    return c;
}

// one execution of the operation, everything it is given on read-only pages of its own
template <typename Mem, typename T, typename Sink>
Bytes run(Sink& ctx, const Case<T>& c) {
    namespace B  = ffcl::datastruct::bounds;
    namespace SB = ffcl::search::buffer;
    using PT     = MTree<Mem, T>;
    auto pages_of = [](const auto& v) { return Mem::of(v); };
    const auto        n = c.n, d = c.d, k = c.k;
    Bytes             out;
    typename Mem::template Vec<T>           samples = pages_of(c.data.v), query = pages_of(c.q), query2 = pages_of(c.q2);
    typename Mem::template Vec<std::size_t> index = pages_of(c.idx), labels = pages_of(c.labels);
    typename Mem::template Guard<T>           g1(samples, "samples"), g2(query, "query"), g5(query2, "second query");
    typename Mem::template Guard<std::size_t> g3(labels, "labels");
    seed_engine(c.engine);
    using It = typename Mem::template Vec<T>::iterator;
    if (c.what <= 4) {
        const auto chosen = c.idx;
        PT   tree(index.begin(), index.end(), samples.begin(), samples.end(), d, options<Mem, T>(c.opts));
        std::vector<std::size_t> now(index.begin(), index.end()), was = chosen;
        put(out, now);
        std::sort(now.begin(), now.end());
        std::sort(was.begin(), was.end());
        ctx.check(now == was, "index-changed", "the index sequence is not a permutation of the one given");
        typename Mem::template Guard<std::size_t> g4(index, "index sequence (after the build)");
        ctx.count("indices_built");
        if (c.what == 0 || c.what == 4) {
            const ffcl::search::Searcher s(tree);
            using BV = B::BallView<It>;
            using BX = B::AABBWithCentroid<std::vector<T>>;
            const std::unordered_set<std::size_t> visited(c.visited.begin(), c.visited.end());
            ffcl::datastruct::UnionFind<std::size_t> uf(n);
            for (std::size_t i = 1; i < c.visited.size(); ++i)
                uf.merge(c.visited[0], c.visited[i]);
            const auto who = c.visited.empty() ? 0 : uf.find(c.visited[0]);
            auto ask = [&](It b, It e) {
                Bytes a;
                auto  take = [&](const auto& buffer) {
                    put(a, buffer.indices());
                    put(a, buffer.distances());
                    ctx.count("searches");
                };
                if (c.what == 0) {
                    take(s(SB::Unsorted<It>(b, e, k)));
                    take(s(SB::Unsorted(BV(b, e, c.radius), k)));
                } else if (c.flag) {
                    take(s(SB::WithMemory<It>(b, e, visited, k)));
                    take(s(SB::WithMemory<It, BV>(BV(b, e, c.radius), visited, k)));
                } else {
                    take(s(SB::WithUnionFind<It>(b, e, uf, who, k)));
                }
                return a;
            };
            const auto a1 = ask(query.begin(), query.end());
            const auto a2 = ask(query2.begin(), query2.end());
            const auto a3 = ask(query.begin(), query.end());
            ctx.check(a1 == a3, "not-repeatable", "a query asked again after another one gets another answer");
            ctx.check(visited.size() == c.visited.size(), "visited-changed", "the visited set given by reference changed");
            out.insert(out.end(), a1.begin(), a1.end());
            out.insert(out.end(), a2.begin(), a2.end());
        } else if (c.what == 1) {
            if (c.idx.size() == n) {
                using D = ffcl::DBSCAN<PT>;
                D dbscan(typename D::Options().radius(c.radius).min_samples(k % 5));
                const auto l1 = dbscan.predict(PT(tree)), l2 = dbscan.predict(PT(tree));
                ctx.check(l1 == l2, "not-repeatable", "clustering twice gives two answers");
                put(out, l1);
                ctx.count("clusterings", 2);
            }
        } else if constexpr (std::is_floating_point_v<T>) {
            if (c.idx.size() == n && n > 1) {
                if (c.what == 2) {
                    using H = ffcl::HDBSCAN<PT>;
                    H h(typename H::Options().k_nearest_neighbors(1 + k % 6).min_cluster_size(2 + k % 4).return_leaf_nodes(c.flag));
                    const auto l1 = h.predict(PT(tree)), l2 = h.predict(PT(tree));
                    ctx.check(l1 == l2, "not-repeatable", "clustering twice gives two answers");
                    put(out, l1);
                    ctx.count("clusterings", 2);
                } else {
                    using BA = ffcl::BoruvkasAlgorithm<PT>;
                    const auto mst    = BA(typename BA::Options().k_nearest_neighbors(1 + k % 6)).make_tree(PT(tree));
                    const auto before = mst;
                    ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T> sl(mst);
                    const auto f1 = sl.extract_flat_clusters();
                    put(out, f1);
                    ctx.check(before == mst, "edges-changed", "making a hierarchy of the edges changed them");
                    using C  = ffcl::datastruct::CondensedClusterTree<std::size_t, T>;
                    const C    cond(sl.root(), typename C::Options().min_cluster_size(2 + k % 4).return_leaf_nodes(c.flag));
                    const auto l1 = cond.predict(), l2 = cond.predict();
                    ctx.check(l1 == l2, "not-repeatable", "predicting twice gives two answers");
                    ctx.check(f1 == sl.extract_flat_clusters(), "not-repeatable", "condensing a hierarchy changed its flat clusters");
                    const C    cond2(sl.root(), typename C::Options().min_cluster_size(2 + k % 4).return_leaf_nodes(c.flag));
                    ctx.check(l1 == cond2.predict(), "not-repeatable", "condensing the same hierarchy again gives other clusters");
                    put(out, l1);
                    for (auto& [a, b, w] : mst)
                        put(out, std::vector<double>{static_cast<double>(a), static_cast<double>(b), static_cast<double>(w)});
                    ctx.count("hierarchies");
                }
            }
        }
        std::vector<std::size_t> after(index.begin(), index.end());
        put(out, after);
    } else if (c.what == 5) {
        if constexpr (std::is_floating_point_v<T>) {
            const auto      given = c.centroids;
            ffcl::KMeans<T> km    = c.kc % 2 ? ffcl::KMeans<T>(c.kc) : ffcl::KMeans<T>(c.kc, given);
            put(out, c.flag ? km.template fit<ffcl::Lloyd>(samples.begin(), samples.end(), d) : km.template fit<ffcl::Hamerly>(samples.begin(), samples.end(), d));
            ctx.check(given == c.centroids, "centroids-changed", "the centroids given were written to");
            auto p = km.predict(samples.begin(), samples.end(), d);
            put(out, p);
            put(out, km.forward(samples.begin(), samples.end(), d));
            put(out, km.predict(query.begin(), query.end(), d));
            ctx.check(p == km.predict(samples.begin(), samples.end(), d), "not-repeatable", "predicting twice gives two answers");
            ctx.count("fits");
        }
    } else if (c.what == 6) {
        if constexpr (std::is_floating_point_v<T>) {
            const auto km_k = c.kc;
            if (n >= km_k && km_k >= 2) {
                const auto        given = c.medoids;
                ffcl::KMedoids<T> km    = km_k % 2 ? ffcl::KMedoids<T>(km_k) : ffcl::KMedoids<T>(km_k, given);
                put(out, c.flag ? km.template fit<ffcl::FasterMSC>(samples.begin(), samples.end(), d) : km.template fit<ffcl::FasterPAM>(samples.begin(), samples.end(), d));
                ctx.check(given == c.medoids, "medoids-changed", "the medoids given were written to");
                auto p = km.predict(samples.begin(), samples.end(), d);
                put(out, p);
                ctx.check(p == km.predict(samples.begin(), samples.end(), d), "not-repeatable", "predicting twice gives two answers");
                ctx.count("fits");
            }
        }
    } else if (c.what == 7) {
        if constexpr (std::is_floating_point_v<T>) {
            if (n > 2)
                put(out, ffcl::common::math::heuristics::silhouette(samples.begin(), samples.end(), d, labels.begin(), labels.end()));
            ctx.count("scores");
        }
    } else if (c.what == 8) {
        namespace S = ffcl::common::math::statistics;
        ffcl::datastruct::PairwiseDistanceMatrix<It> m(samples.begin(), samples.end(), d);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                put(out, std::vector<double>{static_cast<double>(m(i, j))});
        put(out, S::compute_mean_per_feature(samples.begin(), samples.end(), d));
        if (n > 1)
            put(out, S::compute_variance_per_feature(samples.begin(), samples.end(), d));
        put(out, std::get<0>(ffcl::common::math::linear_algebra::transpose(samples.begin(), samples.end(), d)));
        ctx.count("statistics");
    } else if (c.what == 9) {
        namespace A = ffcl::common::algorithms;
        const std::size_t f = k % d;
        auto              i2 = index;
        A::quicksort(index.begin(), index.end(), samples.begin(), samples.end(), d, k % index.size(), f);
        A::quickselect(i2.begin(), i2.end(), samples.begin(), samples.end(), d, k % index.size(), f);
        put(out, index);
        put(out, i2);
        ctx.count("sorts", 2);
    } else if (c.what == 11) {
        if constexpr (std::is_floating_point_v<T>) {
            namespace H = ffcl::common::math::heuristics;
            if (n > 2) {
                put(out, H::get_cluster_sizes(labels.begin(), labels.end()));
                put(out, H::cohesion(samples.begin(), samples.end(), d, labels.begin(), labels.end()));
                put(out, H::separation(samples.begin(), samples.end(), d, labels.begin(), labels.end()));
            }
            ctx.count("scores");
        }
    } else if (c.what == 12) {
        namespace R = ffcl::common::math::random;
        put(out, R::select_n_elements(index.begin(), index.end(), k % (index.size() + 1)));
        put(out, R::select_n_random_samples(samples.begin(), samples.end(), d, k));
        put(out, R::select_n_random_samples_from_indices(index.begin(), index.end(), samples.begin(), samples.end(), d, k));
        put(out, R::select_random_sample(samples.begin(), samples.end(), d));
        put(out, R::init_uniform(samples.begin(), samples.end(), d, c.kc));
        put(out, R::init_spatial_uniform(samples.begin(), samples.end(), d, c.kc));
        std::vector<float> weights(n);
        for (std::size_t i = 0; i < n; ++i)
            weights[i] = static_cast<float>((i * 7 + k) % 5 + 1);
        const auto                w0 = weights;
        R::VosesAliasMethod<float> alias(weights);
        std::vector<std::size_t>  drawn;
        for (int t = 0; t < 20; ++t)
            drawn.push_back(alias());
        put(out, drawn);
        ctx.check(w0 == weights, "weights-changed", "the weights given were written to");
        if constexpr (std::is_floating_point_v<T>) {
            put(out, ffcl::kmeansplusplus::make_centroids(samples.begin(), samples.end(), d, c.kc));
            put(out, ffcl::kmeansplusplus::make_centroids_from_previous_centroid(samples.begin(), samples.end(), d, c.kc));
        }
        ctx.count("selections");
    } else if (c.what == 13) {
        namespace S = ffcl::common::math::statistics;
        typename Mem::template Guard<std::size_t> g4(index, "index sequence");
        std::vector<std::size_t>                  mask;
        for (std::size_t f = 0; f < d; ++f)
            if ((k >> (f % 8)) & 1 || f == d - 1)
                mask.push_back(f);
        const auto m0 = mask;
        put(out, S::compute_mean_per_feature(index.begin(), index.end(), samples.begin(), samples.end(), d));
        put(out, S::compute_mean_per_feature(index.begin(), index.end(), samples.begin(), samples.end(), d, mask));
        if (index.size() > 1) {
            put(out, S::compute_variance_per_feature(index.begin(), index.end(), samples.begin(), samples.end(), d));
            put(out, S::compute_variance_per_feature(index.begin(), index.end(), samples.begin(), samples.end(), d, mask));
            put(out, std::vector<std::size_t>{S::argmax_variance_per_feature(index.begin(), index.end(), samples.begin(), samples.end(), d),
                                              S::argmax_variance_per_feature(index.begin(), index.end(), samples.begin(), samples.end(), d, mask)});
        }
        ctx.check(mask == m0, "mask-changed", "the features to look at were written to");
        put(out, std::vector<std::size_t>{static_cast<std::size_t>(S::argmin(samples.begin(), samples.end())), static_cast<std::size_t>(S::argmax(samples.begin(), samples.end()))});
        const auto box  = ffcl::datastruct::make_tight_bound(samples.begin(), samples.end(), d);
        const auto box2 = ffcl::datastruct::make_tight_bound(index.begin(), index.end(), samples.begin(), samples.end(), d);
        for (std::size_t f = 0; f < d; ++f)
            put(out, std::vector<T>{box.segment_at(f).lower_bound(), box.segment_at(f).upper_bound(), box2.segment_at(f).lower_bound(), box2.segment_at(f).upper_bound()});
        const std::vector<T>           data0(c.data.v);
        const std::vector<std::size_t> order(c.idx);
        if (order.size() == n)
            put(out, ffcl::common::remap_ranges_from_indices(order, data0, d));
        ctx.check(data0 == c.data.v && order == c.idx, "reordered-in-place", "reordering samples changed the ones given");
        ctx.count("statistics");
    } else if (c.what == 14) {
        if constexpr (std::is_floating_point_v<T>) {
            namespace U         = ::pam::utils;
            const auto& medoids = c.medoids;
            ffcl::datastruct::PairwiseDistanceMatrix<It> m(samples.begin(), samples.end(), d);
            for (std::size_t rank = 1; rank <= std::min<std::size_t>(3, medoids.size()); ++rank) {
                put(out, U::samples_to_nth_nearest_medoid_indices(samples.begin(), samples.end(), d, medoids, rank));
                put(out, U::samples_to_nth_nearest_medoid_distances(samples.begin(), samples.end(), d, medoids, rank));
                put(out, U::samples_to_nth_nearest_medoid_indices(m, medoids, rank));
                put(out, U::samples_to_nth_nearest_medoid_distances(m, medoids, rank));
            }
            put(out, U::medoids_to_centroids(samples.begin(), samples.end(), d, medoids));
            if (medoids.size() >= 2) {
                ffcl::FasterPAM<It> pam(m, medoids);
                for (int t = 0; t < 3; ++t)
                    put(out, pam.step()), put(out, std::vector<T>{pam.total_deviation()});
                if (medoids.size() >= 3) {
                    ffcl::FasterMSC<It> msc(m, medoids);
                    for (int t = 0; t < 3; ++t)
                        put(out, msc.step()), put(out, std::vector<T>{msc.total_deviation()});
                }
            }
            ctx.count("medoids");
        }
    } else if (c.what == 15) {
        namespace H = ffcl::common::math::heuristics;
        if constexpr (std::is_floating_point_v<T>)
            put(out, std::vector<T>{H::cosine_similarity(query.begin(), query.end(), query2.begin(), query2.end()), H::auto_distance_from_origin(query.begin(), query.end())});
        put(out, std::vector<T>{H::auto_distance(query.begin(), query.end(), query2.begin(), query2.end())});
        const std::string s1 = "word" + std::to_string(k), s2 = std::to_string(c.kc) + "ward";
        put(out, std::vector<std::size_t>{static_cast<std::size_t>(H::levenshtein_distance(s1.begin(), s1.end(), s2.begin(), s2.end()))});
        put(out, ffcl::common::math::linear_algebra::translate_right_range_to_origin(query.begin(), query.end(), query2.begin(), query2.end()));
        ctx.count("distances");
    } else if (c.what == 16) {
        if constexpr (std::is_floating_point_v<T>) {
            // pairs of two sets, components of a mapping
            auto first = Mem::of(std::vector<std::size_t>(c.idx.begin(), c.idx.begin() + static_cast<std::ptrdiff_t>((c.idx.size() + 1) / 2)));
            auto rest  = Mem::of(std::vector<std::size_t>(c.idx.begin() + static_cast<std::ptrdiff_t>((c.idx.size() + 1) / 2), c.idx.end()));
            if (!rest.empty()) {
                PT                           q(first.begin(), first.end(), samples.begin(), samples.end(), d, options<Mem, T>(c.opts));
                const ffcl::search::Searcher s(PT(rest.begin(), rest.end(), samples.begin(), samples.end(), d, options<Mem, T>(c.opts)));
                typename Mem::template Guard<std::size_t> g6(first, "first index (after the build)"), g7(rest, "second index (after the build)");
                auto edge = [&](const auto& e) {
                    put(out, std::vector<std::size_t>{static_cast<std::size_t>(std::get<0>(e)), static_cast<std::size_t>(std::get<1>(e))});
                    put(out, std::vector<T>{std::get<2>(e)});
                };
                ffcl::datastruct::UnionFind<std::size_t> uf(n);
                for (std::size_t i = 1; i < first.size(); ++i)
                    uf.merge(first[0], first[i]);
                const auto rep  = uf.find(first[0]);
                const auto kk   = 1 + k % std::min<std::size_t>(4, rest.size());
                const auto size = out.size();
                edge(s.dual_tree_shortest_edge(q, kk));
                edge(s.dual_tree_shortest_edge(q, uf, rep, kk));
                const Bytes once(out.begin() + static_cast<std::ptrdiff_t>(size), out.end());
                edge(s.dual_tree_shortest_edge(q, kk));
                edge(s.dual_tree_shortest_edge(q, uf, rep, kk));
                const Bytes twice(out.begin() + static_cast<std::ptrdiff_t>(size + once.size()), out.end());
                ctx.check(once == twice, "not-repeatable", "the closest pair searched again is another one");
                for (std::size_t i = 1; i < first.size(); ++i)
                    ctx.check(uf.find(first[i]) == uf.find(first[0]), "components-changed", "searching across components changed them");
            }
            ctx.count("pairs");
        }
    } else {
        if constexpr (std::is_floating_point_v<T>) {
            namespace H = ffcl::common::math::heuristics;
            put(out, std::vector<double>{static_cast<double>(H::euclidean_distance(query.begin(), query.end(), query2.begin(), query2.end())),
                                         static_cast<double>(H::squared_euclidean_distance(query.begin(), query.end(), query2.begin(), query2.end())),
                                         static_cast<double>(H::manhattan_distance(query.begin(), query.end(), query2.begin(), query2.end()))});
        }
        ctx.count("distances");
    }
    return out;
}

}  // namespace vf::ops
