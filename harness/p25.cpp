// P25: large and degenerate inputs end, within a call stack of fixed size, with the obvious answer.
#include "trees.hpp"

#include "ffcl/common/algorithms/Sorting.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/statistics/Statistics.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/Lloyd.hpp"
#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"

#include <functional>
#include <pthread.h>

using namespace vf;
namespace SB = ffcl::search::buffer;

namespace {

// runs f on a thread with a stack of 512 kB, whatever it throws is thrown again here
void* entry(void* p) {
    (*static_cast<std::function<void()>*>(p))();
    return nullptr;
}
void on_small_stack(const std::function<void()>& f) {
    std::exception_ptr    err;
    std::function<void()> g = [&] {
        try {
            f();
        } catch (...) {
            err = std::current_exception();
        }
    };
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 512 * 1024);
    pthread_t t;
    if (pthread_create(&t, &a, entry, &g) != 0)
        throw std::runtime_error("no thread");
    pthread_attr_destroy(&a);
    pthread_join(t, nullptr);
    if (err)
        std::rethrow_exception(err);
}

// hierarchies as deep as they get
void deep_hierarchy(Ctx& ctx) {
    Rng&              r = ctx.rng;
    using T             = double;
    using Tr            = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>;
    using CT            = ffcl::datastruct::CondensedClusterTree<std::size_t, T>;
    const std::size_t n = static_cast<std::size_t>(r.range(ctx.thorough ? 50000 : 15000, ctx.thorough ? 400000 : 60000)) / 2 * 2;
    const bool        pairs = r.chance(0.5);  // samples join one by one, or in pairs
    typename Tr::MinimumSpanningTreeType mst;
    std::vector<std::size_t> name(n);
    std::iota(name.begin(), name.end(), 0);
    r.shuffle(name);
    if (pairs) {
        for (std::size_t i = 0; i + 1 < n; i += 2) {
            mst.emplace_back(name[i], name[i + 1], 1.0);
            if (i)
                mst.emplace_back(name[i - 1], name[i], 2.0 + static_cast<double>(i));
        }
    } else {
        const bool reversed = r.chance(0.5);
        for (std::size_t i = 1; i < n; ++i)
            mst.emplace_back(name[reversed ? i : i - 1], name[reversed ? i - 1 : i], 2.0 + static_cast<double>(i));
        // the last sample to join is next to the first one instead
        const double u = r.unit();
        if (u < 0.6)
            mst.back() = {u < 0.3 ? name[0] : name[n - 1], u < 0.3 ? name[n - 1] : name[0], 2.0 + static_cast<double>(n)};
    }
    ctx.desc = std::string("hierarchy ") + (pairs ? "of pairs" : "of samples") + " n=" + std::to_string(n);
    Tr tree(mst);
    // cut in the middle: what was joined below stays together, the rest is on its own
    const auto m = static_cast<std::size_t>(r.range(2, static_cast<long long>(n) - 2)) / 2 * 2;
    typename Tr::Options opt;
    opt.cut_level(2.0 + static_cast<double>(m) - 0.5);
    tree.set_options(opt);
    const auto flat = tree.extract_flat_clusters();
    ctx.check(flat.size() == n, "cut", "labels for ", flat.size(), " of ", n);
    for (std::size_t i = 1; i < n; ++i) {
        const bool joined = i < m || (pairs && i % 2 == 1);
        ctx.check((flat[name[i]] == flat[name[i - 1]]) == joined, "cut", "neighbours ", i - 1, " and ", i, joined ? " are apart" : " are together", " cut below edge ", m);
    }
    ctx.count("deep_cuts");
    typename CT::Options co;
    const std::size_t mcs = pairs ? 2 : static_cast<std::size_t>(r.range(1, 3));
    co.min_cluster_size(mcs).return_leaf_nodes(r.chance(0.4)).allow_single_cluster(r.chance(0.5));
    {
        auto       root = tree.root();
        const CT   ct(root, co);
        const auto labels = ct.predict();
        ctx.check(labels.size() == n, "labels", "labels for ", labels.size(), " of ", n);
        if (pairs)
            for (std::size_t i = 0; i + 1 < n; i += 2)
                ctx.check(labels[name[i]] == labels[name[i + 1]], "pair-split", "a pair is split");
    }
    ctx.count("deep_hierarchies");
}

std::vector<double> shape(Rng& r, std::size_t n, int kind) {
    std::vector<double> v(n);
    for (std::size_t i = 0; i < n; ++i) {
        const auto x = static_cast<double>(i);
        switch (kind) {
        case 0: v[i] = 7; break;                                          // all equal
        case 1: v[i] = static_cast<double>(i % 2); break;                 // two values
        case 2: v[i] = x; break;                                          // sorted
        case 3: v[i] = -x; break;                                         // reversed
        case 4: v[i] = static_cast<double>(std::min(i, n - i)); break;    // organ pipe
        case 5: v[i] = static_cast<double>(i * i % 17); break;            // few values
        case 6: v[i] = std::sqrt(x); break;                               // ever denser
        case 7: v[i] = i < n / 2 ? 0.0 : x * 1e9; break;                  // half equal, half far apart
        case 8: v[i] = std::ldexp(1.0, static_cast<int>(i % 100) - 50); break;
        default: v[i] = r.real(0, 1);
        }
    }
    return v;
}

void sorting(Ctx& ctx) {
    Rng&              r    = ctx.rng;
    const int         kind = static_cast<int>(r.range(0, 9));
    const std::size_t n    = static_cast<std::size_t>(r.range(8000, ctx.thorough ? 60000 : 16000));
    auto              v    = shape(r, n, kind);
    ctx.desc               = "sorting n=" + std::to_string(n) + " shape " + std::to_string(kind);
    std::vector<std::size_t> idx(n);
    std::iota(idx.begin(), idx.end(), 0);
    namespace A  = ffcl::common::algorithms;
    auto       i2 = idx;
    const auto piv = static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1));
    A::quicksort(idx.begin(), idx.end(), v.begin(), v.end(), 1, piv, 0);
    for (std::size_t i = 1; i < n; ++i)
        ctx.check(v[idx[i - 1]] <= v[idx[i]], "order", "out of order at ", i);
    const auto k = static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1));
    A::quickselect(i2.begin(), i2.end(), v.begin(), v.end(), 1, k, 0);
    ctx.check(v[i2[k]] == v[idx[k]], "selection", "number ", k, " is ", v[i2[k]], ", expected ", v[idx[k]]);
    ctx.count("large_sorts");
}

void clustering(Ctx& ctx) {
    Rng&              r    = ctx.rng;
    using T                = double;
    const int         kind = static_cast<int>(r.range(0, 9));
    const int         algo = static_cast<int>(r.range(0, 6));
    const std::size_t d    = static_cast<std::size_t>(r.range(1, 2));
    const std::size_t n    = algo == 0 && kind == 6 ? static_cast<std::size_t>(r.range(4000, 12000)) : static_cast<std::size_t>(r.range(300, 1200));
    auto              v    = shape(r, n, kind);
    Data<T>           data;
    data.n = n;
    data.d = d;
    data.v.assign(n * d, 3.0);
    for (std::size_t i = 0; i < n; ++i)
        data.v[i * d] = v[i];
    ctx.desc = "clustering " + std::to_string(algo) + " n=" + std::to_string(n) + " shape " + std::to_string(kind);
    std::vector<std::size_t> idx(n);
    std::iota(idx.begin(), idx.end(), 0);
    TreeOpts o;
    o.bucket    = static_cast<std::size_t>(r.range(1, 40));
    o.max_depth = 12;
    o.policy    = static_cast<int>(r.range(0, 2));
    seed_engine(r.next());
    const std::size_t k = static_cast<std::size_t>(r.range(2, 5));
    std::size_t       got = 0;
    if (algo == 0 || algo == 1) {
        using H = ffcl::HDBSCAN<Tree<T>>;
        got     = H(typename H::Options().k_nearest_neighbors(algo ? k : 1 + k % 3).min_cluster_size(2 + k)).predict(make_tree(idx, data, o)).size();
    } else if (algo == 2) {
        using D     = ffcl::DBSCAN<Tree<T>>;
        auto labels = D(typename D::Options().radius(1.5).min_samples(2)).predict(make_tree(idx, data, o));
        got         = labels.size();
        if (kind == 0 || kind == 2 || kind == 3)
            ctx.check(std::set<std::size_t>(labels.begin() + 1, labels.end() - 1).size() == 1, "one-cluster", "an unbroken chain is split");
    } else if (algo == 3 || algo == 4) {
        ffcl::KMeans<T> km(k);
        km.set_options(typename ffcl::KMeans<T>::Options().max_iter(300).early_stopping(r.chance(0.5)).n_init(2));
        if (algo == 3)
            km.fit<ffcl::Lloyd>(data.v.begin(), data.v.end(), d);
        else
            km.fit<ffcl::Hamerly>(data.v.begin(), data.v.end(), d);
        got = km.predict(data.v.begin(), data.v.end(), d).size();
    } else {
        ffcl::KMedoids<T> km(k);
        km.set_options(typename ffcl::KMedoids<T>::Options().max_iter(100).early_stopping(r.chance(0.5)).n_init(1));
        if (algo == 5)
            km.fit<ffcl::FasterPAM>(data.v.begin(), data.v.end(), d);
        else
            km.fit<ffcl::FasterMSC>(data.v.begin(), data.v.end(), d);
        got = km.predict(data.v.begin(), data.v.end(), d).size();
    }
    ctx.check(got == n, "labels", "labels for ", got, " of ", n);
    ctx.count("degenerate_clusterings");
}

// more samples than 16 bits count
void many_samples(Ctx& ctx) {
    Rng&              r = ctx.rng;
    using T             = double;
    const std::size_t n = static_cast<std::size_t>(r.range(66000, ctx.thorough ? 140000 : 72000));
    int               what = static_cast<int>(r.range(0, 6));
    if (what == 1 && !(ctx.thorough && r.chance(0.1)))  // takes a minute
        what = 2;
    ctx.desc               = "many samples " + std::to_string(what) + " n=" + std::to_string(n);
    // values all different, in some order; the gap after every 1000th is wide
    std::vector<double>      val(n);
    std::vector<std::size_t> order(n);
    double                   x = 0;
    for (std::size_t i = 0; i < n; ++i) {
        val[i] = x;
        x += i % 1000 == 999 ? 50.0 : static_cast<double>(r.range(1, 4)) / 4;
    }
    std::iota(order.begin(), order.end(), 0);
    if (r.chance(0.7))
        r.shuffle(order);
    Data<T> data;
    data.n = n;
    data.d = 1;
    data.v.resize(n);
    for (std::size_t i = 0; i < n; ++i)
        data.v[i] = val[order[i]];
    std::vector<std::size_t> idx(n);
    std::iota(idx.begin(), idx.end(), 0);
    TreeOpts o;
    o.bucket    = static_cast<std::size_t>(r.range(1, 40));
    o.max_depth = 40;
    o.policy    = static_cast<int>(r.range(0, 2));
    seed_engine(r.next());
    using It = std::vector<T>::iterator;
    switch (what) {
    case 0: {  // searching
        auto tree     = make_tree(idx, data, o);
        auto searcher = ffcl::search::Searcher(std::move(tree));
        for (int q = 0; q < 40; ++q) {
            const auto i = static_cast<std::size_t>(r.range(1, static_cast<long long>(n) - 2));
            std::vector<T> c{val[i]};
            const auto     got = searcher(SB::Unsorted<It>(c.begin(), c.end(), 1)).indices();
            ctx.check(got.size() == 1 && order[got[0]] == i, "nearest", "the nearest of sample ", i, " is itself");
            const double rad = 10.1;
            const auto   in  = searcher(SB::Unsorted(ffcl::datastruct::bounds::BallView(c.begin(), c.end(), rad))).indices();
            const auto   lo = std::lower_bound(val.begin(), val.end(), val[i] - rad), hi = std::upper_bound(val.begin(), val.end(), val[i] + rad);
            ctx.check(in.size() == static_cast<std::size_t>(hi - lo), "range", in.size(), " within the radius, expected ", hi - lo);
            for (auto j : in)
                ctx.check(j < n && std::fabs(data.v[j] - val[i]) < rad, "range", "sample ", j, " is outside");
        }
        break;
    }
    case 1: {  // density: one cluster per unbroken run
        using D     = ffcl::DBSCAN<Tree<T>>;
        auto labels = D(typename D::Options().radius(4.5).min_samples(2)).predict(make_tree(idx, data, o));
        ctx.check(labels.size() == n, "labels", "labels for ", labels.size(), " of ", n);
        std::vector<std::size_t> by(n);
        for (std::size_t i = 0; i < n; ++i)
            by[order[i]] = static_cast<std::size_t>(labels[i]);
        std::set<std::size_t> seen;
        for (std::size_t i = 0; i < n; ++i) {
            if (i % 1000 == 0)
                ctx.check(n - i < 10 || seen.insert(by[i]).second, "runs", "two runs share label ", by[i]);
            else
                ctx.check(n - i / 1000 * 1000 < 10 || by[i] == by[i - 1], "runs", "the run of sample ", i, " is split");
        }
        break;
    }
    case 2: {  // the shortest way to join values is one after the other
        using B  = ffcl::BoruvkasAlgorithm<Tree<T>>;
        using Tr = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>;
        typename Tr::MinimumSpanningTreeType mst;
        if (r.chance(ctx.thorough ? 0.3 : 0.1)) {  // takes half a minute
            o.bucket = 40;
            mst      = B(typename B::Options().k_nearest_neighbors(1)).make_tree(make_tree(idx, data, o));
            ctx.count("large_spanning_trees");
        } else {
            std::vector<std::size_t> at(n);
            for (std::size_t i = 0; i < n; ++i)
                at[order[i]] = i;
            for (std::size_t i = 1; i < n; ++i)
                mst.emplace_back(at[i - 1], at[i], val[i] - val[i - 1]);
            r.shuffle(mst);
        }
        ctx.check(mst.size() == n - 1, "spanning", mst.size(), " edges for ", n, " samples");
        double sum = 0;
        for (auto& [a, b, w] : mst) {
            ctx.check(a < n && b < n && (order[a] > order[b] ? order[a] - order[b] : order[b] - order[a]) == 1, "spanning", "edge ", a, " ", b, " doesn't join neighbours");
            sum += w;
        }
        ctx.check(std::fabs(sum - (val[n - 1] - val[0])) <= 1e-6 * sum, "spanning", "total ", sum, " instead of ", val[n - 1] - val[0]);
        Tr                   tree(mst);
        typename Tr::Options opt;
        opt.cut_level(20.0);
        tree.set_options(opt);
        const auto flat = tree.extract_flat_clusters();
        ctx.check(flat.size() == n, "cut", "labels for ", flat.size(), " of ", n);
        std::vector<std::size_t> by(n);
        for (std::size_t i = 0; i < n; ++i)
            by[order[i]] = static_cast<std::size_t>(flat[i]);
        for (std::size_t i = 1; i < n; ++i)
            ctx.check((by[i] == by[i - 1]) == (i % 1000 != 0), "cut", "samples ", i - 1, " and ", i);
        break;
    }
    case 3: {  // means
        std::vector<T>  c{val[n / 4], val[n / 2], val[n - n / 4]};
        ffcl::KMeans<T> km(3, c);
        km.set_options(typename ffcl::KMeans<T>::Options().max_iter(static_cast<std::size_t>(r.range(1, 4))).early_stopping(false));
        const auto got = r.chance(0.5) ? km.fit<ffcl::Lloyd>(data.v.begin(), data.v.end(), 1) : km.fit<ffcl::Hamerly>(data.v.begin(), data.v.end(), 1);
        ctx.check(got.size() == 3, "centroids", got.size(), " centroids");
        const auto lab = km.predict(data.v.begin(), data.v.end(), 1);
        ctx.check(lab.size() == n, "labels", "labels for ", lab.size(), " of ", n);
        for (std::size_t i = 0; i < n; ++i) {
            double best = std::numeric_limits<double>::infinity();
            for (auto m : got)
                best = std::min(best, std::fabs(m - data.v[i]));
            ctx.check(lab[i] < 3 && std::fabs(got[lab[i]] - data.v[i]) <= best + 1e-6, "nearest-centroid", "sample ", i, " is assigned to ", lab[i]);
        }
        break;
    }
    case 4: {  // sorting
        namespace A = ffcl::common::algorithms;
        auto       i2 = idx;
        const auto k  = static_cast<std::size_t>(r.range(65537, static_cast<long long>(n) - 1));
        A::quickselect(i2.begin(), i2.end(), data.v.begin(), data.v.end(), 1, k, 0);
        ctx.check(order[i2[k]] == k, "selection", "number ", k, " is number ", order[i2[k]]);
        A::quicksort(idx.begin(), idx.end(), data.v.begin(), data.v.end(), 1, k, 0);
        for (std::size_t i = 0; i < n; ++i)
            ctx.check(order[idx[i]] == i, "order", "out of order at ", i);
        break;
    }
    case 5: {  // statistics and random selection
        namespace S    = ffcl::common::math::statistics;
        const auto low = static_cast<std::size_t>(std::find(order.begin(), order.end(), 0) - order.begin());
        const auto top = static_cast<std::size_t>(std::find(order.begin(), order.end(), n - 1) - order.begin());
        const auto snd = static_cast<std::size_t>(std::find(order.begin(), order.end(), n - 2) - order.begin());
        ctx.check(S::argmin(data.v.begin(), data.v.end()) == low && S::argmax(data.v.begin(), data.v.end()) == top, "extremes", "of ", n, " values");
        ctx.check(S::get_min_index_value_pair(data.v.begin(), data.v.end()).first == low && S::get_max_index_value_pair(data.v.begin(), data.v.end()).first == top &&
                      S::get_second_max_index_value_pair(data.v.begin(), data.v.end()).first == snd,
                  "extremes", "of ", n, " values");
        const auto k = static_cast<std::size_t>(r.range(1, static_cast<long long>(n)));
        ctx.check(order[S::find_nth_smallest_index_and_element(data.v.begin(), data.v.end(), k).first] == k - 1, "extremes", "number ", k);
        const auto pick = ffcl::common::math::random::select_n_elements(idx.begin(), idx.end(), n);
        ctx.check(std::set<std::size_t>(pick.begin(), pick.end()).size() == n, "selection", "of all elements repeats some");
        long double sum = 0, sq = 0;
        for (auto v : data.v)
            sum += v;
        for (auto v : data.v)
            sq += (v - sum / static_cast<long double>(n)) * (v - sum / static_cast<long double>(n));
        const double mean = static_cast<double>(sum / static_cast<long double>(n));
        const auto   m1   = S::compute_mean_per_feature(data.v.begin(), data.v.end(), 1)[0];
        ctx.check(std::fabs(m1 - mean) <= 1e-9 * mean, "mean", m1, " instead of ", mean);
        const double var = static_cast<double>(sq / static_cast<long double>(n - 1));
        const auto   v1  = S::compute_variance_per_feature(data.v.begin(), data.v.end(), 1)[0];
        ctx.check(std::fabs(v1 - var) <= 1e-4 * var, "variance", v1, " instead of ", var);
        break;
    }
    default: {  // sets joined one after the other, whatever the side
        ffcl::datastruct::UnionFind<std::size_t> u(n);
        const int                                side = static_cast<int>(r.range(0, 2));
        for (std::size_t i = 1; i < n; ++i)
            if (i % 1000 != 0)
                side == 0 || (side == 2 && r.chance(0.5)) ? u.merge(order[i - 1], order[i]) : u.merge(order[i], order[i - 1]);
        for (std::size_t i = 1; i < n; ++i)
            ctx.check((u.find(order[i]) == u.find(order[i - 1])) == (i % 1000 != 0), "sets", "elements ", i - 1, " and ", i);
        for (std::size_t i = 1000; i < n; i += 1000)
            u.merge(order[i], order[i - 1]);
        for (std::size_t i = 1; i < n; ++i)
            ctx.check(u.find(order[i]) == u.find(order[0]), "sets", "element ", i);
    }
    }
    ctx.count("many_samples");
}

}  // namespace

void vf::run_case(Ctx& ctx) {
    const auto u = ctx.rng.range(0, 11);
    on_small_stack([&] {
        if (u < 3)
            deep_hierarchy(ctx);
        else if (u < 5)
            sorting(ctx);
        else if (u < 10)
            clustering(ctx);
        else
            many_samples(ctx);
    });
    Hasher h;
    for (char c : ctx.desc)
        h.add(c);
    ctx.nontrivial(h.h);
    ctx.sample(ctx.desc);
}
