// P22: parallel builds give what sequential ones give, without data races; shared read-only objects can be used from several threads.
#include "ops.hpp"

#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/Lloyd.hpp"
#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"

#include <omp.h>

#include <unistd.h>

#include <atomic>
#include <chrono>
#include <fstream>
#include <mutex>
#include <thread>

using namespace vf;

// the library reports progress on the standard output: swallowed without any shared state
struct Nowhere : std::streambuf {
    int             overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
static Nowhere g_nowhere;

// work[i](i) by as many threads at the same time, in random phases; the first complaint is passed on
static void together(Ctx& ctx, std::size_t n_threads, const std::function<void(std::size_t)>& work) {
    std::atomic<std::size_t> ready{0};
    std::mutex               m;
    std::string              said;
    std::vector<unsigned>    wait;
    for (std::size_t i = 0; i < n_threads; ++i)
        wait.push_back(static_cast<unsigned>(ctx.rng.range(0, 40) * ctx.rng.range(0, 1)));
    std::vector<std::thread> ts;
    for (std::size_t i = 0; i < n_threads; ++i)
        ts.emplace_back([&, i] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < n_threads)
                std::this_thread::yield();
            if (wait[i])
                std::this_thread::sleep_for(std::chrono::microseconds(wait[i]));
            try {
                work(i);
            } catch (const std::exception& e) {
                std::lock_guard<std::mutex> l(m);
                said = e.what();
            }
        });
    for (auto& t : ts)
        t.join();
    if (!said.empty())
        ctx.fail("concurrent-result", said);
}

static void demand(bool ok, const std::string& what) {
    if (!ok)
        throw std::runtime_error(what);
}

template <typename T>
static bool same_bits(const std::vector<T>& a, const std::vector<T>& b) {
    return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0);
}

static int team(Rng& r) {
    static const int t[] = {2, 3, 4, 8};
    return t[r.range(0, 3)];
}

// ------------------------------------------------------------------ the library's own threads
template <typename T>
static void fits(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = std::max<std::size_t>(4, pick_n(r, 60)), d = pick_d(r, 5);
    auto              data = make_data<T>(r, n, d, r.chance(0.5) ? F_UNIFORM : static_cast<int>(r.range(0, F_COUNT - 1)));
    const std::size_t k      = static_cast<std::size_t>(r.range(2, std::min<long long>(6, static_cast<long long>(n))));
    const std::size_t n_init = static_cast<std::size_t>(r.range(1, 12)), iters = static_cast<std::size_t>(r.range(1, 20));
    const bool        early = r.chance(0.5);
    const int         threads = team(r);
    ctx.desc = data.str() + " k=" + std::to_string(k) + " n_init=" + std::to_string(n_init) + " threads=" + std::to_string(threads);
    const auto s = r.next();
    const int  algo = static_cast<int>(r.range(0, 6));
    auto       run  = [&](int t) {
        omp_set_num_threads(t);
        seed_engine(s);
        std::vector<double> out;
        auto                put = [&](const auto& v) {
            for (auto x : v)
                out.push_back(static_cast<double>(x));
        };
        if (algo <= 1) {
            using KM = ffcl::KMeans<T>;
            KM km(k, typename KM::Options().n_init(n_init).max_iter(iters).early_stopping(early));
            put(algo == 0 ? km.template fit<ffcl::Lloyd>(data.v.begin(), data.v.end(), d) : km.template fit<ffcl::Hamerly>(data.v.begin(), data.v.end(), d));
            put(km.predict(data.v.begin(), data.v.end(), d));
        } else if (algo <= 3) {
            using KM = ffcl::KMedoids<T, true>;
            KM km(k, typename KM::Options().n_init(n_init).max_iter(iters).early_stopping(early));
            put(algo == 2 ? km.template fit<ffcl::FasterPAM>(data.v.begin(), data.v.end(), d) : km.template fit<ffcl::FasterMSC>(data.v.begin(), data.v.end(), d));
            put(km.predict(data.v.begin(), data.v.end(), d));
        } else if (algo <= 5) {
            using KM = ffcl::KMedoids<T, false>;
            KM km(k, typename KM::Options().n_init(n_init).max_iter(iters).early_stopping(early));
            put(algo == 4 ? km.template fit<ffcl::FasterPAM>(data.v.begin(), data.v.end(), d) : km.template fit<ffcl::FasterMSC>(data.v.begin(), data.v.end(), d));
            put(km.predict(data.v.begin(), data.v.end(), d));
        } else {
            using KM = ffcl::KMedoids<T, true>;
            const ffcl::datastruct::PairwiseDistanceMatrix<typename std::vector<T>::iterator> mat(data.v.begin(), data.v.end(), d);
            KM km(k, typename KM::Options().n_init(n_init).max_iter(iters).early_stopping(early));
            put(km.template fit<ffcl::FasterPAM>(mat));
            put(km.predict(mat));
        }
        return out;
    };
    const auto a = run(1), b = run(threads), c = run(threads);
    ctx.check(same_bits(a, b) && same_bits(a, c), "parallel-fit", "algorithm ", algo, " with ", threads, " threads gives ", show(b), " / ", show(c), " and with one ", show(a));
    ctx.count("parallel_fits", 2);
    ctx.nontrivial(Hasher().addv(data.v).add(k).add(algo).add(threads).h);
    ctx.sample(ctx.desc);
}

template <typename T>
static void loops(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = static_cast<std::size_t>(r.range(1, r.chance(0.5) ? 12 : 200)), d = static_cast<std::size_t>(r.chance(0.3) ? r.range(60, 140) : r.range(1, 6));
    auto              data = any_data<T>(r, n, d);
    const int         threads = team(r);
    ctx.desc = data.str() + " threads=" + std::to_string(threads);
    omp_set_num_threads(threads);
    const ffcl::datastruct::PairwiseDistanceMatrix<typename std::vector<T>::iterator> mat(data.v.begin(), data.v.end(), d);
    const double scale = coord_scale(data.v) * std::sqrt(static_cast<double>(d));
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j)
            if (r.chance(0.2))
                ctx.check(near<T>(static_cast<double>(mat(i, j)), ref_distance(&data.v[i * d], &data.v[j * d], d), scale), "parallel-matrix", "distance of ", i, " and ", j, " is ", mat(i, j));
    const auto [t, rows, cols] = ffcl::common::math::linear_algebra::transpose(data.v.begin(), data.v.end(), d);
    ctx.check(rows == d && cols == n && t.size() == n * d, "parallel-transpose", "of ", n, " by ", d, " is ", rows, " by ", cols);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t f = 0; f < d; ++f)
            ctx.check(t[f * n + i] == data.at(i, f), "parallel-transpose", "sample ", i, " feature ", f);
    const auto [u, urows, ucols] = ffcl::common::math::linear_algebra::transpose(data.v.begin(), data.v.end(), n);  // the same values, wide
    ctx.check(urows == n && ucols == d && u.size() == n * d, "parallel-transpose", "of ", d, " by ", n, " is ", urows, " by ", ucols);
    for (std::size_t i = 0; i < d; ++i)
        for (std::size_t f = 0; f < n; ++f)
            ctx.check(u[f * d + i] == data.v[i * n + f], "parallel-transpose", "wide, sample ", i, " feature ", f);
    ctx.count("parallel_loops", 3);
    ctx.nontrivial(Hasher().addv(data.v).add(threads).h);
}

// ------------------------------------------------------------------ the user's threads
template <typename T>
static void shared_index(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = pick_n(r, 150), d = pick_d(r, 5);
    auto              data = any_data<T>(r, n, d);
    auto              idx  = pick_indices(r, n);
    auto              idx2 = pick_indices(r, n);
    auto              opts = pick_tree_opts(r, d);
    const std::size_t threads = static_cast<std::size_t>(team(r));
    ctx.desc = data.str() + " " + opts.str() + " threads=" + std::to_string(threads);
    seed_engine(r.next());
    const auto tree     = make_tree(idx, data, opts);
    const auto query    = make_tree(idx2, data, opts);
    const auto searcher = ffcl::search::Searcher(tree);
    using It            = typename std::vector<T>::iterator;
    using Buf           = ffcl::search::buffer::Unsorted<It>;
    using Ball          = ffcl::datastruct::bounds::BallView<It>;
    std::vector<std::vector<T>> queries;
    std::vector<std::size_t>    ks;
    std::vector<T>              radii;
    for (std::size_t i = 0; i < 6; ++i) {
        queries.push_back(pick_query(r, data));
        ks.push_back(static_cast<std::size_t>(r.range(1, 9)));
        radii.push_back(static_cast<T>(ref_distance(queries.back().data(), &data.v[static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1)) * d], d)));
    }
    auto ask = [&](std::size_t q) {
        std::vector<double> out;
        auto                put = [&](const auto& b) {
            out.push_back(static_cast<double>(b.size()));
            for (auto x : b.indices())
                out.push_back(static_cast<double>(x));
            for (auto x : b.distances())
                out.push_back(static_cast<double>(x));
        };
        put(searcher(Buf(queries[q].begin(), queries[q].end(), ks[q])));
        put(searcher(ffcl::search::buffer::Unsorted(Ball(queries[q].begin(), queries[q].end(), radii[q]))));
        std::vector<Buf> batch;
        for (std::size_t i = 0; i < queries.size(); ++i)
            batch.emplace_back(queries[i].begin(), queries[i].end(), ks[i]);
        for (auto& b : searcher(std::move(batch)))
            put(b);
        if constexpr (std::is_floating_point_v<T>) {
            if (n > 1 && idx.size() > 1 && idx2.size() > 1) {
                const auto e = searcher.dual_tree_shortest_edge(query, std::size_t(1));
                out.push_back(static_cast<double>(std::get<2>(e)));
            }
        }
        return out;
    };
    std::vector<std::vector<double>> alone;
    for (std::size_t q = 0; q < queries.size(); ++q)
        alone.push_back(ask(q));
    together(ctx, threads, [&](std::size_t i) {
        for (std::size_t q = 0; q < queries.size(); ++q) {
            const std::size_t which = (q + i) % queries.size();
            demand(same_bits(ask(which), alone[which]), "a query answered differently while others were running");
        }
    });
    ctx.count("concurrent_queries", threads * queries.size() * 3);
    ctx.nontrivial(Hasher().addv(data.v).addv(idx).add(threads).h);
}

template <typename T>
static void shared_models(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = std::max<std::size_t>(3, pick_n(r, 60)), d = pick_d(r, 5);
    auto              data = any_data<T>(r, n, d);
    const std::size_t k    = static_cast<std::size_t>(r.range(2, std::min<long long>(5, static_cast<long long>(n))));
    const std::size_t threads = static_cast<std::size_t>(team(r));
    ctx.desc = data.str() + " k=" + std::to_string(k) + " threads=" + std::to_string(threads);
    omp_set_num_threads(1);
    seed_engine(r.next());
    using It = typename std::vector<T>::iterator;
    ffcl::KMeans<T>         km(k);
    ffcl::KMedoids<T, true> kd(k);
    km.set_options(typename ffcl::KMeans<T>::Options().max_iter(5).n_init(2));
    kd.set_options(typename ffcl::KMedoids<T, true>::Options().max_iter(5).n_init(2));
    km.fit(data.v.begin(), data.v.end(), d);
    kd.fit(data.v.begin(), data.v.end(), d);
    const auto&                                               ckm = km;
    const auto&                                               ckd = kd;
    const ffcl::datastruct::PairwiseDistanceMatrix<It>        mat(data.v.begin(), data.v.end(), d);
    const ffcl::datastruct::PairwiseDistanceMatrixDynamic<It> dyn(data.v.begin(), data.v.end(), d);
    auto ask = [&] {
        std::vector<double> out;
        auto                put = [&](const auto& v) {
            for (auto x : v)
                out.push_back(static_cast<double>(x));
        };
        put(ckm.predict(data.v.begin(), data.v.end(), d));
        put(ckm.forward(data.v.begin(), data.v.end(), d));
        put(ckd.predict(data.v.begin(), data.v.end(), d));
        put(ckd.forward(data.v.begin(), data.v.end(), d));
        put(ckd.predict(mat));
        put(ckd.forward(mat));
        for (std::size_t i = 0; i < n; ++i)
            out.push_back(static_cast<double>(mat(i, (i * 7 + 3) % n)) + static_cast<double>(dyn(i, (i * 5 + 1) % n)));
        return out;
    };
    const auto alone = ask();
    together(ctx, threads, [&](std::size_t) {
        for (int q = 0; q < 3; ++q)
            demand(same_bits(ask(), alone), "a model predicted differently while others were predicting");
    });
    ctx.count("concurrent_predictions", threads * 3);
    ctx.nontrivial(Hasher().addv(data.v).add(k).add(threads).h);
}

template <typename T>
static void separate(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = std::max<std::size_t>(6, pick_n(r, 50)), d = pick_d(r, 3);
    auto              data = make_data<T>(r, n, d, r.chance(0.5) ? F_CLUSTERS : F_UNIFORM);
    const std::size_t threads = static_cast<std::size_t>(team(r));
    ctx.desc = data.str() + " threads=" + std::to_string(threads);
    omp_set_num_threads(1);
    const auto   s      = r.next();
    const T      radius = static_cast<T>(std::max(1e-3, ref_distance(&data.v[0], &data.v[d], d)));
    const std::size_t k = static_cast<std::size_t>(r.range(2, 4));
    auto       pipeline = [&](std::vector<T>& mine) {
        seed_engine(s);
        std::vector<double> out;
        auto                put = [&](const auto& v) {
            for (auto x : v)
                out.push_back(static_cast<double>(x));
        };
        TreeOpts                 o;
        std::vector<std::size_t> ix(n);
        std::iota(ix.begin(), ix.end(), 0);
        Data<T> dat;
        dat.v = std::move(mine);
        dat.n = n;
        dat.d = d;
        o.max_depth = kDeep;
        {
            using D = ffcl::DBSCAN<Tree<T>>;
            auto i1 = ix;
            put(D(typename D::Options().radius(radius).min_samples(2)).predict(make_tree(i1, dat, o)));
        }
        {
            using H = ffcl::HDBSCAN<Tree<T>>;
            auto i1 = ix;
            put(H(typename H::Options().k_nearest_neighbors(2).min_cluster_size(3)).predict(make_tree(i1, dat, o)));
        }
        ffcl::KMeans<T> km(k, typename ffcl::KMeans<T>::Options().max_iter(4).n_init(2));
        put(km.fit(dat.v.begin(), dat.v.end(), d));
        ffcl::KMedoids<T, true> kd(k, typename ffcl::KMedoids<T, true>::Options().max_iter(4).n_init(2));
        put(kd.fit(dat.v.begin(), dat.v.end(), d));
        put(ffcl::common::math::random::select_n_random_samples(dat.v.begin(), dat.v.end(), d, 3));
        return out;
    };
    auto       first = data.v;
    const auto alone = pipeline(first);
    together(ctx, threads, [&](std::size_t) {
        auto mine = data.v;
        demand(same_bits(pipeline(mine), alone), "a computation of one thread gave another result while others computed on their own");
    });
    ctx.count("concurrent_pipelines", threads);
    ctx.nontrivial(Hasher().addv(data.v).add(threads).h);
}

// any operations of the library by several threads at once, each on its own copies
struct Strict {
    template <typename... A>
    void check(bool ok, const char* key, A&&...) {
        demand(ok, key);
    }
    void count(const char*, std::size_t = 1) {}
};

template <typename T>
static void operations(Ctx& ctx) {
    Rng&              r       = ctx.rng;
    const std::size_t threads = static_cast<std::size_t>(team(r)), kinds = static_cast<std::size_t>(r.range(1, 4));
    omp_set_num_threads(1);
    std::vector<ops::Case<T>> cases;
    std::vector<ops::Bytes>   alone;
    Strict                    strict;
    ctx.desc = std::to_string(threads) + " threads, operations";
    for (std::size_t i = 0; i < kinds; ++i) {
        const std::size_t n = std::max<std::size_t>(2, pick_n(r, 40)), d = pick_d(r, 4);
        cases.push_back(ops::make_case<T>(r, n, d, r.range(0, ops::kOperations)));
        alone.push_back(ops::run<ops::Plain>(strict, cases.back()));
        ctx.desc += " " + std::to_string(cases.back().what);
    }
    together(ctx, threads, [&](std::size_t i) {
        Strict mine;
        for (std::size_t q = 0; q < 2 * kinds; ++q) {
            const std::size_t which = (q + i) % kinds;
            demand(ops::run<ops::Plain>(mine, cases[which]) == alone[which], "an operation (" + std::to_string(cases[which].what) + ") gave another result while others were running");
        }
    });
    ctx.count("concurrent_operations", threads * 2 * kinds);
    Hasher h;
    for (auto& c : cases)
        h.addv(c.data.v).add(c.what);
    ctx.nontrivial(h.add(threads).h);
}

// one hierarchy, condensed hierarchy and index, read by several threads
template <typename T>
static void shared_hierarchy(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = std::max<std::size_t>(4, pick_n(r, 60)), d = pick_d(r, 3);
    auto              data = any_data<T>(r, n, d);
    std::vector<std::size_t> idx(n);
    std::iota(idx.begin(), idx.end(), 0);
    auto              opts    = pick_tree_opts(r, d);
    const std::size_t threads = static_cast<std::size_t>(team(r));
    ctx.desc                  = data.str() + " " + opts.str() + " threads=" + std::to_string(threads);
    omp_set_num_threads(1);
    seed_engine(r.next());
    const auto tree = make_tree(idx, data, opts);
    using BA        = ffcl::BoruvkasAlgorithm<Tree<T>>;
    const BA   boruvka(typename BA::Options().k_nearest_neighbors(static_cast<std::size_t>(r.range(1, 4))));
    const auto mst = boruvka.make_tree(Tree<T>(tree));
    using SL       = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>;
    using CT       = ffcl::datastruct::CondensedClusterTree<std::size_t, T>;
    using DB       = ffcl::DBSCAN<Tree<T>>;
    using HD       = ffcl::HDBSCAN<Tree<T>>;
    const SL          sl(mst);
    const CT          ct(sl.root(), typename CT::Options().min_cluster_size(3));
    const T           radius = static_cast<T>(ref_distance(&data.v[0], &data.v[d], d));
    const DB          db(typename DB::Options().radius(radius).min_samples(2));
    const HD          hd(typename HD::Options().k_nearest_neighbors(2).min_cluster_size(3));
    const bool        files = r.chance(0.3);
    auto              ask   = [&](std::size_t who) {
        std::vector<double> out;
        auto                put = [&](const auto& v) {
            for (auto x : v)
                out.push_back(static_cast<double>(x));
        };
        put(sl.predict());
        put(ct.predict());
        put(db.predict(Tree<T>(tree)));
        put(hd.predict(Tree<T>(tree)));
        for (auto& [a, b, w] : boruvka.make_tree(Tree<T>(tree)))
            out.push_back(static_cast<double>(a) + static_cast<double>(b) + static_cast<double>(w));
        const CT own(sl.root(), typename CT::Options().min_cluster_size(2));
        put(own.predict());
        if (files) {
            const std::string path = std::string(std::getenv("VF_SCRATCH") ? std::getenv("VF_SCRATCH") : "/tmp") + "/p22-" + std::to_string(::getpid()) + "-" + std::to_string(who);
            for (int which = 0; which < 2; ++which) {
                if (which)
                    tree.serialize(path);
                else
                    sl.serialize(path);
                std::ifstream     f(path);
                const std::string text((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
                put(text);
                std::remove(path.c_str());
            }
        }
        return out;
    };
    const auto alone = ask(99);
    together(ctx, threads, [&](std::size_t i) { demand(same_bits(ask(i), alone), "a hierarchy read by several threads gave another answer"); });
    ctx.count("concurrent_hierarchies", threads);
    if (files)
        ctx.count("concurrent_files", 2 * threads);
    ctx.nontrivial(Hasher().addv(data.v).add(threads).h);
}

void vf::run_case(Ctx& ctx) {
    auto* const old = std::cout.rdbuf(&g_nowhere);
    struct Back {
        std::streambuf* b;
        ~Back() { std::cout.rdbuf(b); }
    } back{old};
    switch (ctx.index % 11) {
        case 8:
            return operations<double>(ctx);
        case 9:
            return ctx.rng.chance(0.7) ? operations<float>(ctx) : operations<int>(ctx);
        case 10:
            return shared_hierarchy<double>(ctx);
        case 0:
            return fits<float>(ctx);
        case 1:
        case 2:
            return fits<double>(ctx);
        case 3:
            return ctx.rng.chance(0.5) ? loops<double>(ctx) : ctx.rng.chance(0.5) ? loops<int>(ctx) : loops<float>(ctx);
        case 4:
            return shared_index<double>(ctx);
        case 5:
            return ctx.rng.chance(0.5) ? shared_index<float>(ctx) : shared_index<int>(ctx);
        case 6:
            return shared_models<double>(ctx);
        default:
            return separate<double>(ctx);
    }
}
