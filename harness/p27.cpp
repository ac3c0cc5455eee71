// P27: a call that fails in the middle (memory runs out at some allocation, a function of the caller throws) reports it
// by the exception, loses no memory and leaves what existed before as it was.
#include "ops.hpp"

#include <cstdlib>
#include <new>

using namespace vf;
using namespace vf::ops;

namespace {
bool               armed     = false;
long               countdown = 0;  // the allocation that fails
long               asked     = 0;  // allocations while armed
volatile long long live      = 0;  // blocks not given back

void* take(std::size_t n) {
    if (armed) {
        ++asked;
        if (countdown > 0 && --countdown == 0)
            throw std::bad_alloc();
    }
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    live = live + 1;
    return p;
}
void give(void* p) noexcept {
    if (p) {
        live = live - 1;
        std::free(p);
    }
}
}  // namespace

void* operator new(std::size_t n) {
    return take(n);
}
void* operator new[](std::size_t n) {
    return take(n);
}
void operator delete(void* p) noexcept {
    give(p);
}
void operator delete[](void* p) noexcept {
    give(p);
}
void operator delete(void* p, std::size_t) noexcept {
    give(p);
}
void operator delete[](void* p, std::size_t) noexcept {
    give(p);
}

namespace {

// what the operations say about themselves is judged elsewhere
struct Quiet {
    template <typename... A>
    void check(bool, A&&...) {}
    template <typename... A>
    void count(A&&...) {}
};

struct Armed {
    explicit Armed(long at) {
        asked     = 0;
        countdown = at;
        armed     = true;
    }
    ~Armed() {
        armed = false;
    }
};

// runs f with the at-th allocation failing; whether the failure came out
template <typename F>
bool fails(F&& f, long at) {
    Armed a(at);
    try {
        f();
    } catch (const std::bad_alloc&) {
        return true;
    }
    return false;
}

template <typename F>
long allocations(F&& f) {
    Armed a(0);
    f();
    return asked;
}

std::vector<long> points(Rng& r, long total) {
    std::vector<long> p;
    if (total <= 100) {
        for (long i = 1; i <= total; ++i)
            p.push_back(i);
    } else {
        for (long i = 1; i <= 20; ++i)
            p.push_back(i), p.push_back(total + 1 - i);
        for (int i = 0; i < 50; ++i)
            p.push_back(static_cast<long>(r.range(21, total - 20)));
    }
    return p;
}

// every failing allocation of one operation
template <typename T>
void operation(Ctx& ctx) {
    Rng&       r    = ctx.rng;
    const auto n    = static_cast<std::size_t>(r.chance(0.7) ? r.range(1, 12) : r.range(1, 40)), d = pick_d(r, 4);
    const auto what = r.range(0, kOperations - 1);
    const auto c    = make_case<T>(r, n, d, what);
    ctx.desc        = c.data.str() + " " + c.opts.str() + " operation " + std::to_string(what);
    Quiet       q;
    const auto  want  = run<Plain>(q, c);  // also whatever is made once and kept
    const auto  again = run<Plain>(q, c);
    const auto  had0  = live;
    const auto  total = allocations([&] { run<Plain>(q, c); });
    ctx.check(live == had0, "memory-kept", "a complete call keeps ", live - had0, " blocks of memory");
    for (const auto at : points(r, total)) {
        bool       same = true, out;
        const auto had = live;
        {
            out = fails([&] { same = run<Plain>(q, c) == want; }, at);
        }
        ctx.check(live == had, "memory-lost", live - had, " blocks of memory are lost when allocation ", at, " of ", total, " fails");
        if (!out)
            ctx.check(same, "failure-hidden", "allocation ", at, " of ", total, " fails, the call returns another result");
        else
            ctx.count("failures_reported");
        ctx.count("allocations_failed");
    }
    ctx.check(run<Plain>(q, c) == want, "damaged", "the operation gives another result after failed attempts");
    Hasher h;
    h.addv(c.data.v).addv(c.idx).add(what).add(c.k).add(c.opts.bucket).add(c.opts.policy);
    if (total > 3 && n > 2)
        ctx.nontrivial(h.h);
    ctx.sample(ctx.desc + " allocations " + std::to_string(total));
}

// objects that exist before the failing call
template <typename T>
void objects(Ctx& ctx) {
    Rng&       r = ctx.rng;
    const auto n = static_cast<std::size_t>(r.chance(0.7) ? r.range(2, 14) : r.range(2, 50)), d = pick_d(r, 4);
    auto       c = make_case<T>(r, n, d, 0);
    if (r.chance(0.7)) {
        c.idx.resize(n);
        std::iota(c.idx.begin(), c.idx.end(), 0);
    }
    ctx.desc = c.data.str() + " " + c.opts.str();
    using PT = MTree<Plain, T>;
    using It = typename std::vector<T>::iterator;
    namespace SB = ffcl::search::buffer;
    namespace B  = ffcl::datastruct::bounds;
    auto samples = c.data.v;
    auto sorted  = [](auto v) {
        std::sort(v.begin(), v.end());
        return v;
    };
    const auto wanted_index = sorted(c.idx);
    auto       made         = c.idx;
    const auto builds       = allocations([&] {
        auto i = c.idx;
        PT   t(i.begin(), i.end(), samples.begin(), samples.end(), d, options<Plain, T>(c.opts));
    });
    for (const auto at : points(r, builds)) {
        auto       i   = c.idx;
        const auto had = live;
        {
            fails(
                [&] {
                    PT t(i.begin(), i.end(), samples.begin(), samples.end(), d, options<Plain, T>(c.opts));
                },
                at);
        }
        ctx.check(live == had, "memory-lost", "a build that fails at allocation ", at, " loses ", live - had, " blocks");
        ctx.check(sorted(i) == wanted_index, "index-damaged", "a build that fails at allocation ", at, " leaves other indices than it was given");
        ctx.check(samples == c.data.v, "samples-damaged", "a build that fails at allocation ", at, " changes samples");
        if (r.chance(0.2))
            made = i;  // the next one starts from what the failed one left
        ctx.count("builds_failed");
    }
    PT tree(made.begin(), made.end(), samples.begin(), samples.end(), d, options<Plain, T>(c.opts));
    {
        const ffcl::search::Searcher          s(PT{tree});
        const std::unordered_set<std::size_t> visited(c.visited.begin(), c.visited.end());
        auto                                  ask = [&] {
            Bytes a;
            auto  put_in = [&](const auto& b) {
                put(a, b.indices());
                put(a, b.distances());
            };
            put_in(s(SB::Unsorted<It>(c.q.begin(), c.q.end(), c.k)));
            put_in(s(SB::Unsorted(B::BallView<It>(c.q.begin(), c.q.end(), c.radius), c.k)));
            put_in(s(SB::WithMemory<It>(c.q.begin(), c.q.end(), visited, c.k)));
            return a;
        };
        const auto before = ask();
        // the distances found do not depend on the order the failed builds left
        std::vector<long double> found, all;
        for (auto x : s(SB::Unsorted<It>(c.q.begin(), c.q.end(), c.k)).distances())
            found.push_back(static_cast<long double>(x));
        ctx.check(found.size() == std::min(c.k, made.size()), "index-damaged", "an index built after failed attempts finds ", found.size(), " neighbours");
        for (const auto at : points(r, allocations([&] { ask(); }))) {
            const auto had = live;
            fails([&] { ask(); }, at);
            ctx.check(live == had, "memory-lost", "searches that fail at allocation ", at, " lose ", live - had, " blocks");
            ctx.check(ask() == before, "index-damaged", "an index answers otherwise after a search that failed at allocation ", at);
            ctx.count("searches_failed");
        }
    }
    if (made.size() == n) {
        // clusterings by one and the same object
        using D = ffcl::DBSCAN<PT>;
        D    dbscan(typename D::Options().radius(c.radius).min_samples(c.k % 4));
        auto repeated = [&](const char* what, auto&& predict) {
            const auto before = predict();
            for (const auto at : points(r, allocations([&] { predict(); }))) {
                const auto had = live;
                fails([&] { predict(); }, at);
                ctx.check(live == had, "memory-lost", what, " that fails at allocation ", at, " loses ", live - had, " blocks");
                ctx.count("clusterings_failed");
            }
            ctx.check(predict() == before, "clustering-damaged", what, " gives other labels after failed attempts");
        };
        repeated("DBSCAN", [&] { return dbscan.predict(PT(tree)); });
        if constexpr (std::is_floating_point_v<T>) {
            using H = ffcl::HDBSCAN<PT>;
            H hdbscan(typename H::Options().k_nearest_neighbors(1 + c.k % 4).min_cluster_size(2 + c.k % 3).return_leaf_nodes(c.flag));
            repeated("HDBSCAN", [&] { return hdbscan.predict(PT(tree)); });
        }
    }
    if constexpr (std::is_floating_point_v<T>) {
        struct Stop {};
        // models with the same history, one of which also fails: it then answers as it did before (or as fitted, if all that
        // failed was to hand out a copy of the result), and so after one more fit
        auto models = [&](auto fresh, auto fit, auto answers, auto fit_throwing, bool known) {
            const bool fitted = r.chance(0.5);
            auto       make   = [&] {
                auto m = fresh();
                if (fitted) {
                    seed_engine(c.engine);
                    fit(*m);
                }
                return m;
            };
            auto next = [&](auto& m, int n) {
                seed_engine(c.engine + static_cast<std::uint64_t>(n));
                fit(*m);
            };
            const bool can_answer = fitted || known;
            auto       quiet = make(), through = make();
            Bytes      before, after;
            if (can_answer)
                before = answers(*quiet);
            const auto total = allocations([&] { next(through, 1); });
            if (can_answer)
                after = answers(*through);
            next(quiet, 2);
            next(through, 2);
            const auto quiet_then = answers(*quiet), through_then = answers(*through);
            auto       todo = points(r, total);
            if (todo.size() > 40) {
                r.shuffle(todo);
                todo.resize(40);
            }
            for (const auto at : todo) {
                const auto had = live;
                {
                    auto tried = make();
                    if (fails([&] { next(tried, 1); }, at)) {
                        if (can_answer) {
                            const auto now = answers(*tried);
                            ctx.check(now == before || now == after, "model-damaged", "a model answers otherwise after a fit that failed at allocation ", at, " of ", total);
                        }
                        next(tried, 2);
                        const auto then = answers(*tried);
                        ctx.check(then == quiet_then || then == through_then, "model-damaged", "a model fitted after one that failed at allocation ", at, " of ", total, " differs from one that never failed");
                    }
                }
                ctx.check(live == had, "memory-lost", "a fit that fails at allocation ", at, " loses ", live - had, " blocks");
                ctx.count("fits_failed");
            }
            auto tried = make();
            if (fit_throwing(*tried)) {
                if (can_answer)
                    ctx.check(answers(*tried) == before, "model-damaged", "a model answers otherwise after its initialiser threw");
                next(tried, 2);
                ctx.check(answers(*tried) == quiet_then, "model-damaged", "a model fitted after its initialiser threw differs from one that never failed");
                ctx.count("callbacks_thrown");
            }
        };
        const bool known = r.chance(0.4);
        if (r.chance(0.5)) {
            using KM   = ffcl::KMeans<T>;
            auto fresh = [&] {
                typename KM::Options o;
                o.max_iter(5).n_init(1 + c.k % 3);
                return known ? std::make_unique<KM>(c.kc, c.centroids, o) : std::make_unique<KM>(c.kc, o);
            };
            models(
                fresh,
                [&](KM& m) {
                    c.flag ? m.template fit<ffcl::Lloyd>(samples.begin(), samples.end(), d) : m.template fit<ffcl::Hamerly>(samples.begin(), samples.end(), d);
                },
                [&](const KM& m) {
                    Bytes a;
                    put(a, m.predict(samples.begin(), samples.end(), d));
                    put(a, m.forward(samples.begin(), samples.end(), d));
                    return a;
                },
                [&](KM& m) {
                    try {
                        m.template fit<ffcl::Lloyd>(samples.begin(), samples.end(), d, [](auto, auto, auto, auto) -> std::vector<T> { throw Stop(); });
                    } catch (const Stop&) {
                        return true;
                    }
                    return false;
                },
                known);
        } else if (n > 2) {
            const auto k  = std::max<std::size_t>(2, c.kc);
            using KM      = ffcl::KMedoids<T>;
            auto medoids  = c.medoids;
            for (std::size_t i = 0; medoids.size() < k; ++i)
                if (std::find(medoids.begin(), medoids.end(), i) == medoids.end())
                    medoids.push_back(i);
            auto fresh = [&] {
                typename KM::Options o;
                o.max_iter(4).n_init(1 + c.k % 3);
                return known ? std::make_unique<KM>(k, medoids, o) : std::make_unique<KM>(k, o);
            };
            const bool msc = c.flag && k > 2;
            models(
                fresh, [&](KM& m) { msc ? m.template fit<ffcl::FasterMSC>(samples.begin(), samples.end(), d) : m.template fit<ffcl::FasterPAM>(samples.begin(), samples.end(), d); },
                [&](const KM& m) {
                    Bytes a;
                    put(a, m.predict(samples.begin(), samples.end(), d));
                    put(a, m.forward(samples.begin(), samples.end(), d));
                    return a;
                },
                [](KM&) { return false; }, known);
        }
        if (made.size() == n) {
            using BA       = ffcl::BoruvkasAlgorithm<PT>;
            const auto mst = BA(typename BA::Options().k_nearest_neighbors(1 + c.k % 4)).make_tree(PT(tree));
            const ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T> sl(mst);
            using C = ffcl::datastruct::CondensedClusterTree<std::size_t, T>;
            const C    cond(sl.root(), typename C::Options().min_cluster_size(2 + c.k % 3).return_leaf_nodes(c.flag));
            auto       ask = [&] {
                Bytes a;
                put(a, sl.extract_flat_clusters());
                put(a, cond.predict());
                const C other(sl.root(), typename C::Options().min_cluster_size(2 + c.kc % 3));
                put(a, other.predict());
                return a;
            };
            const auto before = ask();
            for (const auto at : points(r, allocations([&] { ask(); }))) {
                const auto had = live;
                fails([&] { ask(); }, at);
                ctx.check(live == had, "memory-lost", "reading a hierarchy, failing at allocation ", at, ", loses ", live - had, " blocks");
                ctx.check(ask() == before, "hierarchy-damaged", "a hierarchy answers otherwise after a call that failed at allocation ", at);
                ctx.count("hierarchy_calls_failed");
            }
            for (const auto at : points(r, allocations([&] {
                     auto                                                       m = mst;
                     ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T> t(m);
                     t.root();
                 }))) {
                const auto had = live;
                fails(
                    [&] {
                        auto                                                       m = mst;
                        ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T> t(m);
                        t.root();
                    },
                    at);
                ctx.check(live == had, "memory-lost", "making a hierarchy, failing at allocation ", at, ", loses ", live - had, " blocks");
                ctx.count("hierarchies_failed");
            }
        }
    }
    Hasher h;
    h.addv(c.data.v).addv(c.idx).add(c.k).add(c.opts.bucket).add(c.opts.policy);
    ctx.nontrivial(h.h);
}

template <typename T>
void one(Ctx& ctx) {
    if (ctx.rng.chance(0.6))
        operation<T>(ctx);
    else
        objects<T>(ctx);
}
}  // namespace

void vf::run_case(Ctx& ctx) {
    const auto u = ctx.rng.range(0, 9);
    if (u < 5)
        one<double>(ctx);
    else if (u < 8)
        one<float>(ctx);
    else
        one<int>(ctx);
}
