// P14: k-medoids as the user calls it: starting medoids, iterations, stopping, choice among initialisations, predict
// and forward. The front end is given monitored algorithms that record what it asks of them.
#include "md.hpp"

#include "ffcl/kmedoids/KMedoids.hpp"

using namespace vf;

struct Run {
    std::vector<std::size_t>              start;
    std::vector<std::vector<std::size_t>> steps;
    double                                loss        = 0;
    bool                                  precomputed = false;
    const std::vector<std::size_t>&       last() const { return steps.empty() ? start : steps.back(); }
};
static std::vector<std::unique_ptr<Run>> g_runs;  // of the fit being judged

// script: what a scripted algorithm answers, by order of construction
struct Script {
    std::vector<std::vector<std::size_t>> steps;
    double                                loss = 0;
};
static std::vector<Script> g_scripts;

template <template <typename> class Real, typename It>
struct Watched {
    using Data = typename std::iterator_traits<It>::value_type;
    Run*     run;
    Real<It> real;
    template <typename A>
    Watched(const A& a, const std::vector<std::size_t>& m, bool precomputed)
      : run{(g_runs.push_back(std::make_unique<Run>()), g_runs.back().get())}
      , real{a, m} {
        run->start       = m;
        run->precomputed = precomputed;
    }
    auto total_deviation() const { return real.total_deviation(); }
    auto step() {
        auto m = real.step();
        run->steps.push_back(m);
        return m;
    }
};

template <typename It>
struct WatchedPam : Watched<ffcl::FasterPAM, It> {
    WatchedPam(const std::tuple<It, It, std::size_t>& d, const std::vector<std::size_t>& m)
      : Watched<ffcl::FasterPAM, It>(d, m, false) {}
    WatchedPam(const ffcl::datastruct::PairwiseDistanceMatrix<It>& d, const std::vector<std::size_t>& m)
      : Watched<ffcl::FasterPAM, It>(d, m, true) {}
};

template <typename It>
struct WatchedMsc : Watched<ffcl::FasterMSC, It> {
    WatchedMsc(const std::tuple<It, It, std::size_t>& d, const std::vector<std::size_t>& m)
      : Watched<ffcl::FasterMSC, It>(d, m, false) {}
    WatchedMsc(const ffcl::datastruct::PairwiseDistanceMatrix<It>& d, const std::vector<std::size_t>& m)
      : Watched<ffcl::FasterMSC, It>(d, m, true) {}
};

// answers what it is told to: shows how many iterations the front end does, and what it chooses, whatever the data
template <typename It>
struct Scripted {
    Run*        run;
    std::size_t which, at = 0;
    Scripted(const std::vector<std::size_t>& m)
      : run{(g_runs.push_back(std::make_unique<Run>()), g_runs.back().get())}
      , which{g_runs.size() - 1} {
        run->start = m;
    }
    Scripted(const std::tuple<It, It, std::size_t>&, const std::vector<std::size_t>& m)
      : Scripted(m) {}
    Scripted(const ffcl::datastruct::PairwiseDistanceMatrix<It>&, const std::vector<std::size_t>& m)
      : Scripted(m) {}
    const Script& script() const { return g_scripts[std::min(which, g_scripts.size() - 1)]; }
    auto          total_deviation() const {
        return static_cast<typename std::iterator_traits<It>::value_type>(script().loss);
    }
    std::vector<std::size_t> step() {
        const auto& s = script().steps;
        auto        m = s[std::min(at++, s.size() - 1)];
        run->steps.push_back(m);
        return m;
    }
};

struct Settings {
    std::size_t max_iter, patience, n_init;
    bool        early;
};

// how many of the steps the stopping rule allows; the first result has no earlier result to compare with
static std::size_t rule(const std::vector<std::vector<std::size_t>>& s, const std::vector<std::size_t>& start, const Settings& o, bool count_start) {
    std::size_t still = 0, i = 0;
    for (; i < o.max_iter; ++i) {
        const auto& now  = s[std::min(i, s.size() - 1)];
        const bool  same = i > 0 ? now == s[std::min(i - 1, s.size() - 1)] : count_start && now == start;
        if (o.early && same) {
            if (still == o.patience)
                return i + 1;
            ++still;
        } else
            still = 0;
    }
    return i;
}

template <typename T, bool Pre>
struct Front {
    using It  = typename std::vector<T>::iterator;
    using KM  = ffcl::KMedoids<T, Pre>;
    using Mat = ffcl::datastruct::PairwiseDistanceMatrix<It>;

    static std::vector<std::size_t> fit(KM& km, Data<T>& data, Mat* mat, int algo) {
        g_runs.clear();
        if (algo == 0)
            return mat ? km.template fit<WatchedPam>(*mat) : km.template fit<WatchedPam>(data.v.begin(), data.v.end(), data.d);
        if (algo == 1) {
            if constexpr (std::is_floating_point_v<T>)
                return mat ? km.template fit<WatchedMsc>(*mat) : km.template fit<WatchedMsc>(data.v.begin(), data.v.end(), data.d);
        }
        return mat ? km.template fit<Scripted>(*mat) : km.template fit<Scripted>(data.v.begin(), data.v.end(), data.d);
    }

    static void judge_use(Ctx& ctx, const KM& km, Data<T>& data, Mat* mat, const Medoids<T>& ref, const std::vector<std::size_t>& m) {
        const double err = ref.err();
        for (int form = 0; form < (mat ? 2 : 1); ++form) {
            const std::vector<std::size_t> lab = form ? km.predict(*mat) : km.predict(data.v.begin(), data.v.end(), data.d);
            const std::vector<T>           fwd = form ? km.forward(*mat) : km.forward(data.v.begin(), data.v.end(), data.d);
            ctx.check(lab.size() == data.n && fwd.size() == data.n, "predict-size", lab.size(), " labels for ", data.n, " samples");
            for (std::size_t o = 0; o < data.n; ++o) {
                double a, b;
                ref.two(m, o, a, b);
                ctx.check(lab[o] < m.size(), "predict-range", "label ", lab[o]);
                ctx.check(ref.dist(m[lab[o]], o) <= a + err, "predict-not-nearest", "sample ", o, " is assigned to medoid ", m[lab[o]], " at ",
                          ref.dist(m[lab[o]], o), ", the nearest of ", show(m), " is at ", a);
                ctx.check(std::fabs(static_cast<double>(fwd[o]) - a) <= err, "forward-distance", "sample ", o, ": forward gives ", +fwd[o],
                          ", the nearest of ", show(m), " is at ", a);
            }
            ctx.count("predictions", data.n);
        }
    }

    // judges one fit; returns the medoids
    static std::vector<std::size_t> judge_fit(Ctx& ctx, KM& km, Data<T>& data, Mat* mat, const Medoids<T>& ref, int algo, const Settings& o,
                                              const std::vector<std::size_t>* given, std::size_t k) {
        const auto        got = fit(km, data, mat, algo);
        const std::size_t inits = given ? 1 : o.n_init;
        ctx.check(g_runs.size() == inits, "n-init", g_runs.size(), " runs instead of ", inits);
        judge_set(ctx, got, algo == 2 ? std::numeric_limits<std::size_t>::max() : data.n, k, "result");
        double      best = std::numeric_limits<double>::infinity();
        std::size_t who  = 0;
        for (std::size_t i = 0; i < g_runs.size(); ++i) {
            const Run& run = *g_runs[i];
            if (given)
                ctx.check(run.start == *given, "given-medoids", "started from ", show(run.start), " instead of ", show(*given));
            else
                judge_set(ctx, run.start, data.n, k, "start");
            ctx.check(run.steps.size() <= o.max_iter, "max-iter", run.steps.size(), " iterations of at most ", o.max_iter);
            if (algo == 2) {
                const auto& sc = g_scripts[std::min(i, g_scripts.size() - 1)];
                const auto  a = rule(sc.steps, run.start, o, false), b = rule(sc.steps, run.start, o, true);
                ctx.check(run.steps.size() == a || run.steps.size() == b, "stopping", run.steps.size(), " iterations instead of ", a,
                          " max_iter=", o.max_iter, " patience=", o.patience, " early=", o.early);
                if (a < o.max_iter)
                    ctx.count("stopped_early");
                if (static_cast<double>(static_cast<T>(sc.loss)) < best) {
                    best = static_cast<double>(static_cast<T>(sc.loss));
                    who  = i;
                }
                ctx.count("scripted_runs");
            } else {
                // the cost the medoids of this run end with
                const double c = algo == 1 ? ref.silhouette_loss(run.last()) : ref.deviation(run.last());
                if (c < best) {
                    best = c;
                    who  = i;
                }
                // a run that ended before max_iter ended on medoids that didn't move
                if (run.steps.size() < o.max_iter)
                    ctx.check(o.early, "stopped-early", "stopped after ", run.steps.size(), " of ", o.max_iter, " iterations without early stopping");
                if (run.steps.size() < o.max_iter && run.steps.size() > 1)
                    ctx.check(run.steps[run.steps.size() - 2] == run.last(), "stopping", "stopped though the medoids were moving");
            }
        }
        if (algo == 2) {
            ctx.check(got == g_runs[who]->last(), "not-best-init", "kept ", show(got), " instead of ", show(g_runs[who]->last()), " of run ", who);
        } else {
            bool         known = false, hit = false;
            const double n   = static_cast<double>(data.n);
            const double eps = std::is_floating_point_v<T> ? static_cast<double>(std::numeric_limits<T>::epsilon()) : 0;
            const double tol = algo == 1 ? n * eps * (32 + 8 * static_cast<double>(data.d) + 4 * std::sqrt(n))
                                         : n * (ref.err() + eps * 4 * *std::max_element(ref.D.begin(), ref.D.end()) * std::sqrt(n));
            std::vector<double> cost;
            for (auto& run : g_runs) {
                const double c = algo == 1 ? ref.silhouette_loss(run->last()) : ref.deviation(run->last());
                cost.push_back(c);
                if (run->last() == got) {
                    known = true;
                    hit   = hit || c <= best + 2 * tol;
                }
            }
            ctx.check(known, "fit-result", "the result ", show(got), " is not where any of the runs ended, e.g. ", show(g_runs[0]->last()));
            ctx.check(hit, "not-best-init", "kept ", show(got), " which isn't the cheapest; costs ", show(cost));
        }
        if (inits > 1)
            ctx.count("choices_judged");
        ctx.count("fits");
        return got;
    }

    static void one(Ctx& ctx, Data<T>& data, std::size_t k) {
        Rng&     r = ctx.rng;
        Settings o;
        o.max_iter = static_cast<std::size_t>(r.chance(0.5) ? r.range(0, 5) : r.range(10, 60));
        o.early    = r.chance(0.75);
        o.patience = static_cast<std::size_t>(r.chance(0.5) ? 0 : r.range(1, 4));
        o.n_init   = static_cast<std::size_t>(r.range(1, 5));
        if (r.chance(0.05))
            o = Settings{100, 0, 1, true};  // the defaults
        int algo   = static_cast<int>(r.range(0, 2));
        if (!std::is_floating_point_v<T> && algo == 1)
            algo = 0;
        if (algo == 2 && r.chance(0.01)) {
            // more than a narrow type counts
            switch (r.range(0, 2)) {
                case 0:
                    o.n_init += 256;
                    break;
                case 1:
                    o.max_iter += 256;
                    break;
                default:
                    o.patience += 256;
                    o.max_iter += 300;
            }
            ctx.count("large_settings");
        }
        if (algo == 2) {
            g_scripts.clear();
            // losses that are easy and hard to tell apart
            const double fine = r.chance(0.5) ? 1e-3 : 64 * static_cast<double>(std::numeric_limits<T>::epsilon());
            // positions in here only name results: the front end doesn't look at the samples
            for (std::size_t i = 0; i < o.n_init; ++i) {
                Script      s;
                std::size_t tag = 1000 * (i + 1);
                auto        make = [&] {
                    std::vector<std::size_t> m;
                    for (std::size_t j = 0; j < k; ++j)
                        m.push_back(tag + j);
                    ++tag;
                    return m;
                };
                s.steps.push_back(make());
                const std::size_t len = static_cast<std::size_t>(r.range(1, 14));
                while (s.steps.size() < len) {
                    if (r.chance(0.55))
                        s.steps.push_back(s.steps.back());
                    else
                        s.steps.push_back(make());
                }
                s.loss = static_cast<double>(r.range(o.n_init > 256 ? 1 : 0, 20));
                if (std::is_floating_point_v<T> && r.chance(0.5))
                    s.loss = s.loss * fine + 7;
                g_scripts.push_back(s);
            }
            if (o.n_init > 256 && r.chance(0.5))
                g_scripts.back().loss = 0;  // the best of them beyond what a narrow type counts
        }
        typename KM::Options opt;
        set_unless_default(r, o.max_iter, 100, [&](auto x) { opt.max_iter(x); });
        set_unless_default(r, o.early, true, [&](auto x) { opt.early_stopping(x); });
        set_unless_default(r, o.patience, 0, [&](auto x) { opt.patience(x); });
        set_unless_default(r, o.n_init, 1, [&](auto x) { opt.n_init(x); });
        ctx.desc = data.str() + " algo=" + std::to_string(algo) + " k=" + std::to_string(k) + " max_iter=" + std::to_string(o.max_iter) +
                   " early=" + std::to_string(o.early) + " patience=" + std::to_string(o.patience) + " n_init=" + std::to_string(o.n_init) +
                   " precompute=" + std::to_string(Pre);
        Medoids<T> ref;
        ref.load(data);
        std::unique_ptr<Mat> mat;
        if (r.chance(0.5))
            mat = std::make_unique<Mat>(data.v.begin(), data.v.end(), data.d);

        {
            KM km(k, opt);
            if (r.chance(0.3)) {
                typename KM::Options before;
                before.max_iter(static_cast<std::size_t>(r.range(0, 200))).early_stopping(r.chance(0.5));
                before.patience(static_cast<std::size_t>(r.range(0, 5))).n_init(static_cast<std::size_t>(r.range(1, 6)));
                KM other(k, before);
                other.set_options(opt);
                judge_fit(ctx, other, data, mat.get(), ref, algo, o, nullptr, k);
            }
            const auto got = judge_fit(ctx, km, data, mat.get(), ref, algo, o, nullptr, k);
            if (algo != 2) {
                judge_use(ctx, km, data, mat.get(), ref, got);
                // fitting again goes on from there
                const auto again = judge_fit(ctx, km, data, mat.get(), ref, algo, o, &got, k);
                judge_use(ctx, km, data, mat.get(), ref, again);
                ctx.count("refits");
            }
        }
        {
            const auto m = pick_medoids(r, data.n, k);
            const bool later = r.chance(0.3);
            KM         km    = later ? KM(k, m) : KM(k, m, opt);
            if (later)
                km.set_options(opt);
            if (r.chance(0.5))
                judge_use(ctx, km, data, mat.get(), ref, m);
            const auto got = judge_fit(ctx, km, data, mat.get(), ref, algo, o, &m, k);
            if (algo != 2)
                judge_use(ctx, km, data, mat.get(), ref, got);
        }
        if (r.chance(0.2)) {
            // the default algorithm and options
            KM         km(k);
            const auto got = mat && r.chance(0.5) ? km.fit(*mat) : km.fit(data.v.begin(), data.v.end(), data.d);
            judge_set(ctx, got, data.n, k, "default");
            judge_use(ctx, km, data, mat.get(), ref, got);
        }
    }
};

template <typename T>
static void one(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = std::max<std::size_t>(2, pick_n(r, ctx.thorough ? 70 : 40)), d = pick_d(r, 5);
    auto              data = medoid_data<T>(r, n, d);
    const std::size_t k    = static_cast<std::size_t>(r.range(2, static_cast<long long>(std::min<std::size_t>(n, r.chance(0.8) ? 6 : 20))));
    seed_engine(r.next());
    const auto before = data.v;
    if (r.chance(0.5))
        Front<T, true>::one(ctx, data, k);
    else
        Front<T, false>::one(ctx, data, k);
    ctx.check(std::memcmp(before.data(), data.v.data(), before.size() * sizeof(T)) == 0, "data-modified", "the samples were modified");
    if (n >= 4 && k < n)
        ctx.nontrivial(Hasher().addv(data.v).add(k).h);
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    switch (ctx.index % 4) {
        case 0:
            return one<float>(ctx);
        case 1:
            return one<int>(ctx);
        default:
            return one<double>(ctx);
    }
}
