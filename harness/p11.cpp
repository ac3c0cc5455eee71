// P11: k-means as the user calls it: iterations, stopping, choice among initialisations, predict and forward.
#include "km.hpp"
#include "trees.hpp"

#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/Lloyd.hpp"

using namespace vf;

template <typename T>
double max_move(const std::vector<T>& a, const std::vector<T>& b) {
    double m = 0;
    for (std::size_t i = 0; i < a.size(); ++i)
        m = std::max(m, static_cast<double>(std::abs(a[i] - b[i])));
    return m;
}

template <typename T, template <typename> class Algo>
void run(Ctx& ctx, Data<T>& data, std::size_t k, const char* who) {
    Rng&              r = ctx.rng;
    const std::size_t n = data.n, d = data.d;
    const double      eps   = std::numeric_limits<T>::epsilon();
    const double      scale = coord_scale(data.v);
    using It                = typename std::vector<T>::iterator;
    using KM                = ffcl::KMeans<T>;

    typename KM::Options opt;
    // now and then more than a narrow type counts
    const int            large    = n <= 20 && r.chance(0.02) ? static_cast<int>(r.range(1, 3)) : 0;
    const std::size_t    max_iter = static_cast<std::size_t>(r.chance(0.5) ? r.range(0, 6) : r.chance(0.7) ? r.range(20, 100) : 100) + (large == 2 ? 256 : large == 3 ? 300 : 0);
    const bool           early    = r.chance(0.8);
    const std::size_t    patience = static_cast<std::size_t>(r.chance(0.6) ? 0 : r.range(1, 3)) + (large == 3 ? 256 : 0);
    const T              tol      = r.chance(0.6) ? T(0) : static_cast<T>(std::ldexp(std::max(scale, 1e-30), -static_cast<int>(r.range(3, 12))));
    const std::size_t    n_init   = static_cast<std::size_t>(r.range(1, 4)) + (large == 1 ? 256 : 0);
    set_unless_default(r, max_iter, 100, [&](auto x) { opt.max_iter(x); });
    set_unless_default(r, early, true, [&](auto x) { opt.early_stopping(x); });
    set_unless_default(r, patience, 0, [&](auto x) { opt.patience(x); });
    set_unless_default(r, tol, 0, [&](auto x) { opt.tolerance(x); });
    set_unless_default(r, n_init, 1, [&](auto x) { opt.n_init(x); });
    ctx.desc = data.str() + " " + who + " k=" + std::to_string(k) + " max_iter=" + std::to_string(max_iter) + " early=" + std::to_string(early) +
               " patience=" + std::to_string(patience) + " tol=" + std::to_string(static_cast<double>(tol)) + " n_init=" + std::to_string(n_init);

    std::vector<std::vector<T>> cands;
    for (std::size_t i = 0; i < n_init; ++i)
        cands.push_back(pick_centroids(r, data, k));

    // what iterating with the documented rule from one placement gives
    auto expected = [&](const std::vector<T>& start) {
        Algo<It>                    a(std::make_tuple(data.v.begin(), data.v.end(), d), start);
        std::vector<std::vector<T>> all{start};
        std::size_t                 still = 0;
        for (std::size_t s = 0; s < max_iter; ++s) {
            all.push_back(a.step());
            // the move of the very first iteration doesn't count: its reference isn't a result
            if (early && s > 0 && max_move(all[s + 1], all[s]) <= static_cast<double>(tol)) {
                if (still == patience)
                    break;
                ++still;
            } else
                still = 0;
        }
        ctx.count("iterations", all.size() - 1);
        if (all.size() - 1 < max_iter)
            ctx.count("stopped_early");
        return all.back();
    };
    // with the placements chosen by the caller
    std::size_t calls = 0;
    bool        args_ok = true;
    auto        init  = [&](const It& f, const It& l, std::size_t nf, std::size_t kk) {
        args_ok = args_ok && f == data.v.begin() && l == data.v.end() && nf == d && kk == k;
        return cands[std::min(calls++, cands.size() - 1)];
    };
    typename KM::Options assigned;
    assigned = opt;
    typename KM::Options before;
    before.max_iter(static_cast<std::size_t>(r.range(0, 200))).early_stopping(r.chance(0.5)).patience(static_cast<std::size_t>(r.range(0, 5))).n_init(
        static_cast<std::size_t>(r.range(1, 6)));
    const bool later = r.chance(0.3);
    KM         km    = later ? (r.chance(0.5) ? KM(k) : KM(k, before)) : KM(k, r.chance(0.5) ? opt : assigned);
    if (later)
        km.set_options(opt);
    const auto got = [&] {
        if constexpr (std::is_same_v<Algo<It>, ffcl::Hamerly<It>>)
            if (r.chance(0.3))  // the algorithm nobody asked for
                return km.fit(data.v.begin(), data.v.end(), d, init);
        return km.template fit<Algo>(data.v.begin(), data.v.end(), d, init);
    }();
    ctx.check(args_ok, "initialiser-arguments", "the initialisation got other arguments than the fit");
    ctx.check(calls == n_init, "n-init", calls, " placements were drawn instead of ", n_init);
    ctx.check(got.size() == k * d, "centroid-count", got.size() / d, " centroids");
    std::vector<std::vector<T>> want;
    std::vector<double>         cost;
    for (auto& c : cands) {
        want.push_back(expected(c));
        cost.push_back(static_cast<double>(assign(data, want.back(), 0).sum));
    }
    const double best = *std::min_element(cost.begin(), cost.end());
    const double ctol = eps * (128 + 2 * static_cast<double>(n)) * best + eps * 32 * scale * static_cast<double>(n);
    bool         hit = false, known = false;
    for (std::size_t i = 0; i < n_init; ++i)
        if (max_move(want[i], got) <= eps * 8 * scale) {
            known = true;
            hit |= cost[i] <= best + ctol;
        }
    ctx.check(known, "fit-result", "the result ", show(got), " is not what iterating from any of the placements gives, e.g. ", show(want[0]));
    ctx.check(hit, "not-best-init", "the placement kept is not the one with the smallest total distance; totals ", show(cost));
    if (n_init > 1)
        ctx.count("choices_judged");
    ctx.count("fits");

    // use
    auto judge_use = [&](KM& m, const std::vector<T>& c) {
        Data<T> other = data;
        if (r.chance(0.5)) {
            other   = any_data<T>(r, pick_n(r, 60), d);
        }
        const auto lab = m.predict(other.v.begin(), other.v.end(), d);
        const auto fwd = m.forward(other.v.begin(), other.v.end(), d);
        ctx.check(lab.size() == other.n && fwd.size() == other.n, "predict-size", lab.size(), " labels for ", other.n, " samples");
        const double sc = std::max(coord_scale(other.v), coord_scale(c));
        const auto   a  = assign(other, c, 0);
        for (std::size_t i = 0; i < other.n; ++i) {
            ctx.check(lab[i] < k, "predict-range", "label ", lab[i], " of ", k);
            const double dl = static_cast<double>(ld_dist(&other.v[i * d], &c[lab[i] * d], d));
            ctx.check(dl <= a.d1[i] * (1 + 64 * eps) + 16 * eps * sc, "predict-not-nearest", "sample ", i, " is assigned to centroid ", lab[i], " at ", dl,
                      " but centroid ", a.nearest[i], " is at ", a.d1[i]);
            ctx.check(std::fabs(static_cast<double>(fwd[i]) - a.d1[i]) <= 64 * eps * a.d1[i] + 16 * eps * sc, "forward-distance", "sample ", i,
                      ": forward gives ", fwd[i], ", nearest centroid is at ", a.d1[i]);
        }
        ctx.count("predictions", other.n);
    };
    judge_use(km, got);

    // placement given once and for all, then fitting again goes on from there
    {
        const bool by_options = r.chance(0.5);
        KM         m2         = by_options ? (r.chance(0.5) ? KM(k, cands[0]) : KM(k, cands[0], before)) : KM(k, cands[0], opt);
        if (by_options)
            m2.set_options(opt);
        if (r.chance(0.5))
            judge_use(m2, cands[0]);
        const auto g1 = m2.template fit<Algo>(data.v.begin(), data.v.end(), d);
        ctx.check(max_move(g1, want[0]) <= eps * 8 * scale, "given-centroids", "fit from given centroids gives ", show(g1), " instead of ", show(want[0]));
        const auto w2 = expected(g1);
        const auto g2 = m2.template fit<Algo>(data.v.begin(), data.v.end(), d);
        ctx.check(max_move(g2, w2) <= eps * 8 * scale, "fit-again", "fitting again gives ", show(g2), " instead of ", show(w2));
        judge_use(m2, g2);
    }
    // everything by default: k-means++ placements, iterated until nothing moves
    {
        KM m3(k);
        m3.set_options(typename KM::Options().max_iter(1000));
        const auto c = m3.template fit<Algo>(data.v.begin(), data.v.end(), d);
        ctx.check(c.size() == k * d, "centroid-count", c.size() / d, " centroids");
        const auto               a = assign(data, c, eps * scale * 2000);
        std::vector<long double> sum(k * d, 0);
        std::vector<std::size_t> size(k, 0);
        for (std::size_t i = 0; i < n; ++i) {
            ++size[a.nearest[i]];
            for (std::size_t f = 0; f < d; ++f)
                sum[a.nearest[i] * d + f] += data.v[i * d + f];
        }
        for (std::size_t j = 0; j < k; ++j)
            if (!a.cluster_open[j] && size[j]) {
                for (std::size_t f = 0; f < d; ++f)
                    ctx.check(std::fabs(static_cast<double>(sum[j * d + f] / static_cast<long double>(size[j])) - static_cast<double>(c[j * d + f])) <=
                                  eps * scale * (64 + 8 * static_cast<double>(n)),
                              "not-converged", "centroid ", j, " is not the mean of its samples though iterations were left");
                ctx.count("fixed_points");
            }
    }
}

template <typename T>
void one(Ctx& ctx) {
    Rng&        r    = ctx.rng;
    std::size_t n    = pick_n(r, ctx.thorough ? 300 : 120);
    std::size_t d    = pick_d(r, 6);
    auto        data = r.chance(0.4) ? make_data<T>(r, n, d, r.chance(0.5) ? F_CLUSTERS : F_UNIFORM) : any_data<T>(r, n, d);
    maybe_rescale(r, data);
    std::size_t k = static_cast<std::size_t>(r.range(1, std::min<long long>(static_cast<long long>(n), r.chance(0.8) ? 6 : 15)));
    if (r.chance(0.0005)) {
        // more centroids than a narrow type counts
        n    = static_cast<std::size_t>(r.range(270, 320));
        d    = static_cast<std::size_t>(r.range(1, 3));
        data = make_data<T>(r, n, d, F_UNIFORM);
        k    = static_cast<std::size_t>(r.range(257, 270));
        ctx.count("many_centroids");
    }
    seed_engine(r.next());
    const auto before = data.v;
    if (r.chance(0.5))
        run<T, ffcl::Lloyd>(ctx, data, k, "lloyd");
    else
        run<T, ffcl::Hamerly>(ctx, data, k, "hamerly");
    ctx.check(std::memcmp(before.data(), data.v.data(), before.size() * sizeof(T)) == 0, "data-modified", "the samples were modified");
    if (n >= 3 && k >= 2)
        ctx.nontrivial(Hasher().addv(data.v).add(k).h);
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    ctx.index % 3 ? one<double>(ctx) : one<float>(ctx);
}
