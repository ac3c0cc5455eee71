// P17: random selection: what is drawn comes from where it should, without repetition, and everything has its fair chance.
#include "trees.hpp"

#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"

using namespace vf;
namespace R = ffcl::common::math::random;

// information (in nats) against 'hits out of total' having probability p: the chance of more than 60 is below e^-60
static double against(double hits, double total, double p) {
    if (p <= 0)
        return hits > 0 ? 1e9 : 0;
    if (p >= 1)
        return hits < total ? 1e9 : 0;
    const double q = hits / total;
    double       s = 0;
    if (q > 0)
        s += q * std::log(q / p);
    if (q < 1)
        s += (1 - q) * std::log((1 - q) / (1 - p));
    return total * s;
}
constexpr double kLimit = 60;
static const bool        kLight = std::getenv("VF_LIGHT") != nullptr;  // slow execution: fewer draws
static std::size_t       times(std::size_t n) {
    return kLight ? n / 20 : n;
}

static void fair(Ctx& ctx, const std::vector<std::size_t>& hits, std::size_t draws, const std::vector<double>& p, const char* what) {
    for (std::size_t i = 0; i < hits.size(); ++i) {
        ctx.check(against(static_cast<double>(hits[i]), static_cast<double>(draws), p[i]) < kLimit, "unfair", what, ": element ", i, " of ", hits.size(),
                  " was drawn ", hits[i], " times in ", draws, ", its chance is ", p[i]);
        ctx.count("chances_judged");
    }
}

// elements that are all different
static void elements(Ctx& ctx) {
    Rng&        r = ctx.rng;
    std::size_t n = static_cast<std::size_t>(r.range(1, 40)), m = static_cast<std::size_t>(r.range(0, static_cast<long long>(n)));
    ctx.desc = "select " + std::to_string(m) + " of " + std::to_string(n);
    std::vector<std::size_t> pool(n);
    for (std::size_t i = 0; i < n; ++i)
        pool[i] = 1000 + i;
    if (r.chance(0.5))
        r.shuffle(pool);
    const auto               keep  = pool;
    const std::size_t        draws = times(600);
    std::vector<std::size_t> hits(n, 0), first(n, 0);
    for (std::size_t t = 0; t < draws; ++t) {
        const auto s = R::select_n_elements(pool.begin(), pool.end(), m);
        ctx.check(s.size() == m, "selection-size", s.size(), " elements instead of ", m);
        std::set<std::size_t> seen;
        for (auto x : s) {
            const auto at = std::find(pool.begin(), pool.end(), x) - pool.begin();
            ctx.check(static_cast<std::size_t>(at) < n, "selection-foreign", x, " is not one of the elements");
            ctx.check(seen.insert(x).second, "selection-repeats", x, " was selected twice");
            ++hits[static_cast<std::size_t>(at)];
        }
        if (m)
            ++first[static_cast<std::size_t>(std::find(pool.begin(), pool.end(), s[0]) - pool.begin())];
    }
    ctx.check(keep == pool, "pool-modified", "the elements to select from were modified");
    fair(ctx, hits, draws, std::vector<double>(n, static_cast<double>(m) / static_cast<double>(n)), "selection");
    if (m)
        fair(ctx, first, draws, std::vector<double>(n, 1.0 / static_cast<double>(n)), "first selected");
    ctx.count("selections", draws);

    const long long lo = r.range(0, 20), len = r.range(1, 30);
    const auto      c = static_cast<std::size_t>(r.range(0, len));
    std::vector<std::size_t> h2(static_cast<std::size_t>(len), 0);
    for (std::size_t t = 0; t < draws; ++t) {
        const auto            s = R::make_n_elements_from_interval<std::size_t>(c, {static_cast<std::size_t>(lo), static_cast<std::size_t>(lo + len)});
        std::set<std::size_t> seen(s.begin(), s.end());
        ctx.check(s.size() == c && seen.size() == c, "interval-selection", "not ", c, " different values: ", show(s));
        for (auto x : s) {
            ctx.check(x >= static_cast<std::size_t>(lo) && x < static_cast<std::size_t>(lo + len), "interval-outside", x, " outside [", lo, ",", lo + len, ")");
            ++h2[x - static_cast<std::size_t>(lo)];
        }
    }
    fair(ctx, h2, draws, std::vector<double>(static_cast<std::size_t>(len), static_cast<double>(c) / static_cast<double>(len)), "interval");
    if (n >= 3 && m && m < n)
        ctx.nontrivial(Hasher().add(n).add(m).add(ctx.index).h);
}

// single draws
template <typename T>
static void draws(Ctx& ctx) {
    Rng&              r     = ctx.rng;
    const std::size_t draws = times(1200);
    if constexpr (std::is_integral_v<T>) {
        const long long lo = r.range(0, 40) - (std::is_signed_v<T> ? 20 : 0), len = r.range(1, 25);
        ctx.desc           = "uniform integers from " + std::to_string(lo) + " to " + std::to_string(lo + len - 1);
        R::uniform_distribution<T> u(static_cast<T>(lo), static_cast<T>(lo + len - 1));
        std::vector<std::size_t>   hits(static_cast<std::size_t>(len), 0), seeded(static_cast<std::size_t>(len), 0);
        for (std::size_t t = 0; t < draws; ++t) {
            const auto x = static_cast<long long>(u()), y = static_cast<long long>(u(ctx.index));
            ctx.check(x >= lo && x < lo + len && y >= lo && y < lo + len, "draw-outside", x, " or ", y, " outside [", lo, ",", lo + len - 1, "]");
            ++hits[static_cast<std::size_t>(x - lo)];
            ++seeded[static_cast<std::size_t>(y - lo)];
        }
        const std::vector<double> p(static_cast<std::size_t>(len), 1.0 / static_cast<double>(len));
        fair(ctx, hits, draws, p, "uniform integer");
        fair(ctx, seeded, draws, p, "uniform integer of the seeded engine");
        if (len >= 3)
            ctx.nontrivial(Hasher().add(lo).add(len).add(ctx.index).h);
    } else {
        const T lo = static_cast<T>(r.real(-100, 100)), len = static_cast<T>(std::ldexp(1.0, static_cast<int>(r.range(-4, 10)))), hi = lo + len;
        ctx.desc = "uniform numbers from " + std::to_string(lo) + " to " + std::to_string(hi);
        R::uniform_distribution<T> u(lo, hi);
        const std::size_t          bins = static_cast<std::size_t>(r.range(1, 12));
        std::vector<std::size_t>   hits(bins, 0);
        for (std::size_t t = 0; t < draws; ++t) {
            const T x = u();
            ctx.check(x >= lo && x <= hi, "draw-outside", x, " outside [", lo, ",", hi, "]");
            ++hits[std::min(bins - 1, static_cast<std::size_t>((static_cast<double>(x) - static_cast<double>(lo)) / (static_cast<double>(hi) - static_cast<double>(lo)) * static_cast<double>(bins)))];
        }
        fair(ctx, hits, draws, std::vector<double>(bins, 1.0 / static_cast<double>(bins)), "uniform number");
        if (bins >= 3)
            ctx.nontrivial(Hasher().add(lo).add(len).add(ctx.index).h);
    }
    ctx.count("single_draws", draws);
}

template <typename W>
static void alias(Ctx& ctx) {
    Rng&           r = ctx.rng;
    const bool     many = r.chance(0.01) && !kLight;
    std::size_t    n = many ? static_cast<std::size_t>(std::pow(10, r.real(3, 5.3))) : static_cast<std::size_t>(r.range(1, r.chance(0.8) ? 12 : 60));
    std::vector<W> w(n);
    const int      how = static_cast<int>(r.range(0, 6));
    const double   one = r.real(0.05, 3);
    for (auto& x : w) {
        double v = r.unit();
        if (how == 5)
            v = r.chance(0.5) ? 0 : std::pow(10, r.real(-4, 4));
        else if (how == 6)
            v = r.chance(0.5) ? 0 : one;
        else
        if (how == 1)
            v = r.chance(0.5) ? 0 : v;
        else if (how == 2)
            v = std::pow(10, r.real(-4, 4));
        else if (how == 3)
            v = static_cast<double>(r.range(0, 3));
        else if (how == 4)
            v = 1;
        x = std::is_floating_point_v<W> ? static_cast<W>(v) : static_cast<W>(v * 10);
    }
    double sum = 0;
    for (auto x : w)
        sum += static_cast<double>(x);
    if (sum <= 0) {
        w[0] = 1;
        sum  = 1;
    }
    ctx.desc = std::to_string(n) + " weights " + show(w);
    R::VosesAliasMethod<W>   v(w);
    const std::size_t        draws = many ? 400000 : times(4000);
    std::vector<std::size_t> hits(n, 0);
    for (std::size_t t = 0; t < draws; ++t) {
        const auto i = r.chance(0.5) ? v() : v.sample();
        ctx.check(i < n, "alias-range", "drew ", i, " of ", n);
        ctx.check(w[i] > 0, "alias-zero-weight", "drew ", i, " which has no weight");
        ++hits[i];
    }
    std::vector<double> p(n);
    for (std::size_t i = 0; i < n; ++i)
        p[i] = static_cast<double>(w[i]) / sum;
    // weights are processed in W's precision
    for (std::size_t i = 0; i < n; ++i) {
        ctx.check(against(static_cast<double>(hits[i]), static_cast<double>(draws), std::min(1.0, p[i])) < kLimit ||
                      std::fabs(static_cast<double>(hits[i]) / static_cast<double>(draws) - p[i]) < 1e-3,
                  "alias-unfair", "index ", i, " was drawn ", hits[i], " times in ", draws, ", its share is ", p[i]);
        ctx.count("chances_judged");
    }
    if (many) {
        // of single elements among many there are few draws: blocks of them
        const std::size_t blocks = 16;
        for (std::size_t b = 0; b < blocks; ++b) {
            double h = 0, share = 0;
            for (std::size_t i = b * n / blocks; i < (b + 1) * n / blocks; ++i) {
                h += static_cast<double>(hits[i]);
                share += p[i];
            }
            ctx.check(against(h, static_cast<double>(draws), std::min(1.0, share)) < kLimit || std::fabs(h / static_cast<double>(draws) - share) < 1e-3, "alias-unfair", "block ", b,
                      " of ", n, " elements was drawn ", h, " times in ", draws, ", its share is ", share);
        }
        ctx.count("many_weights");
    }
    ctx.count("alias_draws", draws);
    if (n >= 3)
        ctx.nontrivial(Hasher().addv(w).add(how).h);
}

// every sample has the same chance, whichever function selects
template <typename T>
static void fair_samples(Ctx& ctx) {
    Rng&              r    = ctx.rng;
    const bool        many = r.chance(0.03) && !kLight;
    const std::size_t n = static_cast<std::size_t>(many ? r.range(100, 5000) : r.range(1, 24)), d = pick_d(r, 4), m = static_cast<std::size_t>(r.range(1, many ? 40 : static_cast<long long>(n)));
    std::vector<T>    v(n * d);
    for (std::size_t i = 0; i < n; ++i)  // the first feature tells the samples apart
        for (std::size_t f = 0; f < d; ++f)
            v[i * d + f] = static_cast<T>(f ? r.range(-5, 5) : static_cast<long long>(i));
    std::vector<std::size_t> subset = pick_indices(r, n, 0.7);
    ctx.desc                        = std::to_string(m) + " of " + std::to_string(n) + " samples of " + std::to_string(d) + " features, subset " + show(subset);
    const std::size_t draws         = many ? 300 : times(800);
    const std::size_t blocks        = many ? 8 : n;
    std::vector<std::size_t> some(n, 0), single(n, 0), among(n, 0), init(n, 0), spread(4, 0);
    auto                     who = [&](const std::vector<T>& rows, std::size_t j) {
        const auto i = static_cast<std::size_t>(rows[j * d]);
        ctx.check(i < n && std::equal(rows.begin() + static_cast<std::ptrdiff_t>(j * d), rows.begin() + static_cast<std::ptrdiff_t>((j + 1) * d), v.begin() + static_cast<std::ptrdiff_t>(i * d)),
                  "not-a-sample", "row ", j, " starting with ", rows[j * d]);
        return i;
    };
    const std::size_t ms = std::min(m, subset.size());
    for (std::size_t t = 0; t < draws; ++t) {
        auto take = [&](const std::vector<T>& rows, std::size_t want, std::vector<std::size_t>& hits, const char* what) {
            ctx.check(rows.size() == want * d, "sample-count", what, ": ", rows.size(), " values instead of ", want * d);
            for (std::size_t j = 0; j < want; ++j)
                ++hits[who(rows, j)];
        };
        take(R::select_n_random_samples(v.begin(), v.end(), d, m), m, some, "random samples");
        take(R::select_random_sample(v.begin(), v.end(), d), 1, single, "one random sample");
        take(R::select_n_random_samples_from_indices(subset.begin(), subset.end(), v.begin(), v.end(), d, m), ms, among, "random samples of a subset");
        take(R::init_uniform(v.begin(), v.end(), d, m), m, init, "uniform initialisation");
        if constexpr (std::is_floating_point_v<T>)
            if (n >= 2)
                for (auto x : R::init_spatial_uniform(v.begin(), v.begin() + static_cast<std::ptrdiff_t>(n * d), d, 1)) {
                    ++spread[std::min<std::size_t>(3, static_cast<std::size_t>(4 * static_cast<double>(x) / static_cast<double>(n - 1)))];
                    break;  // the first feature runs from 0 to n - 1
                }
    }
    auto judge = [&](const std::vector<std::size_t>& hits, double chance, const std::vector<char>& counts, const char* what) {
        for (std::size_t b = 0; b < blocks; ++b) {
            double h = 0, elements = 0;
            for (std::size_t i = b * n / blocks; i < (b + 1) * n / blocks; ++i) {
                ctx.check(counts[i] || !hits[i], "selection-foreign", what, ": sample ", i, " isn't among those to choose from");
                h += static_cast<double>(hits[i]);
                elements += counts[i];
            }
            // at most once per draw each, so the draws of a block are no more spread than independent ones
            if (elements > 0)
                ctx.check(against(h, static_cast<double>(draws) * elements, chance) < kLimit, "unfair", what, ": the ", elements, " samples from ", b * n / blocks, " on were drawn ", h,
                          " times in ", draws, ", the chance of each is ", chance);
            ctx.count("chances_judged");
        }
    };
    const std::vector<char> all(n, 1);
    std::vector<char>       in(n, 0);
    for (auto i : subset)
        in[i] = 1;
    const double N = static_cast<double>(n);
    judge(some, static_cast<double>(m) / N, all, "random samples");
    judge(single, 1 / N, all, "one random sample");
    judge(among, static_cast<double>(ms) / static_cast<double>(subset.size()), in, "random samples of a subset");
    judge(init, static_cast<double>(m) / N, all, "uniform initialisation");
    if constexpr (std::is_floating_point_v<T>)
        if (n >= 2)
            fair(ctx, spread, draws, std::vector<double>(4, 0.25), "quarter of the box");
    ctx.count("sample_selections", draws);
    if (n >= 3 && m < n)
        ctx.nontrivial(Hasher().addv(v).addv(subset).add(m).h);
}

template <typename T>
static void samples(Ctx& ctx) {
    Rng&        r    = ctx.rng;
    std::size_t n    = pick_n(r, 60), d = pick_d(r, 5);
    auto        data = any_data<T>(r, n, d);
    maybe_rescale(r, data);
    ctx.desc = data.str();
    std::map<std::vector<T>, std::size_t> rows;  // how often each position occurs
    for (std::size_t i = 0; i < n; ++i)
        ++rows[std::vector<T>(data.v.begin() + i * d, data.v.begin() + (i + 1) * d)];
    auto row = [&](const std::vector<T>& v, std::size_t i) { return std::vector<T>(v.begin() + i * d, v.begin() + (i + 1) * d); };
    auto subset = [&](const std::vector<T>& v, std::size_t m, const char* what) {
        ctx.check(v.size() == m * d, "sample-count", what, ": ", v.size(), " values instead of ", m * d);
        std::map<std::vector<T>, std::size_t> c;
        for (std::size_t i = 0; i < m; ++i) {
            auto it = rows.find(row(v, i));
            ctx.check(it != rows.end(), "not-a-sample", what, ": ", show(row(v, i)), " is not a sample");
            ctx.check(++c[row(v, i)] <= it->second, "sample-repeats", what, ": ", show(row(v, i)), " was taken more often than it occurs");
        }
        ctx.count("samples_drawn", m);
    };
    const auto before = data.v;
    const auto m      = static_cast<std::size_t>(r.range(0, static_cast<long long>(n) + 3));
    subset(R::select_n_random_samples(data.v.begin(), data.v.end(), d, m), std::min(m, n), "random samples");
    subset(R::select_random_sample(data.v.begin(), data.v.end(), d), 1, "one random sample");
#ifndef VF_NO_FROM_INDICES
    {
        auto idx = pick_indices(r, n, 0.7);
        auto s   = R::select_n_random_samples_from_indices(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d, m);
        const std::size_t mm = std::min(m, idx.size());
        ctx.check(s.size() == mm * d, "sample-count", "random samples of a subset: ", s.size(), " values instead of ", mm * d);
        std::map<std::vector<T>, std::size_t> have, took;
        for (auto i : idx)
            ++have[row(data.v, i)];
        for (std::size_t i = 0; i < mm; ++i) {
            const auto c = ++took[row(s, i)];
            const auto h = have.count(row(s, i)) ? have.find(row(s, i))->second : 0;
            ctx.check(c <= h, "sample-repeats", "random samples of a subset: ", show(row(s, i)), " taken ", c, " times, occurs ", h);
        }
    }
#endif
    const auto k = static_cast<std::size_t>(r.range(1, static_cast<long long>(n)));
    subset(R::init_uniform(data.v.begin(), data.v.end(), d, k), k, "uniform initialisation");
    {
        const auto     c = R::init_spatial_uniform(data.v.begin(), data.v.end(), d, k);
        std::vector<T> lo(data.v.begin(), data.v.begin() + d), hi = lo;
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t f = 0; f < d; ++f) {
                lo[f] = std::min(lo[f], data.at(i, f));
                hi[f] = std::max(hi[f], data.at(i, f));
            }
        ctx.check(c.size() == k * d, "centroid-count", c.size() / d, " centroids instead of ", k);
        const double slack = std::is_floating_point_v<T> ? 1e-6 * coord_scale(data.v) : 0;
        for (std::size_t i = 0; i < k * d; ++i)
            ctx.check(static_cast<double>(c[i]) >= static_cast<double>(lo[i % d]) - slack && static_cast<double>(c[i]) <= static_cast<double>(hi[i % d]) + slack,
                      "outside-box", "centroid value ", +c[i], " of feature ", i % d, " outside [", +lo[i % d], ",", +hi[i % d], "]");
        ctx.count("spatial_values", k * d);
    }
    if constexpr (std::is_floating_point_v<T>) {
        // k-means++: samples, all different as long as there are different samples left
        const auto kk = static_cast<std::size_t>(r.range(1, static_cast<long long>(std::min<std::size_t>(n, 12))));
        const auto c  = ffcl::kmeansplusplus::make_centroids(data.v.begin(), data.v.end(), d, kk);
        ctx.check(c.size() == kk * d, "centroid-count", c.size() / d, " centroids instead of ", kk);
        std::set<std::vector<T>> seen;
        for (std::size_t i = 0; i < kk; ++i) {
            ctx.check(rows.count(row(c, i)), "not-a-sample", "k-means++: ", show(row(c, i)), " is not a sample");
            const bool fresh = seen.insert(row(c, i)).second;
            ctx.check(fresh || seen.size() == rows.size(), "repeated-centroid", "k-means++ chose ", show(row(c, i)), " twice while other positions were left");
        }
        const auto c2 = ffcl::kmeansplusplus::make_centroids_from_previous_centroid(data.v.begin(), data.v.end(), d, kk);
        ctx.check(c2.size() == kk * d, "centroid-count", c2.size() / d, " centroids instead of ", kk);
        for (std::size_t i = 0; i < kk; ++i) {
            ctx.check(rows.count(row(c2, i)), "not-a-sample", "k-means++ from previous: ", show(row(c2, i)), " is not a sample");
            ctx.check(i == 0 || rows.size() < 2 || row(c2, i) != row(c2, i - 1), "repeated-centroid", "the same centroid twice in a row");
        }
        ctx.count("plusplus_centroids", 2 * kk);
        // the chances of the second and third one follow the distance to the closest chosen one
        if (n <= 10 && rows.size() >= 2 && r.chance(0.5)) {
            const std::size_t                                   draws = times(1500);
            std::map<std::vector<T>, std::size_t>               h1, hp;
            std::map<std::vector<T>, std::map<std::vector<T>, std::size_t>> h2, hq;
            for (std::size_t t = 0; t < draws; ++t) {
                const auto q = ffcl::kmeansplusplus::make_centroids(data.v.begin(), data.v.end(), d, 2);
                ++h1[row(q, 0)];
                ++h2[row(q, 0)][row(q, 1)];
                const auto q2 = ffcl::kmeansplusplus::make_centroids_from_previous_centroid(data.v.begin(), data.v.end(), d, 2);
                ++hp[row(q2, 0)];
                ++hq[row(q2, 0)][row(q2, 1)];
            }
            for (auto* hh : {&h1, &hp})
                for (auto& [pos, times] : rows)
                    ctx.check(against(static_cast<double>((*hh)[pos]), static_cast<double>(draws), static_cast<double>(times) / static_cast<double>(n)) < kLimit,
                              "unfair", "first centroid ", show(pos));
            for (auto* hh : {&h2, &hq})
                for (auto& [a, m2] : *hh) {
                    double total = 0, all = 0;
                    for (auto& [pos, times] : rows)
                        total += static_cast<double>(times) * ref_distance(a.data(), pos.data(), d);
                    for (auto& [b, c3] : m2)
                        all += static_cast<double>(c3);
                    for (auto& [pos, times] : rows) {
                        const double p  = static_cast<double>(times) * ref_distance(a.data(), pos.data(), d) / total;
                        const double hc = m2.count(pos) ? static_cast<double>(m2.find(pos)->second) : 0;
                        ctx.check(against(hc, all, std::min(1.0, p)) < kLimit || std::fabs(hc / all - p) < 2e-3, "plusplus-unfair", "after ", show(a), " position ", show(pos),
                                  " was chosen ", hc, " times of ", all, ", its share of the distances is ", p);
                        ctx.count("chances_judged");
                    }
                }
            // the third one: by the distance to the closer one of the first two, respectively to the second one
            std::map<std::vector<T>, double> seen3, due3, spread3, seen4, due4, spread4;
            for (std::size_t t = 0; t < draws; ++t) {
                const auto q  = ffcl::kmeansplusplus::make_centroids(data.v.begin(), data.v.end(), d, 3);
                const auto q2 = ffcl::kmeansplusplus::make_centroids_from_previous_centroid(data.v.begin(), data.v.end(), d, 3);
                const auto a = row(q, 0), b = row(q, 1), c3 = row(q2, 1);
                seen3[row(q, 2)] += 1;
                seen4[row(q2, 2)] += 1;
                auto closer = [&](const std::vector<T>& pos) { return std::min(ref_distance(a.data(), pos.data(), d), ref_distance(b.data(), pos.data(), d)); };
                auto last   = [&](const std::vector<T>& pos) { return ref_distance(c3.data(), pos.data(), d); };
                double total3 = 0, total4 = 0;
                for (auto& [pos, times] : rows) {
                    total3 += static_cast<double>(times) * closer(pos);
                    total4 += static_cast<double>(times) * last(pos);
                }
                for (auto& [pos, times] : rows) {
                    const double p3 = total3 > 0 ? static_cast<double>(times) * closer(pos) / total3 : static_cast<double>(times) / static_cast<double>(n);
                    const double p4 = total4 > 0 ? static_cast<double>(times) * last(pos) / total4 : static_cast<double>(times) / static_cast<double>(n);
                    due3[pos] += p3;
                    spread3[pos] += p3 * (1 - p3);
                    due4[pos] += p4;
                    spread4[pos] += p4 * (1 - p4);
                }
            }
            for (auto& [pos, times] : rows) {
                const double e3 = due3[pos], s3 = seen3[pos], v3 = spread3[pos], e4 = due4[pos], s4 = seen4[pos], v4 = spread4[pos];
                ctx.check(std::fabs(s3 - e3) <= 11 * std::sqrt(v3) + 25 && std::fabs(s4 - e4) <= 11 * std::sqrt(v4) + 25, "plusplus-unfair", "third centroid ", show(pos), ": chosen ", s3,
                          " and ", s4, " times of ", draws, ", expected ", e3, " and ", e4, " (", times, " samples)");
                ctx.count("chances_judged", 2);
            }
            ctx.count("plusplus_distributions");
        }
    }
    ctx.check(std::memcmp(before.data(), data.v.data(), before.size() * sizeof(T)) == 0, "data-modified", "the samples were modified");
    if (n >= 3)
        ctx.nontrivial(Hasher().addv(data.v).add(m).h);
}

void vf::run_case(Ctx& ctx) {
    seed_engine(ctx.rng.next());
    switch (ctx.index % 10) {
        case 0:
            elements(ctx);
            break;
        case 1:
            switch (ctx.index / 10 % 6) {
                case 0:
                    draws<std::size_t>(ctx);
                    break;
                case 1:
                    draws<int>(ctx);
                    break;
                case 2:
                    draws<float>(ctx);
                    break;
                case 3:
                    draws<double>(ctx);
                    break;
                default:
                    elements(ctx);
            }
            break;
        case 2:
            alias<float>(ctx);
            break;
        case 3:
            alias<double>(ctx);
            break;
        case 4:
            alias<int>(ctx);
            break;
        case 5:
            samples<int>(ctx);
            break;
        case 6:
            samples<float>(ctx);
            break;
        case 7:
            if (ctx.index / 10 % 3 == 0)
                fair_samples<int>(ctx);
            else if (ctx.index / 10 % 3 == 1)
                fair_samples<double>(ctx);
            else
                fair_samples<float>(ctx);
            break;
        default:
            samples<double>(ctx);
    }
    ctx.sample(ctx.desc);
}
