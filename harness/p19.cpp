// P19: statistics per feature, extremes, normalisation, axis selection and rearrangement of samples.
#include "trees.hpp"

#include "ffcl/common/math/linear_algebra/Translation.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/common/math/statistics/Statistics.hpp"
#include "ffcl/datastruct/Interval.hpp"

using namespace vf;
namespace S = ffcl::common::math::statistics;
namespace L = ffcl::common::math::linear_algebra;

template <typename T>
struct Ref {
    std::vector<long double> mean, var;
};

template <typename T>
static Ref<T> reference(const Data<T>& data, const std::vector<std::size_t>& idx, const std::vector<std::size_t>& mask) {
    Ref<T> o;
    o.mean.assign(mask.size(), 0);
    o.var.assign(mask.size(), 0);
    for (std::size_t f = 0; f < mask.size(); ++f) {
        for (auto i : idx)
            o.mean[f] += static_cast<long double>(data.at(i, mask[f]));
        o.mean[f] /= static_cast<long double>(idx.size());
        for (auto i : idx) {
            const long double x = static_cast<long double>(data.at(i, mask[f])) - o.mean[f];
            o.var[f] += x * x;
        }
        if (idx.size() > 1)
            o.var[f] /= static_cast<long double>(idx.size() - 1);
    }
    return o;
}

template <typename T, typename V>
static void judge_mean(Ctx& ctx, const V& got, const Ref<T>& ref, std::size_t n, double scale, const char* what) {
    ctx.check(got.size() == ref.mean.size(), "mean-size", what, ": ", got.size(), " means for ", ref.mean.size(), " features");
    const double eps = std::is_floating_point_v<T> ? static_cast<double>(std::numeric_limits<T>::epsilon()) * (8 + static_cast<double>(n)) * scale : 1.0;
    for (std::size_t f = 0; f < got.size(); ++f)
        ctx.check(std::fabs(static_cast<double>(got[f]) - static_cast<double>(ref.mean[f])) <= eps, "mean", what, " of feature ", f, ": ", +got[f], ", is ",
                  static_cast<double>(ref.mean[f]));
    ctx.count("means_judged", got.size());
}

template <typename T, typename V>
static void judge_var(Ctx& ctx, const V& got, const Ref<T>& ref, std::size_t n, double scale, const char* what) {
    ctx.check(got.size() == ref.var.size(), "variance-size", what, ": ", got.size(), " variances for ", ref.var.size(), " features");
    for (std::size_t f = 0; f < got.size(); ++f) {
        // error of the mean enters squared, differences carry the rounding of the values
        const double e = static_cast<double>(std::numeric_limits<T>::epsilon()) * (8 + static_cast<double>(n));
        const double v = static_cast<double>(ref.var[f]);
        const double t = 4 * e * v + 4 * e * e * scale * scale + 4 * e * scale * std::sqrt(v);
        ctx.check(std::fabs(static_cast<double>(got[f]) - v) <= t, "variance", what, " of feature ", f, ": ", +got[f], ", is ", v);
    }
    ctx.count("variances_judged", got.size());
}

// the chosen feature's variance is not below any other's, rounding aside
template <typename T>
static bool largest(const Ref<T>& ref, const std::vector<std::size_t>& mask, std::size_t got, std::size_t n, double scale) {
    const auto it = std::find(mask.begin(), mask.end(), got);
    if (it == mask.end())
        return false;
    const double mine = static_cast<double>(ref.var[static_cast<std::size_t>(it - mask.begin())]);
    double       best = 0;
    for (auto v : ref.var)
        best = std::max(best, static_cast<double>(v));
    if constexpr (std::is_floating_point_v<T>) {
        const double e = static_cast<double>(std::numeric_limits<T>::epsilon()) * (8 + static_cast<double>(n));
        return mine >= best - 8 * e * best - 8 * e * e * scale * scale - 8 * e * scale * std::sqrt(best);
    } else {
        // integer means are truncated: they move each variance by at most n/(n-1)
        return mine >= best - 2.1;
    }
}

template <typename T>
static void features(Ctx& ctx) {
    Rng&        r = ctx.rng;
    std::size_t n = pick_n(r, 200), d = pick_d(r, 9);
    if (n < 2 && r.chance(0.8))
        n = 2;
    auto data = any_data<T>(r, n, d);
    maybe_rescale(r, data, 0.15, false);
    auto idx = pick_indices(r, n, 0.6);
    std::vector<std::size_t> mask;
    for (std::size_t f = 0; f < d; ++f)
        if (r.chance(0.5))
            mask.push_back(f);
    if (mask.empty())
        mask.push_back(static_cast<std::size_t>(r.range(0, static_cast<long long>(d) - 1)));
    r.shuffle(mask);
    std::vector<std::size_t> all(n), whole(d);
    std::iota(all.begin(), all.end(), 0);
    std::iota(whole.begin(), whole.end(), 0);
    const double sc = coord_scale(data.v);
    ctx.desc        = data.str() + " subset=" + show(idx, 30) + " mask=" + show(mask);
    const auto before = data.v;
    const auto ibefore = idx;
    const auto ra = reference(data, all, whole), ri = reference(data, idx, whole), rm = reference(data, idx, mask);
    judge_mean<T>(ctx, S::compute_mean_per_feature(data.v.begin(), data.v.end(), d), ra, n, sc, "mean");
    judge_mean<T>(ctx, S::compute_mean_per_feature(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d), ri, idx.size(), sc, "mean of a subset");
    judge_mean<T>(ctx, S::compute_mean_per_feature(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d, mask), rm, idx.size(), sc, "mean of masked features");
    if constexpr (std::is_floating_point_v<T>) {
        if (n >= 2)
            judge_var<T>(ctx, S::compute_variance_per_feature(data.v.begin(), data.v.end(), d), ra, n, sc, "variance");
        if (idx.size() >= 2) {
            judge_var<T>(ctx, S::compute_variance_per_feature(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d), ri, idx.size(), sc, "variance of a subset");
            judge_var<T>(ctx, S::compute_variance_per_feature(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d, mask), rm, idx.size(), sc,
                         "variance of masked features");
        }
        if (n >= 2) {
            // one feature on its own: sum of squares minus square of sums
            std::vector<T> col(n);
            for (std::size_t i = 0; i < n; ++i)
                col[i] = data.at(i, 0);
            const double got = static_cast<double>(S::compute_variance(col.begin(), col.end()));
            const double e   = static_cast<double>(std::numeric_limits<T>::epsilon()) * (16 + 4 * static_cast<double>(n)) * static_cast<double>(n);
            ctx.check(std::fabs(got - static_cast<double>(ra.var[0])) <= e * sc * sc, "variance", "of a sequence: ", got, ", is ", static_cast<double>(ra.var[0]));
        }
    }
    const auto am = S::argmax_variance_per_feature(data.v.begin(), data.v.end(), d);
    ctx.check(largest<T>(ra, whole, am, n, sc), "argmax-variance", "feature ", am, " hasn't the largest variance");
    const auto ai = S::argmax_variance_per_feature(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d);
    ctx.check(largest<T>(ri, whole, ai, idx.size(), sc), "argmax-variance", "of a subset: feature ", ai, " hasn't the largest variance");
    const auto ak = S::argmax_variance_per_feature(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d, mask);
    ctx.check(largest<T>(rm, mask, ak, idx.size(), sc), "argmax-variance", "of masked features: feature ", ak, " hasn't the largest variance");

    // axis selection as a tree build asks for it
    {
        using I = std::vector<std::size_t>::iterator;
        using D = typename std::vector<T>::iterator;
        namespace K = ffcl::datastruct::kdtree::policy;
        const auto box = ffcl::datastruct::make_tight_bound(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d);
        for (std::size_t f = 0; f < d; ++f) {
            T lo = data.at(idx[0], f), hi = lo;
            for (auto i : idx) {
                lo = std::min(lo, data.at(i, f));
                hi = std::max(hi, data.at(i, f));
            }
            ctx.check(box.segment_at(f).lower_bound() == lo && box.segment_at(f).upper_bound() == hi, "tight-box", "feature ", f);
            const auto sg = ffcl::datastruct::make_tight_segment(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d, f);
            ctx.check(sg.lower_bound() == lo && sg.upper_bound() == hi, "tight-segment", "feature ", f);
        }
        seed_engine(r.next());
        for (int masked = 0; masked < 2; ++masked) {
            const auto& m   = masked ? mask : whole;
            const auto& ref = masked ? rm : ri;
            K::HighestVarianceBuild<I, D> hv;
            K::MaximumSpreadBuild<I, D>   ms;
            K::CycleThroughAxesBuild<I, D> cy;
            const bool full = r.chance(0.6);
            hv.sampling_rate(full ? 1.0 : r.unit());
            if (masked) {
                const bool by_move = r.chance(0.3);
                by_move ? hv.feature_mask(std::vector<std::size_t>(mask)) : hv.feature_mask(mask);
                by_move ? ms.feature_mask(std::vector<std::size_t>(mask)) : ms.feature_mask(mask);
                by_move ? cy.feature_mask(std::vector<std::size_t>(mask)) : cy.feature_mask(mask);
            }
            const auto depth = static_cast<std::size_t>(r.range(0, 40));
            const auto a     = hv(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d, depth, box);
            ctx.check(std::find(m.begin(), m.end(), a) != m.end(), "axis-outside-mask", "highest variance: axis ", a, " isn't among ", show(m));
            if ((full || idx.size() == 2 || idx.size() == 3) && idx.size() >= 2)
                ctx.check(largest<T>(ref, m, a, idx.size(), sc), "axis-variance", "axis ", a, " hasn't the largest variance among ", show(m));
            const auto b = ms(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d, depth, box);
            ctx.check(std::find(m.begin(), m.end(), b) != m.end(), "axis-outside-mask", "maximum spread: axis ", b, " isn't among ", show(m));
            auto width = [&](std::size_t f) { return static_cast<T>(box.segment_at(f).upper_bound() - box.segment_at(f).lower_bound()); };
            for (auto f : m)
                ctx.check(!(width(b) < width(f)), "axis-spread", "axis ", b, " spreads over ", +width(b), ", axis ", f, " over ", +width(f));
            const auto c = cy(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d, depth, box);
            ctx.check(c == m[depth % m.size()], "axis-cycle", "depth ", depth, ": axis ", c);
            ctx.count("axes_judged", 3);
        }
    }
    // rearrangements
    {
        auto [t, tn, td] = L::transpose(data.v.begin(), data.v.end(), d);
        auto [p, pn, pd] = L::transpose_parallel_openmp(data.v.begin(), data.v.end(), d);
        ctx.check(tn == d && td == n && pn == d && pd == n && t.size() == n * d && p.size() == n * d, "transpose", "of ", n, "x", d, " is ", tn, "x", td);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t f = 0; f < d; ++f)
                ctx.check(t[f * n + i] == data.at(i, f) && p[f * n + i] == data.at(i, f), "transpose", "element ", i, ",", f);
        {
            // the same values taken as few samples of many features
            auto [u, un, ud] = L::transpose(data.v.begin(), data.v.end(), n);
            auto [w, wn, wd] = L::transpose_parallel_openmp(data.v.begin(), data.v.end(), n);
            ctx.check(un == n && ud == d && wn == n && wd == d && u.size() == n * d && w.size() == n * d, "transpose", "of ", d, "x", n, " is ", un, "x", ud);
            for (std::size_t i = 0; i < d; ++i)
                for (std::size_t f = 0; f < n; ++f)
                    ctx.check(u[f * d + i] == data.v[i * n + f] && w[f * d + i] == data.v[i * n + f], "transpose", "wide, element ", i, ",", f);
        }
        const auto a = static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1)), b = static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1));
        const auto o = L::translate_right_range_to_origin(data.v.begin() + a * d, data.v.begin() + (a + 1) * d, data.v.begin() + b * d, data.v.begin() + (b + 1) * d);
        for (std::size_t f = 0; f < d; ++f)
            ctx.check(o.size() == d && o[f] == static_cast<T>(data.at(b, f) - data.at(a, f)), "translation", "feature ", f);
        auto perm = all;
        r.shuffle(perm);
        const auto m = ffcl::common::remap_ranges_from_indices(perm, data.v, d);
        ctx.check(m.size() == n * d, "remap", "size");
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t f = 0; f < d; ++f)
                ctx.check(m[i * d + f] == data.at(perm[i], f), "remap", "row ", i, " isn't row ", perm[i]);
        const auto q = ffcl::common::permutation_from_indices(perm, all);
        ctx.check(q == perm, "permutation", "of 0..n-1 isn't the permutation");
        ctx.count("rearrangements");
    }
    ctx.check(std::memcmp(before.data(), data.v.data(), before.size() * sizeof(T)) == 0 && idx == ibefore, "data-modified", "the samples were modified");
    if (n >= 3 && d >= 2)
        ctx.nontrivial(Hasher().addv(data.v).addv(idx).addv(mask).h);
}

template <typename T>
static void extremes(Ctx& ctx) {
    Rng&           r = ctx.rng;
    std::size_t    n = static_cast<std::size_t>(r.range(1, r.chance(0.7) ? 12 : 400));
    std::vector<T> v(n);
    const int      how = static_cast<int>(r.range(0, 3));
    for (auto& x : v) {
        double y = how == 0 ? r.real(-100, 100) : how == 1 ? static_cast<double>(r.range(-2, 2)) : how == 2 ? r.real(-3, -1) * 10 : 7;
        if (std::is_unsigned_v<T>)
            y = std::fabs(y);
        x = static_cast<T>(y);
    }
    if (r.chance(0.2) && !std::is_floating_point_v<T>)
        v[static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1))] = r.chance(0.5) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
    ctx.desc = "sequence " + show(v, 400);
    auto       s = v;
    const auto c = v;
    std::sort(s.begin(), s.end());
    const auto mn = static_cast<std::size_t>(S::argmin(v.begin(), v.end()));
    ctx.check(mn < n && v[mn] == s[0], "argmin", "index ", mn, " isn't the least");
    const auto mx = static_cast<std::size_t>(S::argmax(v.begin(), v.end()));
    ctx.check(mx < n && v[mx] == s[n - 1], "argmax", "index ", mx, " isn't the greatest");
    const auto [ia, va] = S::get_min_index_value_pair(v.begin(), v.end());
    ctx.check(ia < n && v[ia] == va && va == s[0], "min-pair", "index ", ia, " value ", +va);
    const auto [ib, vb] = S::get_max_index_value_pair(v.begin(), v.end());
    ctx.check(ib < n && v[ib] == vb && vb == s[n - 1], "max-pair", "index ", ib, " value ", +vb);
    const auto [ic, vc] = S::get_second_max_index_value_pair(v.begin(), v.end());
    ctx.check(v == c, "second-max", "the sequence was modified");
    ctx.check(ic < n && vc == s[n > 1 ? n - 2 : 0] && v[ic] == vc, "second-max", "index ", ic, " value ", +vc, ", second greatest is ", +s[n > 1 ? n - 2 : 0]);
    const auto k        = static_cast<std::size_t>(r.range(1, static_cast<long long>(n)));
    const auto [id, vd] = S::find_nth_smallest_index_and_element(v.begin(), v.end(), k);
    ctx.check(id < n && vd == s[k - 1] && v[id] == vd, "nth-smallest", "rank ", k, ": index ", id, " value ", +vd);
    auto w = v, x = v;
    r.shuffle(x);
    S::min_container_inplace_left(w, x);
    for (std::size_t i = 0; i < n; ++i)
        ctx.check(w[i] == std::min(v[i], x[i]), "min-inplace", "element ", i);
    if constexpr (std::is_floating_point_v<T>) {
        const auto mm = S::normalize_min_max(v.begin(), v.end());
        ctx.check(mm.size() == n, "normalize-min-max", "size");
        for (std::size_t i = 0; i < n; ++i) {
            const double want = s[0] == s[n - 1] ? 1.0 / static_cast<double>(n)
                                                 : 1.0 - (static_cast<double>(v[i]) - static_cast<double>(s[0])) / (static_cast<double>(s[n - 1]) - static_cast<double>(s[0]));
            ctx.check(std::fabs(mm[i] - want) < 1e-4, "normalize-min-max", "element ", i, ": ", mm[i], " instead of ", want);
        }
    }
    {
        std::vector<T> p(n);
        double         sum = 0;
        for (auto& y : p) {
            y = static_cast<T>(r.real(1, 100));
            sum += static_cast<double>(y);
        }
        const auto q = S::normalize(p.begin(), p.end());
        ctx.check(q.size() == n, "normalize", "size");
        for (std::size_t i = 0; i < n; ++i)
            ctx.check(std::fabs(q[i] - static_cast<double>(p[i]) / sum) < 1e-9, "normalize", "element ", i, ": ", q[i], " instead of ", static_cast<double>(p[i]) / sum);
    }
    {
        namespace U = ffcl::common;
        const auto  y = v[static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1))];
        std::size_t equal = 0, equal_y = 0, occurs = 0;
        for (std::size_t i = 0; i < n; ++i) {
            equal += v[i] == x[i];
            equal_y += v[i] == x[i] && v[i] == y;
            occurs += i + 1 < n && v[i] == y;
        }
        ctx.check(U::count_matches(v.begin(), v.end(), x.begin()) == equal, "count-matches", U::count_matches(v.begin(), v.end(), x.begin()), " instead of ", equal);
        ctx.check(U::count_matches_for_value(v.begin(), v.end(), x.begin(), y) == equal_y, "count-matches-for-value",
                  U::count_matches_for_value(v.begin(), v.end(), x.begin(), y), " instead of ", equal_y);
        ctx.check(U::is_element_in(v.begin(), v.end() - 1, y) == (occurs > 0) && U::is_element_not_in(v.begin(), v.end() - 1, y) == (occurs == 0), "is-element-in",
                  "wrong about ", +y);
        const auto as_double = U::template to_type<double>(v.begin(), v.end());
        const auto as_itself = U::template to_type<T>(v.begin(), v.end());
        ctx.check(as_itself == v && as_double.size() == n && std::equal(v.begin(), v.end(), as_double.begin()), "to-type", "conversion changed the values");
        std::vector<std::pair<std::size_t, T>> pairs;
        for (std::size_t i = 0; i < n; ++i)
            pairs.emplace_back(2 * i, v[i]);
        const auto e = static_cast<std::size_t>(r.range(0, static_cast<long long>(2 * n) + 1));
        const bool there = e % 2 == 0 && e < 2 * n;
        ctx.check(U::is_element_in_first(pairs.begin(), pairs.end(), e) == there && U::is_element_not_in_first(pairs.begin(), pairs.end(), e) == !there, "is-element-in-first",
                  "wrong about ", e);
    }
    ctx.count("sequences_judged");
    if (n >= 3)
        ctx.nontrivial(Hasher().addv(v).add(k).h);
}

// more samples than a narrow type can count, sums that it can hold
template <typename T>
static void narrow_means(Ctx& ctx) {
    Rng&       r = ctx.rng;
    const auto n = static_cast<std::size_t>(r.chance(0.5) ? 256 * r.range(1, 4) : r.range(100, 1100));
    const auto d = static_cast<std::size_t>(r.range(1, 4));
    Data<T>    data;
    data.n = n;
    data.d = d;
    data.v.assign(n * d, 0);
    for (std::size_t f = 0; f < d; ++f) {
        const long long top = std::numeric_limits<T>::max();
        long long       sum = 0;
        for (std::size_t i = 0; i < n; ++i) {
            const long long x = std::is_signed_v<T> ? r.range(-2, 3) : r.chance(0.2) ? r.range(0, 3) : 0;
            if (sum + x > top || sum + x < (std::is_signed_v<T> ? -top : 0))
                continue;
            data.v[i * d + f] = static_cast<T>(x);
            sum += x;
        }
    }
    std::vector<std::size_t> all(n), whole(d);
    std::iota(all.begin(), all.end(), 0);
    std::iota(whole.begin(), whole.end(), 0);
    auto idx = all;
    r.shuffle(idx);
    ctx.desc      = "narrow " + data.str();
    const auto ra = reference(data, all, whole);
    judge_mean<T>(ctx, S::compute_mean_per_feature(data.v.begin(), data.v.end(), d), ra, n, 1, "mean");
    judge_mean<T>(ctx, S::compute_mean_per_feature(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d), ra, n, 1, "mean of a subset");
    judge_mean<T>(ctx, S::compute_mean_per_feature(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d, whole), ra, n, 1, "mean of masked features");
    ctx.nontrivial(Hasher().addv(data.v).h);
}

void vf::run_case(Ctx& ctx) {
    switch (ctx.index % 10) {
        case 0:
            extremes<double>(ctx);
            break;
        case 1:
            extremes<float>(ctx);
            break;
        case 2:
            extremes<int>(ctx);
            break;
        case 3:
            extremes<signed char>(ctx);
            break;
        case 4:
            extremes<unsigned char>(ctx);
            break;
        case 5:
            if (ctx.rng.chance(0.2))
                ctx.rng.chance(0.5) ? narrow_means<signed char>(ctx) : narrow_means<unsigned char>(ctx);
            else
                features<int>(ctx);
            break;
        case 6:
            features<float>(ctx);
            break;
        case 7:
            features<long>(ctx);
            break;
        default:
            features<double>(ctx);
    }
    ctx.sample(ctx.desc);
}
