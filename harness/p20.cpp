// P20: segments, boxes and balls: what they contain, their centres, sizes and the distances between them.
#include "trees.hpp"

#include "ffcl/datastruct/Interval.hpp"
#include "ffcl/datastruct/bounds/distances/MinDistance.hpp"

using namespace vf;
namespace B = ffcl::datastruct::bounds;
namespace G = ffcl::datastruct::bounds::segment;

static thread_local std::int64_t g_base = 0;  // integers are also taken near the ends of their type

template <typename T>
static void pick_base(Rng& r) {
    g_base = 0;
    if constexpr (std::is_integral_v<T> && sizeof(T) == 4) {
        if (r.chance(0.4))
            g_base = std::is_unsigned_v<T> || r.chance(0.5) ? static_cast<std::int64_t>(std::numeric_limits<T>::max()) - 1000001 - (std::is_unsigned_v<T> ? 0 : 1)
                                                            : static_cast<std::int64_t>(std::numeric_limits<T>::min()) + 1000002;
    }
}

template <typename T>
static T number(Rng& r, double unit) {
    if constexpr (std::is_integral_v<T> && sizeof(T) == 4) {
        if (g_base)
            return static_cast<T>(g_base + (r.chance(0.5) ? r.range(-9, 9) : r.range(-1000000, 1000000)));
    }
    if constexpr (std::is_floating_point_v<T>)
        return static_cast<T>(unit * (r.chance(0.5) ? static_cast<double>(r.range(-8, 8)) : r.real(-10, 10)));
    else if constexpr (std::is_signed_v<T>)
        return static_cast<T>(r.chance(0.7) ? r.range(-9, 9) : r.range(-1000000, 1000000));
    else
        return static_cast<T>(r.chance(0.7) ? r.range(0, 9) : r.range(0, 1000000));
}

template <typename T>
static double eps_of() {
    return std::is_floating_point_v<T> ? static_cast<double>(std::numeric_limits<T>::epsilon()) : 0;
}

// ------------------------------------------------------------------ segments
template <typename T>
static void segments(Ctx& ctx) {
    Rng&         r    = ctx.rng;
    const double unit = std::is_floating_point_v<T> ? std::ldexp(1.0, static_cast<int>(r.range(-12, 12)) * static_cast<int>(r.range(0, 1))) : 1;
    pick_base<T>(r);
    T            lo = number<T>(r, unit), hi = number<T>(r, unit);
    if (hi < lo)
        std::swap(lo, hi);
    const T one = std::is_floating_point_v<T> ? 0 : 1;  // lengths of integer segments count values
    ctx.desc    = "segment [" + std::to_string(lo) + "," + std::to_string(hi) + "]";
    G::LowerBoundAndUpperBound<T> a(lo, hi);
    G::LowerBoundAndLength<T>     b(lo, static_cast<T>(hi - lo + one));
    const double                  tol = eps_of<T>() * 128 * unit;
    {
        const std::pair<T, T>               given(lo, hi), given_length(lo, static_cast<T>(hi - lo + one));
        const G::LowerBoundAndUpperBound<T> p(given);
        const G::LowerBoundAndLength<T>     q(given_length);
        ctx.check(p.lower_bound() == lo && p.upper_bound() == hi && q.lower_bound() == lo && q.upper_bound() == b.upper_bound(), "segment-ends", "given as pairs");
    }
    auto                          judge = [&](const char* when) {
        ctx.check(a.lower_bound() == lo && a.upper_bound() == hi, "segment-ends", when, ": [", +a.lower_bound(), ",", +a.upper_bound(), "]");
        ctx.check(b.lower_bound() == lo, "segment-ends", when, ": length form starts at ", +b.lower_bound());
        if constexpr (std::is_floating_point_v<T>)
            ctx.check(std::fabs(static_cast<double>(b.upper_bound()) - static_cast<double>(hi)) <= tol, "segment-ends", when, ": length form ends at ", b.upper_bound());
        for (int q = 0; q < 6; ++q) {
            const T    x  = q == 0 ? lo : q == 1 ? hi : q == 2 ? static_cast<T>(lo + (hi - lo) / 2) : number<T>(r, unit);
            const bool in = !(x < lo) && !(hi < x);
            ctx.check(a.contains_value(x) == in, "segment-contains", when, ": ", +x, in ? " is" : " isn't", " in the segment");
            if (std::fabs(static_cast<double>(x) - static_cast<double>(hi)) > tol || tol == 0)
                ctx.check(b.contains_value(x) == in, "segment-contains", when, " (length form): ", +x, in ? " is" : " isn't", " in the segment");
            ctx.count("memberships");
        }
        const double mid  = (static_cast<double>(lo) + static_cast<double>(hi)) / 2;
        const double want = std::is_floating_point_v<T> ? mid : std::floor(mid);
        ctx.check(std::fabs(static_cast<double>(a.centroid()) - want) <= tol, "segment-centre", when, ": ", +a.centroid(), " instead of ", want);
        ctx.check(std::fabs(static_cast<double>(b.centroid()) - want) <= tol, "segment-centre", when, " (length form): ", +b.centroid(), " instead of ", want);
        if constexpr (std::is_floating_point_v<T>) {
            const double half = (static_cast<double>(hi) - static_cast<double>(lo)) / 2;
            ctx.check(std::fabs(a.centroid_to_bound_distance() - half) <= tol, "segment-half", when, ": ", a.centroid_to_bound_distance(), " instead of ", half);
            ctx.check(std::fabs(b.centroid_to_bound_distance() - half) <= tol, "segment-half", when, " (length form): ", b.centroid_to_bound_distance(), " instead of ", half);
        } else {
            // everything in an integer segment is strictly closer to the centre than this
            ctx.check(static_cast<double>(a.centroid_to_bound_distance()) == static_cast<double>(hi) - want + 1 && b.centroid_to_bound_distance() == a.centroid_to_bound_distance(),
                      "segment-half", when, ": ", +a.centroid_to_bound_distance(), " instead of ", static_cast<double>(hi) - want + 1);
        }
        ctx.count("segments_judged");
    };
    judge("built");
    const G::LowerBoundAndUpperBound<T> a0 = a;
    for (int s = 0; s < 3; ++s) {
        const T x = number<T>(r, unit);
        if (r.chance(0.5) ? x <= hi : false) {
            lo = x;
            a.update_lower_bound(lo);
            b.update_lower_bound(lo);
        } else if (!(x < lo)) {
            hi = x;
            a.update_upper_bound(hi);
            if constexpr (std::is_floating_point_v<T>)
                b.update_upper_bound(hi);
            else
                b = G::LowerBoundAndLength<T>(std::make_pair(lo, static_cast<T>(hi - lo + 1)));
        }
        judge("moved");
    }
    // distances between segments
    const double g = std::max({0.0, static_cast<double>(a0.lower_bound()) - static_cast<double>(hi), static_cast<double>(lo) - static_cast<double>(a0.upper_bound())});
    const double t = eps_of<T>() * 8 * unit * 10;
    ctx.check(std::fabs(static_cast<double>(B::min_distance(a0, a)) - g) <= t && std::fabs(static_cast<double>(B::min_distance(a, a0)) - g) <= t, "segment-distance", "is ",
              +B::min_distance(a0, a), " instead of ", g);
    if constexpr (std::is_floating_point_v<T>) {
        ctx.check(std::fabs(static_cast<double>(B::min_distance(a0, b)) - g) <= t, "segment-distance", "between forms is ", B::min_distance(a0, b), " instead of ", g);
    }
    ctx.nontrivial(Hasher().add(lo).add(hi).h);
}

// ------------------------------------------------------------------ boxes and balls
template <typename V, std::size_t N, typename X>
static ffcl::datastruct::FeaturesVector<X, N> features(const std::vector<X>& v) {
    if constexpr (N == 0)
        return ffcl::datastruct::FeaturesVector<X, 0>(v);
    else {
        if constexpr (N == 3)
            return ffcl::datastruct::FeaturesVector<X, 3>(std::array<X, 3>{{v[0], v[1], v[2]}});
        else
            return ffcl::datastruct::FeaturesVector<X, 1>(std::array<X, 1>{{v[0]}});
    }
}

template <typename T, std::size_t N>
static void shapes(Ctx& ctx) {
    Rng&              r    = ctx.rng;
    const std::size_t d    = N ? N : static_cast<std::size_t>(r.range(1, 7));
    const double      unit = std::ldexp(1.0, static_cast<int>(r.range(-12, 12)) * static_cast<int>(r.range(0, 1)));
    const bool        even = r.chance(0.5);  // coordinates on a grid
    auto              num  = [&] { return static_cast<T>(unit * (even ? static_cast<double>(r.range(-6, 6)) : r.real(-8, 8))); };
    using Seg              = G::LowerBoundAndUpperBound<T>;
    using Len              = G::LowerBoundAndLength<T>;
    std::vector<T> lo[2], hi[2], c[2];
    double         rad[2];
    std::vector<Seg> seg[2];
    std::vector<Len> len[2];
    for (int k = 0; k < 2; ++k) {
        for (std::size_t f = 0; f < d; ++f) {
            T a = num(), b = num();
            if (b < a)
                std::swap(a, b);
            if (r.chance(0.1))
                b = a;
            lo[k].push_back(a);
            hi[k].push_back(b);
            c[k].push_back(num());
            seg[k].emplace_back(a, b);
            len[k].emplace_back(a, static_cast<T>(b - a));
        }
        rad[k] = static_cast<double>(static_cast<T>(unit * (even ? static_cast<double>(r.range(0, 9)) : r.real(0, 9))));
    }
    ctx.desc = "d=" + std::to_string(d) + " lo=" + show(lo[0]) + show(lo[1]) + " hi=" + show(hi[0]) + show(hi[1]) + " c=" + show(c[0]) + show(c[1]) + " r=" +
               std::to_string(rad[0]) + "," + std::to_string(rad[1]) + " fixed=" + std::to_string(N);
    const double tol = eps_of<T>() * unit * (64 + 16 * static_cast<double>(d));

    const B::AABB<Seg, N>             box[2]  = {features<T, N>(seg[0]), features<T, N>(seg[1])};
    const B::AABBWithCentroid<Seg, N> boxc[2] = {features<T, N>(seg[0]), features<T, N>(seg[1])};
    const B::AABBWithCentroid<Len, N> boxl[2] = {features<T, N>(len[0]), features<T, N>(len[1])};
    const B::Ball<T, N>               ball[2] = {{features<T, N>(c[0]), static_cast<T>(rad[0])}, {features<T, N>(c[1]), static_cast<T>(rad[1])}};
    const B::UnboundedBall<T, N>      all[2]  = {features<T, N>(c[0]), features<T, N>(c[1])};
    using It                                  = typename std::vector<T>::iterator;
    const B::BallView<It>          view[2]    = {{c[0].begin(), c[0].end(), static_cast<T>(rad[0])}, {c[1].begin(), c[1].end(), static_cast<T>(rad[1])}};
    const B::UnboundedBallView<It> allv[2]    = {{c[0].begin(), c[0].end()}, {c[1].begin(), c[1].end()}};

    // the other ways to make and to look at the same shapes
    for (int k = 0; k < 2; ++k) {
        const auto                  fs = features<T, N>(seg[k]);
        const auto                  fc = features<T, N>(c[k]);
        auto                        m0 = features<T, N>(seg[k]);
        auto                        m1 = features<T, N>(c[k]);
        const B::AABB<Seg, N>       s1(fs);
        B::AABB<Seg, N>             s2(fs);
        B::AABBWithCentroid<Seg, N> w1(fs);
        // a box with a centre of its own
        const B::AABBWithCentroid<Seg, N> w2(fc, fs), w3(std::move(m1), std::move(m0));
        const B::Ball<T, N>               b1(fc, static_cast<T>(rad[k]));
        const B::UnboundedBall<T, N>      u1(fc);
        const auto                        w4 = w1;
        auto same = [&](const auto& s, std::size_t f) { return s.lower_bound() == lo[k][f] && s.upper_bound() == hi[k][f]; };
        ctx.check(std::distance(w1.segments_begin(), w1.segments_end()) == static_cast<std::ptrdiff_t>(d) && s1.n_features() == d && w1.n_features() == d && w2.n_features() == d &&
                      b1.n_features() == d && u1.n_features() == d,
                  "n-features", "of a copy");
        for (std::size_t f = 0; f < d; ++f) {
            const double mid = (static_cast<double>(hi[k][f]) + static_cast<double>(lo[k][f])) / 2;
            ctx.check(same(s1.segment_at(f), f) && same(s2.segment_at(f), f) && same(w1.segment_at(f), f) && same(w4.segment_at(f), f) && same(w2.segment_at(f), f) &&
                          same(w3.segment_at(f), f) && same(w1.segments_begin()[static_cast<std::ptrdiff_t>(f)], f),
                      "box-sides", "feature ", f);
            ctx.check(std::fabs(s2.centroid_at(f) - mid) <= tol && std::fabs(w1.centroid_at(f) - mid) <= tol && std::fabs(w4.centroid_at(f) - mid) <= tol &&
                          std::fabs(w1.centroid()[f] - mid) <= tol,
                      "box-centre", "feature ", f, " of a copy");
            ctx.check(w2.centroid_at(f) == c[k][f] && w3.centroid_at(f) == c[k][f] && w3.centroid()[f] == c[k][f] && b1.centroid()[f] == c[k][f] && u1.centroid()[f] == c[k][f],
                      "given-centre", "feature ", f);
            ctx.check(view[k].centroid_to_bound_distance(f) == static_cast<T>(rad[k]) && b1.centroid_to_bound_distance(f) == static_cast<T>(rad[k]), "ball-radius", "feature ", f);
        }
        ctx.check(view[k].centroid_to_furthest_bound_distance() == static_cast<T>(rad[k]) && b1.diameter() == ball[k].diameter(), "ball-radius", "of a view");
        ctx.check(all[k].diameter() == std::numeric_limits<T>::infinity() && u1.diameter() == std::numeric_limits<T>::infinity(), "unbounded-diameter", all[k].diameter());
        // sides that are moved
        const auto f = static_cast<std::size_t>(r.range(0, static_cast<long long>(d) - 1));
        s2.segment_at(f).update_upper_bound(static_cast<T>(hi[k][f] + 1));
        w1.segment_at(f).update_lower_bound(static_cast<T>(lo[k][f] - 1));
        for (std::size_t g = 0; g < d; ++g) {
            ctx.check(s2.segment_at(g).upper_bound() == (g == f ? static_cast<T>(hi[k][g] + 1) : hi[k][g]) && s2.segment_at(g).lower_bound() == lo[k][g], "moved-side", "feature ", g);
            ctx.check(w1.segment_at(g).lower_bound() == (g == f ? static_cast<T>(lo[k][g] - 1) : lo[k][g]) && w1.segment_at(g).upper_bound() == hi[k][g], "moved-side", "feature ", g);
            ctx.check(same(w4.segment_at(g), g), "moved-side", "a copy moved along, feature ", g);
        }
    }
    for (int k = 0; k < 2; ++k) {
        ctx.check(box[k].n_features() == d && boxc[k].n_features() == d && ball[k].n_features() == d && view[k].n_features() == d && all[k].n_features() == d && allv[k].n_features() == d, "n-features",
                  "a bound has another number of features");
        double diag = 0, far = 0;
        for (std::size_t f = 0; f < d; ++f) {
            const double e    = static_cast<double>(hi[k][f]) - static_cast<double>(lo[k][f]);
            const double mid  = (static_cast<double>(hi[k][f]) + static_cast<double>(lo[k][f])) / 2;
            diag += e * e;
            far = std::max(far, e / 2);
            ctx.check(std::fabs(boxc[k].centroid_at(f) - mid) <= tol && std::fabs(*(boxl[k].centroid_begin() + static_cast<std::ptrdiff_t>(f)) - mid) <= tol, "box-centre", "feature ", f, ": ",
                      boxc[k].centroid_at(f), " instead of ", mid);
            ctx.check(std::fabs(boxc[k].centroid_to_bound_distance(f) - e / 2) <= tol && std::fabs(boxl[k].centroid_to_bound_distance(f) - e / 2) <= tol, "box-half", "feature ", f);
            ctx.check(ball[k].centroid_begin()[static_cast<std::ptrdiff_t>(f)] == c[k][f] && ball[k].centroid_to_bound_distance(f) == static_cast<T>(rad[k]), "ball-centre", "feature ", f);
        }
        ctx.check(std::distance(boxc[k].centroid_begin(), boxc[k].centroid_end()) == static_cast<std::ptrdiff_t>(d), "box-centre", "size");
        auto centred = [&](const auto& bound) {
            const auto ctr = bound.centroid();
            return std::equal(bound.centroid_begin(), bound.centroid_end(), c[k].begin(), c[k].end()) && std::equal(ctr.begin(), ctr.end(), c[k].begin(), c[k].end());
        };
        ctx.check(centred(ball[k]) && centred(view[k]) && centred(all[k]) && centred(allv[k]), "ball-centre", "is not the given one");
        for (std::size_t f = 0; f < d; ++f)
            ctx.check(all[k].centroid_to_bound_distance(f) == std::numeric_limits<T>::infinity() && allv[k].centroid_to_bound_distance(f) == std::numeric_limits<T>::infinity(),
                      "unbounded-far", "feature ", f);
        ctx.check(all[k].centroid_to_furthest_bound_distance() == std::numeric_limits<T>::infinity() &&
                      allv[k].centroid_to_furthest_bound_distance() == std::numeric_limits<T>::infinity(),
                  "unbounded-far", all[k].centroid_to_furthest_bound_distance());
        diag = std::sqrt(diag);
        ctx.check(std::fabs(box[k].diameter() - diag) <= tol && std::fabs(boxc[k].diameter() - diag) <= tol, "box-diameter", box[k].diameter(), " instead of ", diag);
        ctx.check(std::fabs(boxc[k].centroid_to_furthest_bound_distance() - far) <= tol && std::fabs(boxl[k].centroid_to_furthest_bound_distance() - far) <= tol, "box-far",
                  boxc[k].centroid_to_furthest_bound_distance(), " instead of ", far);
        ctx.check(std::fabs(ball[k].diameter() - 2 * rad[k]) <= tol && std::fabs(view[k].diameter() - 2 * rad[k]) <= tol, "ball-diameter", ball[k].diameter());
        ctx.check(ball[k].centroid_to_furthest_bound_distance() == static_cast<T>(rad[k]), "ball-far", ball[k].centroid_to_furthest_bound_distance());

        for (int q = 0; q < 8; ++q) {
            std::vector<T> p(d);
            for (std::size_t f = 0; f < d; ++f)
                p[f] = q < 2 ? (r.chance(0.5) ? lo[k][f] : hi[k][f]) : q == 2 ? c[k][f] : q < 6 ? static_cast<T>(lo[k][f] + (hi[k][f] - lo[k][f]) * static_cast<T>(r.unit())) : num();
            bool   in = true, edge = false;
            double db = 0, dc = 0;
            for (std::size_t f = 0; f < d; ++f) {
                in   = in && !(p[f] < lo[k][f]) && !(hi[k][f] < p[f]);
                edge = edge || std::fabs(static_cast<double>(p[f]) - static_cast<double>(hi[k][f])) <= tol;
                const double mid = (static_cast<double>(hi[k][f]) + static_cast<double>(lo[k][f])) / 2;
                dc += (static_cast<double>(p[f]) - mid) * (static_cast<double>(p[f]) - mid);
                db += (static_cast<double>(p[f]) - static_cast<double>(c[k][f])) * (static_cast<double>(p[f]) - static_cast<double>(c[k][f]));
            }
            dc = std::sqrt(dc);
            db = std::sqrt(db);
            const auto pb = p.begin(), pe = p.end();
            ctx.check(box[k].is_in_bounds(pb, pe) == in && boxc[k].is_in_bounds(pb, pe) == in, "box-contains", show(p), in ? " is" : " isn't", " in the box");
            if (!edge)
                ctx.check(boxl[k].is_in_bounds(pb, pe) == in, "box-contains", show(p), in ? " is" : " isn't", " in the box given by lengths");
            ctx.check(std::fabs(boxc[k].distance_to_centroid(pb, pe) - dc) <= tol, "box-centre-distance", boxc[k].distance_to_centroid(pb, pe), " instead of ", dc);
            const auto ob = boxc[k].compute_distance_to_centroid_if_within_bounds(pb, pe);
            ctx.check(ob.has_value() == in && (!in || std::fabs(*ob - dc) <= tol), "box-inside-distance", "of ", show(p));
            ctx.check(std::fabs(ball[k].distance_to_centroid(pb, pe) - db) <= tol && std::fabs(view[k].distance_to_centroid(pb, pe) - db) <= tol, "ball-centre-distance",
                      ball[k].distance_to_centroid(pb, pe), " instead of ", db);
            if (std::fabs(db - rad[k]) > tol || (even && d == 1 && db == rad[k])) {
                const bool inb = db < rad[k];
                ctx.check(ball[k].is_in_bounds(pb, pe) == inb && view[k].is_in_bounds(pb, pe) == inb, "ball-contains", show(p), " at ", db, inb ? " is" : " isn't", " in the ball");
                const auto o1 = ball[k].compute_distance_to_centroid_if_within_bounds(pb, pe);
                const auto o2 = view[k].compute_distance_to_centroid_if_within_bounds(pb, pe);
                ctx.check(o1.has_value() == inb && o2.has_value() == inb && (!inb || (std::fabs(*o1 - db) <= tol && std::fabs(*o2 - db) <= tol)), "ball-inside-distance", "of ", show(p));
            }
            const auto o3 = all[k].compute_distance_to_centroid_if_within_bounds(pb, pe);
            const auto o4 = allv[k].compute_distance_to_centroid_if_within_bounds(pb, pe);
            ctx.check(all[k].is_in_bounds(pb, pe) && allv[k].is_in_bounds(pb, pe) && o3.has_value() && o4.has_value() && std::fabs(*o3 - db) <= tol && std::fabs(*o4 - db) <= tol,
                      "unbounded", "of ", show(p));
            ctx.check(std::fabs(all[k].distance_to_centroid(pb, pe) - db) <= tol && std::fabs(allv[k].distance_to_centroid(pb, pe) - db) <= tol, "unbounded-centre-distance",
                      all[k].distance_to_centroid(pb, pe), " and ", allv[k].distance_to_centroid(pb, pe), " instead of ", db);
            ctx.count("memberships");
        }
    }
    // distances between them
    double gap = 0, cc = 0;
    for (std::size_t f = 0; f < d; ++f) {
        const double g = std::max({0.0, static_cast<double>(lo[1][f]) - static_cast<double>(hi[0][f]), static_cast<double>(lo[0][f]) - static_cast<double>(hi[1][f])});
        gap += g * g;
        cc += (static_cast<double>(c[0][f]) - static_cast<double>(c[1][f])) * (static_cast<double>(c[0][f]) - static_cast<double>(c[1][f]));
    }
    gap              = std::sqrt(gap);
    const double bgap = std::max(0.0, std::sqrt(cc) - rad[0] - rad[1]);
    ctx.check(std::fabs(B::min_distance(box[0], box[1]) - gap) <= tol && std::fabs(B::min_distance(boxc[1], boxc[0]) - gap) <= tol, "box-distance",
              B::min_distance(box[0], box[1]), " and ", B::min_distance(boxc[1], boxc[0]), " instead of ", gap);
    ctx.check(std::fabs(B::min_distance(boxl[0], boxc[1]) - gap) <= tol, "box-distance", "between forms is ", B::min_distance(boxl[0], boxc[1]), " instead of ", gap);
    ctx.check(std::fabs(B::min_distance(ball[0], ball[1]) - bgap) <= tol && std::fabs(B::min_distance(view[1], view[0]) - bgap) <= tol, "ball-distance",
              B::min_distance(ball[0], ball[1]), " and ", B::min_distance(view[1], view[0]), " instead of ", bgap);
    ctx.check(B::min_distance(all[0], all[1]) == 0, "unbounded-distance", "isn't zero");
    ctx.count(gap > 0 ? "disjoint_boxes" : "touching_boxes");
    ctx.count("shapes_judged");
    ctx.nontrivial(Hasher().addv(lo[0]).addv(hi[0]).addv(c[0]).h);
    ctx.sample(ctx.desc);
}

// ------------------------------------------------------------------ the box of samples
template <typename T>
static void tight(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = pick_n(r, 60), d = pick_d(r, 6);
    auto              data = any_data<T>(r, n, d);
    maybe_rescale(r, data);
    const auto idx = pick_indices(r, n, 0.6);
    ctx.desc       = data.str() + " subset=" + show(idx);
    using Seg      = G::LowerBoundAndUpperBound<T>;
    using It       = decltype(data.v.begin());
    const auto a   = ffcl::datastruct::make_tight_bound(data.v.begin(), data.v.end(), d);
    const auto b   = ffcl::datastruct::make_tight_bound(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d);
    const auto e   = ffcl::datastruct::make_tight_bound<It, B::AABB<Seg>>(data.v.begin(), data.v.end(), d);
    ctx.check(a.n_features() == d && b.n_features() == d && e.n_features() == d, "tight-box", "of ", a.n_features(), " features");
    for (std::size_t f = 0; f < d; ++f) {
        T lo = data.at(0, f), hi = lo, slo = data.at(idx[0], f), shi = slo;
        for (std::size_t i = 0; i < n; ++i) {
            lo = std::min(lo, data.at(i, f));
            hi = std::max(hi, data.at(i, f));
        }
        for (auto i : idx) {
            slo = std::min(slo, data.at(i, f));
            shi = std::max(shi, data.at(i, f));
        }
        const auto sa = ffcl::datastruct::make_tight_segment(data.v.begin(), data.v.end(), d, f);
        const auto sb = ffcl::datastruct::make_tight_segment(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d, f);
        auto       is = [](const auto& s, T l, T h) { return s.lower_bound() == l && s.upper_bound() == h; };
        ctx.check(is(a.segment_at(f), lo, hi) && is(e.segment_at(f), lo, hi), "tight-box", "feature ", f, ": [", +a.segment_at(f).lower_bound(), ",", +a.segment_at(f).upper_bound(),
                  "] instead of [", +lo, ",", +hi, "]");
        ctx.check(is(b.segment_at(f), slo, shi), "tight-box", "of the subset, feature ", f, ": [", +b.segment_at(f).lower_bound(), ",", +b.segment_at(f).upper_bound(), "] instead of [",
                  +slo, ",", +shi, "]");
        ctx.check(is(sa, lo, hi) && is(sb, slo, shi), "tight-segment", "feature ", f);
        if (d == 1)
            ctx.check(is(ffcl::datastruct::make_tight_segment(data.v.begin(), data.v.end()), lo, hi) &&
                          is(ffcl::datastruct::make_tight_segment(idx.begin(), idx.end(), data.v.begin(), data.v.end()), slo, shi),
                      "tight-segment", "of single values");
    }
    for (std::size_t i = 0; i < n; ++i)
        ctx.check(a.is_in_bounds(data.v.begin() + static_cast<std::ptrdiff_t>(i * d), data.v.begin() + static_cast<std::ptrdiff_t>((i + 1) * d)), "tight-box", "sample ", i, " isn't in the box");
    ctx.count("tight_boxes");
    if (n > 1)
        ctx.nontrivial(Hasher().addv(data.v).addv(idx).h);
}

void vf::run_case(Ctx& ctx) {
    if (ctx.index % 10 == 9) {
        switch (ctx.rng.range(0, 4)) {
            case 0:
                return tight<float>(ctx);
            case 1:
                return tight<int>(ctx);
            case 2:
                return tight<unsigned>(ctx);
            case 3:
                return tight<std::int8_t>(ctx);
            default:
                return tight<double>(ctx);
        }
    }
    switch (ctx.index % 8) {
        case 0:
            return segments<float>(ctx);
        case 1:
            return segments<double>(ctx);
        case 2:
            return segments<int>(ctx);
        case 3:
            return ctx.rng.chance(0.7) ? segments<long>(ctx) : segments<unsigned>(ctx);
        case 4:
            return shapes<float, 0>(ctx);
        case 5:
            return shapes<double, 3>(ctx);
        default:
            return shapes<double, 0>(ctx);
    }
}
