// reference computations for medoid based clustering
#pragma once
#include "trees.hpp"

#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"

namespace vf {

template <typename T>
struct Medoids {
    Data<T>*            data = nullptr;
    std::size_t         n = 0, k = 0;
    std::vector<double> D;  // n x n true distances
    double              dist(std::size_t i, std::size_t j) const { return D[i * n + j]; }
    void                load(Data<T>& d) {
        data = &d;
        n    = d.n;
        D.assign(n * n, 0);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < i; ++j)
                D[i * n + j] = D[j * n + i] = ref_distance(&d.v[i * d.d], &d.v[j * d.d], d.d);
    }
    // how much a distance may be off
    double err() const {
        if constexpr (std::is_floating_point_v<T>) {
            const double eps = std::numeric_limits<T>::epsilon();
            double       m   = 0;
            for (auto x : D)
                m = std::max(m, x);
            return eps * 4 * (static_cast<double>(data->d) + 4) * m;
        } else
            return 0;
    }
    void two(const std::vector<std::size_t>& m, std::size_t o, double& a, double& b) const {
        a = b = std::numeric_limits<double>::infinity();
        for (auto x : m) {
            const double y = dist(x, o);
            if (y < a) {
                b = a;
                a = y;
            } else if (y < b)
                b = y;
        }
    }
    static double ratio(double a, double b) { return b == 0 ? 0 : a / b; }
    // sum of the distances to the nearest medoid
    double deviation(const std::vector<std::size_t>& m) const {
        double s = 0, a, b;
        for (std::size_t o = 0; o < n; ++o) {
            two(m, o, a, b);
            s += a;
        }
        return s;
    }
    // sum of the ratios of the distances to the nearest and second nearest medoids
    double silhouette_loss(const std::vector<std::size_t>& m) const {
        double s = 0, a, b;
        for (std::size_t o = 0; o < n; ++o) {
            two(m, o, a, b);
            s += ratio(a, b);
        }
        return s;
    }
};

template <typename T>
Data<T> medoid_data(Rng& r, std::size_t n, std::size_t d) {
    auto data = r.chance(0.4) ? make_data<T>(r, n, d, r.chance(0.5) ? F_CLUSTERS : F_GRID) : any_data<T>(r, n, d);
    if constexpr (std::is_floating_point_v<T>) {
        if (r.chance(0.2)) {
            static const int small[] = {-20, -10, 10, 16}, large[] = {-40, -30, 10, 30};
            const double     s       = std::ldexp(1.0, std::is_same_v<T, float> ? small[r.range(0, 3)] : large[r.range(0, 3)]);
            for (auto& x : data.v)
                x = static_cast<T>(static_cast<double>(x) * s);
            data.exact = false;
            data.family += 100;
        }
    }
    return data;
}

inline std::vector<std::size_t> pick_medoids(Rng& r, std::size_t n, std::size_t k) {
    std::vector<std::size_t> m(n);
    std::iota(m.begin(), m.end(), 0);
    if (r.chance(0.85))
        r.shuffle(m);
    m.resize(k);
    return m;
}

inline void judge_set(Ctx& ctx, const std::vector<std::size_t>& m, std::size_t n, std::size_t k, const std::string& who) {
    ctx.check(m.size() == k, "medoid-count", who, ": ", m.size(), " medoids instead of ", k);
    std::set<std::size_t> s(m.begin(), m.end());
    ctx.check(s.size() == k, "medoid-twice", who, ": a sample is a medoid twice ", show(m));
    ctx.check(*s.rbegin() < n, "medoid-range", who, ": ", show(m), " of ", n, " samples");
}

// follows a run: cost() is what the algorithm minimises
template <typename T, typename Algo, typename Cost>
std::vector<std::size_t> follow_medoids(Ctx& ctx, Algo& algo, const Medoids<T>& ref, std::vector<std::size_t> m, Cost&& cost, double tol, std::size_t steps,
                                        const std::string& who) {
    const std::size_t k = m.size();
    double            now = cost(m);
    for (std::size_t s = 0; s < steps; ++s) {
        const double said = static_cast<double>(algo.total_deviation());
        ctx.check(std::fabs(said - now) <= tol, "deviation", who, " step ", s, ": reports ", said, ", is ", now, " medoids ", show(m));
        const std::vector<std::size_t> next = algo.step();
        judge_set(ctx, next, ref.n, k, who);
        const double then = cost(next);
        ctx.check(then <= now + 2 * tol, "cost-grows", who, " step ", s, ": from ", now, " to ", then, " medoids ", show(m), " then ", show(next));
        ctx.count("steps_judged");
        const bool still = next == m;
        m                = next;
        now              = then;
        if (still) {
            // nothing moved: exchanging any medoid for any other sample brings nothing.
            // Exchanges that change the cost by less than rounding does may be taken back and forth
            // within one step, so a fixed point is only judged when it has none (or without rounding).
            auto        t    = m;
            double      best = std::numeric_limits<double>::infinity();
            std::size_t out = 0, in = 0, judged = 0;
            bool        tie = false;
            for (std::size_t i = 0; i < k; ++i) {
                for (std::size_t c = 0; c < ref.n; ++c) {
                    if (std::find(m.begin(), m.end(), c) != m.end())
                        continue;
                    t[i]           = c;
                    const double w = cost(t);
                    tie            = tie || std::fabs(w - now) <= 4 * tol;
                    ++judged;
                    if (w < best) {
                        best = w;
                        out  = m[i];
                        in   = c;
                    }
                }
                t[i] = m[i];
            }
            if (!tie || tol == 0) {
                ctx.check(best >= now - 4 * tol, "not-optimal", who, " stopped at ", now, " with medoids ", show(m), " though exchanging ", out, " for ", in, " gives ", best);
                ctx.count("swaps_judged", judged);
            } else
                ctx.count("fixed_points_with_ties");
            ctx.count("converged");
            const double last = static_cast<double>(algo.total_deviation());
            ctx.check(std::fabs(last - now) <= tol, "deviation", who, " at the end: reports ", last, ", is ", now);
            return m;
        }
    }
    const double last = static_cast<double>(algo.total_deviation());
    ctx.check(std::fabs(last - now) <= tol, "deviation", who, " at the end: reports ", last, ", is ", now);
    return m;
}

}  // namespace vf
