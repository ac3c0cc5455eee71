// P16: silhouette, cohesion and separation of a labelling.
#include "trees.hpp"

#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"

using namespace vf;
namespace H = ffcl::common::math::heuristics;

template <typename T, typename Lab>
static void one(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = std::max<std::size_t>(2, r.chance(0.05) ? pick_n(r, 400) : pick_n(r, 60)), d = pick_d(r, 5);
    auto              data = r.chance(0.4) ? make_data<T>(r, n, d, r.chance(0.5) ? F_CLUSTERS : F_GRID) : any_data<T>(r, n, d);
    if (r.chance(0.15)) {
        static const double s[] = {1e-6, 1e-4, 1e4, 1e6};
        const double        k   = s[r.range(0, 3)];
        for (auto& x : data.v)
            x = static_cast<T>(static_cast<double>(x) * k);
    }
    // labels: at least two of them used; some may have no sample, some a single one
    long long  k = r.range(2, std::min<long long>(static_cast<long long>(n) + 2, 9));
    if (sizeof(Lab) > 1 && r.chance(0.002))  // more clusters than a narrow type counts
        k = r.range(257, 300);
    std::vector<Lab> lab(n);
    const bool       lone = r.chance(0.3);
    for (auto& l : lab)
        l = static_cast<Lab>(lone ? (r.chance(0.8) ? 0 : r.range(0, k - 1)) : r.range(0, k - 1));
    if (std::all_of(lab.begin(), lab.end(), [&](Lab l) { return l == lab[0]; }))
        lab[static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1))] = static_cast<Lab>(lab[0] == 0 ? k - 1 : 0);
    ctx.desc = data.str() + " labels=" + (n <= 60 ? show(lab) : std::string("..."));
    std::map<long long, std::size_t> size;
    for (auto l : lab)
        ++size[static_cast<long long>(l)];

    const auto sizes = H::get_cluster_sizes(lab.begin(), lab.end());
    ctx.check(sizes.size() == static_cast<std::size_t>(size.rbegin()->first) + 1, "sizes", sizes.size(), " cluster sizes");
    for (std::size_t l = 0; l < sizes.size(); ++l) {
        const auto        it   = size.find(static_cast<long long>(l));
        const std::size_t want = it == size.end() ? 0 : it->second;
        ctx.check(static_cast<std::size_t>(sizes[l]) == want, "sizes", "cluster ", l, " has ", want, " samples, not ", +sizes[l]);
    }
    const auto coh = H::cohesion(data.v.begin(), data.v.end(), d, lab.begin(), lab.end());
    const auto sep = H::separation(data.v.begin(), data.v.end(), d, lab.begin(), lab.end());
    const auto sil = H::silhouette(data.v.begin(), data.v.end(), d, lab.begin(), lab.end());
    ctx.check(coh.size() == n && sep.size() == n && sil.size() == n, "scores-size", sil.size(), " scores");
    const double eps = static_cast<double>(std::numeric_limits<T>::epsilon()) * (32 + 8 * static_cast<double>(d) + 2 * static_cast<double>(n));
    // differences of coordinates round in the type
    const double abs_err = static_cast<double>(std::numeric_limits<T>::epsilon()) * coord_scale(data.v) * 4 * static_cast<double>(d);
    double       total = 0;
    for (std::size_t i = 0; i < n; ++i) {
        std::map<long long, double> sum;
        for (std::size_t j = 0; j < n; ++j)
            if (j != i)
                sum[static_cast<long long>(lab[j])] += ref_distance(&data.v[i * d], &data.v[j * d], d);
        const long long me = static_cast<long long>(lab[i]);
        double          a = 0, b = std::numeric_limits<double>::infinity();
        for (auto& [l, s] : sum) {
            if (l == me)
                a = s / static_cast<double>(size.at(l) - 1);
            else
                b = std::min(b, s / static_cast<double>(size.at(l)));
        }
        ctx.check(std::fabs(coh[i] - a) <= eps * a + abs_err, "cohesion", "of sample ", i, " is ", coh[i], " instead of ", a);
        ctx.check(std::fabs(sep[i] - b) <= eps * b + abs_err, "separation", "of sample ", i, " is ", sep[i], " instead of ", b);
        const double m    = std::max(a, b);
        const double want = size.at(me) == 1 || m == 0 ? 0 : (b - a) / m;
        const double tol  = 4 * eps + (m > 0 ? 4 * abs_err / m : 0);
        ctx.check(sil[i] >= -1 - tol && sil[i] <= 1 + tol, "silhouette-range", "of sample ", i, " is ", sil[i]);
        if (tol < 0.05) {
            ctx.check(std::fabs(sil[i] - want) <= tol, "silhouette", "of sample ", i, " is ", sil[i], " instead of ", want, " (a=", a, " b=", b, ", cluster of ", size.at(me), ")");
            ctx.count("silhouettes_judged");
        }
        if (size.at(me) == 1)
            ctx.count("lone_samples");
        total += sil[i];
    }
    const double avg = H::get_average_silhouette(sil.begin(), sil.end());
    ctx.check(std::fabs(avg - total / static_cast<double>(n)) <= eps * 4, "average", avg, " instead of ", total / static_cast<double>(n));
    ctx.count("labellings");
    if (n > 3)
        ctx.nontrivial(Hasher().addv(data.v).addv(lab).h);
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    switch (ctx.index % 5) {
        case 0:
            return one<float, std::size_t>(ctx);
        case 1:
            return one<double, int>(ctx);
        case 2:
            return ctx.rng.chance(0.5) ? one<double, std::uint8_t>(ctx) : one<float, std::int8_t>(ctx);
        default:
            return one<double, std::size_t>(ctx);
    }
}
