// P13: FasterMSC: the silhouette loss of every run, its improvement and local optimality.
#include "md.hpp"

using namespace vf;

template <typename T>
static void one(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = std::max<std::size_t>(2, pick_n(r, ctx.thorough ? 90 : 60)), d = pick_d(r, 6);
    auto              data = medoid_data<T>(r, n, d);
    const std::size_t k    = r.chance(0.3) ? 2 : static_cast<std::size_t>(r.range(2, static_cast<long long>(std::min<std::size_t>(n, r.chance(0.8) ? 6 : 20))));
    const auto        m    = pick_medoids(r, n, k);
    ctx.desc               = data.str() + " medoids=" + show(m);
    Medoids<T> ref;
    ref.load(data);
    const auto before = data.v;
    using It          = typename std::vector<T>::iterator;
    using Msc         = ffcl::FasterMSC<It>;
    const auto   desc = std::make_tuple(data.v.begin(), data.v.end(), d);
    const double eps  = static_cast<double>(std::numeric_limits<T>::epsilon());
    const double tol  = static_cast<double>(n) * eps * (32 + 8 * static_cast<double>(d) + 4 * std::sqrt(static_cast<double>(n)));
    auto         cost = [&](const std::vector<std::size_t>& x) { return ref.silhouette_loss(x); };
    {
        Msc algo(desc, m);
        follow_medoids<T>(ctx, algo, ref, m, cost, tol, 50, "on the fly");
    }
    {
        ffcl::datastruct::PairwiseDistanceMatrix<It> mat(desc);
        Msc                                          algo(mat, m);
        follow_medoids<T>(ctx, algo, ref, m, cost, tol, 50, "precomputed");
    }
    ctx.count(k == 2 ? "two_medoids" : "more_medoids");
    ctx.check(std::memcmp(before.data(), data.v.data(), before.size() * sizeof(T)) == 0, "data-modified", "the samples were modified");
    if (n >= 4 && k < n)
        ctx.nontrivial(Hasher().addv(data.v).addv(m).h);
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    ctx.index % 3 ? one<double>(ctx) : one<float>(ctx);
}
