// P12: FasterPAM: deviation, improvement and local optimality of every run; nearest, second and third medoids.
#include "md.hpp"

using namespace vf;

template <typename T>
static void ranks(Ctx& ctx, Data<T>& data, const Medoids<T>& ref, const std::vector<std::size_t>& m) {
    namespace U = pam::utils;
    using It    = typename std::vector<T>::iterator;
    const ffcl::datastruct::PairwiseDistanceMatrix<It> mat(data.v.begin(), data.v.end(), data.d);
    const double                                       err = ref.err();
    std::vector<std::vector<std::size_t>>              seen(data.n);
    for (std::size_t rank = 1; rank <= std::min<std::size_t>(3, m.size()); ++rank) {
        for (int form = 0; form < 2; ++form) {
            const auto idx = form ? U::samples_to_nth_nearest_medoid_indices(mat, m, rank)
                                  : U::samples_to_nth_nearest_medoid_indices(data.v.begin(), data.v.end(), data.d, m, rank);
            const auto dis = form ? U::samples_to_nth_nearest_medoid_distances(mat, m, rank)
                                  : U::samples_to_nth_nearest_medoid_distances(data.v.begin(), data.v.end(), data.d, m, rank);
            ctx.check(idx.size() == data.n && dis.size() == data.n, "rank-size", "rank ", rank);
            if (rank == 1)  // what is asked for without a rank
                ctx.check(idx == (form ? U::samples_to_nth_nearest_medoid_indices(mat, m) : U::samples_to_nth_nearest_medoid_indices(data.v.begin(), data.v.end(), data.d, m)) &&
                              dis == (form ? U::samples_to_nth_nearest_medoid_distances(mat, m) : U::samples_to_nth_nearest_medoid_distances(data.v.begin(), data.v.end(), data.d, m)),
                          "rank-default", "the default isn't the nearest");
            for (std::size_t o = 0; o < data.n; ++o) {
                std::vector<double> ds;
                for (auto x : m)
                    ds.push_back(ref.dist(x, o));
                auto s = ds;
                std::sort(s.begin(), s.end());
                ctx.check(idx[o] < m.size(), "rank-range", "rank ", rank, " of sample ", o, ": position ", idx[o]);
                ctx.check(std::fabs(static_cast<double>(dis[o]) - s[rank - 1]) <= err, "rank-distance", "the medoid of rank ", rank, " of sample ", o, " is at ", s[rank - 1],
                          ", not at ", +dis[o], " medoids ", show(m));
                ctx.check(std::fabs(ds[idx[o]] - s[rank - 1]) <= err, "rank-index", "the medoid of rank ", rank, " of sample ", o, " is at ", s[rank - 1], ", medoid ", idx[o],
                          " is at ", ds[idx[o]], " medoids ", show(m));
                if (!form) {
                    ctx.check(std::find(seen[o].begin(), seen[o].end(), idx[o]) == seen[o].end() || err > 0, "rank-twice", "medoid ", idx[o], " has two ranks for sample ", o);
                    seen[o].push_back(idx[o]);
                }
                ctx.count("ranks_judged");
            }
        }
    }
}

template <typename T>
static void one(Ctx& ctx) {
    Rng&              r = ctx.rng;
    std::size_t       n = std::max<std::size_t>(2, pick_n(r, ctx.thorough ? 90 : 60)), d = pick_d(r, 6);
    auto              data = medoid_data<T>(r, n, d);
    std::size_t       k    = static_cast<std::size_t>(r.range(2, static_cast<long long>(std::min<std::size_t>(n, r.chance(0.8) ? 6 : 20))));
    const bool        many = r.chance(0.0005);
    if (many) {
        // more medoids than a narrow type counts
        n    = static_cast<std::size_t>(r.range(262, 290));
        d    = static_cast<std::size_t>(r.range(1, 3));
        data = make_data<T>(r, n, d, r.chance(0.5) ? F_UNIFORM : F_GRID);
        k    = static_cast<std::size_t>(r.range(257, static_cast<long long>(n)));
        ctx.count("many_medoids");
    }
    const auto        m    = pick_medoids(r, n, k);
    ctx.desc               = data.str() + " medoids=" + show(m);
    Medoids<T> ref;
    ref.load(data);
    const auto before = data.v;
    using It          = typename std::vector<T>::iterator;
    using Pam         = ffcl::FasterPAM<It>;
    const auto   desc = std::make_tuple(data.v.begin(), data.v.end(), d);
    const double eps  = std::is_floating_point_v<T> ? static_cast<double>(std::numeric_limits<T>::epsilon()) : 0;
    const bool   exact = !std::is_floating_point_v<T> || (data.exact && d == 1);
    const double tol  = exact ? 0 : static_cast<double>(n) * (ref.err() + eps * 4 * *std::max_element(ref.D.begin(), ref.D.end()) * std::sqrt(static_cast<double>(n)));
    auto         cost = [&](const std::vector<std::size_t>& x) { return ref.deviation(x); };
    ranks(ctx, data, ref, m);
    if (r.chance(0.3)) {
        // the samples the medoids stand for, and the one closest to all others
        const auto c = pam::utils::medoids_to_centroids(data.v.begin(), data.v.end(), d, m);
        ctx.check(c.size() == k * d, "medoids-to-centroids", c.size(), " values for ", k, " medoids");
        for (std::size_t i = 0; i < k; ++i)
            for (std::size_t f = 0; f < d; ++f)
                ctx.check(c[i * d + f] == data.v[m[i] * d + f], "medoids-to-centroids", "centroid ", i, " is not sample ", m[i]);
        if constexpr (std::is_floating_point_v<T>) {
            std::vector<double> dev(n);
            for (std::size_t i = 0; i < n; ++i)
                dev[i] = ref.deviation({i});
            const double best = *std::min_element(dev.begin(), dev.end());
            ffcl::datastruct::PairwiseDistanceMatrix<It> mat(desc);
            for (const auto& [td, first] : {pam::utils::first_medoid_td_index_pair(data.v.begin(), data.v.end(), d), pam::utils::first_medoid_td_index_pair(mat)}) {
                ctx.check(first < n && dev[first] <= best + 2 * tol, "first-medoid", "sample ", first, " is not the one with the least total distance");
                ctx.check(std::fabs(static_cast<double>(td) - dev[first]) <= 2 * tol, "first-medoid", "total distance of sample ", first, " is ", dev[first], ", not ", td);
            }
        }
        ctx.count("first_medoids");
    }
    if (many && !r.chance(0.05))
        return;
    std::vector<std::size_t> a, b;
    {
        Pam algo(desc, m);
        a = follow_medoids<T>(ctx, algo, ref, m, cost, tol, 50, "on the fly");
    }
    {
        ffcl::datastruct::PairwiseDistanceMatrix<It> mat(desc);
        Pam                                          algo(mat, m);
        b = follow_medoids<T>(ctx, algo, ref, m, cost, tol, 50, "precomputed");
    }
    ctx.check(a == b || std::is_floating_point_v<T>, "forms-differ", "precomputed distances give ", show(b), ", distances on the fly ", show(a));
    ctx.check(std::memcmp(before.data(), data.v.data(), before.size() * sizeof(T)) == 0, "data-modified", "the samples were modified");
    if (n >= 4 && k < n)
        ctx.nontrivial(Hasher().addv(data.v).addv(m).h);
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    switch (ctx.index % 4) {
        case 0:
            return one<float>(ctx);
        case 1:
            return one<int>(ctx);
        default:
            return one<double>(ctx);
    }
}
