// P10: every k-means iteration (both algorithms) moves each centroid to the mean of the samples closest to it.
#include "km.hpp"

#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/Lloyd.hpp"

using namespace vf;

template <typename T, typename Algo>
void follow(Ctx& ctx, Algo& algo, const Data<T>& data, std::vector<T> c, std::size_t steps, const std::string& who) {
    const std::size_t n = data.n, d = data.d, k = c.size() / d;
    const double      eps   = std::numeric_limits<T>::epsilon();
    double            scale = std::max(coord_scale(data.v), coord_scale(c));
    std::size_t       moved = 0;
    long double       prev_sse = -1;
    for (std::size_t s = 0; s <= steps; ++s) {
        // rounding: bounds and sums are maintained incrementally
        const double slack = eps * scale * (200 + 8.0 * static_cast<double>(s));
        const auto   a     = assign(data, c, slack);
        const double dev   = static_cast<double>(algo.total_deviation());
        ctx.check(std::fabs(dev - static_cast<double>(a.sum)) <=
                      1e-3 * eps + eps * (64 + static_cast<double>(n)) * static_cast<double>(a.sum) + eps * 16 * scale * static_cast<double>(n),
                  "deviation", who, " step ", s, ": reports a total deviation of ", dev, ", the samples are ", static_cast<double>(a.sum), " away");
        const double sse_tol = static_cast<double>(n) * (slack * slack + 4 * slack * std::sqrt(static_cast<double>(a.sse) / static_cast<double>(n)));
        if (prev_sse >= 0)
            ctx.check(a.sse <= prev_sse + sse_tol, "cost-grows", who, " step ", s, ": sum of squares went from ",
                      static_cast<double>(prev_sse), " to ", static_cast<double>(a.sse));
        prev_sse = a.sse;
        if (s == steps)
            break;
        auto next = algo.step();
        ctx.check(next.size() == c.size(), "centroid-count", who, ": ", next.size() / d, " centroids instead of ", k);
        std::vector<long double> sum(k * d, 0);
        std::vector<std::size_t> size(k, 0);
        for (std::size_t i = 0; i < n; ++i) {
            ++size[a.nearest[i]];
            for (std::size_t f = 0; f < d; ++f)
                sum[a.nearest[i] * d + f] += data.v[i * d + f];
        }
        for (std::size_t j = 0; j < k; ++j) {
            if (a.cluster_open[j]) {
                ctx.count("open_clusters");
                // whatever the choice among equally close centroids: inside the box of the possible members and itself
                for (std::size_t f = 0; f < d; ++f) {
                    ctx.check(std::isfinite(static_cast<double>(next[j * d + f])), "not-finite", who, " step ", s, ": centroid ", j, " is not finite");
                }
                continue;
            }
            for (std::size_t f = 0; f < d; ++f) {
                const double want = size[j] ? static_cast<double>(sum[j * d + f] / static_cast<long double>(size[j])) : static_cast<double>(c[j * d + f]);
                const double got  = static_cast<double>(next[j * d + f]);
                const double tol  = eps * scale * (64 + 4 * static_cast<double>(n)) * (size[j] ? 1 : 0);
                ctx.check(std::fabs(got - want) <= tol, size[j] ? "not-the-mean" : "empty-cluster-moved", who, " step ", s, ": centroid ", j,
                          " feature ", f, " is ", got, ", ", size[j] ? "the mean of its samples is " : "without samples it was at ", want, " size=", size[j],
                          " centroids before=", show(c));
            }
            ctx.count(size[j] ? "means_judged" : "empty_clusters");
        }
        moved += next != c;
        c     = next;
        scale = std::max(scale, coord_scale(c));
    }
    ctx.count("steps_moving", moved);
}

// the quantities every step is made of, on their own
template <typename T>
static void parts(Ctx& ctx, Data<T>& data, const std::vector<T>& c) {
    namespace U         = kmeans::utils;
    const std::size_t n = data.n, d = data.d, k = c.size() / d;
    const double      eps = std::numeric_limits<T>::epsilon();
    const double      tol = eps * (64 + 4 * static_cast<double>(d)) * std::max(coord_scale(data.v), coord_scale(c)) * std::sqrt(static_cast<double>(d));
    const auto        near = U::samples_to_nearest_centroid_indices(data.v.begin(), data.v.end(), d, c);
    const auto        dist = U::samples_to_nearest_centroid_distances(data.v.begin(), data.v.end(), d, c);
    const auto        second = U::samples_to_second_nearest_centroid_distances(data.v.begin(), data.v.end(), d, c);
    const auto        apart = U::nearest_neighbor_distances(c.begin(), c.end(), d);
    const auto        sizes = U::compute_cluster_sizes(near.begin(), near.end(), k);
    const auto        sums = U::compute_cluster_positions_sum(data.v.begin(), data.v.end(), d, near.begin(), k);
    ctx.check(near.size() == n && dist.size() == n && second.size() == n && apart.size() == k && sizes.size() == k && sums.size() == k * d, "part-size", "of one of the parts");
    std::vector<std::size_t> count(k, 0);
    std::vector<long double> sum(k * d, 0), mass(k * d, 0);
    for (std::size_t i = 0; i < n; ++i) {
        std::vector<double> all;
        for (std::size_t j = 0; j < k; ++j)
            all.push_back(ref_distance(&data.v[i * d], &c[j * d], d));
        auto s = all;
        std::sort(s.begin(), s.end());
        ctx.check(near[i] < k, "part-nearest", "sample ", i, ": ", near[i]);
        ctx.check(all[near[i]] <= s[0] + tol, "part-nearest", "sample ", i, " is ", s[0], " away from its nearest centroid, ", all[near[i]], " from ", near[i]);
        ctx.check(std::fabs(static_cast<double>(dist[i]) - s[0]) <= tol, "part-distance", "sample ", i, ": ", dist[i], " instead of ", s[0]);
        if (k > 1)
            ctx.check(std::fabs(static_cast<double>(second[i]) - s[1]) <= tol, "part-second", "sample ", i, ": ", second[i], " instead of ", s[1]);
        ++count[near[i]];
        for (std::size_t f = 0; f < d; ++f) {
            sum[near[i] * d + f] += data.v[i * d + f];
            mass[near[i] * d + f] += std::fabs(static_cast<long double>(data.v[i * d + f]));
        }
    }
    for (std::size_t j = 0; j < k; ++j) {
        ctx.check(sizes[j] == count[j], "part-sizes", "cluster ", j, " has ", count[j], " samples, not ", sizes[j]);
        for (std::size_t f = 0; f < d; ++f)
            ctx.check(std::fabs(static_cast<double>(sums[j * d + f] - sum[j * d + f])) <= eps * static_cast<double>(mass[j * d + f]) * (4 + static_cast<double>(n)), "part-sums",
                      "cluster ", j, " feature ", f, ": ", sums[j * d + f], " instead of ", static_cast<double>(sum[j * d + f]));
        double other = -1;
        for (std::size_t o = 0; o < k; ++o)
            if (o != j) {
                const double x = ref_distance(&c[j * d], &c[o * d], d);
                other          = other < 0 ? x : std::min(other, x);
            }
        if (k > 1)
            ctx.check(std::fabs(static_cast<double>(apart[j]) - other) <= tol, "part-apart", "centroid ", j, ": ", apart[j], " instead of ", other);
    }
    ctx.count("parts_judged");
}

template <typename T>
void one(Ctx& ctx) {
    Rng&        r    = ctx.rng;
    std::size_t n    = pick_n(r, ctx.thorough ? 400 : 200);
    std::size_t d    = pick_d(r, 8);
    auto        data = r.chance(0.4) ? make_data<T>(r, n, d, r.chance(0.5) ? F_CLUSTERS : F_UNIFORM) : any_data<T>(r, n, d);
    maybe_rescale(r, data);
    std::size_t k     = static_cast<std::size_t>(r.range(1, r.chance(0.7) ? 6 : 20));
    if (r.chance(0.002)) {
        // more centroids than a narrow type counts
        k = static_cast<std::size_t>(r.range(257, 290));
        ctx.count("many_centroids");
    }
    auto        c     = pick_centroids(r, data, k);
    std::size_t steps = static_cast<std::size_t>(r.range(1, r.chance(0.8) ? 8 : 40));
    ctx.desc          = data.str() + " k=" + std::to_string(k) + " centroids=" + show(c, 30) + " steps=" + std::to_string(steps);
    const auto before = data.v;
    using It          = typename std::vector<T>::iterator;
    parts<T>(ctx, data, c);
    {
        ffcl::Lloyd<It> l(std::make_tuple(data.v.begin(), data.v.end(), d), c);
        follow<T>(ctx, l, data, c, steps, "lloyd");
    }
    {
        ffcl::Hamerly<It> h(std::make_tuple(data.v.begin(), data.v.end(), d), c);
        follow<T>(ctx, h, data, c, steps, "hamerly");
    }
    ctx.check(std::memcmp(before.data(), data.v.data(), before.size() * sizeof(T)) == 0, "data-modified", "the samples were modified");
    ctx.count("runs");
    if (n >= 3 && k >= 2)
        ctx.nontrivial(Hasher().addv(data.v).addv(c).add(steps).h);
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    ctx.index % 3 ? one<double>(ctx) : one<float>(ctx);
}
