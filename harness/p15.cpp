// P15: distances between samples and matrices of them.
#include "trees.hpp"

#include "ffcl/common/math/heuristics/Distances.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"

#include <deque>

using namespace vf;
namespace H = ffcl::common::math::heuristics;

template <typename T>
static std::vector<T> numbers(Rng& r, std::size_t d, double unit) {
    std::vector<T> v(d);
    const bool     narrow = r.chance(0.5), zero = r.chance(0.05);
    for (auto& x : v) {
        if constexpr (std::is_floating_point_v<T>) {
            x = static_cast<T>(unit * (narrow ? static_cast<double>(r.range(-3, 3)) : r.chance(0.2) ? std::ldexp(r.real(-1, 1), static_cast<int>(r.range(-20, 6))) : r.real(-10, 10)));
        } else {
            // sums of up to 24 differences stay representable
            const long long hi = static_cast<long long>(std::min<double>(static_cast<double>(std::numeric_limits<T>::max()), 1e15)) / (sizeof(T) < 4 ? 1 : 50);
            x                  = static_cast<T>(narrow ? r.range(std::is_signed_v<T> ? -3 : 0, 3) : r.range(std::is_signed_v<T> ? -hi : 0, hi));
        }
        if (zero)
            x = 0;
    }
    return v;
}

template <typename R>
static void close(Ctx& ctx, const R& got, long double want, double rel, const char* what) {
    if constexpr (std::is_floating_point_v<R>)
        ctx.check(std::fabs(static_cast<long double>(got) - want) <= rel * std::fabs(want), "distance", what, " gives ", got, " instead of ", static_cast<double>(want));
    else
        ctx.check(static_cast<long double>(got) == want, "distance", what, " gives ", +got, " instead of ", static_cast<double>(want));
    ctx.count("distances_judged");
}

template <typename C>
static std::size_t edits(const C& a, const C& b) {
    // full table, from the suffixes
    std::vector<std::vector<std::size_t>> t(a.size() + 1, std::vector<std::size_t>(b.size() + 1));
    for (std::size_t i = a.size() + 1; i-- > 0;)
        for (std::size_t j = b.size() + 1; j-- > 0;) {
            if (i == a.size())
                t[i][j] = b.size() - j;
            else if (j == b.size())
                t[i][j] = a.size() - i;
            else if (a[i] == b[j])
                t[i][j] = t[i + 1][j + 1];
            else
                t[i][j] = 1 + std::min({t[i + 1][j], t[i][j + 1], t[i + 1][j + 1]});
        }
    return t[0][0];
}

template <typename T>
static void vectors(Ctx& ctx) {
    Rng&              r    = ctx.rng;
    const std::size_t d    = static_cast<std::size_t>(r.chance(0.05) ? 0 : r.range(1, 24));
    const double      unit = std::is_floating_point_v<T> ? std::ldexp(1.0, static_cast<int>(std::is_same_v<T, float> ? r.range(-24, 24) : r.range(-200, 200)) * r.range(0, 1)) : 1;
    auto              a = numbers<T>(r, d, unit), b = numbers<T>(r, d, unit);
    if (r.chance(0.1))
        b = a;
    ctx.desc = "a=" + show(a) + " b=" + show(b);
    const std::deque<T> bq(b.begin(), b.end());
    const double        eps = std::is_floating_point_v<T> ? static_cast<double>(std::numeric_limits<T>::epsilon()) * (16 + static_cast<double>(d)) : 0;
    long double         l1 = 0, l2 = 0, o1 = 0, o2 = 0, dot = 0, nb = 0;
    for (std::size_t i = 0; i < d; ++i) {
        const long double x = a[i], y = b[i];
        // the difference as the type has it
        const long double e = std::is_floating_point_v<T> ? static_cast<long double>(static_cast<T>(a[i] - b[i])) : x - y;
        l1 += std::fabs(e);
        l2 += e * e;
        o1 += std::fabs(x);
        o2 += x * x;
        nb += y * y;
        dot += x * y;
    }
    if constexpr (std::is_floating_point_v<T>) {
        close(ctx, H::squared_euclidean_distance(a.begin(), a.end(), b.begin(), b.end()), l2, eps, "squared_euclidean_distance");
        close(ctx, H::euclidean_distance(a.begin(), a.end(), bq.begin(), bq.end()), std::sqrt(l2), eps, "euclidean_distance");
        close(ctx, H::auto_distance(a.data(), a.data() + d, b.begin(), b.end()), std::sqrt(l2), eps, "auto_distance");
        close(ctx, H::squared_euclidean_distance_from_origin(a.begin(), a.end()), o2, eps, "squared_euclidean_distance_from_origin");
        close(ctx, H::euclidean_distance_from_origin(a.begin(), a.end()), std::sqrt(o2), eps, "euclidean_distance_from_origin");
        close(ctx, H::auto_distance_from_origin(a.begin(), a.end()), std::sqrt(o2), eps, "auto_distance_from_origin");
        close(ctx, H::manhattan_distance(a.begin(), a.end(), b.begin(), b.end()), l1, eps, "manhattan_distance");
        close(ctx, H::manhattan_distance_from_origin(a.begin(), a.end()), o1, eps, "manhattan_distance_from_origin");
        const auto c = H::cosine_similarity(a.begin(), a.end(), b.begin(), b.end());
        if (o2 == 0 || nb == 0)
            ctx.check(c == ffcl::common::infinity<T>(), "cosine", "cosine similarity with a null vector gives ", c);
        else {
            long double s = 0;  // of the absolute products
            for (std::size_t i = 0; i < d; ++i)
                s += std::fabs(static_cast<long double>(a[i]) * b[i]);
            const long double m = std::sqrt(o2) * std::sqrt(nb);
            ctx.check(std::fabs(static_cast<long double>(c) - dot / m) <= eps * (s / m + 1), "cosine", "cosine similarity gives ", c, " instead of ", static_cast<double>(dot / m));
            ctx.count("cosines_judged");
        }
        ctx.check(H::auto_distance(a.begin(), a.end(), b.begin(), b.end()) == H::auto_distance(b.begin(), b.end(), a.begin(), a.end()), "asymmetric",
                  "the distance depends on the order of its arguments");
    } else {
        if constexpr (std::is_signed_v<T>) {
            close(ctx, H::manhattan_distance(a.begin(), a.end(), bq.begin(), bq.end()), l1, 0, "manhattan_distance");
            if (o1 <= static_cast<long double>(std::numeric_limits<T>::max()))
                close(ctx, H::manhattan_distance_from_origin(a.begin(), a.end()), o1, 0, "manhattan_distance_from_origin");
        } else {
            close(ctx, H::unsigned_manhattan_distance(a.begin(), a.end(), bq.begin(), bq.end()), l1, 0, "unsigned_manhattan_distance");
            if (o1 <= static_cast<long double>(std::numeric_limits<T>::max()))
                close(ctx, H::unsigned_manhattan_distance_from_origin(a.begin(), a.end()), o1, 0, "unsigned_manhattan_distance_from_origin");
        }
        close(ctx, H::auto_distance(a.data(), a.data() + d, b.begin(), b.end()), l1, 0, "auto_distance");
        if (o1 <= static_cast<long double>(std::numeric_limits<T>::max()))
            close(ctx, H::auto_distance_from_origin(a.begin(), a.end()), o1, 0, "auto_distance_from_origin");
        // words over small alphabets, of different lengths
        std::vector<T>  u, w;
        const long long letters = r.range(1, 5);
        // now and then more letters than the type of a letter counts up to
        const long long most = r.chance(0.004) ? 400 : 18;
        for (long long i = r.range(0, most); i > 0; --i)
            u.push_back(static_cast<T>(r.range(0, letters)));
        if (r.chance(0.5)) {
            for (long long i = r.range(0, most); i > 0; --i)
                w.push_back(static_cast<T>(r.range(0, letters)));
        } else {
            w = u;
            for (long long i = r.range(0, 4); i > 0; --i) {
                const auto p = static_cast<std::ptrdiff_t>(r.range(0, static_cast<long long>(w.size())));
                if (r.chance(0.5))
                    w.insert(w.begin() + p, static_cast<T>(r.range(0, letters)));
                else if (p < static_cast<std::ptrdiff_t>(w.size()))
                    w.erase(w.begin() + p);
            }
        }
        const auto e = H::levenshtein_distance(u.begin(), u.end(), w.begin(), w.end());
        ctx.check(static_cast<std::size_t>(e) == edits(u, w), "levenshtein", "levenshtein distance of ", show(u), " and ", show(w), " gives ", +e, " instead of ", edits(u, w));
        ctx.count("edit_distances_judged");
    }
    if (d > 1)
        ctx.nontrivial(Hasher().addv(a).addv(b).h);
    ctx.sample(ctx.desc);
}

template <typename T>
static void matrices(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = r.chance(0.03) ? 0 : pick_n(r, 40), d = pick_d(r, 6);
    auto              data = n ? any_data<T>(r, n, d) : Data<T>();
    data.d                 = d;
    ctx.desc               = data.str();
    const auto before      = data.v;
    using It               = typename std::vector<T>::iterator;
    const auto                                                tup = std::make_tuple(data.v.begin(), data.v.end(), d);
    const ffcl::datastruct::PairwiseDistanceMatrix<It>        a(data.v.begin(), data.v.end(), d), b(tup);
    const ffcl::datastruct::PairwiseDistanceMatrixDynamic<It> c(data.v.begin(), data.v.end(), d), e(tup);
    const auto                                                a2 = a;
    ctx.check(a.n_rows() == n && a.n_columns() == n && b.n_rows() == n && c.n_rows() == n && c.n_columns() == n && e.n_rows() == n, "matrix-size", "of ", a.n_rows(), " rows");
    const double eps = std::is_floating_point_v<T> ? static_cast<double>(std::numeric_limits<T>::epsilon()) * (16 + 4 * static_cast<double>(d)) : 0;
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) {
            long double s = 0;
            for (std::size_t f = 0; f < d; ++f) {
                if constexpr (std::is_floating_point_v<T>) {
                    const long double x = static_cast<T>(data.at(i, f) - data.at(j, f));
                    s += x * x;
                } else
                    s += std::fabs(static_cast<long double>(data.at(i, f)) - static_cast<long double>(data.at(j, f)));
            }
            if constexpr (std::is_floating_point_v<T>)
                s = std::sqrt(s);
            close(ctx, a(i, j), s, eps, "PairwiseDistanceMatrix");
            close(ctx, c(i, j), s, eps, "PairwiseDistanceMatrixDynamic");
            ctx.check(a(i, j) == b(i, j) && a(i, j) == a2(i, j) && c(i, j) == e(i, j), "matrix-forms", "two matrices of the same samples differ at ", i, ",", j);
            ctx.check(a(i, j) == a(j, i) && c(i, j) == c(j, i), "asymmetric", "the matrix is not symmetric at ", i, ",", j);
            ctx.count("matrix_entries");
        }
    ctx.check(before == data.v, "data-modified", "the samples were modified");
    if (n > 2)
        ctx.nontrivial(Hasher().addv(data.v).add(d).h);
}

void vf::run_case(Ctx& ctx) {
    switch (ctx.index % 11) {
        case 0:
            return vectors<float>(ctx);
        case 1:
        case 2:
            return vectors<double>(ctx);
        case 3:
            return vectors<int>(ctx);
        case 4:
            return vectors<std::int8_t>(ctx);
        case 5:
            return vectors<std::uint8_t>(ctx);
        case 6:
            return vectors<unsigned>(ctx);
        case 7:
            return ctx.rng.chance(0.5) ? vectors<long>(ctx) : vectors<std::size_t>(ctx);
        case 8:
            return matrices<double>(ctx);
        case 9:
            return ctx.rng.chance(0.5) ? matrices<float>(ctx) : matrices<int>(ctx);
        default:
            return ctx.rng.chance(0.5) ? matrices<unsigned>(ctx) : matrices<double>(ctx);
    }
}
