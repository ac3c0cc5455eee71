// P18: index sorting, selection and partitioning order the samples and only permute the indices.
#include "common.hpp"

#include "ffcl/common/algorithms/Sorting.hpp"
#include "ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp"

using namespace vf;
namespace A = ffcl::common::algorithms;

template <typename T>
void one(Ctx& ctx) {
    Rng&        r = ctx.rng;
    std::size_t n = pick_n(r, ctx.thorough ? 1500 : 400);
    std::size_t d = pick_d(r);
    auto        data = any_data<T>(r, n, d);
    if constexpr (std::is_floating_point_v<T>) {
        // the order of samples does not depend on the unit of the data
        static const double scales[] = {1e-12, 1e-9, 1e6, 1e9};
        if (r.chance(0.25)) {
            const double s = scales[r.range(0, 3)];
            for (auto& x : data.v)
                x = static_cast<T>(static_cast<double>(x) * s);
            ctx.count("rescaled");
        }
    }
    auto        idx0 = pick_indices(r, n);
    std::size_t m    = idx0.size();
    std::size_t f    = static_cast<std::size_t>(r.range(0, static_cast<long long>(d) - 1));
    ctx.desc         = data.str() + " m=" + std::to_string(m) + " feature=" + std::to_string(f) + " idx=" + show(idx0, 20);
    auto ref = idx0;
    std::stable_sort(ref.begin(), ref.end(), [&](auto a, auto b) { return data.at(a, f) < data.at(b, f); });
    auto sorted_idx0 = idx0;
    std::sort(sorted_idx0.begin(), sorted_idx0.end());
    const auto before = data.v;

    auto permutation = [&](std::vector<std::size_t> v, const char* what) {
        std::sort(v.begin(), v.end());
        ctx.check(v == sorted_idx0, "not-permutation", what, " lost or invented indices");
        ctx.check(data.v == before, "data-modified", what, " modified the samples");
    };
    auto val = [&](std::size_t i) { return data.at(i, f); };

    // median of three
    {
        auto v = idx0;
        auto i = A::median_index_of_three(v.begin(), v.end(), data.v.begin(), data.v.end(), d, f);
        ctx.check(v == idx0, "not-permutation", "median of three changed the indices");
        if (m < 3) {
            ctx.check(i == 0, "median-of-three", "range of ", m, " gives ", i);
        } else {
            std::array<T, 3> t{val(v[0]), val(v[(m - 1) / 2]), val(v[m - 1])};
            std::sort(t.begin(), t.end());
            ctx.check(i == 0 || i == (m - 1) / 2 || i == m - 1, "median-of-three", "not one of the three: ", i);
            ctx.check(val(v[i]) == t[1], "median-of-three", "value ", val(v[i]), " is not the median ", t[1]);
        }
        ctx.count("median_of_three");
    }
    // partition
    {
        auto        v = idx0;
        std::size_t p = static_cast<std::size_t>(r.range(0, static_cast<long long>(m) - 1));
        const auto  pivot = v[p];
        auto q = A::partition_around_pivot_index(v.begin(), v.end(), data.v.begin(), data.v.end(), d, p, f);
        permutation(v, "partition");
        ctx.check(q < m && val(v[q]) == val(pivot), "partition-pivot", "pivot value moved to ", q);
        for (std::size_t i = 0; i < m; ++i) {
            if (i < q)
                ctx.check(!(val(pivot) < val(v[i])), "partition-order", "position ", i, " left of the pivot ", q,
                          " holds a greater value; pivot was ", p);
            if (i > q)
                ctx.check(!(val(v[i]) < val(pivot)), "partition-order", "position ", i, " right of the pivot ", q,
                          " holds a smaller value; pivot was ", p);
        }
        ctx.count("partition");
    }
    // quickselect
    for (int rep = 0; rep < 3; ++rep) {
        auto        v = idx0;
        std::size_t k = static_cast<std::size_t>(r.range(0, static_cast<long long>(m) - 1));
        auto [b, e]   = A::quickselect(v.begin(), v.end(), data.v.begin(), data.v.end(), d, k, f);
        permutation(v, "quickselect");
        ctx.check(e - b == 1 && b - v.begin() == static_cast<std::ptrdiff_t>(k), "quickselect-range", "k=", k,
                  " range at ", b - v.begin(), " of size ", e - b);
        ctx.check(val(*b) == val(ref[k]), "quickselect-value", "k=", k, " selected ", val(*b), " expected ", val(ref[k]));
        for (std::size_t i = 0; i < m; ++i)
            ctx.check(i < k ? !(val(*b) < val(v[i])) : !(val(v[i]) < val(*b)), "quickselect-order", "k=", k, " position ", i,
                      " is on the wrong side");
        ctx.count("quickselect");
    }
    // quicksort
    {
        auto        v = idx0;
        std::size_t p = static_cast<std::size_t>(r.range(0, static_cast<long long>(m) - 1));
        auto q = A::quicksort(v.begin(), v.end(), data.v.begin(), data.v.end(), d, p, f);
        permutation(v, "quicksort");
        for (std::size_t i = 0; i < m; ++i)
            ctx.check(val(v[i]) == val(ref[i]), "quicksort-order", "position ", i, " holds ", val(v[i]), " expected ",
                      val(ref[i]));
        ctx.check(q < m && val(v[q]) == val(idx0[p]), "quicksort-pivot", "returned position ", q,
                  " does not hold the initial pivot's value");
        ctx.count("quicksort");
    }
    // median split used by the tree
    {
        auto v = idx0;
        auto [ci, L, C, R] =
            ffcl::datastruct::kdtree::algorithms::quickselect_median(v.begin(), v.end(), data.v.begin(), data.v.end(), d, f);
        permutation(v, "median split");
        ctx.check(C.second - C.first == 1 && L.first == v.begin() && L.second == C.first && R.first == C.second &&
                      R.second == v.end() && C.first - v.begin() == static_cast<std::ptrdiff_t>(ci),
                  "median-split-ranges", "ranges do not tile the input");
        const auto pv = val(*C.first);
        for (auto it = L.first; it != L.second; ++it)
            ctx.check(!(pv < val(*it)), "median-split-order", "left side holds a greater value");
        for (auto it = R.first; it != R.second; ++it)
            ctx.check(!(val(*it) < pv), "median-split-order", "right side holds a smaller value");
        ctx.check(pv == val(ref[(m - 1) / 2]), "median-split-value", "pivot value ", pv, " is not the (lower) median ",
                  val(ref[(m - 1) / 2]));
        ctx.count("median_split");
    }
    std::set<T> distinct;
    for (auto i : idx0)
        distinct.insert(val(i));
    if (m > 1 && distinct.size() < m)
        ctx.count("with_ties");
    if (m > 2)
        ctx.nontrivial(Hasher().addv(data.v).addv(idx0).add(f).h);
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    switch (ctx.index % 8) {
        case 0:
        case 1:
        case 2:
            return one<float>(ctx);
        case 3:
        case 4:
        case 5:
            return one<double>(ctx);
        case 6:
            return one<int>(ctx);
        default:
            return one<std::uint32_t>(ctx);
    }
}
