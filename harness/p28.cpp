// P28: requests that have no answer are refused by an exception and change nothing, those that have one are not refused.
#include "ops.hpp"

using namespace vf;

namespace {

enum class Outcome { answered, refused, other };

template <typename F>
Outcome ask(F&& f) {
    try {
        f();
    } catch (const std::invalid_argument&) {
        return Outcome::refused;
    } catch (const std::exception&) {
        return Outcome::other;
    }
    return Outcome::answered;
}

template <typename T>
void one(Ctx& ctx) {
    namespace U = ::pam::utils;
    Rng&       r = ctx.rng;
    const auto n = pick_n(r, 30), d = pick_d(r, 4);
    auto       data = any_data<T>(r, n, d);
    ctx.desc        = data.str();
    using It        = typename std::vector<T>::iterator;
    auto&      v    = data.v;
    const auto was  = v;
    auto judge = [&](bool valid, Outcome o, const char* what, auto... about) {
        if (valid)
            ctx.check(o == Outcome::answered, "answer-refused", what, ": refused although there is an answer ", about...);
        else
            ctx.check(o == Outcome::refused, "request-accepted", what, o == Outcome::other ? ": another exception than invalid_argument " : ": answered although there is no answer ", about...);
        ctx.check(was == v, "samples-changed", what, ": the samples changed");
        ctx.count(valid ? "valid_requests" : "invalid_requests");
    };
    // medoids and ranks
    {
        std::vector<std::size_t> order(n);
        std::iota(order.begin(), order.end(), 0);
        r.shuffle(order);
        const auto               k = static_cast<std::size_t>(r.range(0, std::min<long long>(6, static_cast<long long>(n))));
        std::vector<std::size_t> medoids(order.begin(), order.begin() + static_cast<std::ptrdiff_t>(k));
        const ffcl::datastruct::PairwiseDistanceMatrix<It> m(v.begin(), v.end(), d);
        const auto b = v.begin(), e = v.end();
        judge(k > 0, ask([&] { U::samples_to_nearest_medoid_indices(b, e, d, medoids); }), "nearest medoid", k);
        judge(k > 0, ask([&] { U::samples_to_nearest_medoid_indices(m, medoids); }), "nearest medoid by matrix", k);
        judge(k > 0, ask([&] { U::samples_to_nearest_medoid_distances(b, e, d, medoids); }), "distance to the nearest medoid", k);
        judge(k > 0, ask([&] { U::samples_to_nearest_medoid_distances(m, medoids); }), "distance to the nearest medoid by matrix", k);
        if (k == 0 || k >= 2) {
            judge(k > 0, ask([&] { U::samples_to_second_nearest_medoid_indices(b, e, d, medoids); }), "second nearest medoid", k);
            judge(k > 0, ask([&] { U::samples_to_second_nearest_medoid_indices(m, medoids); }), "second nearest medoid by matrix", k);
            judge(k > 0, ask([&] { U::samples_to_second_nearest_medoid_distances(b, e, d, medoids); }), "distance to the second nearest medoid", k);
            judge(k > 0, ask([&] { U::samples_to_second_nearest_medoid_distances(m, medoids); }), "distance to the second nearest medoid by matrix", k);
        }
        if (k == 0 || k >= 3) {
            judge(k > 0, ask([&] { U::samples_to_third_nearest_medoid_indices(b, e, d, medoids); }), "third nearest medoid", k);
            judge(k > 0, ask([&] { U::samples_to_third_nearest_medoid_indices(m, medoids); }), "third nearest medoid by matrix", k);
            judge(k > 0, ask([&] { U::samples_to_third_nearest_medoid_distances(b, e, d, medoids); }), "distance to the third nearest medoid", k);
            judge(k > 0, ask([&] { U::samples_to_third_nearest_medoid_distances(m, medoids); }), "distance to the third nearest medoid by matrix", k);
        }
        const auto rank = static_cast<std::size_t>(r.chance(0.1) ? r.range(0, 1000) : r.range(0, 8));
        const bool ok   = rank >= 1 && rank <= 3 && rank <= k;
        judge(ok, ask([&] { U::samples_to_nth_nearest_medoid_indices(b, e, d, medoids, rank); }), "n-th nearest medoid", rank, " of ", k);
        judge(ok, ask([&] { U::samples_to_nth_nearest_medoid_indices(m, medoids, rank); }), "n-th nearest medoid by matrix", rank, " of ", k);
        judge(ok, ask([&] { U::samples_to_nth_nearest_medoid_distances(b, e, d, medoids, rank); }), "distance to the n-th nearest medoid", rank, " of ", k);
        judge(ok, ask([&] { U::samples_to_nth_nearest_medoid_distances(m, medoids, rank); }), "distance to the n-th nearest medoid by matrix", rank, " of ", k);
        // the algorithms look for the second medoid of a sample
        if constexpr (std::is_floating_point_v<T>) {
            judge(k >= 2, ask([&] { ffcl::FasterPAM<It> a(m, medoids); a.step(); }), "FasterPAM by matrix", k);
            judge(k >= 2, ask([&] { ffcl::FasterPAM<It> a(std::make_tuple(b, e, d), medoids); a.step(); }), "FasterPAM", k);
            judge(k >= 2, ask([&] { ffcl::FasterMSC<It> a(m, medoids); a.step(); }), "FasterMSC by matrix", k);
            judge(k >= 2, ask([&] { ffcl::FasterMSC<It> a(std::make_tuple(b, e, d), medoids); a.step(); }), "FasterMSC", k);
            if (k >= 1) {
                auto              o = typename ffcl::KMedoids<T>::Options().max_iter(3);
                ffcl::KMedoids<T> pam(k, o), msc(k, o);
                judge(k >= 2, ask([&] { pam.template fit<ffcl::FasterPAM>(b, e, d); }), "k-medoids", k);
                judge(k >= 2, ask([&] { msc.template fit<ffcl::FasterMSC>(b, e, d); }), "k-medoids by silhouette", k);
                judge(k >= 2, ask([&] { pam.template fit<ffcl::FasterPAM>(m); }), "k-medoids by matrix, again", k);
                ctx.count("models");
            }
        }
        ctx.count("ranks");
    }
    // weights
    {
        const auto         w = static_cast<std::size_t>(r.range(0, 5));
        std::vector<float> weights(w);
        for (auto& x : weights)
            x = static_cast<float>(r.range(1, 9));
        judge(w > 0, ask([&] {
                  ffcl::common::math::random::VosesAliasMethod<float> a(weights);
                  a();
              }),
              "drawing by weight", w);
    }
    // rearrangements
    {
        std::vector<std::size_t> order(n);
        std::iota(order.begin(), order.end(), 0);
        r.shuffle(order);
        if (r.chance(0.5)) {
            const auto less = static_cast<std::size_t>(r.range(0, static_cast<long long>(n)));
            order.clear();
            for (std::size_t i = 0; i < less; ++i)
                order.push_back(i);
            r.shuffle(order);
        }
        const bool more = r.chance(0.15);
        if (more)
            order.push_back(0);
        judge(order.size() == n, ask([&] { ffcl::common::remap_ranges_from_indices(order, v, d); }), "reordering samples", order.size(), " of ", n);
        std::vector<T> column(n);
        for (std::size_t i = 0; i < n; ++i)
            column[i] = data.at(i, 0);
        judge(order.size() == n, ask([&] { ffcl::common::permutation_from_indices(order, column); }), "reordering elements", order.size(), " of ", n);
        ctx.count("rearrangements");
    }
    Hasher h;
    h.addv(v).add(ctx.index);
    if (n > 1)
        ctx.nontrivial(h.h);
    ctx.sample(ctx.desc);
}
}  // namespace

void vf::run_case(Ctx& ctx) {
    const auto u = ctx.rng.range(0, 9);
    if (u < 4)
        one<double>(ctx);
    else if (u < 7)
        one<float>(ctx);
    else
        one<int>(ctx);
}
