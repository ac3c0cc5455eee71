// P02: ball and box range queries return exactly the samples inside the range.
#include "trees.hpp"

#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"

using namespace vf;
namespace B = ffcl::datastruct::bounds;

// inside: per sample 1 / 0; ref distances to the centre
template <typename T, typename Buffer>
void judge(Ctx& ctx, const Buffer& b, const std::vector<std::size_t>& idx, const std::vector<char>& inside,
           const std::vector<double>& dist, std::size_t cap, double scale, const std::string& what, bool limited, const std::vector<T>& centre) {
    buffer_accessors(ctx, b, cap, limited, centre, true, what);
    std::vector<std::pair<double, std::size_t>> in;
    for (auto i : idx)
        if (inside[i])
            in.emplace_back(dist[i], i);
    std::sort(in.begin(), in.end());
    const auto        got  = b.indices();
    const auto        gd   = b.distances();
    const std::size_t want = std::min(cap, in.size());
    std::set<std::size_t> gs;
    for (std::size_t k = 0; k < got.size(); ++k) {
        ctx.check(got[k] < inside.size() && std::find(idx.begin(), idx.end(), got[k]) != idx.end(), "range-not-indexed", what, ": sample ",
                  got[k], " is not indexed");
        ctx.check(gs.insert(got[k]).second, "range-duplicate", what, ": sample ", got[k], " returned twice");
        ctx.check(inside[got[k]], "range-outside", what, ": sample ", got[k], " at distance ", dist[got[k]],
                  " is outside the range");
        ctx.check(near<T>(static_cast<double>(gd[k]), dist[got[k]], scale), "range-distance", what, ": distance of ",
                  got[k], " reported ", gd[k], " is ", dist[got[k]]);
    }
    ctx.check(got.size() == want, "range-missing", what, ": ", got.size(), " samples returned, ", in.size(),
              " are inside, capacity ", cap);
    ctx.check(b.empty() == (want == 0) && b.size() == want, "range-size", what, ": size()/empty() disagree");
    if (want) {
        std::vector<double> s;
        for (auto g : got)
            s.push_back(dist[g]);
        std::sort(s.begin(), s.end());
        for (std::size_t k = 0; k < want; ++k)
            ctx.check(near<T>(s[k], in[k].first, scale), "range-not-closest", what, ": rank ", k, " is at ", s[k],
                      ", expected ", in[k].first);
        ctx.check(near<T>(static_cast<double>(b.furthest_distance()), s.back(), scale) && near<T>(dist[b.furthest_index()], s.back(), scale), "range-furthest", what, ": ",
                  b.furthest_distance(), " instead of ", s.back());
        ctx.check(near<T>(static_cast<double>(b.closest_distance()), s.front(), scale) && gs.count(b.closest_index()) && near<T>(dist[b.closest_index()], s.front(), scale),
                  "range-closest", what, ": ", b.closest_distance(), " instead of ", s.front());
    }
    ctx.count("range_queries");
    ctx.count("samples_inside", in.size());
    if (in.empty())
        ctx.count("empty_ranges");
    else if (in.size() == idx.size())
        ctx.count("full_ranges");
    else
        ctx.count("partial_ranges");
}

template <typename T>
void one(Ctx& ctx) {
    Rng&        r    = ctx.rng;
    std::size_t n    = pick_n(r, ctx.thorough ? 2000 : 400);
    std::size_t d    = sizeof(T) < 4 ? std::min<std::size_t>(pick_d(r), 12) : pick_d(r);  // distances fit the type
    if (r.chance(0.3))
        d = 2;
    auto data = any_data<T>(r, n, d);
    maybe_rescale(r, data);
    auto idx  = pick_indices(r, n);
    auto opts = pick_tree_opts(r, d, n);
    ctx.desc  = data.str() + " indexed=" + std::to_string(idx.size()) + " " + opts.str();
    seed_engine(r.next());
    auto       searcher = ffcl::search::Searcher(make_tree(idx, data, opts));
    using It            = typename std::vector<T>::iterator;
    const bool boundary_exact =
        !std::is_floating_point_v<T> || (data.exact && coord_scale(data.v) <= 50);

    for (int rep = 0; rep < 6; ++rep) {
        auto        q   = pick_query(r, data);
        std::size_t cap = idx.size() + 10;
        bool        limited = r.chance(0.3);
        if (limited)
            cap = static_cast<std::size_t>(r.range(1, static_cast<long long>(idx.size()) + 2));
        const double scale = std::max(coord_scale(data.v), coord_scale(q));

        // ---- ball
        std::vector<double> dist(n);
        for (std::size_t i = 0; i < n; ++i)
            dist[i] = ref_distance(q.data(), &data.v[i * d], d);
        T    radius;
        bool usable = true;
        {
            double pick = dist[idx[static_cast<std::size_t>(r.range(0, static_cast<long long>(idx.size()) - 1))]];
            double u    = r.unit();
            if (boundary_exact && scale <= 60) {
                radius = static_cast<T>(u < 0.1 ? 0 : u < 0.6 ? std::floor(pick) : std::floor(pick) + static_cast<double>(r.range(0, 3)));
            } else if constexpr (!std::is_floating_point_v<T>) {
                radius = static_cast<T>(pick + static_cast<double>(r.range(0, 2)));
            } else {
                radius = static_cast<T>(u < 0.05 ? 0 : pick * r.real(0.5, 1.5));
                for (auto i : idx)
                    if (std::fabs(dist[i] - static_cast<double>(radius)) <= 4 * (tol_of<T>() * dist[i] + tol_of<T>() * 0.1 * scale))
                        usable = false;
                if (radius == T(0))
                    usable = true;  // nothing is strictly within 0
            }
        }
        if (usable) {
            std::vector<char> inside(n);
            for (std::size_t i = 0; i < n; ++i)
                inside[i] = dist[i] < static_cast<double>(radius);
            std::ostringstream w;
            w << "ball radius=" << +radius << " q=" << show(q);
            using BV = B::BallView<It>;
            if (limited) {
                auto b = searcher(ffcl::search::buffer::Unsorted(BV(q.begin(), q.end(), radius), cap));
                judge<T>(ctx, b, idx, inside, dist, cap, scale, "BallView " + w.str(), true, q);
            } else {
                auto b = searcher(ffcl::search::buffer::Unsorted(BV(q.begin(), q.end(), radius)));
                judge<T>(ctx, b, idx, inside, dist, cap, scale, "BallView " + w.str(), false, q);
                using BB = B::Ball<T>;
                auto b2  = searcher(ffcl::search::buffer::Unsorted(BB(std::vector<T>(q), radius)));
                judge<T>(ctx, b2, idx, inside, dist, cap, scale, "Ball " + w.str(), false, q);
                if (d == 2) {
                    using B2 = B::Ball<T, 2>;
                    auto b3  = searcher(ffcl::search::buffer::Unsorted(B2(std::array<T, 2>{q[0], q[1]}, radius)));
                    judge<T>(ctx, b3, idx, inside, dist, cap, scale, "Ball<2> " + w.str(), false, q);
                }
                std::vector<ffcl::search::buffer::Unsorted<It, BV>> batch;
                batch.emplace_back(BV(q.begin(), q.end(), radius));
                batch.emplace_back(BV(q.begin(), q.end(), radius));
                auto out = searcher(std::move(batch));
                ctx.check(out.size() == 2, "range-batch", "batch of 2 answered with ", out.size());
                for (auto& o : out)
                    judge<T>(ctx, o, idx, inside, dist, cap, scale, "batch BallView " + w.str(), false, q);
            }
        } else {
            ctx.count("ambiguous_radius_skipped");
        }

        // ---- box
        auto           q2 = pick_query(r, data);
        std::vector<T> lo(d), hi(d);
        const bool     big = r.chance(0.5);
        for (std::size_t f = 0; f < d; ++f) {
            lo[f] = std::min(q[f], q2[f]);
            hi[f] = std::max(q[f], q2[f]);
            if (big && r.chance(0.8)) {
                // the whole extent along most axes
                for (std::size_t i = 0; i < n; ++i) {
                    lo[f] = std::min(lo[f], data.at(i, f));
                    hi[f] = std::max(hi[f], data.at(i, f));
                }
            }
        }
        std::vector<char> inbox(n, 1);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t f = 0; f < d; ++f)
                if (data.at(i, f) < lo[f] || hi[f] < data.at(i, f))
                    inbox[i] = 0;
        {
            using Seg = B::segment::LowerBoundAndUpperBound<T>;
            using Box = B::AABBWithCentroid<Seg>;
            std::vector<Seg> segs;
            for (std::size_t f = 0; f < d; ++f)
                segs.emplace_back(lo[f], hi[f]);
            Box            box(segs);
            std::vector<T> c(box.centroid_begin(), box.centroid_end());
            for (std::size_t f = 0; f < d; ++f) {
                const double mid = (static_cast<double>(lo[f]) + static_cast<double>(hi[f])) / 2;
                ctx.check(near<T>(static_cast<double>(c[f]), std::is_floating_point_v<T> ? mid : std::floor(mid), scale), "range-centre", "of lo=", show(lo), " hi=", show(hi), " is ",
                          show(c));
            }
            for (std::size_t i = 0; i < n; ++i)
                dist[i] = ref_distance(c.data(), &data.v[i * d], d);
            std::string w = "box lo=" + show(lo) + " hi=" + show(hi);
            if (limited) {
                auto b = searcher(ffcl::search::buffer::Unsorted(std::move(box), cap));
                judge<T>(ctx, b, idx, inbox, dist, cap, scale, w, true, c);
            } else {
                std::vector<ffcl::search::buffer::Unsorted<typename Box::IteratorType, Box>> batch;
                for (int i = 0; i < 3; ++i)
                    batch.emplace_back(Box(box));
                auto out = searcher(std::move(batch));
                ctx.check(out.size() == 3, "range-batch", "batch of 3 answered with ", out.size());
                for (auto& o : out)
                    judge<T>(ctx, o, idx, inbox, dist, cap, scale, "batch " + w, false, c);
                auto b = searcher(ffcl::search::buffer::Unsorted(std::move(box)));
                judge<T>(ctx, b, idx, inbox, dist, cap, scale, w, false, c);
                if (d == 2) {
                    using Box2 = B::AABBWithCentroid<Seg, 2>;
                    auto b2    = searcher(ffcl::search::buffer::Unsorted(Box2(std::array<Seg, 2>{segs[0], segs[1]})));
                    judge<T>(ctx, b2, idx, inbox, dist, cap, scale, "fixed " + w, false, c);
                }
            }
        }
        {
            using Seg = B::segment::LowerBoundAndLength<T>;
            using Box = B::AABBWithCentroid<Seg>;
            std::vector<Seg> segs;
            bool             ok = true;
            for (std::size_t f = 0; f < d; ++f) {
                T len = hi[f] - lo[f];
                if constexpr (std::is_floating_point_v<T>) {
                    if (lo[f] + len != hi[f])
                        ok = false;  // rounding moves the border
                    segs.emplace_back(lo[f], len);
                } else {
                    segs.emplace_back(lo[f], static_cast<T>(len + 1));  // an integer length counts cells
                }
            }
            if (ok) {
                Box            box(segs);
                std::vector<T> c(box.centroid_begin(), box.centroid_end());
                for (std::size_t f = 0; f < d; ++f) {
                    const double mid = (static_cast<double>(lo[f]) + static_cast<double>(hi[f])) / 2;
                    ctx.check(near<T>(static_cast<double>(c[f]), std::is_floating_point_v<T> ? mid : std::floor(mid), scale), "range-centre", "of lo=", show(lo), " hi=", show(hi), " is ",
                              show(c));
                }
                for (std::size_t i = 0; i < n; ++i)
                    dist[i] = ref_distance(c.data(), &data.v[i * d], d);
                if (limited) {
                    auto b = searcher(ffcl::search::buffer::Unsorted(std::move(box), cap));
                    judge<T>(ctx, b, idx, inbox, dist, cap, scale, "length-box lo=" + show(lo) + " hi=" + show(hi), true, c);
                } else {
                    auto b = searcher(ffcl::search::buffer::Unsorted(std::move(box)));
                    judge<T>(ctx, b, idx, inbox, dist, idx.size() + 10, scale, "length-box lo=" + show(lo) + " hi=" + show(hi), false, c);
                }
            }
        }
    }
    std::size_t nodes = 0, leaves = 0, depth = 0;
    auto        t2 = make_tree(idx, data, opts);
    tree_shape(t2.root(), 0, nodes, leaves, depth);
    if (depth >= 2)
        ctx.count("trees_depth_ge_2");
    if (nodes > 1)
        ctx.nontrivial(Hasher().addv(data.v).addv(idx).add(opts.bucket).add(opts.policy).h);
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    switch (ctx.index % 10) {
        case 0:
        case 1:
        case 2:
            return one<float>(ctx);
        case 3:
        case 4:
        case 5:
            return one<double>(ctx);
        case 6:
            return one<int>(ctx);
        case 7:
            return one<std::uint32_t>(ctx);
        case 8:
            return one<std::size_t>(ctx);
        default:
            return ctx.index / 10 % 3 == 0 ? one<std::int16_t>(ctx) : one<std::int64_t>(ctx);
    }
}
