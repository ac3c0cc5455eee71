// P03: searches that exclude visited samples or the query's own component are exact over what remains.
#include "trees.hpp"

#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/UnboundedBall.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"

using namespace vf;
namespace B  = ffcl::datastruct::bounds;
namespace SB = ffcl::search::buffer;

template <typename T, typename Buffer>
void judge(Ctx& ctx, const Buffer& b, const std::vector<std::size_t>& idx, const std::vector<char>& allowed,
           const std::vector<double>& dist, double radius, std::size_t cap, double scale, const std::string& what) {
    std::vector<double> ref;
    std::vector<char>   ok(allowed.size(), 0);
    for (auto i : idx)
        if (allowed[i] && dist[i] < radius) {
            ok[i] = 1;
            ref.push_back(dist[i]);
        }
    std::sort(ref.begin(), ref.end());
    const auto            got  = b.indices();
    const auto            gd   = b.distances();
    const std::size_t     want = std::min(cap, ref.size());
    std::set<std::size_t> gs;
    std::vector<double>   s;
    for (std::size_t k = 0; k < got.size(); ++k) {
        ctx.check(got[k] < allowed.size() && allowed[got[k]], "excluded-returned", what, ": sample ", got[k],
                  " is excluded but was returned");
        ctx.check(ok[got[k]], "excl-outside", what, ": sample ", got[k], " is not indexed or out of range");
        ctx.check(gs.insert(got[k]).second, "excl-duplicate", what, ": sample ", got[k], " returned twice");
        ctx.check(near<T>(static_cast<double>(gd[k]), dist[got[k]], scale), "excl-distance", what, ": distance of ",
                  got[k], " reported ", gd[k], " is ", dist[got[k]]);
        s.push_back(dist[got[k]]);
    }
    ctx.check(got.size() == want && b.size() == want, "excl-missing", what, ": ", got.size(), " returned, expected ",
              want, " of ", ref.size(), " eligible");
    std::sort(s.begin(), s.end());
    for (std::size_t k = 0; k < want; ++k)
        ctx.check(near<T>(s[k], ref[k], scale), "excl-not-nearest", what, ": rank ", k, " is at ", s[k],
                  ", an eligible sample at ", ref[k], " was missed; cap=", cap);
    if (want) {
        ctx.check(near<T>(static_cast<double>(b.closest_distance()), s.front(), scale) && b.closest_index() < dist.size() &&
                      near<T>(dist[b.closest_index()], s.front(), scale),
                  "excl-closest", what, ": closest sample summary wrong");
        ctx.check(near<T>(static_cast<double>(b.furthest_distance()), s.back(), scale) &&
                      near<T>(dist[b.furthest_index()], s.back(), scale),
                  "excl-furthest", what, ": furthest sample summary wrong");
    }
    ctx.count("queries");
    ctx.count("eligible", ref.size());
    if (ref.empty())
        ctx.count("nothing_eligible");
}

template <typename T>
void one(Ctx& ctx) {
    Rng&        r    = ctx.rng;
    std::size_t n    = pick_n(r, ctx.thorough ? 1500 : 300);
    std::size_t d    = sizeof(T) < 4 ? std::min<std::size_t>(pick_d(r), 12) : pick_d(r);  // distances fit the type
    auto        data = any_data<T>(r, n, d);
    maybe_rescale(r, data);
    auto        idx  = pick_indices(r, n, 0.2);
    auto        opts = pick_tree_opts(r, d, n);
    ctx.desc         = data.str() + " indexed=" + std::to_string(idx.size()) + " " + opts.str();
    seed_engine(r.next());
    auto searcher = ffcl::search::Searcher(make_tree(idx, data, opts));
    using It      = typename std::vector<T>::iterator;

    for (int rep = 0; rep < 4; ++rep) {
        auto                q = pick_query(r, data);
        std::vector<double> dist(n);
        for (std::size_t i = 0; i < n; ++i)
            dist[i] = ref_distance(q.data(), &data.v[i * d], d);
        const double scale = std::max(coord_scale(data.v), coord_scale(q));
        std::size_t  k = static_cast<std::size_t>(r.chance(0.5) ? r.range(1, 3) : r.range(1, static_cast<long long>(idx.size()) + 2));
        const double inf = std::numeric_limits<double>::infinity();

        // a radius with no sample near its border
        T    radius = static_cast<T>(dist[static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1))] * 1.3);
        bool usable = true;
        if constexpr (std::is_floating_point_v<T>) {
            for (std::size_t i = 0; i < n; ++i)
                if (std::fabs(dist[i] - static_cast<double>(radius)) <= 4 * (tol_of<T>() * dist[i] + tol_of<T>() * 0.1 * scale))
                    usable = false;
        }

        // ---- visited samples
        std::unordered_set<std::size_t> visited;
        std::vector<char>               allowed(n, 1);
        {
            double p = r.chance(0.2) ? 1.0 : r.unit();
            bool   nearest_first = r.chance(0.4);
            std::vector<std::size_t> order(n);
            std::iota(order.begin(), order.end(), 0);
            if (nearest_first)
                std::sort(order.begin(), order.end(), [&](auto a, auto b) { return dist[a] < dist[b]; });
            else
                r.shuffle(order);
            auto m = static_cast<std::size_t>(p * static_cast<double>(n));
            for (std::size_t i = 0; i < m; ++i) {
                visited.insert(order[i]);
                allowed[order[i]] = 0;
            }
        }
        ctx.count("visited_samples", visited.size());
        std::string tag = " q=" + show(q) + " visited=" + std::to_string(visited.size()) + " k=" + std::to_string(k);
        using WM        = SB::WithMemory<It>;
        using WMB       = SB::WithMemory<It, B::BallView<It>>;
        {
            auto b = searcher(WM(q.begin(), q.end(), visited, k));
            judge<T>(ctx, b, idx, allowed, dist, inf, k, scale, "visited set" + tag);
        }
        {
            auto b = searcher(WM(q.begin(), q.end(), visited));
            judge<T>(ctx, b, idx, allowed, dist, inf, n + 1, scale, "visited set, no capacity" + tag);
        }
#ifndef VF_NO_OWNED
        {
            auto copy = visited;
            auto b    = searcher(WM(q.begin(), q.end(), std::move(copy), k));
            judge<T>(ctx, b, idx, allowed, dist, inf, k, scale, "owned visited set" + tag);
        }
        {
            auto b = searcher(WM(q.begin(), q.end(), visited.begin(), visited.end(), k));
            judge<T>(ctx, b, idx, allowed, dist, inf, k, scale, "visited range" + tag);
        }
#endif
        if (usable) {
            auto b = searcher(WMB(B::BallView<It>(q.begin(), q.end(), radius), visited, k));
            judge<T>(ctx, b, idx, allowed, dist, static_cast<double>(radius), k, scale, "visited set in ball" + tag);
            auto b2 = searcher(WMB(B::BallView<It>(q.begin(), q.end(), radius), visited));
            judge<T>(ctx, b2, idx, allowed, dist, static_cast<double>(radius), n + 1, scale, "visited set in ball, no capacity" + tag);
        }
        {
            // the original is gone when its copy, or what was moved out of it, is asked
            auto copy    = std::make_unique<std::unordered_set<std::size_t>>(visited);
            auto first   = std::make_unique<WM>(q.begin(), q.end(), std::move(*copy), k);
            auto second  = std::make_unique<WM>(*first);
            copy.reset();
            auto third   = std::make_unique<WM>(std::move(*first));
            first.reset();
            auto b = searcher(WM(*second));
            judge<T>(ctx, b, idx, allowed, dist, inf, k, scale, "copied buffer" + tag);
            auto b2 = searcher(std::move(*third));
            judge<T>(ctx, b2, idx, allowed, dist, inf, k, scale, "moved buffer" + tag);
            // a buffer assigned from another one answers as that one
            auto b3 = std::make_unique<WM>(q.begin(), q.end(), 1);
            *b3     = *second;
            second.reset();
            b3->partial_search(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d);
            judge<T>(ctx, *b3, idx, allowed, dist, inf, k, scale, "assigned buffer searched directly" + tag);
            ctx.count("copied_buffers", 3);
        }
        if (usable) {
            auto owned = visited;
            auto b     = searcher(WMB(B::BallView<It>(q.begin(), q.end(), radius), std::move(owned), k));
            judge<T>(ctx, b, idx, allowed, dist, static_cast<double>(radius), k, scale, "owned visited set in ball" + tag);
            auto b2 = searcher(WMB(B::BallView<It>(q.begin(), q.end(), radius), visited.begin(), visited.end()));
            judge<T>(ctx, b2, idx, allowed, dist, static_cast<double>(radius), n + 1, scale, "visited range in ball, no capacity" + tag);
        }
        {
            // candidates handed over one by one, in an order of their own
            auto order = idx;
            r.shuffle(order);
            WM b(q.begin(), q.end(), visited, k);
            for (auto i : order)
                b.update(i, static_cast<typename WM::DistanceType>(dist[i]));
            judge<T>(ctx, b, idx, allowed, dist, inf, k, scale, "visited set, candidates one by one" + tag);
            ctx.count("fed_buffers");
        }
        {
            // nothing excluded
            std::vector<char> all(n, 1);
            auto              b = searcher(WM(q.begin(), q.end(), k));
            judge<T>(ctx, b, idx, all, dist, inf, k, scale, "no memory" + tag);
        }

        // ---- components
        ffcl::datastruct::UnionFind<std::size_t> uf(n);
        std::vector<std::size_t>                 comp(n);
        std::iota(comp.begin(), comp.end(), 0);
        const auto merges = static_cast<std::size_t>(r.range(0, static_cast<long long>(2 * n)));
        for (std::size_t m = 0; m < merges; ++m) {
            auto a = static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1));
            auto b = static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1));
            if (r.chance(0.5))
                b = 0;
            uf.merge(a, b);
            auto ca = comp[a], cb = comp[b];
            if (ca != cb)
                for (auto& c : comp)
                    if (c == cb)
                        c = ca;
        }
        const auto who = static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1));
        std::vector<char> other(n);
        for (std::size_t i = 0; i < n; ++i)
            other[i] = comp[i] != comp[who];
        using WU  = SB::WithUnionFind<It>;
        using WUB = SB::WithUnionFind<It, B::BallView<It>>;
        const std::size_t rep_id = r.chance(0.5) ? uf.find(who) : who;
        std::string       t2     = " q=" + show(q) + " merges=" + std::to_string(merges) + " k=" + std::to_string(k);
        {
            auto b = searcher(WU(q.begin(), q.end(), uf, uf.find(who), k));
            judge<T>(ctx, b, idx, other, dist, inf, k, scale, "other components" + t2);
        }
        {
            auto b = searcher(WU(q.begin(), q.end(), uf, rep_id));
            judge<T>(ctx, b, idx, other, dist, inf, n + 1, scale, "other components, no capacity" + t2);
        }
        if (usable) {
            auto b = searcher(WUB(B::BallView<It>(q.begin(), q.end(), radius), uf, uf.find(who), k));
            judge<T>(ctx, b, idx, other, dist, static_cast<double>(radius), k, scale, "other components in ball" + t2);
        }
        {
            auto order = idx;
            r.shuffle(order);
            auto b = std::make_unique<WU>(q.begin(), q.end(), uf, rep_id, k);
            for (std::size_t i = 0; i < order.size(); ++i) {
                if (i == order.size() / 2) {
                    auto moved = std::make_unique<WU>(std::move(*b));
                    b          = std::move(moved);
                }
                b->update(order[i], static_cast<typename WU::DistanceType>(dist[order[i]]));
            }
            judge<T>(ctx, *b, idx, other, dist, inf, k, scale, "other components, candidates one by one" + t2);
            WU c(q.begin(), q.end(), uf, rep_id, k);
            c.partial_search(idx.begin(), idx.end(), data.v.begin(), data.v.end(), d);
            judge<T>(ctx, c, idx, other, dist, inf, k, scale, "other components, searched directly" + t2);
        }
        if (std::count(other.begin(), other.end(), 1) > 0 && std::count(other.begin(), other.end(), 0) > 0)
            ctx.count("mixed_components");
    }
    std::size_t nodes = 0, leaves = 0, depth = 0;
    auto        t2 = make_tree(idx, data, opts);
    tree_shape(t2.root(), 0, nodes, leaves, depth);
    if (nodes > 1)
        ctx.nontrivial(Hasher().addv(data.v).addv(idx).add(opts.bucket).add(opts.policy).h);
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    switch (ctx.index % 7) {
        case 0:
        case 1:
            return one<float>(ctx);
        case 2:
        case 3:
        case 4:
            return one<double>(ctx);
        case 5:
            return one<std::uint32_t>(ctx);
        default:
            return ctx.index / 7 % 3 == 0 ? one<std::int16_t>(ctx) : one<int>(ctx);
    }
}
