// P09: DBSCAN: density-connected clusters, borders and noise against a quadratic reference.
#include "mst.hpp"

#include "ffcl/dbscan/DBSCAN.hpp"

using namespace vf;

template <typename T>
void one(Ctx& ctx) {
    Rng&        r    = ctx.rng;
    std::size_t n    = pick_n(r, ctx.thorough ? 500 : 200);
    std::size_t d    = pick_d(r, 5);
    auto        data = r.chance(0.4) ? make_data<T>(r, n, d, F_CLUSTERS) : any_data<T>(r, n, d);
    maybe_rescale(r, data);
    std::vector<std::size_t> idx(n);
    std::iota(idx.begin(), idx.end(), 0);
    if (r.chance(0.3))
        r.shuffle(idx);
    auto opts = pick_tree_opts(r, d);
    seed_engine(r.next());

    std::vector<double> dist(n * n);
    std::vector<double> all;
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) {
            dist[i * n + j] = ref_distance(&data.v[i * d], &data.v[j * d], d);
            if (i < j)
                all.push_back(dist[i * n + j]);
        }
    std::sort(all.begin(), all.end());
    const double scale = coord_scale(data.v);

    for (int rep = 0; rep < 3; ++rep) {
        // a radius that leaves no doubt about who is within
        T radius = 1;
        if (data.exact) {
            radius = static_cast<T>(r.range(1, 12));
            if constexpr (std::is_floating_point_v<T>)
                if (r.chance(0.3))
                    radius = static_cast<T>(static_cast<double>(radius) * 0.5);
        } else {
            bool ok = false;
            for (int tries = 0; tries < 8 && !ok; ++tries) {
                double x = all.empty() ? 1.0 : all[static_cast<std::size_t>(std::pow(r.unit(), 2.5) * static_cast<double>(all.size() - 1))] * r.real(0.9, 1.3);
                if (x <= 0)
                    x = std::max(scale, 1e-6) * 0.01;
                radius = static_cast<T>(x);
                if constexpr (!std::is_floating_point_v<T>) {
                    radius = std::max<T>(radius, 1);
                    ok     = true;
                    break;
                }
                const double m = 4 * (tol_of<T>() * x + tol_of<T>() * 0.1 * scale);
                auto         it = std::lower_bound(all.begin(), all.end(), static_cast<double>(radius) - m);
                ok              = (it == all.end() || *it > static_cast<double>(radius) + m) && static_cast<double>(radius) > m;
            }
            if (!ok) {
                ctx.count("no_clear_radius");
                continue;
            }
        }
        std::size_t ms = maybe_large(r, static_cast<std::size_t>(r.range(0, r.chance(0.8) ? 8 : 30)), 0.02);
        ctx.desc = data.str() + " radius=" + std::to_string(static_cast<double>(radius)) + " min_samples=" + std::to_string(ms) + " " + opts.str();

        using D = ffcl::DBSCAN<Tree<T>>;
        typename D::Options dopt;
        set_unless_default(r, radius, T(0.1), [&](auto x) { dopt.radius(x); });
        set_unless_default(r, ms, 5, [&](auto x) { dopt.min_samples(x); });
        typename D::Options before;
        before.radius(r.chance(0.5) ? radius : static_cast<T>(static_cast<double>(radius) * r.real(0.3, 1))).min_samples(static_cast<std::size_t>(r.range(0, 40)));
        const auto algo = configured<D>(r, dopt, before, [&](const D& other) {
            auto ids = idx;
            other.predict(make_tree(ids, data, opts));
        });
        auto       id2 = idx;
        const auto labels = algo->predict(make_tree(id2, data, opts));
        ctx.check(labels.size() == n, "label-count", labels.size(), " labels for ", n, " samples");

        // reference
        std::vector<char> core(n);
        RefUF             uf(n);
        auto within = [&](std::size_t i, std::size_t j) { return dist[i * n + j] < static_cast<double>(radius); };
        for (std::size_t i = 0; i < n; ++i) {
            std::size_t c = 0;
            for (std::size_t j = 0; j < n; ++j)
                c += within(i, j);
            core[i] = c > ms;
        }
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < i; ++j)
                if (core[i] && core[j] && within(i, j))
                    uf.merge(i, j);
        std::size_t borders = 0, noises = 0;
        std::map<std::size_t, std::size_t> of_comp, of_label;
        for (std::size_t i = 0; i < n; ++i) {
            if (!core[i])
                continue;
            ctx.check(labels[i] != 0, "core-as-noise", "sample ", i, " is in a dense place but labelled noise");
            auto c = uf.find(i);
            const auto l1 = of_comp.emplace(c, labels[i]).first->second;
            ctx.check(l1 == labels[i], "split-cluster", "sample ", i, " has label ", labels[i],
                      " but is density-connected to samples with label ", l1);
            const auto c1 = of_label.emplace(labels[i], c).first->second;
            ctx.check(c1 == c, "merged-clusters", "label ", labels[i], " covers samples ", i, " and ", c1,
                      " that aren't density-connected");
        }
        for (std::size_t i = 0; i < n; ++i) {
            if (core[i])
                continue;
            bool reach = false, mine = false;
            for (std::size_t j = 0; j < n; ++j)
                if (core[j] && within(i, j)) {
                    reach = true;
                    mine |= labels[j] == labels[i];
                }
            if (!reach) {
                ctx.check(labels[i] == 0, "noise-in-cluster", "sample ", i, " is near no dense sample but has label ", labels[i]);
                ++noises;
            } else {
                ++borders;
                ctx.check(labels[i] != 0, "border-as-noise", "sample ", i, " is within reach of a dense sample but labelled noise");
                ctx.check(mine, "border-label", "sample ", i, " has label ", labels[i], " but no dense sample of that cluster is within reach");
            }
        }
        // labels are 1..m without holes
        std::size_t expect = 1;
        for (auto& [l, c] : of_label) {
            ctx.check(l == expect, "label-hole", "labels are not consecutive: ", l, " after ", expect - 1);
            ++expect;
        }
        ctx.count("runs");
        ctx.count("borders", borders);
        ctx.count("noise", noises);
        if (of_label.size() >= 2) {
            ctx.count("multi_cluster");
            ctx.nontrivial(Hasher().addv(data.v).add(radius).add(ms).h);
        }
    }
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    switch (ctx.index % 6) {
        case 0:
        case 1:
            return one<float>(ctx);
        case 5:
            return one<int>(ctx);
        default:
            return one<double>(ctx);
    }
}
