// P08: HDBSCAN: condensed hierarchy, excess of mass selection and labels, against a separate implementation working on
// the spanning tree edges.
#include "mst.hpp"

#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"

using namespace vf;

struct RNode {
    int         left = -1, right = -1;
    long double level = 0;
    std::size_t size = 1;
    std::size_t sample = 0;
};

// the hierarchy the library made, copied so that the oracle shares no code with it (P07 judges the hierarchy itself)
template <typename NodePtr>
std::vector<RNode> copy_tree(const NodePtr& root) {
    std::vector<RNode>   out(1);
    std::vector<NodePtr> st{root};
    std::vector<int>     id{0};
    while (!st.empty()) {
        auto n = st.back();
        auto i = id.back();
        st.pop_back();
        id.pop_back();
        out[i].level  = static_cast<long double>(n->level_);
        out[i].sample = n->representative_;
        if (!n->is_leaf()) {
            int l = static_cast<int>(out.size()), rr = l + 1;
            out.resize(out.size() + 2);
            out[i].left = l;
            out[i].right = rr;
            st.push_back(n->left_);
            id.push_back(l);
            st.push_back(n->right_);
            id.push_back(rr);
        }
    }
    for (std::size_t i = out.size(); i-- > 0;)
        if (out[i].left >= 0)
            out[i].size = out[out[i].left].size + out[out[i].right].size;
    return out;
}

struct CNode {
    int         top = 0;  // hierarchy node it starts at
    int         left = -1, right = -1;
    long double birth = 0, stab = 0;
    bool        infinite = false;  // has samples that stay together down to distance 0
    bool        selected = false;
};

struct Ref {
    std::vector<RNode> t;
    std::vector<CNode> c;
    std::size_t        mcs;
    bool               ambiguous = false;
    double             eps;

    void build() {
        c.push_back({});
        std::vector<int> st{0};
        while (!st.empty()) {
            int ci = st.back();
            st.pop_back();
            int cur = c[ci].top;
            while (true) {
                if (t[cur].left < 0)
                    break;
                const int         l = t[cur].left, r = t[cur].right;
                const bool        zero = t[cur].level <= 0;
                const long double lam  = zero ? 0 : 1.0L / t[cur].level;
                auto add = [&](std::size_t m) {
                    if (c[ci].birth < 0)
                        return;  // born at distance 0: nothing can be gained
                    if (zero)
                        c[ci].infinite = true;
                    else
                        c[ci].stab += static_cast<long double>(m) * (lam - c[ci].birth);
                };
                const bool lb = t[l].size >= mcs, rb = t[r].size >= mcs;
                if (lb && rb) {
                    add(t[cur].size);
                    for (int ch : {l, r}) {
                        CNode n;
                        n.top   = ch;
                        n.birth = zero ? -1 : lam;
                        int k   = static_cast<int>(c.size());
                        c.push_back(n);
                        (ch == l ? c[ci].left : c[ci].right) = k;
                        st.push_back(k);
                    }
                    break;
                }
                if (!lb && !rb) {
                    add(t[cur].size);
                    break;
                }
                add(lb ? t[r].size : t[l].size);
                cur = lb ? l : r;
            }
        }
    }
    // returns (infinite?, stability)
    void select(bool leaves, bool allow_single) {
        std::vector<std::pair<long double, bool>> best(c.size());
        for (std::size_t i = c.size(); i-- > 0;) {
            CNode& n = c[i];
            if (n.left < 0) {
                n.selected = true;
                best[i]    = {n.stab, n.infinite};
                continue;
            }
            if (leaves)
                continue;
            const auto  a = best[n.left], b = best[n.right];
            const bool  ci = a.second || b.second;
            const auto  cs = a.first + b.first;
            bool        children;
            if (ci && n.infinite)
                children = false;
            else if (ci != n.infinite)
                children = ci;
            else {
                if (std::fabs(static_cast<double>(cs - n.stab)) <= eps * std::max(std::fabs(static_cast<double>(cs)), std::fabs(static_cast<double>(n.stab))))
                    ambiguous = true;
                children = cs > n.stab;
            }
            if (children)
                best[i] = {cs, ci};
            else {
                n.selected = true;
                best[i]    = {n.stab, n.infinite};
            }
        }
        if (!leaves && !allow_single && c[0].left >= 0)
            c[0].selected = false;
    }
    std::vector<std::size_t> labels(std::size_t n) {
        std::vector<std::size_t> out(n, 0);
        std::size_t              lab = 1;
        std::vector<int>         st{0};
        while (!st.empty()) {
            int i = st.back();
            st.pop_back();
            if (c[i].selected) {
                std::vector<int> q{c[i].top};
                while (!q.empty()) {
                    int u = q.back();
                    q.pop_back();
                    if (t[u].left < 0)
                        out[t[u].sample] = lab;
                    else {
                        q.push_back(t[u].left);
                        q.push_back(t[u].right);
                    }
                }
                ++lab;
            } else {
                st.push_back(c[i].right);
                st.push_back(c[i].left);
            }
        }
        return out;
    }
};

// same partition, noise (0) kept apart
inline bool same_partition(const std::vector<std::size_t>& a, const std::vector<std::size_t>& b) {
    if (a.size() != b.size())
        return false;
    std::map<std::size_t, std::size_t> m, w;
    for (std::size_t i = 0; i < a.size(); ++i) {
        if ((a[i] == 0) != (b[i] == 0))
            return false;
        if (m.emplace(a[i], b[i]).first->second != b[i] || w.emplace(b[i], a[i]).first->second != a[i])
            return false;
    }
    return true;
}

template <typename T>
void one(Ctx& ctx) {
    Rng&        r    = ctx.rng;
    std::size_t n    = pick_n(r, ctx.thorough ? 400 : 160);
    std::size_t d    = pick_d(r, 5);
    auto        data = r.chance(0.4) ? make_data<T>(r, n, d, F_CLUSTERS) : any_data<T>(r, n, d);
    if (r.chance(0.2)) {
        // repeated measurements
        for (std::size_t i = 0; i < n; ++i)
            if (r.chance(0.5)) {
                auto j = static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1));
                std::copy(data.v.begin() + static_cast<long>(j * d), data.v.begin() + static_cast<long>((j + 1) * d), data.v.begin() + static_cast<long>(i * d));
            }
        ctx.count("with_duplicates");
    }
    maybe_rescale(r, data);
    std::vector<std::size_t> idx(n);
    std::iota(idx.begin(), idx.end(), 0);
    auto        opts = pick_tree_opts(r, d);
    std::size_t k    = static_cast<std::size_t>(r.range(1, 6));
    std::size_t mcs  = maybe_large(r, static_cast<std::size_t>(r.chance(0.1) ? r.range(0, 1) : r.range(2, 8)), 0.01);
    bool        leaves = r.chance(0.25), single = r.chance(0.5);
    ctx.desc = data.str() + " k=" + std::to_string(k) + " min_cluster_size=" + std::to_string(mcs) + " leaves=" + std::to_string(leaves) +
               " single=" + std::to_string(single) + " " + opts.str();

    const auto es = r.next();
    seed_engine(es);
    using B    = ffcl::BoruvkasAlgorithm<Tree<T>>;
    auto idx2  = idx;
    auto mst   = B(typename B::Options().k_nearest_neighbors(k)).make_tree(make_tree(idx, data, opts));
    auto slink = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>(mst);

    Ref ref;
    ref.t   = copy_tree(slink.root());
    ref.mcs = mcs;
    ref.eps = std::is_same_v<T, float> ? 1e-3 : 1e-9;
    ref.build();
    ref.select(leaves, single);
    const auto expected = ref.labels(n);

    using C       = ffcl::datastruct::CondensedClusterTree<std::size_t, T>;
    using COpt    = typename C::Options;
    COpt       copt;
    set_unless_default(r, mcs, 1, [&](auto x) { copt = copt.min_cluster_size(x); });
    set_unless_default(r, leaves, false, [&](auto x) { copt.return_leaf_nodes(x); });
    set_unless_default(r, single, false, [&](auto x) { copt.allow_single_cluster(x); });
    const bool plain  = mcs == 1 && !leaves && !single && r.chance(0.5);
    const auto cond   = plain ? std::make_unique<const C>(slink.root()) : std::make_unique<const C>(slink.root(), copt);
    const auto labels = r.chance(0.5) ? cond->predict() : cond->extract_flat_clusters();

    // what the user calls; same steps, same random engine state, hence the same hierarchy
    seed_engine(es);
    using H = ffcl::HDBSCAN<Tree<T>>;
    typename H::Options hopt;
    set_unless_default(r, k, 1, [&](auto x) { hopt.k_nearest_neighbors(x); });
    set_unless_default(r, mcs, 5, [&](auto x) { hopt.min_cluster_size(x); });
    set_unless_default(r, leaves, false, [&](auto x) { hopt.return_leaf_nodes(x); });
    set_unless_default(r, single, true, [&](auto x) { hopt.allow_single_cluster(x); });
    typename H::Options before;
    before.k_nearest_neighbors(static_cast<std::size_t>(r.range(1, 12))).min_cluster_size(static_cast<std::size_t>(r.range(1, 12)));
    before.return_leaf_nodes(r.chance(0.5)).allow_single_cluster(r.chance(0.5));
    const auto h = configured<H>(r, hopt, before, [&](const H& other) {
        auto ids = idx;
        other.predict(make_tree(ids, data, opts));
    });
    seed_engine(es);
    const auto front = h->predict(make_tree(idx2, data, opts));

    std::vector<T> ws;
    for (auto& [a, b, w] : mst)
        ws.push_back(w);
    std::sort(ws.begin(), ws.end());
    const bool distinct = std::adjacent_find(ws.begin(), ws.end()) == ws.end();
    ctx.count(distinct ? "distinct_weights" : "tied_weights");

    for (const auto* lp : {&labels, &front}) {
        const auto& l = *lp;
        const char* w = lp == &labels ? "condensed tree" : "hdbscan";
        ctx.check(l.size() == n, "label-count", w, ": ", l.size(), " labels for ", n, " samples");
        // labels are 0 (noise) and 1..m without holes, every cluster is large enough
        std::size_t m = 0;
        for (auto x : l)
            m = std::max(m, static_cast<std::size_t>(x));
        ctx.check(m <= n, "label-range", w, ": label ", m);
        std::vector<std::size_t> cnt(m + 1, 0);
        for (auto x : l)
            ++cnt[x];
        for (std::size_t x = 1; x <= m; ++x) {
            ctx.check(cnt[x] > 0, "label-hole", w, ": no sample has label ", x, " of ", m);
            ctx.check(cnt[x] >= mcs || (m == 1 && cnt[x] == n), "small-cluster", w, ": cluster of ", cnt[x], " < ", mcs);
        }
        // equal weights leave the order of the merges open: then only the tree built from the very same hierarchy is comparable
        if (!ref.ambiguous && (lp == &labels || distinct))
            ctx.check(same_partition(expected, l), "selection", w, ": labels ", show(l), " expected ", show(expected));
    }
    if (ref.ambiguous)
        ctx.count("ambiguous_stability");
    else
        ctx.count("selections_judged");
    // connected under the threshold: single-linkage clusters are separated by their own gaps. Every cluster is a connected
    // part of the spanning tree.
    {
        RefUF uf(n);
        for (auto& [a, b, w] : mst)
            if (front[a] == front[b])
                uf.merge(a, b);
        std::map<std::size_t, std::size_t> root;
        for (std::size_t i = 0; i < n; ++i)
            if (front[i] != 0 && !root.emplace(front[i], uf.find(i)).second)
                ctx.check(root.at(front[i]) == uf.find(i), "disconnected", "cluster ", front[i], " is not connected in the spanning tree");
    }
    std::size_t nclusters = 0;
    for (auto x : expected)
        nclusters = std::max(nclusters, x);
    if (nclusters >= 2) {
        ctx.count("multi_cluster");
        ctx.nontrivial(Hasher().addv(data.v).add(k).add(mcs).add(leaves).add(single).h);
    }
    ctx.sample(ctx.desc);
}

void vf::run_case(Ctx& ctx) {
    ctx.index % 3 ? one<double>(ctx) : one<float>(ctx);
}
