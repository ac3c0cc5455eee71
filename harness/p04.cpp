// P04: a kd-tree partitions exactly the indexed samples, orders them around its cuts, encloses them, respects its
// options, and leaves the samples alone.
#include "trees.hpp"

using namespace vf;

template <typename T>
struct Walk {
    Ctx&                      ctx;
    const Data<T>&            data;
    const TreeOpts&           opts;
    bool                      distinct;  // every axis has distinct values among the indexed samples
    std::vector<std::size_t>  all;
    std::size_t               internal = 0, leaves = 0, max_depth = 0, pivot_ties = 0;

    template <typename NodePtr>
    std::vector<std::size_t> go(const NodePtr& node, std::size_t depth) {
        max_depth = std::max(max_depth, depth);
        std::vector<std::size_t> mine(node->indices_range_.first, node->indices_range_.second);
        ctx.check(node->n_samples() == mine.size() && node->is_empty() == mine.empty(), "node-size",
                  "node reports ", node->n_samples(), " samples for ", mine.size());
        ctx.check(depth <= opts.max_depth, "max-depth", "node at depth ", depth, " beyond the limit ", opts.max_depth);
        ctx.check(static_cast<bool>(node->left_) == static_cast<bool>(node->right_), "one-child",
                  "a node has exactly one child");
        ctx.check(node->is_leaf() == !node->left_ && node->has_children() == static_cast<bool>(node->left_), "leaf-flag",
                  "is_leaf/has_children disagree with the children");
        ctx.check(node->begin() == node->indices_range_.first && node->end() == node->indices_range_.second, "node-range", "begin()/end() are not the node's samples");
        ctx.check(node->has_parent() == (depth > 0), "has-parent", "a node at depth ", depth, node->has_parent() ? " has" : " has no", " parent");
        if constexpr (std::is_floating_point_v<T>) {
            double diag = 0;
            for (std::size_t f = 0; f < data.d; ++f) {
                const double e = static_cast<double>(node->bound_.segment_at(f).upper_bound()) - static_cast<double>(node->bound_.segment_at(f).lower_bound());
                diag += e * e;
            }
            ctx.check(std::fabs(static_cast<double>(node->diameter()) - std::sqrt(diag)) <= tol_of<T>() * (std::sqrt(diag) + 1e-30), "node-diameter", node->diameter(), " instead of ",
                      std::sqrt(diag));
        }
        std::vector<std::size_t> sub = mine;
        if (node->is_leaf()) {
            ++leaves;
            ctx.check(mine.size() <= opts.bucket || depth == opts.max_depth, "bucket-size", "leaf of ", mine.size(),
                      " samples at depth ", depth, ", bucket size ", opts.bucket, ", depth limit ", opts.max_depth);
            ctx.check(node->cut_axis_feature_index_ == -1, "leaf-axis", "a leaf has a cut axis ",
                      node->cut_axis_feature_index_);
        } else {
            ++internal;
            ctx.check(mine.size() == 1, "pivot", "an inner node holds ", mine.size(), " samples");
            const auto axis = node->cut_axis_feature_index_;
            ctx.check(axis >= 0 && static_cast<std::size_t>(axis) < data.d, "axis", "cut axis ", axis);
            const auto a = static_cast<std::size_t>(axis);
            ctx.check(node->left_->parent_.lock() == node && node->right_->parent_.lock() == node, "parent",
                      "a child does not know its parent");
            auto L = go(node->left_, depth + 1);
            auto R = go(node->right_, depth + 1);
            const auto pv = data.at(mine[0], a);
            for (auto i : L) {
                ctx.check(!(pv < data.at(i, a)), "left-order", "sample ", i, " in the left subtree lies right of the cut");
                if (data.at(i, a) == pv)
                    ++pivot_ties;
            }
            for (auto i : R)
                ctx.check(!(data.at(i, a) < pv), "right-order", "sample ", i, " in the right subtree lies left of the cut");
            if (distinct) {
                const auto hi = std::max(L.size(), R.size()), lo = std::min(L.size(), R.size());
                ctx.check(hi - lo <= 1, "balance", "distinct values split ", L.size(), " / ", R.size());
                ctx.count("balanced_splits");
            }
            ctx.check(L.size() + R.size() + 1 > opts.bucket, "needless-split", "a node of ", L.size() + R.size() + 1,
                      " samples was split, bucket size ", opts.bucket);
            sub.insert(sub.end(), L.begin(), L.end());
            sub.insert(sub.end(), R.begin(), R.end());
        }
        // the node's box encloses all its samples
        for (auto i : sub)
            for (std::size_t f = 0; f < data.d; ++f) {
                const auto& s = node->bound_.segment_at(f);
                ctx.check(!(data.at(i, f) < s.lower_bound()) && !(s.upper_bound() < data.at(i, f)), "bound",
                          "sample ", i, " feature ", f, " value ", +data.at(i, f), " outside the node's box [", +s.lower_bound(),
                          ",", +s.upper_bound(), "]");
            }
        return sub;
    }
};

template <typename T>
void one(Ctx& ctx) {
    Rng&        r    = ctx.rng;
    std::size_t n    = pick_n(r, ctx.thorough ? 1500 : 500);
    std::size_t d    = pick_d(r);
    auto        data = any_data<T>(r, n, d);
    maybe_rescale(r, data);
    auto idx  = pick_indices(r, n);
    auto opts = pick_tree_opts(r, d, n);
    opts.defaults = false;
    ctx.desc  = data.str() + " indexed=" + std::to_string(idx.size()) + " " + opts.str();
    auto set0 = idx;
    std::sort(set0.begin(), set0.end());
    const auto before = data.v;
    bool       distinct = true;
    for (std::size_t f = 0; f < d && distinct; ++f) {
        std::set<T> s;
        for (auto i : idx)
            s.insert(data.at(i, f));
        distinct = s.size() == idx.size();
    }
    seed_engine(r.next());
    auto tree = make_tree(idx, data, opts);
    ctx.check(data.v == before, "data-modified", "building the tree modified the samples");
    auto now = idx;
    std::sort(now.begin(), now.end());
    ctx.check(now == set0, "not-permutation", "building the tree changed the set of indices");

    auto inspect = [&](const Tree<T>& t, const char* what) {
        ctx.check(t.n_features() == d, "n-features", what);
        ctx.check(t.begin() == data.v.begin() && t.end() == data.v.end() && t.cbegin() == data.v.begin(), "range", what,
                  ": dataset range lost");
        for (std::size_t i = 0; i < n; ++i) {
            ctx.check(t[i] == data.v.begin() + static_cast<std::ptrdiff_t>(i * d) &&
                          t.features_range_first(i) == data.v.begin() + static_cast<std::ptrdiff_t>(i * d) &&
                          t.features_range_last(i) == data.v.begin() + static_cast<std::ptrdiff_t>((i + 1) * d),
                      "row-access", what, ": row ", i);
        }
        ctx.check(!t.root()->has_parent(), "root-parent", what);
        Walk<T> w{ctx, data, opts, distinct, {}};
        auto    got = w.go(t.root(), 0);
        std::sort(got.begin(), got.end());
        ctx.check(got == set0, "partition", what, ": the nodes hold ", got.size(), " samples of ", set0.size(),
                  " or a different set");
        ctx.count("inner_nodes", w.internal);
        ctx.count("leaves", w.leaves);
        ctx.count("values_equal_to_pivot_left", w.pivot_ties);
        return w.internal;
    };
    auto inner = inspect(tree, "tree");
    // the root's box is tight around the indexed samples
    for (std::size_t f = 0; f < d; ++f) {
        T lo = data.at(idx[0], f), hi = lo;
        for (auto i : idx) {
            lo = std::min(lo, data.at(i, f));
            hi = std::max(hi, data.at(i, f));
        }
        const auto& s = tree.root()->bound_.segment_at(f);
        ctx.check(s.lower_bound() == lo && s.upper_bound() == hi, "tight-root", "feature ", f, " box [", +s.lower_bound(), ",",
                  +s.upper_bound(), "] for data in [", +lo, ",", +hi, "]");
    }
    {
        Tree<T> copy(tree);
        inspect(copy, "copied tree");
        Tree<T> moved(std::move(copy));
        inspect(moved, "moved tree");
    }
    if (opts.policy == 0 && inner) {
        // cycling policy: the axis depends on the depth only
        std::function<void(const typename Tree<T>::NodePtr&, std::size_t)> rec = [&](const auto& nd, std::size_t dep) {
            if (nd->is_leaf())
                return;
            const auto want = opts.mask.empty() ? dep % d : opts.mask[dep % opts.mask.size()];
            ctx.check(static_cast<std::size_t>(nd->cut_axis_feature_index_) == want, "cycle-axis", "depth ", dep,
                      " cuts axis ", nd->cut_axis_feature_index_, " expected ", want);
            rec(nd->left_, dep + 1);
            rec(nd->right_, dep + 1);
        };
        rec(tree.root(), 0);
        ctx.count("cycling_trees");
    }
    if (!opts.mask.empty() && !opts.defaults && inner) {
        // whatever the policy, only the features of the mask are cut
        std::function<void(const typename Tree<T>::NodePtr&)> rec = [&](const auto& nd) {
            if (nd->is_leaf())
                return;
            ctx.check(std::find(opts.mask.begin(), opts.mask.end(), static_cast<std::size_t>(nd->cut_axis_feature_index_)) != opts.mask.end(),
                      "axis-outside-mask", "cut axis ", nd->cut_axis_feature_index_, " isn't among ", show(opts.mask));
            rec(nd->left_);
            rec(nd->right_);
        };
        rec(tree.root());
        ctx.count("masked_trees");
    }
    if (opts.policy == 2 && inner) {
        // widest side of the node's box
        std::function<void(const typename Tree<T>::NodePtr&)> rec = [&](const auto& nd) {
            if (nd->is_leaf())
                return;
            double best = 0, got = 0;
            auto   width = [&](std::size_t f) {
                return static_cast<double>(nd->bound_.segment_at(f).upper_bound()) -
                       static_cast<double>(nd->bound_.segment_at(f).lower_bound());
            };
            if (opts.mask.empty())
                for (std::size_t f = 0; f < d; ++f)
                    best = std::max(best, width(f));
            else
                for (auto f : opts.mask)
                    best = std::max(best, width(f));
            got = width(static_cast<std::size_t>(nd->cut_axis_feature_index_));
            ctx.check(got >= best - 1e-6 * std::fabs(best) - 1e-6 * coord_scale(data.v) || best == 0, "widest-axis", "cut axis ",
                      nd->cut_axis_feature_index_, " is ", got, " wide, the widest is ", best);
            rec(nd->left_);
            rec(nd->right_);
        };
        rec(tree.root());
        ctx.count("spread_trees");
    }
    if (inner)
        ctx.nontrivial(Hasher().addv(data.v).addv(set0).add(opts.bucket).add(opts.policy).add(opts.max_depth).h);
    ctx.sample(ctx.desc + " inner=" + std::to_string(inner));
}

void vf::run_case(Ctx& ctx) {
    switch (ctx.index % 8) {
        case 0:
        case 1:
        case 2:
            return one<float>(ctx);
        case 3:
        case 4:
        case 5:
            return one<double>(ctx);
        case 6:
            return one<int>(ctx);
        default:
            return ctx.index / 8 % 3 == 0 ? one<std::int16_t>(ctx) : ctx.index / 8 % 3 == 1 ? one<std::uint8_t>(ctx) : one<std::size_t>(ctx);
    }
}
