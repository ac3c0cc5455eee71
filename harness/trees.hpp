// kd-trees over random subsets with random build options.
#pragma once
#include <memory>
#include "common.hpp"

#include "ffcl/common/math/random/Distributions.hpp"
#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"

namespace vf {

template <typename T>
using IdxIt = std::vector<std::size_t>::iterator;
template <typename T>
using DatIt = typename std::vector<T>::iterator;

template <typename T>
using Tree = ffcl::datastruct::KDTree<std::vector<std::size_t>::iterator, typename std::vector<T>::iterator>;

inline void seed_engine(std::uint64_t s) {
    ffcl::common::math::random::thread_local_mersenne_engine().seed(static_cast<std::uint32_t>(s));
}

// the same configuration, given in one of the ways a user may give it
// (including objects that were set up, and used, for something else before)
template <typename A, typename Use>
std::unique_ptr<A> configured(Rng& r, const typename A::Options& o, const typename A::Options& before, const Use& use) {
    switch (r.range(0, 4)) {
        case 3: {
            auto a = std::make_unique<A>(before);
            if (r.chance(0.3))
                use(*a);
            a->set_options(o);
            return a;
        }
        case 4:
            if constexpr (std::is_copy_constructible_v<A>) {
                auto       a = std::make_unique<A>(o);
                const auto b = std::make_unique<A>(*a);
                a->set_options(before);
                return std::make_unique<A>(*b);
            }
            [[fallthrough]];
        case 0:
            return std::make_unique<A>(o);
        case 1: {
            typename A::Options assigned;
            assigned = o;
            return std::make_unique<A>(assigned);
        }
        default: {
            auto a = std::make_unique<A>();
            a->set_options(o);
            return a;
        }
    }
}

struct TreeOpts {
    std::size_t              bucket    = 5;
    std::size_t              max_depth = 0;  // SIZE_MAX-like: unlimited
    int                      policy    = 0;
    double                   rate      = 0.1;
    std::vector<std::size_t> mask;
    bool                     by_move  = false;  // hand the mask over instead of letting it be copied
    bool                     defaults = false;  // library defaults, nothing set
    std::string              str() const {
        std::ostringstream os;
        os << "bucket=" << bucket << " max_depth=" << max_depth << " policy=" << policy << " rate=" << rate
           << " mask=" << mask.size() << " defaults=" << defaults;
        return os.str();
    }
};

constexpr std::size_t kDeep = 1000;

inline TreeOpts pick_tree_opts(Rng& r, std::size_t n_features, std::size_t n = 0) {
    TreeOpts o;
    if (r.chance(0.05))
        o.defaults = true;
    static const std::size_t buckets[] = {1, 1, 2, 3, 5, 8, 20, 40, 100};
    o.bucket                           = maybe_large(r, buckets[r.range(0, 8)], 0.03);
    o.max_depth                        = r.chance(0.8) ? kDeep : maybe_large(r, static_cast<std::size_t>(r.range(0, 6)), 0.1);
    o.policy                           = static_cast<int>(r.range(0, 2));
    static const double rates[]        = {0.1, 0.1, 0.0, 1.0, 0.5};
    o.rate                             = rates[r.range(0, 4)];
    if (r.chance(0.25)) {
        for (std::size_t f = 0; f < n_features; ++f)
            if (r.chance(0.5))
                o.mask.push_back(f);
        r.shuffle(o.mask);
        o.by_move = r.chance(0.5);
    }
    if (n > 1000)  // deep indexes of equal values take time that grows with samples x depth
        o.max_depth = std::min<std::size_t>(o.max_depth, 40);
    return o;
}

template <typename T>
typename Tree<T>::Options make_options(const TreeOpts& o) {
    using I  = std::vector<std::size_t>::iterator;
    using S  = typename std::vector<T>::iterator;
    namespace P = ffcl::datastruct::kdtree::policy;
    typename Tree<T>::Options opt;
    if (o.defaults)
        return opt;
    opt.bucket_size(o.bucket).max_depth(o.max_depth);
    if (o.policy == 0) {
        auto p = P::CycleThroughAxesBuild<I, S>();
        if (!o.mask.empty())
            o.by_move ? p.feature_mask(std::vector<std::size_t>(o.mask)) : p.feature_mask(o.mask);
        opt.axis_selection_policy(p);
    } else if (o.policy == 1) {
        auto p = P::HighestVarianceBuild<I, S>();
        p.sampling_rate(o.rate);
        if (!o.mask.empty())
            o.by_move ? p.feature_mask(std::vector<std::size_t>(o.mask)) : p.feature_mask(o.mask);
        opt.axis_selection_policy(p);
    } else {
        auto p = P::MaximumSpreadBuild<I, S>();
        if (!o.mask.empty())
            o.by_move ? p.feature_mask(std::vector<std::size_t>(o.mask)) : p.feature_mask(o.mask);
        opt.axis_selection_policy(p);
    }
    opt.splitting_rule_policy(P::QuickselectMedianRange<I, S>());
    return opt;
}

template <typename T>
Tree<T> make_tree(std::vector<std::size_t>& idx, Data<T>& data, const TreeOpts& o) {
    auto opts = o;
    if (data.family >= 200 && opts.policy == 1)  // no sum of the values, and no variance, is representable
        opts.policy = 0;
    return Tree<T>(idx.begin(), idx.end(), data.v.begin(), data.v.end(), data.d, make_options<T>(opts));
}

// a query point: a sample, a point near the data, a grid point or an outsider
template <typename T>
std::vector<T> pick_query(Rng& r, const Data<T>& data) {
    std::vector<T> q(data.d);
    const auto     i = static_cast<std::size_t>(r.range(0, static_cast<long long>(data.n) - 1));
    const double   u = r.unit();
    const double   unit = data.family >= 100 && data.family < 200 ? coord_scale(data.v) / 16 : 1.0;
    for (std::size_t f = 0; f < data.d; ++f) {
        double x = static_cast<double>(data.at(i, f));
        if (u < 0.35) {
        } else if (u < 0.7) {
            x = static_cast<double>(data.at(static_cast<std::size_t>(r.range(0, static_cast<long long>(data.n) - 1)), f));
        } else if (u < 0.85) {
            x += unit * static_cast<double>(r.range(-3, 3));
        } else if (u < 0.95) {
            x += data.exact ? static_cast<double>(r.range(-6, 6)) : unit * r.real(-5, 5);
        } else {
            x += data.exact ? static_cast<double>(r.range(-100, 100)) : unit * r.real(-500, 500);
        }
        if constexpr (std::is_unsigned_v<T>)
            x = std::fabs(x);
        if constexpr (!std::is_floating_point_v<T>) {
            if (sizeof(T) > 4 || data.family < 200)
                x = std::clamp(x, static_cast<double>(std::numeric_limits<T>::lowest()) / 2,
                               static_cast<double>(std::numeric_limits<T>::max()) / 2);
            else
                x = std::clamp(x, static_cast<double>(std::numeric_limits<T>::lowest()) + 8,
                               static_cast<double>(std::numeric_limits<T>::max()) - 8);
            q[f] = static_cast<T>(std::llround(x));
        } else {
            q[f] = static_cast<T>(x);
        }
    }
    return q;
}

// nodes actually reached, for coverage
template <typename NodePtr>
void tree_shape(const NodePtr& node, std::size_t depth, std::size_t& nodes, std::size_t& leaves, std::size_t& maxdepth) {
    if (!node)
        return;
    ++nodes;
    maxdepth = std::max(maxdepth, depth);
    if (node->is_leaf())
        ++leaves;
    tree_shape(node->left_, depth + 1, nodes, leaves, maxdepth);
    tree_shape(node->right_, depth + 1, nodes, leaves, maxdepth);
}

// what a buffer says about itself is what it holds
template <typename Buffer, typename T>
void buffer_accessors(Ctx& ctx, const Buffer& b, std::size_t capacity, bool limited, const std::vector<T>& centre, bool centre_known, const std::string& what) {
    const auto idx  = b.indices();
    const auto dist = b.distances();
    ctx.check(idx.size() == dist.size() && b.size() == idx.size() && b.empty() == idx.empty(), "buffer-size", what, ": size() ", b.size(), " of ", idx.size(), " indices and ",
              dist.size(), " distances");
    if (limited)
        ctx.check(b.max_capacity() == capacity && b.remaining_capacity() == capacity - idx.size(), "buffer-capacity", what, ": room for ", b.remaining_capacity(), " of ",
                  b.max_capacity(), " with ", idx.size(), " of ", capacity, " taken");
    else
        ctx.check(b.remaining_capacity() > 0, "buffer-capacity", what, ": an unlimited buffer is full");
    ctx.check(b.indices_const_ref() == idx && b.distances_const_ref() == dist, "buffer-reference", what, ": the references show something else than the copies");
    if (centre_known)
        ctx.check(std::equal(b.centroid_begin(), b.centroid_end(), centre.begin(), centre.end()), "buffer-centre", what, ": the centre is not the query");
    if (!idx.empty())
        ctx.check(b.furthest_distance(0) == b.furthest_distance() && b.furthest_distance(centre.size() - 1) == b.furthest_distance(), "buffer-furthest", what, ": depends on the feature");
    Buffer     c1(b), c2(b);
    const auto mi = std::move(c1).move_indices();
    const auto md = std::move(c2).move_distances();
    ctx.check(mi == idx && md == dist, "buffer-moved", what, ": moved out of the buffer is something else than what is in it");
    ctx.count("buffers_inspected");
}

}  // namespace vf
