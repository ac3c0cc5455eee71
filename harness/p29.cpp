// P29: answers do not depend on how samples and indices are stored.
#include "ops.hpp"

#include <deque>

using namespace vf;

namespace {

// samples in pieces all over the memory
struct Pieces {
    template <typename T>
    using Vec = std::deque<T>;
    template <typename T>
    static Vec<T> of(const std::vector<T>& v) {
        Vec<T> o;
        // the first piece starts anywhere
        for (std::size_t i = 0; i < v.size() % 37; ++i)
            o.push_back(T{});
        for (auto x : v)
            o.push_back(x);
        for (std::size_t i = 0; i < v.size() % 37; ++i)
            o.pop_front();
        return o;
    }
    template <typename T>
    struct Guard {
        Guard(Vec<T>&, const char*) {}
    };
};

// a part of a larger sequence whose other elements are none of the callee's business
template <typename T, typename Iter>
class Part {
    std::vector<T>       all_;
    std::size_t          first_ = 0, size_ = 0;
    static constexpr int kAround = 70;

  public:
    using iterator = Iter;
    Part()         = default;
    explicit Part(const std::vector<T>& v) {
        // values that would win every comparison if they were looked at
        for (int i = 0; i < kAround; ++i)
            all_.push_back(other(v, i));
        first_ = all_.size();
        size_  = v.size();
        all_.insert(all_.end(), v.begin(), v.end());
        for (int i = 0; i < kAround; ++i)
            all_.push_back(other(v, i));
    }
    static T other(const std::vector<T>& v, int i) {
        if (v.empty())
            return T{};
        switch (i % 3) {
        case 0: return v[static_cast<std::size_t>(i) % v.size()];
        case 1: return *std::max_element(v.begin(), v.end());
        default: return *std::min_element(v.begin(), v.end());
        }
    }
    Iter begin() {
        return all_.begin() + static_cast<std::ptrdiff_t>(first_);
    }
    Iter end() { return begin() + static_cast<std::ptrdiff_t>(size_); }
    auto begin() const { return all_.begin() + static_cast<std::ptrdiff_t>(first_); }
    auto end() const { return begin() + static_cast<std::ptrdiff_t>(size_); }
    std::size_t size() const { return size_; }
    bool        empty() const { return size_ == 0; }
    T&          operator[](std::size_t i) { return all_[first_ + i]; }
    bool        untouched(const Part& was) const {
        for (std::size_t i = 0; i < all_.size(); ++i)
            if ((i < first_ || i >= first_ + size_) && std::memcmp(&all_[i], &was.all_[i], sizeof(T)) != 0)
                return false;
        return true;
    }
};

bool g_touched = false;

template <bool Const>
struct Parts {
    template <typename T>
    using Iter = std::conditional_t<Const && !std::is_same_v<T, std::size_t>, typename std::vector<T>::const_iterator, typename std::vector<T>::iterator>;
    template <typename T>
    using Vec = Part<T, Iter<T>>;
    template <typename T>
    static Vec<T> of(const std::vector<T>& v) {
        return Vec<T>(v);
    }
    template <typename T>
    struct Guard {
        Vec<T>& now;
        Vec<T>  was;
        Guard(Vec<T>& v, const char*)
          : now(v)
          , was(v) {}
        ~Guard() { g_touched = g_touched || !now.untouched(was); }
    };
};

// the operations that take any type of index
template <typename T, typename I>
ops::Bytes with_indices(const ops::Case<T>& c) {
    namespace SB = ffcl::search::buffer;
    namespace A  = ffcl::common::algorithms;
    namespace S  = ffcl::common::math::statistics;
    namespace R  = ffcl::common::math::random;
    namespace P  = ffcl::datastruct::kdtree::policy;
    using II     = typename std::vector<I>::iterator;
    using It     = typename std::vector<T>::iterator;
    using Tr     = ffcl::datastruct::KDTree<II, It>;
    ops::Bytes     out;
    std::vector<T> v = c.data.v, q = c.q;
    std::vector<I> idx(c.idx.begin(), c.idx.end()), labels(c.labels.begin(), c.labels.end());
    auto           put = [&](const auto& s) {
        for (auto x : s) {
            if constexpr (std::is_integral_v<std::decay_t<decltype(x)>>)
                out.push_back(static_cast<std::uint64_t>(x));
            else {
                std::uint64_t b = 0;
                std::memcpy(&b, &x, sizeof x);
                out.push_back(b);
            }
        }
        out.push_back(0xabcdef);
    };
    seed_engine(c.engine);
    const std::size_t f = c.k % c.d;
    if (c.what % 4 == 0) {
        auto i1 = idx, i2 = idx, i3 = idx;
        A::quicksort(i1.begin(), i1.end(), v.begin(), v.end(), c.d, c.k % idx.size(), f);
        A::quickselect(i2.begin(), i2.end(), v.begin(), v.end(), c.d, c.k % idx.size(), f);
        put(i1);
        put(i2);
        put(R::select_n_elements(idx.begin(), idx.end(), c.k % (idx.size() + 1)));
        put(R::select_n_random_samples_from_indices(idx.begin(), idx.end(), v.begin(), v.end(), c.d, c.k));
        put(S::compute_mean_per_feature(idx.begin(), idx.end(), v.begin(), v.end(), c.d));
        if (idx.size() > 1)
            put(S::compute_variance_per_feature(idx.begin(), idx.end(), v.begin(), v.end(), c.d));
        const auto box = ffcl::datastruct::make_tight_bound(idx.begin(), idx.end(), v.begin(), v.end(), c.d);
        for (std::size_t j = 0; j < c.d; ++j)
            put(std::vector<T>{box.segment_at(j).lower_bound(), box.segment_at(j).upper_bound()});
        if constexpr (std::is_floating_point_v<T>)
            if (c.n > 2)
                put(ffcl::common::math::heuristics::silhouette(v.begin(), v.end(), c.d, labels.begin(), labels.end()));
        return out;
    }
    typename Tr::Options opt;
    if (!c.opts.defaults) {
        opt.bucket_size(c.opts.bucket).max_depth(c.opts.max_depth);
        auto mask = c.opts.mask;
        auto with = [&](auto p) {
            if (!mask.empty())
                p.feature_mask(mask);
            opt.axis_selection_policy(p);
        };
        if (c.opts.policy == 0)
            with(P::CycleThroughAxesBuild<II, It>());
        else if (c.opts.policy == 2)
            with(P::MaximumSpreadBuild<II, It>());
        else
            with(P::HighestVarianceBuild<II, It>().sampling_rate(c.opts.rate));
        opt.splitting_rule_policy(P::QuickselectMedianRange<II, It>());
    }
    Tr tree(idx.begin(), idx.end(), v.begin(), v.end(), c.d, opt);
    put(idx);
    if (c.what % 4 == 1 && c.idx.size() == c.n) {
        using D = ffcl::DBSCAN<Tr>;
        put(D(typename D::Options().radius(c.radius).min_samples(c.k % 5)).predict(Tr(tree)));
        return out;
    }
    const ffcl::search::Searcher s(tree);
    using BV  = ffcl::datastruct::bounds::BallView<It>;
    auto take = [&](const auto& b) {
        put(b.indices());
        put(b.distances());
    };
    take(s(SB::Unsorted<It>(q.begin(), q.end(), c.k)));
    take(s(SB::Unsorted<It>(q.begin(), q.end())));
    take(s(SB::Unsorted(BV(q.begin(), q.end(), c.radius), c.k)));
    const std::unordered_set<std::size_t> visited(c.visited.begin(), c.visited.end());
    take(s(SB::WithMemory<It>(q.begin(), q.end(), visited, c.k)));
    return out;
}

template <typename T>
void one(Ctx& ctx) {
    Rng&       r    = ctx.rng;
    const auto n    = std::max<std::size_t>(1, pick_n(r, 120)), d = pick_d(r, 6);
    const auto what = r.range(0, ops::kOperations - 1);
    const auto c    = ops::make_case<T>(r, n, d, what);
    ctx.desc        = c.data.str() + " " + c.opts.str() + " operation " + std::to_string(what);
    const auto ref  = ops::run<ops::Plain>(ctx, c);
    g_touched       = false;
    const int  how  = static_cast<int>(r.range(0, 2));
    static const char* const name[] = {"in pieces", "in a part of a sequence", "that are read only"};
    const auto got  = how == 0 ? ops::run<Pieces>(ctx, c) : how == 1 ? ops::run<Parts<false>>(ctx, c) : ops::run<Parts<true>>(ctx, c);
    ctx.check(got == ref, "storage", "operation ", what, " on samples ", name[how], " answers something else");
    ctx.check(!g_touched, "around-written", "operation ", what, " wrote outside of the range it was given");
    ctx.count("storages");
    const auto ri   = with_indices<T, std::size_t>(c);
    const int  type = static_cast<int>(r.range(0, 4));
    const auto gi   = type == 0                 ? with_indices<T, int>(c)
                      : type == 1               ? with_indices<T, std::uint32_t>(c)
                      : type == 2               ? with_indices<T, long long>(c)
                      : type == 3 && n <= 65535 ? with_indices<T, std::uint16_t>(c)
                      : n <= 255                ? with_indices<T, std::uint8_t>(c)
                                                : with_indices<T, std::int16_t>(c);
    ctx.check(gi == ri, "index-type", "the answers with indices of type ", type, " are others");
    ctx.count("index_types");
    Hasher h;
    h.addv(c.data.v).addv(c.idx).add(what).add(how).add(type);
    if (n > 2)
        ctx.nontrivial(h.h);
    ctx.sample(ctx.desc + " " + name[how]);
}

}  // namespace

void vf::run_case(Ctx& ctx) {
    const auto u = ctx.rng.range(0, 9);
    if (u < 5)
        one<double>(ctx);
    else if (u < 8)
        one<float>(ctx);
    else
        one<int>(ctx);
}
