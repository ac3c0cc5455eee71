// P23: the file written by serialize() describes the index / the hierarchy: read back with a reader of our own.
#include "trees.hpp"

#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"

#include <cstdlib>
#include <fstream>
#include <unistd.h>

using namespace vf;

namespace {

// ---- a strict JSON reader
struct Json {
    enum Kind { Null, Number, Text, Array, Object, Bool } kind = Null;
    double                                    num = 0;
    bool                                      integral = false;
    long long                                 i64 = 0;
    std::string                               text;
    std::vector<Json>                         items;
    std::vector<std::pair<std::string, Json>> fields;
};
struct Reader {
    const std::string& s;
    std::size_t        p = 0;
    bool               ok = true;
    void ws() {
        while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r'))
            ++p;
    }
    std::string str() {
        std::string o;
        if (p >= s.size() || s[p] != '"') {
            ok = false;
            return o;
        }
        ++p;
        while (p < s.size() && s[p] != '"') {
            if (s[p] == '\\') {
                ++p;
                if (p >= s.size())
                    break;
            }
            o += s[p++];
        }
        if (p >= s.size())
            ok = false;
        else
            ++p;
        return o;
    }
    Json value() {
        Json j;
        ws();
        if (p >= s.size() || !ok) {
            ok = false;
            return j;
        }
        if (s[p] == '{') {
            j.kind = Json::Object;
            ++p;
            ws();
            if (p < s.size() && s[p] == '}') {
                ++p;
                return j;
            }
            while (ok) {
                ws();
                auto k = str();
                ws();
                if (p >= s.size() || s[p] != ':') {
                    ok = false;
                    break;
                }
                ++p;
                j.fields.emplace_back(k, value());
                ws();
                if (p < s.size() && s[p] == ',') {
                    ++p;
                    continue;
                }
                if (p < s.size() && s[p] == '}') {
                    ++p;
                    break;
                }
                ok = false;
            }
        } else if (s[p] == '[') {
            j.kind = Json::Array;
            ++p;
            ws();
            if (p < s.size() && s[p] == ']') {
                ++p;
                return j;
            }
            while (ok) {
                j.items.push_back(value());
                ws();
                if (p < s.size() && s[p] == ',') {
                    ++p;
                    continue;
                }
                if (p < s.size() && s[p] == ']') {
                    ++p;
                    break;
                }
                ok = false;
            }
        } else if (s[p] == '"') {
            j.kind = Json::Text;
            j.text = str();
        } else if (s[p] == '-' || (s[p] >= '0' && s[p] <= '9')) {
            const char* b = s.c_str() + p;
            char*       e = nullptr;
            j.num         = std::strtod(b, &e);
            j.kind        = Json::Number;
            std::string t(b, static_cast<std::size_t>(e - b));
            j.integral = t.find_first_of(".eE") == std::string::npos;
            if (j.integral)
                j.i64 = std::strtoll(t.c_str(), nullptr, 10);
            p += static_cast<std::size_t>(e - b);
        } else {
            ok = false;
        }
        return j;
    }
};

const Json& field(Ctx& ctx, const Json& j, const std::string& name, const std::string& where) {
    const Json* found = nullptr;
    if (j.kind == Json::Object)
        for (auto& f : j.fields)
            if (f.first == name) {
                ctx.check(!found, "json-shape", where, ": field ", name, " appears twice");
                found = &f.second;
            }
    ctx.check(found != nullptr, "json-shape", where, ": no field ", name);
    return *found;
}

// the library's own writer rounds to the last few bits
bool same_number(double a, double b) {
    return a == b || std::fabs(a - b) <= 4e-15 * std::max(std::fabs(a), std::fabs(b)) + 1e-320;
}

template <typename T>
void number(Ctx& ctx, const Json& j, T expected, const std::string& what) {
    ctx.check(j.kind == Json::Number, "json-shape", what, " is not a number");
    if constexpr (std::is_integral_v<T>)
        ctx.check(j.integral && j.i64 == static_cast<long long>(expected), "json-value", what, " is ", j.num, ", expected ", +expected);
    else
        ctx.check(same_number(j.num, static_cast<double>(expected)), "json-value", what, " is ", j.num, ", expected ", expected);
}

Json load(Ctx& ctx, const std::string& path) {
    std::ifstream     in(path);
    std::stringstream ss;
    ss << in.rdbuf();
    const std::string text = ss.str();
    Reader            rd{text};
    auto              j = rd.value();
    rd.ws();
    ctx.check(rd.ok && rd.p == text.size() && !text.empty(), "json-syntax", "the file is not one JSON document, error near byte ", rd.p, " of ", text.size());
    ctx.count("files_read");
    return j;
}

std::string scratch_file() {
    const char* d = std::getenv("VF_SCRATCH");
    return std::string(d ? d : "/tmp") + "/p23-" + std::to_string(::getpid()) + ".json";
}

template <typename T, typename NodePtr>
void kd_node(Ctx& ctx, const Json& j, const NodePtr& node, const Data<T>& data, std::vector<std::vector<T>>& seen, int depth) {
    const std::string w = "node at depth " + std::to_string(depth);
    const auto&       pts = field(ctx, j, "points", w);
    number<long long>(ctx, field(ctx, j, "axis", w), node->is_leaf() ? -1 : static_cast<long long>(node->cut_axis_feature_index_), w + " axis");
    const auto [b, e] = node->indices_range_;
    ctx.check(pts.kind == Json::Array && pts.items.size() == static_cast<std::size_t>(e - b), "json-value", w, " lists ", pts.items.size(), " samples, holds ", e - b);
    for (std::size_t i = 0; i < pts.items.size(); ++i) {
        const auto& row = pts.items[i];
        ctx.check(row.kind == Json::Array && row.items.size() == data.d, "json-value", w, " sample ", i, " has ", row.items.size(), " features");
        std::vector<T> v(data.d);
        for (std::size_t f = 0; f < data.d; ++f) {
            v[f] = data.at(b[static_cast<std::ptrdiff_t>(i)], f);
            number<T>(ctx, row.items[f], v[f], w + " sample " + std::to_string(i));
        }
        seen.push_back(v);
    }
    ctx.count("nodes_judged");
    bool has_children = false;
    for (auto& f : j.fields)
        has_children |= f.first == "left" || f.first == "right";
    ctx.check(has_children == !node->is_leaf(), "json-shape", w, has_children ? " lists children of a leaf" : " lists no children");
    if (!node->is_leaf()) {
        kd_node<T>(ctx, field(ctx, j, "left", w), node->left_, data, seen, depth + 1);
        kd_node<T>(ctx, field(ctx, j, "right", w), node->right_, data, seen, depth + 1);
    }
}

template <typename T>
void index_case(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = pick_n(r, 150), d = pick_d(r, 6);
    auto              data = any_data<T>(r, n, d);
    maybe_rescale(r, data, 0.25);
    auto idx  = pick_indices(r, n, 0.3);
    auto opts = pick_tree_opts(r, d);
    if (r.chance(0.3))
        opts.max_depth = static_cast<std::size_t>(r.range(0, 40));
    ctx.desc = data.str() + " indexed=" + std::to_string(idx.size()) + " " + opts.str();
    seed_engine(r.next());
    const std::vector<std::size_t> chosen = idx;
    auto              tree = make_tree(idx, data, opts);
    const std::string path = scratch_file();
    tree.serialize(path);
    auto j = load(ctx, path);
    number<long long>(ctx, field(ctx, j, "n_samples", "index"), static_cast<long long>(chosen.size()), "n_samples");
    number<long long>(ctx, field(ctx, j, "n_features", "index"), static_cast<long long>(d), "n_features");
    if (!opts.defaults) {
        const auto& o = field(ctx, j, "options", "index");
        number<long long>(ctx, field(ctx, o, "bucket_size", "options"), static_cast<long long>(opts.bucket), "bucket_size");
        number<long long>(ctx, field(ctx, o, "max_depth", "options"), static_cast<long long>(opts.max_depth), "max_depth");
    }
    const auto& box = field(ctx, j, "bounding_box", "index");
    ctx.check(box.kind == Json::Array && box.items.size() == d, "json-value", "bounding box of ", box.items.size(), " dimensions");
    for (std::size_t f = 0; f < d; ++f) {
        ctx.check(box.items[f].items.size() == 2, "json-value", "a range of the box has ", box.items[f].items.size(), " ends");
        T lo = data.at(chosen[0], f), hi = lo;
        for (auto i : chosen) {
            lo = std::min(lo, data.at(i, f));
            hi = std::max(hi, data.at(i, f));
        }
        number<T>(ctx, box.items[f].items[0], lo, "lower bound");
        number<T>(ctx, box.items[f].items[1], hi, "upper bound");
    }
    std::vector<std::vector<T>> seen, expected;
    kd_node<T>(ctx, field(ctx, j, "root", "index"), tree.root(), data, seen, 0);
    for (auto i : chosen) {
        std::vector<T> v(d);
        for (std::size_t f = 0; f < d; ++f)
            v[f] = data.at(i, f);
        expected.push_back(v);
    }
    std::sort(seen.begin(), seen.end());
    std::sort(expected.begin(), expected.end());
    ctx.check(seen == expected, "json-samples", "the samples in the file are not the indexed ones");
    ctx.count("indices_judged");
    Hasher h;
    h.addv(data.v).addv(chosen).add(opts.bucket);
    if (!tree.root()->is_leaf())
        ctx.nontrivial(h.h);
    ctx.sample(ctx.desc);
    ::unlink(path.c_str());
}

template <typename NodePtr, typename T>
std::size_t sl_node(Ctx& ctx, const Json& j, const NodePtr& node, std::vector<std::size_t>& leaves, T above) {
    number<long long>(ctx, field(ctx, j, "representative", "cluster"), static_cast<long long>(node->representative_), "representative");
    number<T>(ctx, field(ctx, j, "level", "cluster"), node->level_, "level");
    ctx.check(node->level_ <= above, "hierarchy-levels", "a cluster lies above its parent");
    std::size_t size = 1;
    bool has_children = false;
    for (auto& f : j.fields)
        has_children |= f.first == "left" || f.first == "right";
    ctx.check(has_children == !node->is_leaf(), "json-shape", "children of a single sample, or none of a cluster");
    if (has_children) {
        size = sl_node<NodePtr, T>(ctx, field(ctx, j, "left", "cluster"), node->left_, leaves, node->level_) +
               sl_node<NodePtr, T>(ctx, field(ctx, j, "right", "cluster"), node->right_, leaves, node->level_);
    } else {
        leaves.push_back(static_cast<std::size_t>(field(ctx, j, "representative", "cluster").i64));
    }
    number<long long>(ctx, field(ctx, j, "cluster_size", "cluster"), static_cast<long long>(size), "cluster_size");
    ctx.count("nodes_judged");
    return size;
}

template <typename T>
void hierarchy_case(Ctx& ctx) {
    Rng&              r = ctx.rng;
    const std::size_t n = pick_n(r, 150);
    using Tr            = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>;
    typename Tr::MinimumSpanningTreeType mst;
    // a random spanning tree
    std::vector<std::size_t> name(n);
    std::iota(name.begin(), name.end(), 0);
    r.shuffle(name);
    const bool ties = r.chance(0.5);
    for (std::size_t i = 1; i < n; ++i)
        mst.emplace_back(name[static_cast<std::size_t>(r.range(0, static_cast<long long>(i) - 1))], name[i],
                         static_cast<T>(ties ? static_cast<double>(r.range(0, 5)) : r.real(0, 1000)));
    for (std::size_t i = mst.size(); i > 1; --i)
        std::swap(mst[i - 1], mst[static_cast<std::size_t>(r.range(0, static_cast<long long>(i) - 1))]);
    ctx.desc = "hierarchy of " + std::to_string(n) + " samples";
    Tr                tree(mst);
    const std::string path = scratch_file();
    tree.serialize(path);
    auto                     j = load(ctx, path);
    std::vector<std::size_t> leaves;
    auto                     root = tree.root();
    const auto               size = sl_node<decltype(root), T>(ctx, field(ctx, j, "root", "hierarchy"), root, leaves, std::numeric_limits<T>::max());
    ctx.check(size == n, "json-samples", "the file holds ", size, " samples of ", n);
    std::sort(leaves.begin(), leaves.end());
    for (std::size_t i = 0; i < n; ++i)
        ctx.check(leaves[i] == i, "json-samples", "sample ", i, " is missing or listed twice");
    ctx.count("hierarchies_judged");
    Hasher h;
    for (auto& e : mst)
        h.add(std::get<0>(e)).add(std::get<1>(e)).add(std::get<2>(e));
    if (n > 2)
        ctx.nontrivial(h.h);
    ::unlink(path.c_str());
}

}  // namespace

void vf::run_case(Ctx& ctx) {
    const auto u = ctx.rng.range(0, 9);
    if (u < 3)
        index_case<double>(ctx);
    else if (u < 5)
        index_case<float>(ctx);
    else if (u < 6)
        index_case<int>(ctx);
    else if (u < 7)
        index_case<unsigned char>(ctx);
    else if (u < 9)
        hierarchy_case<double>(ctx);
    else
        hierarchy_case<float>(ctx);
}
