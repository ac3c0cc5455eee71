// P24: histories of merges and finds on a disjoint-set, against a table of labels.
#include "common.hpp"

#include "ffcl/datastruct/UnionFind.hpp"

#include <memory>

using namespace vf;

namespace {

template <typename I>
void one(Ctx& ctx) {
    Rng&        r = ctx.rng;
    std::size_t max_n = ctx.thorough ? 3000 : 600;
    if (sizeof(I) == 1)
        max_n = 256;
    std::size_t n = pick_n(r, max_n);
    if (sizeof(I) == 1)
        n = std::min<std::size_t>(n, 256);
    if (r.chance(0.02))
        n = max_n;
    std::vector<std::size_t> label(n);  // reference: label of the component of each element
    std::iota(label.begin(), label.end(), 0);
    using UF = ffcl::datastruct::UnionFind<I>;
    std::unique_ptr<UF> uf;
    std::string         how = "fresh";
    if (r.chance(0.3)) {
        // components given from outside: each element points at a member of its component, the representative at itself
        how         = "labelled";
        auto parents = std::make_unique<I[]>(n);
        for (std::size_t i = 0; i < n; ++i) {
            if (i == 0 || r.chance(0.3)) {
                parents[i] = static_cast<I>(i);
            } else {
                const auto to = static_cast<std::size_t>(r.range(0, static_cast<long long>(i) - 1));
                parents[i]    = r.chance(0.5) ? static_cast<I>(to) : parents[to];
                label[i]      = label[to];
            }
        }
        uf = std::make_unique<UF>(n, std::move(parents));
    } else {
        uf = std::make_unique<UF>(n);
    }
    ctx.desc = how + " n=" + std::to_string(n) + " index bytes=" + std::to_string(sizeof(I));
    auto any = [&] { return static_cast<std::size_t>(r.range(0, static_cast<long long>(n) - 1)); };
    auto audit = [&](const std::string& when) {
        // equal representatives exactly when in one component, a member of it, and the representative of itself
        std::vector<std::size_t> rep(n), owner(n, n);
        for (std::size_t i = 0; i < n; ++i) {
            rep[i] = static_cast<std::size_t>(uf->find(static_cast<I>(i)));
            ctx.check(rep[i] < n, "representative-range", when, ": find(", i, ") is ", rep[i], " of ", n, " elements");
            ctx.check(label[rep[i]] == label[i], "representative-foreign", when, ": find(", i, ") = ", rep[i], " lies in another component");
            ctx.check(static_cast<std::size_t>(uf->find(static_cast<I>(rep[i]))) == rep[i], "representative-unstable", when, ": find(find(", i, ")) differs");
        }
        for (std::size_t i = 0; i < n; ++i) {
            auto& o = owner[label[i]];
            if (o == n)
                o = rep[i];
            ctx.check(o == rep[i], "component-split", when, ": elements of one component have representatives ", o, " and ", rep[i]);
        }
        ctx.count("elements_judged", n);
    };
    const bool blind = r.chance(0.5);
    if (how == "labelled" && !blind)
        audit("as given");
    const int   pattern = static_cast<int>(r.range(0, 4));
    std::size_t ops     = static_cast<std::size_t>(r.range(0, static_cast<long long>(2 * n) + 2));
    if (n == 1)
        ops = 3;
    std::size_t chain = 0;
    std::size_t merged = 0;
    for (std::size_t k = 0; k < ops; ++k) {
        std::size_t a = any(), b = any();
        if (pattern == 1) {  // a chain, from either end
            a = chain % n;
            b = (chain + 1) % n;
            ++chain;
            if (r.chance(0.5))
                std::swap(a, b);
        } else if (pattern == 2) {  // a star
            a = 0;
        } else if (pattern == 3) {  // tournament: pairs of equal size
            std::size_t step = 1;
            while (step < n && k >= n / 2 && step * 2 <= n && r.chance(0.5))
                step *= 2;
            a = any();
            b = (a + step) % n;
        }
        if (blind && r.chance(0.85)) {
            // nothing is looked up but what the merge returns: no path is shortened in between
            const auto rep = static_cast<std::size_t>(uf->merge(static_cast<I>(a), static_cast<I>(b)));
            if (label[a] != label[b]) {
                const auto from = label[b], to = label[a];
                for (auto& l : label)
                    if (l == from)
                        l = to;
                ++merged;
            }
            ctx.check(rep < n && label[rep] == label[a], "merge-result", "merge(", a, ",", b, ") returns ", rep, ", which isn't in their component");
            ctx.check(static_cast<std::size_t>(uf->find(static_cast<I>(rep))) == rep, "merge-result", "merge(", a, ",", b, ") returns ", rep,
                      ", which has another representative");
            ctx.count("merges");
            continue;
        }
        if (r.chance(0.8)) {
            const bool together = label[a] == label[b];
            const auto ra = static_cast<std::size_t>(uf->find(static_cast<I>(a))), rb = static_cast<std::size_t>(uf->find(static_cast<I>(b)));
            ctx.check((ra == rb) == together, "find-wrong", "find(", a, ")=", ra, " find(", b, ")=", rb, together ? " although merged" : " although never merged");
            const auto rep = static_cast<std::size_t>(uf->merge(static_cast<I>(a), static_cast<I>(b)));
            ctx.check(rep < n && (rep == ra || rep == rb), "merge-result", "merge(", a, ",", b, ") returns ", rep, ", the representatives were ", ra, " and ", rb);
            if (!together) {
                const auto from = label[b], to = label[a];
                for (auto& l : label)
                    if (l == from)
                        l = to;
                ++merged;
            }
            ctx.check(static_cast<std::size_t>(uf->find(static_cast<I>(a))) == rep && static_cast<std::size_t>(uf->find(static_cast<I>(b))) == rep, "merge-result",
                      "after merge(", a, ",", b, ") = ", rep, " the elements have other representatives");
            ctx.count("merges");
        } else {
            const auto ra = uf->find(static_cast<I>(a)), rb = uf->find(static_cast<I>(b));
            ctx.check((ra == rb) == (label[a] == label[b]), "find-wrong", "find(", a, ") and find(", b, ") disagree with the history");
            ctx.count("finds", 2);
        }
        if (k % 64 == 63 || r.chance(0.02))
            audit("after " + std::to_string(k + 1) + " operations");
    }
    audit("at the end");
    // moving a structure keeps its components
    UF moved = std::move(*uf);
    *uf      = std::move(moved);
    audit("after moving");
    ctx.count("histories");
    Hasher h;
    h.addv(label).add(n).add(pattern).add(ops).add(sizeof(I));
    if (merged > 1)
        ctx.nontrivial(h.h);
    ctx.sample(ctx.desc + " pattern " + std::to_string(pattern) + " operations " + std::to_string(ops));
}

}  // namespace

void vf::run_case(Ctx& ctx) {
    switch (ctx.rng.range(0, 5)) {
    case 0: return one<unsigned char>(ctx);
    case 1: return one<unsigned short>(ctx);
    case 2: return one<int>(ctx);
    case 3: return one<unsigned int>(ctx);
    default: return one<std::size_t>(ctx);
    }
}
