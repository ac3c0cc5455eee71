// Reference minimum spanning tree under (mutual reachability) distances.
#pragma once
#include "trees.hpp"

namespace vf {

// distance from every sample to its k-th nearest (itself counted), all of them when there are fewer
template <typename T>
std::vector<double> ref_core(const Data<T>& data, std::size_t k) {
    std::vector<double> core(data.n, 0.0);
    if (k <= 1)
        return core;
    std::vector<double> x(data.n);
    for (std::size_t i = 0; i < data.n; ++i) {
        for (std::size_t j = 0; j < data.n; ++j)
            x[j] = ref_distance(&data.v[i * data.d], &data.v[j * data.d], data.d);
        const auto p = std::min(k, data.n) - 1;
        std::nth_element(x.begin(), x.begin() + static_cast<long>(p), x.end());
        core[i] = x[p];
    }
    return core;
}

template <typename T>
double ref_mr(const Data<T>& data, const std::vector<double>& core, std::size_t i, std::size_t j) {
    return std::max({core[i], core[j], ref_distance(&data.v[i * data.d], &data.v[j * data.d], data.d)});
}

// sorted weights of a minimum spanning tree (Prim)
template <typename T>
std::vector<double> ref_mst_weights(const Data<T>& data, const std::vector<double>& core) {
    const auto          n = data.n;
    std::vector<double> best(n, std::numeric_limits<double>::infinity()), w;
    std::vector<char>   in(n, 0);
    std::size_t         cur = 0;
    in[0]                   = 1;
    for (std::size_t s = 1; s < n; ++s) {
        std::size_t nxt = n;
        for (std::size_t j = 0; j < n; ++j) {
            if (in[j])
                continue;
            best[j] = std::min(best[j], ref_mr(data, core, cur, j));
            if (nxt == n || best[j] < best[nxt])
                nxt = j;
        }
        in[nxt] = 1;
        w.push_back(best[nxt]);
        cur = nxt;
    }
    std::sort(w.begin(), w.end());
    return w;
}

struct RefUF {
    std::vector<std::size_t> p;
    explicit RefUF(std::size_t n)
      : p(n) {
        std::iota(p.begin(), p.end(), 0);
    }
    std::size_t find(std::size_t x) {
        while (p[x] != x)
            x = p[x] = p[p[x]];
        return x;
    }
    bool merge(std::size_t a, std::size_t b) {
        a = find(a);
        b = find(b);
        p[b] = a;
        return a != b;
    }
};

}  // namespace vf
