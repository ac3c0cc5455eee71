// reference computations for centroid based clustering, in long double
#pragma once
#include "common.hpp"

namespace vf {

template <typename T>
long double ld_dist(const T* a, const T* b, std::size_t d) {
    long double s = 0;
    for (std::size_t f = 0; f < d; ++f) {
        long double x = static_cast<long double>(a[f]) - static_cast<long double>(b[f]);
        s += x * x;
    }
    return std::sqrt(s);
}

// initial centroids: samples, duplicates, points nearby or far away (empty clusters)
template <typename T>
std::vector<T> pick_centroids(Rng& r, const Data<T>& data, std::size_t k) {
    std::vector<T> c(k * data.d);
    const int      how  = static_cast<int>(r.range(0, 5));
    const double   unit = coord_scale(data.v) > 0 ? coord_scale(data.v) : 1.0;
    for (std::size_t i = 0; i < k; ++i) {
        const auto s = static_cast<std::size_t>(r.range(0, static_cast<long long>(data.n) - 1));
        for (std::size_t f = 0; f < data.d; ++f) {
            double x = static_cast<double>(data.at(s, f));
            if (how == 1)
                x += unit * r.real(-0.3, 0.3);
            else if (how == 2 && r.chance(0.3))
                x += unit * r.real(-5, 5);
            else if (how == 3 && i > 0 && r.chance(0.3))
                x = static_cast<double>(c[(i - 1) * data.d + f]);
            else if (how == 4)
                x = unit * r.real(-1, 1);
            c[i * data.d + f] = static_cast<T>(x);
        }
        if (how == 5 && i > 0) {
            // bunched: all of them next to one sample
            for (std::size_t f = 0; f < data.d; ++f)
                c[i * data.d + f] = static_cast<T>(static_cast<double>(c[f]) + unit * r.real(-0.01, 0.01));
        }
    }
    return c;
}

template <typename T>
struct Assign {
    std::size_t              n, k;
    std::vector<std::size_t> nearest;
    std::vector<double>      d1;
    std::vector<char>        open;        // the sample could also belong to another centroid, up to rounding
    std::vector<char>        cluster_open;  // an open sample may or may not be in it
    std::size_t              n_open = 0;
    long double              sum = 0, sse = 0;
};

template <typename T>
Assign<T> assign(const Data<T>& data, const std::vector<T>& c, double slack) {
    Assign<T> a;
    a.n = data.n;
    a.k = c.size() / data.d;
    a.nearest.resize(a.n);
    a.d1.resize(a.n);
    a.open.assign(a.n, 0);
    a.cluster_open.assign(a.k, 0);
    std::vector<long double> ds(a.k);
    for (std::size_t i = 0; i < a.n; ++i) {
        for (std::size_t j = 0; j < a.k; ++j)
            ds[j] = ld_dist(&data.v[i * data.d], &c[j * data.d], data.d);
        const auto b   = static_cast<std::size_t>(std::min_element(ds.begin(), ds.end()) - ds.begin());
        a.nearest[i]   = b;
        a.d1[i]        = static_cast<double>(ds[b]);
        const double m = slack + 8 * tol_of<T>() * a.d1[i];
        for (std::size_t j = 0; j < a.k; ++j)
            if (j != b && static_cast<double>(ds[j]) <= a.d1[i] + m) {
                a.open[i]         = 1;
                a.cluster_open[j] = 1;
                a.cluster_open[b] = 1;
            }
        a.n_open += a.open[i];
        a.sum += ds[b];
        a.sse += ds[b] * ds[b];
    }
    return a;
}

}  // namespace vf
