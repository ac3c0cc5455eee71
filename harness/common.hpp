// Shared infrastructure of the monitors: seeded workloads, oracle reporting, coverage accounting.
#pragma once

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vf {

// ------------------------------------------------------------------ random
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1)
      : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {
        next();
        next();
    }
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z               = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z               = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // inclusive range
    long long range(long long lo, long long hi) {
        if (hi <= lo)
            return lo;
        return lo + static_cast<long long>(next() % static_cast<std::uint64_t>(hi - lo + 1));
    }
    double unit() {
        return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0);
    }
    double real(double lo, double hi) {
        return lo + (hi - lo) * unit();
    }
    bool chance(double p) {
        return unit() < p;
    }
    double gauss() {
        double u = unit(), v = unit();
        if (u < 1e-300)
            u = 1e-300;
        return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    template <typename C>
    auto& pick(C& c) {
        return c[static_cast<std::size_t>(range(0, static_cast<long long>(c.size()) - 1))];
    }
    template <typename V>
    void shuffle(V& v) {
        for (std::size_t i = v.size(); i > 1; --i) {
            std::swap(v[i - 1], v[static_cast<std::size_t>(range(0, static_cast<long long>(i) - 1))]);
        }
    }
};

// ------------------------------------------------------------------ reporting
struct Failure : std::runtime_error {
    std::string key;
    Failure(std::string k, const std::string& what)
      : std::runtime_error(what)
      , key(std::move(k)) {}
};

inline std::string json_escape(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (static_cast<unsigned char>(c) < 32) {
            o += ' ';
        } else {
            o += c;
        }
    }
    return o;
}

struct Ctx {
    std::uint64_t seed  = 1;
    std::uint64_t index = 0;  // case number
    bool          thorough = false;
    std::string   part;  // sub-workload
    Rng           rng;

    std::map<std::string, std::uint64_t>* counters = nullptr;
    std::unordered_set<std::uint64_t>*    hashes   = nullptr;
    std::vector<std::string>*             samples  = nullptr;
    std::string                           desc;

    // an event the monitors observed
    void count(const std::string& name, std::uint64_t n = 1) {
        (*counters)[name] += n;
    }
    // a non-trivial case with its fingerprint
    void nontrivial(std::uint64_t h) {
        hashes->insert(h);
    }
    void sample(const std::string& s) {
        if (samples->size() < 3)
            samples->push_back(s);
    }
    template <typename... A>
    void fail(const std::string& key, A&&... a) {
        std::ostringstream os;
        os.precision(17);
        (os << ... << a);
        throw Failure(key, os.str() + " | case: " + desc);
    }
    template <typename... A>
    void check(bool ok, const std::string& key, A&&... a) {
        if (!ok)
            fail(key, std::forward<A>(a)...);
    }
};

struct Hasher {
    std::uint64_t h = 1469598103934665603ull;
    template <typename T>
    Hasher& add(const T& v) {
        const unsigned char* p = reinterpret_cast<const unsigned char*>(&v);
        for (std::size_t i = 0; i < sizeof(T); ++i) {
            h ^= p[i];
            h *= 1099511628211ull;
        }
        return *this;
    }
    template <typename T>
    Hasher& addv(const std::vector<T>& v) {
        for (const auto& x : v)
            add(x);
        return add(v.size());
    }
};

// the harness defines it: runs one case
void run_case(Ctx& ctx);

// silence what the library prints while it works
struct MuteStdout {
    std::ostringstream sink;
    std::streambuf*    old;
    MuteStdout()
      : old(std::cout.rdbuf(sink.rdbuf())) {}
    ~MuteStdout() {
        std::cout.rdbuf(old);
    }
};

inline int harness_main(int argc, char** argv) {
    std::uint64_t seed = 1, from = 0, to = 1;
    std::string   out, progress, part;
    bool          thorough = false;
    int           max_fail = 3;
    bool          memory_only = false;  // only what the sanitizers report counts, wrong answers do not
    for (int i = 1; i < argc; ++i) {
        std::string a   = argv[i];
        auto        nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed")
            seed = std::strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--from")
            from = std::strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--to")
            to = std::strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--out")
            out = nxt();
        else if (a == "--progress")
            progress = nxt();
        else if (a == "--part")
            part = nxt();
        else if (a == "--thorough")
            thorough = true;
        else if (a == "--memory-only")
            memory_only = true;
    }
    int pfd = -1;
    if (!progress.empty())
        pfd = ::open(progress.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);

    std::map<std::string, std::uint64_t> counters;
    std::unordered_set<std::uint64_t>    hashes;
    std::vector<std::string>             samples;
    std::uint64_t                        evals    = 0;
    int                                  failures = 0;
    std::ostringstream                   fails;

    for (std::uint64_t c = from; c < to; ++c) {
        if (pfd >= 0) {
            char b[32];
            int  n = std::snprintf(b, sizeof b, "%-20llu\n", static_cast<unsigned long long>(c));
            if (::pwrite(pfd, b, static_cast<std::size_t>(n), 0) < 0) {
            }
        }
        Ctx ctx;
        ctx.seed     = seed;
        ctx.index    = c;
        ctx.thorough = thorough;
        ctx.part     = part;
        ctx.rng      = Rng(seed * 1000003ull + c * 7919ull + 17ull);
        ctx.counters = &counters;
        ctx.hashes   = &hashes;
        ctx.samples  = &samples;
        ++evals;
        std::string key, msg;
        try {
            MuteStdout mute;
            run_case(ctx);
            continue;
        } catch (const Failure& f) {
            key = f.key;
            msg = f.what();
        } catch (const std::exception& e) {
            key = "unexpected-exception";
            msg = std::string("the library threw: ") + e.what() + " | case: " + ctx.desc;
        } catch (...) {
            key = "unexpected-exception";
            msg = "the library threw a non-standard exception | case: " + ctx.desc;
        }
        if (memory_only) {
            ++counters["answers_not_judged_here"];
            continue;
        }
        fails << (failures ? "," : "") << "{\"case\":" << c << ",\"key\":\"" << json_escape(key) << "\",\"msg\":\""
              << json_escape(msg) << "\"}";
        if (++failures >= max_fail)
            break;
    }
    std::ostringstream js;
    js << "{\"evaluations\":" << evals << ",\"counters\":{";
    bool first = true;
    for (auto& [k, v] : counters) {
        js << (first ? "" : ",") << "\"" << json_escape(k) << "\":" << v;
        first = false;
    }
    js << "},\"hashes\":[";
    first = true;
    for (auto h : hashes) {
        js << (first ? "" : ",") << h;
        first = false;
    }
    js << "],\"samples\":[";
    first = true;
    for (auto& s : samples) {
        js << (first ? "" : ",") << "\"" << json_escape(s) << "\"";
        first = false;
    }
    js << "],\"failures\":[" << fails.str() << "]}\n";
    if (out.empty()) {
        std::fputs(js.str().c_str(), stdout);
    } else {
        FILE* f = std::fopen(out.c_str(), "w");
        if (!f)
            return 3;
        std::fputs(js.str().c_str(), f);
        std::fclose(f);
    }
    return 0;
}

// ------------------------------------------------------------------ data
template <typename T>
struct Data {
    std::vector<T> v;
    std::size_t    n = 0, d = 0;
    bool           exact = false;  // small integer coordinates: distances compare exactly
    int            family = 0;

    const T& at(std::size_t i, std::size_t f) const {
        return v[i * d + f];
    }
    std::string str() const {
        std::ostringstream os;
        os.precision(17);
        os << "n=" << n << " d=" << d << " family=" << family << " type=" << (std::is_same_v<T, float> ? "f32" : std::is_same_v<T, double> ? "f64" : "int");
        if (n * d <= 60) {
            os << " data=[";
            for (std::size_t i = 0; i < v.size(); ++i)
                os << (i ? "," : "") << +v[i];
            os << "]";
        }
        return os.str();
    }
};

enum Family {
    F_UNIFORM = 0,
    F_GRID,
    F_EQUAL,
    F_CLUSTERS,
    F_COLLINEAR,
    F_FEWDISTINCT,
    F_OFFSET,
    F_SMALLSCALE,
    F_SORTED,
    F_NEGATIVE,
    F_MIXEDMAG,
    F_HUGEGRID,
    F_NEARTIES,
    F_FAR,
    F_COUNT
};

template <typename T>
Data<T> make_data(Rng& r, std::size_t n, std::size_t d, int family) {
    Data<T> o;
    o.n      = n;
    o.d      = d;
    o.family = family;
    o.v.resize(n * d);
    constexpr bool is_fp = std::is_floating_point_v<T>;
    constexpr bool is_un = std::is_unsigned_v<T>;
    auto           put   = [&](std::size_t i, double x) {
        if constexpr (is_un)
            x = std::fabs(x);
        if constexpr (is_fp)
            o.v[i] = static_cast<T>(x);
        else
            o.v[i] = static_cast<T>(std::llround(x));
    };
    switch (family) {
        default:
        case F_UNIFORM: {
            double s = r.chance(0.5) ? 1.0 : 100.0;
            if (!is_fp)
                s = 100.0;
            for (auto i = 0u; i < o.v.size(); ++i)
                put(i, r.real(-s, s));
            break;
        }
        case F_GRID: {
            long long w = r.range(1, 8);
            for (auto i = 0u; i < o.v.size(); ++i)
                put(i, static_cast<double>(r.range(-w, w)));
            o.exact = true;
            break;
        }
        case F_EQUAL: {
            std::vector<double> p(d);
            for (auto& x : p)
                x = static_cast<double>(r.range(-20, 20));
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t f = 0; f < d; ++f)
                    put(i * d + f, p[f]);
            o.exact = true;
            break;
        }
        case F_CLUSTERS: {
            std::size_t         k = static_cast<std::size_t>(r.range(1, 6));
            std::vector<double> c(k * d);
            for (auto& x : c)
                x = r.real(-100, 100);
            double sd = is_fp ? r.real(0.1, 5) : r.real(1, 5);
            for (std::size_t i = 0; i < n; ++i) {
                std::size_t q = static_cast<std::size_t>(r.range(0, static_cast<long long>(k) - 1));
                for (std::size_t f = 0; f < d; ++f)
                    put(i * d + f, c[q * d + f] + sd * r.gauss());
            }
            break;
        }
        case F_COLLINEAR: {
            std::size_t live = static_cast<std::size_t>(r.range(0, static_cast<long long>(d) - 1));
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t f = 0; f < d; ++f)
                    put(i * d + f, f == live ? static_cast<double>(r.range(-50, 50)) : 3.0);
            o.exact = true;
            break;
        }
        case F_FEWDISTINCT: {
            std::size_t         k = static_cast<std::size_t>(r.range(1, 5));
            std::vector<double> c(k * d);
            for (auto& x : c)
                x = static_cast<double>(r.range(-9, 9));
            for (std::size_t i = 0; i < n; ++i) {
                std::size_t q = static_cast<std::size_t>(r.range(0, static_cast<long long>(k) - 1));
                for (std::size_t f = 0; f < d; ++f)
                    put(i * d + f, c[q * d + f]);
            }
            o.exact = true;
            break;
        }
        case F_OFFSET: {
            double off = is_fp ? 1000.0 : 100.0;
            for (auto i = 0u; i < o.v.size(); ++i)
                put(i, off + static_cast<double>(r.range(0, 64)) * (is_fp ? 0.25 : 1.0));
            break;
        }
        case F_SMALLSCALE: {
            double s = is_fp ? 1e-3 : 10.0;
            for (auto i = 0u; i < o.v.size(); ++i)
                put(i, r.real(-s, s));
            break;
        }
        case F_SORTED: {
            bool rev = r.chance(0.5);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t f = 0; f < d; ++f)
                    put(i * d + f, (rev ? -1.0 : 1.0) * (static_cast<double>(i % 400) + (f % 2 ? 0 : 1)));
            o.exact = n < 400;
            break;
        }
        case F_NEGATIVE: {
            for (auto i = 0u; i < o.v.size(); ++i)
                put(i, r.real(-300, -200));
            break;
        }
        case F_MIXEDMAG: {
            for (auto i = 0u; i < o.v.size(); ++i) {
                double m = std::pow(10.0, r.real(is_fp ? -2 : 0, is_fp ? 4 : 2));
                put(i, (r.chance(0.5) ? 1 : -1) * m);
            }
            break;
        }
        case F_HUGEGRID: {
            // widely spread integers, exactly representable
            long long w = is_fp ? 1000 : 120;
            for (auto i = 0u; i < o.v.size(); ++i)
                put(i, static_cast<double>(r.range(-w, w)));
            o.exact = true;
            break;
        }
        case F_NEARTIES: {
            // grid with displacements far below the spacing: distances that differ only in their last digits (by less than
            // single precision can tell where the type is double)
            const long long w   = r.range(1, 6);
            const double    eps = !is_fp ? 0.0 : std::ldexp(1.0, sizeof(T) > 4 ? -28 : -9);
            for (auto i = 0u; i < o.v.size(); ++i)
                put(i, static_cast<double>(r.range(-w, w)) + static_cast<double>(r.range(-8, 8)) * eps);
            break;
        }
        case F_FAR: {
            // whole numbers far from the origin
            const long long w   = r.range(1, 40);
            const double    off = !is_fp ? 64.0 : std::ldexp(r.chance(0.5) ? 1.0 : -1.0, sizeof(T) > 4 ? 26 : 11);
            for (auto i = 0u; i < o.v.size(); ++i)
                put(i, off + static_cast<double>(r.range(-w, w)));
            break;
        }
    }
    return o;
}

// an option that has its documented default value is also left alone
template <typename V, typename D, typename F>
void set_unless_default(Rng& r, const V& v, const D& by_default, F&& set) {
    if (!(v == static_cast<V>(by_default)) || r.chance(0.5))
        set(v);
}

// the same data in another unit (a power of two: no rounding)
template <typename T>
void maybe_rescale(Rng& r, Data<T>& data, double p = 0.15, bool ends = true) {
    if constexpr (std::is_floating_point_v<T>) {
        if (!r.chance(p))
            return;
        static const int e[] = {-40, -30, -20, 10, 20};
        const double     s   = std::ldexp(1.0, e[r.range(0, 4)]);
        for (auto& x : data.v)
            x = static_cast<T>(static_cast<double>(x) * s);
        data.exact = false;
        data.family += 100;
    } else if constexpr (sizeof(T) >= 4) {
        // far from zero: near the ends of the range of the type, differences stay small
        // (sums of such values aren't representable in their type, hence ends = false)
        if (!ends || !r.chance(p))
            return;
        T at;
        if constexpr (sizeof(T) > 4)
            at = std::is_signed_v<T> && r.chance(0.5) ? static_cast<T>(-(1LL << 45)) : static_cast<T>(1LL << 45);
        else
            at = std::is_signed_v<T> && r.chance(0.5) ? static_cast<T>(std::numeric_limits<T>::lowest() + 1000)
                                                      : static_cast<T>(std::numeric_limits<T>::max() - 1000);
        for (auto& x : data.v)
            x = static_cast<T>(x + at);
        data.family += 200;
    }
}

template <typename T>
Data<T> any_data(Rng& r, std::size_t n, std::size_t d) {
    return make_data<T>(r, n, d, static_cast<int>(r.range(0, F_COUNT - 1)));
}

inline std::size_t pick_n(Rng& r, std::size_t max_n) {
    static const bool light = std::getenv("VF_LIGHT") != nullptr;  // under valgrind
    double            u     = r.unit();
    if (max_n >= 20 && u < 0.0006 && !light)  // rarely by an order of magnitude
        return static_cast<std::size_t>(r.range(static_cast<long long>(4 * max_n), static_cast<long long>(12 * max_n)));
    if (max_n >= 20 && u < 0.004)  // now and then far beyond the usual size
        return static_cast<std::size_t>(r.range(static_cast<long long>(max_n), static_cast<long long>(4 * max_n)));
    if (u < 0.15)
        return static_cast<std::size_t>(r.range(1, std::min<long long>(4, static_cast<long long>(max_n))));
    if (u < 0.55)
        return static_cast<std::size_t>(r.range(1, std::min<long long>(30, static_cast<long long>(max_n))));
    if (u < 0.9)
        return static_cast<std::size_t>(r.range(1, std::min<long long>(120, static_cast<long long>(max_n))));
    return static_cast<std::size_t>(r.range(1, static_cast<long long>(max_n)));
}

// the value, or now and then one beyond what a narrow type holds
inline std::size_t maybe_large(Rng& r, std::size_t x, double p) {
    if (!r.chance(p))
        return x;
    return x + (r.chance(0.5) ? 256 : 65536);
}

inline std::size_t pick_d(Rng& r, std::size_t max_d = 12) {
    double u = r.unit();
    if (u < 0.0005)
        return static_cast<std::size_t>(r.range(257, 300));
    if (u < 0.003)
        return static_cast<std::size_t>(r.range(40, 140));
    if (u < 0.015)  // now and then many features
        return static_cast<std::size_t>(r.range(static_cast<long long>(max_d), 40));
    if (u < 0.2)
        return 1;
    if (u < 0.5)
        return 2;
    if (u < 0.8)
        return static_cast<std::size_t>(r.range(3, 5));
    return static_cast<std::size_t>(r.range(1, static_cast<long long>(max_d)));
}

// the library's default metric: Euclidean on floating point data, Manhattan on integers
template <typename T>
double ref_distance(const T* a, const T* b, std::size_t d) {
    if constexpr (std::is_floating_point_v<T>) {
        long double s = 0;
        for (std::size_t f = 0; f < d; ++f) {
            long double x = static_cast<long double>(a[f]) - static_cast<long double>(b[f]);
            s += x * x;
        }
        return static_cast<double>(std::sqrt(s));
    } else {
        double s = 0;
        for (std::size_t f = 0; f < d; ++f)
            s += std::fabs(static_cast<double>(a[f]) - static_cast<double>(b[f]));
        return s;
    }
}

template <typename T>
double tol_of() {
    if constexpr (std::is_same_v<T, float>)
        return 2e-5;
    else if constexpr (std::is_floating_point_v<T>)
        return 1e-10;
    else
        return 0;
}

// magnitude of the coordinates: distances between close points far from 0 lose relative precision
template <typename T>
double coord_scale(const std::vector<T>& v) {
    double m = 0;
    for (auto x : v)
        m = std::max(m, std::fabs(static_cast<double>(x)));
    return m;
}

template <typename T>
bool near(double a, double b, double scale) {
    if (a == b)
        return true;
    const double t = tol_of<T>();
    return std::fabs(a - b) <= t * std::max(std::fabs(a), std::fabs(b)) + t * 0.1 * scale;
}

template <typename V>
std::string show(const V& v, std::size_t maxn = 40) {
    std::ostringstream os;
    os.precision(12);
    os << "[";
    std::size_t i = 0;
    for (const auto& x : v) {
        if (i++)
            os << ",";
        if (i > maxn) {
            os << "...";
            break;
        }
        os << +x;
    }
    os << "]";
    return os.str();
}

// random subset (possibly everything) of 0..n-1, shuffled
inline std::vector<std::size_t> pick_indices(Rng& r, std::size_t n, double p_subset = 0.3) {
    std::vector<std::size_t> idx(n);
    std::iota(idx.begin(), idx.end(), 0);
    if (n > 1 && r.chance(p_subset)) {
        r.shuffle(idx);
        idx.resize(static_cast<std::size_t>(r.range(1, static_cast<long long>(n))));
        if (r.chance(0.5))
            std::sort(idx.begin(), idx.end());
    } else if (r.chance(0.3)) {
        r.shuffle(idx);
    }
    return idx;
}

}  // namespace vf

#ifndef VF_NO_MAIN
int main(int argc, char** argv) {
    return vf::harness_main(argc, argv);
}
#endif
