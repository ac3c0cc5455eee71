// P26: the library only reads what it is given (samples, labels, queries, and the index sequence once the index is
// built lie on read-only pages while it works), and the same call on the same input gives the same result.
#include "ops.hpp"

#include <csignal>
#include <unordered_set>
#include <functional>
#include <sys/mman.h>
#include <unistd.h>

using namespace vf;
using namespace vf::ops;

namespace {

struct Region {
    char*       base;
    std::size_t size;
    const char* name;
};
constexpr int kRegions = 64;
Region        regions[kRegions];  // protected right now
volatile int  active = 0;

extern "C" void on_fault(int, siginfo_t* si, void*) {
    auto* a = static_cast<char*>(si->si_addr);
    for (int i = 0; i < kRegions; ++i)
        if (regions[i].base && a >= regions[i].base && a < regions[i].base + regions[i].size) {
            const char* m1 = "ERROR: the library wrote to the caller's ";
            if (::write(2, m1, std::strlen(m1)) < 0 || ::write(2, regions[i].name, std::strlen(regions[i].name)) < 0 || ::write(2, "\n", 1) < 0) {
            }
            _exit(77);
        }
    const char* m = "ERROR: access outside of any memory of the caller\n";
    if (::write(2, m, std::strlen(m)) < 0) {
    }
    _exit(78);
}

// each allocation ends at the end of a page, with an inaccessible page behind it
template <typename T>
struct PageAlloc {
    using value_type = T;
    PageAlloc()      = default;
    template <typename U>
    PageAlloc(const PageAlloc<U>&) {}
    static std::size_t pages(std::size_t bytes) {
        return (bytes + 4095) / 4096 * 4096;
    }
    T* allocate(std::size_t n) {
        const auto b = pages(n * sizeof(T));
        auto*      p = static_cast<char*>(::mmap(nullptr, b + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (p == MAP_FAILED)
            throw std::bad_alloc();
        ::mprotect(p + b, 4096, PROT_NONE);
        return reinterpret_cast<T*>(p + b - n * sizeof(T));
    }
    void deallocate(T* q, std::size_t n) {
        const auto b = pages(n * sizeof(T));
        ::munmap(reinterpret_cast<char*>(q) + n * sizeof(T) - b, b + 4096);
    }
    template <typename U>
    bool operator==(const PageAlloc<U>&) const {
        return true;
    }
    template <typename U>
    bool operator!=(const PageAlloc<U>&) const {
        return false;
    }
};
template <typename T>
using Vec = std::vector<T, PageAlloc<T>>;

template <typename T>
struct ReadOnly {
    char*       base = nullptr;
    std::size_t size = 0;
    int         slot = -1;
    ReadOnly(Vec<T>& v, const char* name) {
        if (v.empty())
            return;
        size = PageAlloc<T>::pages(v.capacity() * sizeof(T));
        base = reinterpret_cast<char*>(v.data()) + v.capacity() * sizeof(T) - size;
        for (int i = 0; i < kRegions && slot < 0; ++i)
            if (!regions[i].base) {
                regions[i] = {base, size, name};
                slot       = i;
            }
        ::mprotect(base, size, PROT_READ);
    }
    ~ReadOnly() {
        if (base) {
            ::mprotect(base, size, PROT_READ | PROT_WRITE);
            regions[slot].base = nullptr;
        }
    }
    ReadOnly(const ReadOnly&) = delete;
};

template <typename T>
Vec<T> pages_of(const std::vector<T>& v) {
    Vec<T> o;
    o.reserve(v.size());
    o.assign(v.begin(), v.end());
    return o;
}

struct Pages {
    template <typename T>
    using Vec = ::Vec<T>;
    template <typename T>
    static Vec<T> of(const std::vector<T>& v) {
        return pages_of(v);
    }
    template <typename T>
    using Guard = ReadOnly<T>;
};

template <typename T>
void one(Ctx& ctx) {
    Rng&       r    = ctx.rng;
    const auto n    = std::max<std::size_t>(1, pick_n(r, 120)), d = pick_d(r, 6);
    const auto what = r.range(0, kOperations - 1);
    const auto mine = make_case<T>(r, n, d, what);
    ctx.desc        = mine.data.str() + " " + mine.opts.str();
    const auto first = run<Pages>(ctx, mine);
    if (r.chance(0.7)) {
        // something else in between: the same operation on data of the same or another size, or any other operation
        const bool same = r.chance(0.6), alike = r.chance(0.5);
        const auto other = make_case<T>(r, alike ? n : std::max<std::size_t>(1, pick_n(r, 60)), alike ? d : pick_d(r, 6), same ? what : r.range(0, kOperations - 1));
        const auto there = run<Pages>(ctx, other);  // as a rule where the first input was before
        const auto taken = pages_of(mine.data.v);
        const auto also  = pages_of(other.data.v), queries = pages_of(other.q), indices = pages_of(std::vector<T>(2 * other.idx.size() * sizeof(std::size_t) / sizeof(T)));
        ctx.check(there == run<Pages>(ctx, other), "not-repeatable", "the same call on a copy of the input elsewhere in memory (operation ", other.what, ") gives another result");
        ctx.count("interleaved");
    }
    const auto again = run<Pages>(ctx, mine);
    ctx.check(first == again, "not-repeatable", "the same call on a copy of the input (operation ", what, ") gives another result");
    ctx.count("repetitions");
    Hasher h;
    h.addv(mine.data.v).addv(mine.idx).add(what).add(mine.k).add(mine.opts.bucket).add(mine.opts.policy);
    if (n > 2)
        ctx.nontrivial(h.h);
    ctx.sample(ctx.desc + " operation " + std::to_string(what));
}

struct Install {
    Install() {
        static char stack[1 << 16];
        stack_t     ss{};
        ss.ss_sp   = stack;
        ss.ss_size = sizeof stack;
        ::sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_sigaction = on_fault;
        sa.sa_flags     = SA_SIGINFO | SA_ONSTACK;
        ::sigaction(SIGSEGV, &sa, nullptr);
        ::sigaction(SIGBUS, &sa, nullptr);
    }
} install;

}  // namespace

void vf::run_case(Ctx& ctx) {
    const auto u = ctx.rng.range(0, 9);
    if (u < 5)
        one<double>(ctx);
    else if (u < 8)
        one<float>(ctx);
    else
        one<int>(ctx);
}
