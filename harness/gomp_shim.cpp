// An OpenMP runtime for the race detector. libgomp isn't instrumented, so ThreadSanitizer would neither see the fork and the
// join of its teams (false alarms) nor tell its internal hand-offs from those of the program. Here every parallel region starts
// and joins threads of its own, chunks of loops are handed out with relaxed atomics (no ordering between iterations that OpenMP
// doesn't promise), and threads start after random delays.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace {
constexpr int kLoops = 256;
struct Team {
    unsigned                        n = 1;
    std::atomic<unsigned long long> next[kLoops];
    std::mutex                      m;
    std::condition_variable         cv;
    unsigned                        waiting = 0, round = 0;
    explicit Team(unsigned n_)
      : n(n_) {
        for (auto& x : next)
            x.store(0, std::memory_order_relaxed);
    }
};
struct Self {
    Team*              team = nullptr;
    unsigned           id   = 0;
    int                loops = 0;  // worksharing constructs entered so far
    // current loop
    bool               up = true, is_static = false;
    unsigned long long start = 0, incr = 1, chunk = 1, count = 0, done = 0;
    std::atomic<unsigned long long>* next = nullptr;
};
thread_local Self              self;
std::atomic<unsigned>          g_threads{0};
std::atomic<unsigned long long> g_jitter{1};

unsigned max_threads() {
    unsigned t = g_threads.load(std::memory_order_relaxed);
    if (t)
        return t;
    const char* e = std::getenv("OMP_NUM_THREADS");
    return e && std::atoi(e) > 0 ? static_cast<unsigned>(std::atoi(e)) : 4;
}

void jitter() {
    unsigned long long z = g_jitter.fetch_add(0x9E3779B97F4A7C15ull, std::memory_order_relaxed);
    z                    = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z ^= z >> 27;
    if (z % 4 == 0)
        std::this_thread::sleep_for(std::chrono::microseconds(z / 4 % 60));
    else if (z % 4 == 1)
        std::this_thread::yield();
}

void barrier(Team* t) {
    if (!t || t->n == 1)
        return;
    std::unique_lock<std::mutex> l(t->m);
    const unsigned               r = t->round;
    if (++t->waiting == t->n) {
        t->waiting = 0;
        ++t->round;
        t->cv.notify_all();
    } else
        t->cv.wait(l, [&] { return t->round != r; });
}

bool next_chunk(unsigned long long& from, unsigned long long& to) {
    Self& s = self;
    if (s.is_static) {
        // all the iterations of this thread at once, or its chunks in turn
        const unsigned long long n = s.team ? s.team->n : 1;
        const unsigned long long c = s.chunk ? s.chunk : (s.count + n - 1) / (n ? n : 1);
        from                       = (s.done * n + s.id) * (c ? c : 1);
        ++s.done;
        if (c == 0 || from >= s.count)
            return false;
        to = std::min(from + c, s.count);
        return true;
    }
    jitter();
    const unsigned long long c = s.chunk ? s.chunk : 1;
    if (!s.next) {
        from = s.done * c;
        ++s.done;
    } else
        from = s.next->fetch_add(c, std::memory_order_relaxed);
    if (from >= s.count)
        return false;
    to = std::min(from + c, s.count);
    return true;
}

void begin_loop(bool is_static, bool up, unsigned long long start, unsigned long long count, unsigned long long incr, unsigned long long chunk) {
    Self& s     = self;
    s.is_static = is_static;
    s.up        = up;
    s.start     = start;
    s.incr      = incr;
    s.chunk     = chunk;
    s.count     = count;
    s.done      = 0;
    s.next      = s.team ? &s.team->next[s.loops++ % kLoops] : nullptr;
}

template <typename I>
bool give(I* a, I* b) {
    unsigned long long f, t;
    if (!next_chunk(f, t))
        return false;
    *a = static_cast<I>(self.start + f * self.incr);
    *b = static_cast<I>(self.start + t * self.incr);
    return true;
}

unsigned long long n_long(long start, long end, long incr) {
    if (incr > 0)
        return start < end ? static_cast<unsigned long long>((end - start + incr - 1) / incr) : 0;
    return start > end ? static_cast<unsigned long long>((start - end - incr - 1) / -incr) : 0;
}
unsigned long long n_ull(bool up, unsigned long long start, unsigned long long end, unsigned long long incr) {
    if (up)
        return start < end ? (end - start + incr - 1) / incr : 0;
    const unsigned long long step = 0 - incr;
    return start > end ? (start - end + step - 1) / step : 0;
}

template <typename F>
void run_team(unsigned n, F&& body) {
    if (self.team)
        n = 1;  // nested regions are serialised, as by default
    else if (n == 0)
        n = max_threads();
    const Self outer = self;
    Team       team(n);
    std::vector<std::thread> ts;
    for (unsigned i = 1; i < n; ++i)
        ts.emplace_back([&, i] {
            self      = Self();
            self.team = &team;
            self.id   = i;
            jitter();
            body();
        });
    self      = Self();
    self.team = &team;
    jitter();
    body();
    for (auto& t : ts)
        t.join();
    self = outer;
}

std::mutex                                       g_crit, g_atomic, g_named;
std::map<void**, std::unique_ptr<std::mutex>>    g_names;
std::mutex& named(void** p) {
    std::lock_guard<std::mutex> l(g_named);
    auto&                       m = g_names[p];
    if (!m)
        m = std::make_unique<std::mutex>();
    return *m;
}
}  // namespace

extern "C" {
int  omp_get_thread_num() { return static_cast<int>(self.id); }
int  omp_get_num_threads() { return self.team ? static_cast<int>(self.team->n) : 1; }
int  omp_get_max_threads() { return static_cast<int>(max_threads()); }
int  omp_get_num_procs() { return 8; }
int  omp_in_parallel() { return self.team && self.team->n > 1; }
int  omp_get_level() { return self.team ? 1 : 0; }
void omp_set_num_threads(int n) { g_threads.store(n > 0 ? static_cast<unsigned>(n) : 1, std::memory_order_relaxed); }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
    run_team(n, [&] { fn(data); });
}
void GOMP_barrier() { barrier(self.team); }
bool GOMP_single_start() {
    Self& s = self;
    if (!s.team)
        return true;
    return s.team->next[s.loops++ % kLoops].fetch_add(1, std::memory_order_relaxed) == 0;
}
void GOMP_loop_end() { barrier(self.team); }
void GOMP_loop_end_nowait() {}
void GOMP_critical_start() { g_crit.lock(); }
void GOMP_critical_end() { g_crit.unlock(); }
void GOMP_critical_name_start(void** p) { named(p).lock(); }
void GOMP_critical_name_end(void** p) { named(p).unlock(); }
void GOMP_atomic_start() { g_atomic.lock(); }
void GOMP_atomic_end() { g_atomic.unlock(); }

#define VF_LOOP(NAME, ST)                                                                                                      \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) {                                         \
        begin_loop(ST, i > 0, static_cast<unsigned long long>(s), n_long(s, e, i), static_cast<unsigned long long>(i),         \
                   static_cast<unsigned long long>(c));                                                                       \
        return give(a, b);                                                                                                    \
    }                                                                                                                         \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return give(a, b); }                                                      \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i,              \
                                      unsigned long long c, unsigned long long* a, unsigned long long* b) {                   \
        begin_loop(ST, up, s, n_ull(up, s, e, i), i, c);                                                                      \
        return give(a, b);                                                                                                    \
    }                                                                                                                         \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return give(a, b); }                      \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) {      \
        run_team(n, [&] {                                                                                                     \
            begin_loop(ST, i > 0, static_cast<unsigned long long>(s), n_long(s, e, i), static_cast<unsigned long long>(i),     \
                       static_cast<unsigned long long>(c));                                                                   \
            fn(data);                                                                                                         \
        });                                                                                                                   \
    }
VF_LOOP(static, true)
VF_LOOP(dynamic, false)
VF_LOOP(guided, false)
VF_LOOP(nonmonotonic_dynamic, false)
VF_LOOP(nonmonotonic_guided, false)

#define VF_RUNTIME(NAME)                                                                                                       \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); } \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return give(a, b); }                                                      \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i,              \
                                      unsigned long long* a, unsigned long long* b) {                                         \
        return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, a, b);                                                             \
    }                                                                                                                         \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return give(a, b); }                      \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f) {            \
        GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f);                                                               \
    }
VF_RUNTIME(runtime)
VF_RUNTIME(nonmonotonic_runtime)
VF_RUNTIME(maybe_nonmonotonic_runtime)
}
