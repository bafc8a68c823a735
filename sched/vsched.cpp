#include "vsched.h"

#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>

#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace vsched {
namespace {

constexpr int max_threads = 256;

enum class st : int { unused, ready, running, sleeping, blocked, done };

struct tcb {
    st state{st::unused};
    std::uint64_t wake{0};      // sleeping / timed block
    void const* addr{nullptr};  // blocked on
    bool timed{false};
    bool timed_out{false};
    int futex{0};
    std::uint64_t prio{0};
    std::uint64_t last_ran{0};
    int nopre{0};
    std::uint32_t backoff{0};
    std::uint64_t last_pause_cb{0};
    pthread_t handle{};
    void* (*fn)(void*){nullptr};
    void* arg{nullptr};
};

tcb g_t[max_threads];
int g_n{0};
bool g_active{false};
params g_p{};
std::uint64_t g_rng{1};
std::uint64_t g_now{0};
std::uint64_t g_cb{0};
std::uint64_t g_sw{0};
std::uint64_t g_turn{0};
std::uint64_t g_pre{0};
std::uint64_t g_next_change{0};
std::uint64_t g_changes_left{0};
std::uint64_t g_low_prio{0};
void (*g_stuck)(stop_reason, char const*){nullptr};
void (*g_crash)(){nullptr};
bool g_is_stuck{false};

thread_local int t_self __attribute__((tls_model("initial-exec"))) = -1;
thread_local int t_budget __attribute__((tls_model("initial-exec"))) = INT_MAX;
thread_local int t_given __attribute__((tls_model("initial-exec"))) = INT_MAX;

std::uint64_t rnd() {
    g_rng += 0x9e3779b97f4a7c15ULL;
    std::uint64_t z = g_rng;
    z = (z ^ (z >> 30U)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27U)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31U);
}

int fwait(int* a, int v) {
    return static_cast<int>(syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0));
}
void fwake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

template<class F>
F next_sym(char const* n) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}

// charge the callbacks used since the budget was given out
void account() {
    auto used = static_cast<std::uint64_t>(t_given - t_budget);
    t_given = t_budget;
    g_cb += used;
    g_now += used * g_p.tick_ns;
}

void give_budget() {
    long b{};
    switch (g_p.pol) {
        case policy::coop:
            b = 100000; // only to notice endless loops
            break;
        case policy::rand: {
            // geometric-like: mixes very short and longer slices
            std::uint64_t r = rnd() % 8;
            std::uint64_t q = g_p.quantum;
            if (r < 2) {
                b = 1 + static_cast<long>(rnd() % 8);
            } else if (r < 6) {
                b = 1 + static_cast<long>(rnd() % (2 * q));
            } else {
                b = 1 + static_cast<long>(rnd() % (8 * q));
            }
            break;
        }
        case policy::pct: {
            b = 100000;
            if (g_changes_left > 0 && g_next_change > g_cb) {
                std::uint64_t d = g_next_change - g_cb;
                if (d < static_cast<std::uint64_t>(b)) { b = static_cast<long>(d); }
            }
            break;
        }
    }
    if (g_p.crash_at > g_cb) {
        std::uint64_t d = g_p.crash_at - g_cb;
        if (d < static_cast<std::uint64_t>(b)) { b = static_cast<long>(d); }
    }
    if (g_p.stall_at > g_cb) {
        std::uint64_t d = g_p.stall_at - g_cb;
        if (d < static_cast<std::uint64_t>(b)) { b = static_cast<long>(d); }
    }
    if (b < 1) { b = 1; }
    t_budget = static_cast<int>(b);
    t_given = t_budget;
}

void stuck(stop_reason r) {
    if (g_is_stuck) { return; }
    g_is_stuck = true;
    char buf[2048];
    int n = 0;
    for (int i = 0; i < g_n && n < 1900; ++i) {
        if (g_t[i].state == st::unused || g_t[i].state == st::done) { continue; }
        n += snprintf(buf + n, sizeof(buf) - static_cast<std::size_t>(n), "t%d:%d ", i,
                      static_cast<int>(g_t[i].state));
    }
    buf[n] = 0;
    if (g_stuck != nullptr) { g_stuck(r, buf); }
    _exit(78);
}

// pick who runs next; -1 if nobody ever can
int pick() {
    for (;;) {
        int cand[max_threads];
        int nc = 0;
        std::uint64_t minw = UINT64_MAX;
        for (int i = 0; i < g_n; ++i) {
            auto& t = g_t[i];
            if ((t.state == st::sleeping || (t.state == st::blocked && t.timed)) &&
                t.wake <= g_now) {
                if (t.state == st::blocked) { t.timed_out = true; }
                t.state = st::ready;
            }
            if (t.state == st::ready) {
                cand[nc++] = i;
            } else if (t.state == st::sleeping || (t.state == st::blocked && t.timed)) {
                if (t.wake < minw) { minw = t.wake; }
            }
        }
        if (nc > 0) {
            if (g_p.pol == policy::pct) {
                // nobody is passed over for ever
                int best = cand[0];
                int old = cand[0];
                for (int k = 1; k < nc; ++k) {
                    if (g_t[cand[k]].prio > g_t[best].prio) { best = cand[k]; }
                    if (g_t[cand[k]].last_ran < g_t[old].last_ran) { old = cand[k]; }
                }
                if (g_cb - g_t[old].last_ran > 50000) { best = old; }
                g_t[best].last_ran = g_cb;
                return best;
            }
            if (g_p.turns) {
                int old = cand[0];
                for (int k = 1; k < nc; ++k) {
                    if (g_t[cand[k]].last_ran < g_t[old].last_ran) { old = cand[k]; }
                }
                g_t[old].last_ran = ++g_turn;
                return old;
            }
            return cand[nc == 1 ? 0 : static_cast<int>(rnd() % static_cast<std::uint64_t>(nc))];
        }
        if (minw == UINT64_MAX) { return -1; }
        g_now = minw;
        if (g_now > g_p.max_virtual_ns) {
            stuck(stop_reason::time);
        }
    }
}

void wait_turn(int me) {
    auto& t = g_t[me];
    while (__atomic_load_n(&t.futex, __ATOMIC_ACQUIRE) == 0) { fwait(&t.futex, 0); }
    __atomic_store_n(&t.futex, 0, __ATOMIC_RELAXED);
    t.state = st::running;
}

// give the processor away; the caller has set its own state
void switch_away() {
    int me = t_self;
    account();
    if (g_cb > g_p.max_callbacks) { stuck(stop_reason::callbacks); }
    int nx = pick();
    if (nx < 0) {
        stuck(stop_reason::deadlock);
    }
    if (nx == me) {
        g_t[me].state = st::running;
        give_budget();
        return;
    }
    ++g_sw;
    g_t[nx].state = st::running;
    __atomic_store_n(&g_t[nx].futex, 1, __ATOMIC_RELEASE);
    fwake(&g_t[nx].futex);
    wait_turn(me);
    give_budget();
}

bool managed() { return g_active && t_self >= 0; }

void block_on(void const* a) {
    auto& t = g_t[t_self];
    t.state = st::blocked;
    t.addr = a;
    t.timed = false;
    switch_away();
}

// returns true if timed out
bool block_on_until(void const* a, std::uint64_t wake) {
    auto& t = g_t[t_self];
    t.state = st::blocked;
    t.addr = a;
    t.timed = true;
    t.timed_out = false;
    t.wake = wake;
    switch_away();
    t.timed = false;
    return t.timed_out;
}

void wake_all(void const* a) {
    for (int i = 0; i < g_n; ++i) {
        if (g_t[i].state == st::blocked && g_t[i].addr == a) { g_t[i].state = st::ready; }
    }
}

void wake_one(void const* a) {
    int c[max_threads];
    int n = 0;
    for (int i = 0; i < g_n; ++i) {
        if (g_t[i].state == st::blocked && g_t[i].addr == a) { c[n++] = i; }
    }
    if (n > 0) { g_t[c[rnd() % static_cast<std::uint64_t>(n)]].state = st::ready; }
}

void* trampoline(void* a) {
    auto* t = static_cast<tcb*>(a);
    int me = static_cast<int>(t - g_t);
    t_self = me;
    wait_turn(me);
    give_budget();
    void* r = t->fn(t->arg);
    if (g_active) {
        account();
        t->state = st::done;
        wake_all(t);
        t_self = -1;
        t_budget = INT_MAX;
        t_given = INT_MAX;
        int nx = pick();
        if (nx < 0) { stuck(stop_reason::deadlock); }
        ++g_sw;
        g_t[nx].state = st::running;
        __atomic_store_n(&g_t[nx].futex, 1, __ATOMIC_RELEASE);
        fwake(&g_t[nx].futex);
    }
    return r;
}

void yield_for(std::uint64_t ns) {
    auto& t = g_t[t_self];
    account();
    t.state = st::sleeping;
    t.wake = g_now + ns;
    switch_away();
}

} // namespace

void start(params const& p) {
    g_p = p;
    g_rng = p.seed * 0x9e3779b97f4a7c15ULL + 12345;
    g_now = 0;
    g_cb = 0;
    g_sw = 0;
    g_pre = 0;
    for (auto& t : g_t) { t = tcb{}; }
    g_n = 1;
    g_t[0].state = st::running;
    g_t[0].prio = 1000000 + (rnd() % 1000000);
    g_low_prio = 1000;
    g_changes_left = p.pol == policy::pct ? p.change_points : 0;
    g_next_change = g_changes_left != 0 ? 1 + rnd() % p.pct_len : 0;
    t_self = 0;
    g_active = true;
    give_budget();
}

void stop() {
    account();
    g_active = false;
    t_self = -1;
    t_budget = INT_MAX;
    t_given = INT_MAX;
}

bool active() { return g_active; }
std::uint64_t now_ns() {
    if (managed()) { account(); }
    return g_now;
}
std::uint64_t callbacks() {
    if (managed()) { account(); }
    return g_cb;
}
std::uint64_t switches() { return g_sw; }
std::uint64_t preemptions() { return g_pre; }

void arm_stall(std::uint64_t n) {
    if (!managed()) { return; }
    account();
    g_p.stall_at = g_cb + n;
    give_budget();
}

void sleep_ns(std::uint64_t ns) {
    if (!managed()) { return; }
    yield_for(ns);
}

void set_crash_handler(void (*h)()) { g_crash = h; }

void crash() {
    if (g_crash != nullptr) { g_crash(); }
    _exit(77);
}

void set_stuck_handler(void (*h)(stop_reason, char const*)) { g_stuck = h; }

void no_preempt(bool on) {
    if (!managed()) { return; }
    g_t[t_self].nopre += on ? 1 : -1;
}

void set_policy(policy p) {
    account();
    g_p.pol = p;
    give_budget();
}

int self() { return g_active ? t_self : -1; }

} // namespace vsched

using namespace vsched;

extern "C" {

static void vs_budget_end() {
    if (!managed()) {
        t_budget = INT_MAX;
        t_given = INT_MAX;
        return;
    }
    account();
    if (g_p.crash_at != 0 && g_cb >= g_p.crash_at) { crash(); }
    if (g_cb > g_p.max_callbacks) { stuck(stop_reason::callbacks); }
    auto& t = g_t[t_self];
    if (g_p.stall_at != 0 && g_cb >= g_p.stall_at && t.nopre == 0) {
        g_p.stall_at = 0;
        yield_for(g_p.stall_ns);
        return;
    }
    if (t.nopre != 0) {
        give_budget();
        return;
    }
    int saved = errno;
    if (g_p.pol == policy::coop) {
        // running for very long without waiting: let others run and let time pass
        yield_for(1000);
    } else if (g_p.pol == policy::rand) {
        ++g_pre;
        t.state = st::ready;
        switch_away();
    } else {
        if (g_changes_left > 0 && g_cb >= g_next_change) {
            --g_changes_left;
            g_next_change = g_changes_left != 0 ? g_cb + 1 + rnd() % g_p.pct_len : 0;
            t.prio = g_low_prio--;
            ++g_pre;
            t.state = st::ready;
            switch_away();
        } else {
            yield_for(1000);
        }
    }
    errno = saved;
}

__attribute__((no_sanitize_address, no_sanitize_coverage)) void __sanitizer_cov_trace_pc() {
    if (__builtin_expect(--t_budget > 0, 1)) { return; }
    vs_budget_end();
}

void vp_pause(void) {
    if (!managed()) { return; }
    auto& t = g_t[t_self];
    account();
    // a thread that does nothing but spin waits longer and longer
    if (g_cb - t.last_pause_cb < 64) {
        if (t.backoff < 12) { ++t.backoff; }
    } else {
        t.backoff = 0;
    }
    t.last_pause_cb = g_cb;
    yield_for(200ULL << t.backoff);
}

int sched_yield(void) {
    if (!managed()) {
        static auto f = next_sym<int (*)()>("sched_yield");
        return f();
    }
    vp_pause();
    return 0;
}

int nanosleep(const struct timespec* req, struct timespec* rem) {
    if (!managed()) {
        static auto f = next_sym<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
        return f(req, rem);
    }
    yield_for(static_cast<std::uint64_t>(req->tv_sec) * 1000000000ULL +
              static_cast<std::uint64_t>(req->tv_nsec));
    return 0;
}

int clock_nanosleep(clockid_t c, int flags, const struct timespec* req, struct timespec* rem) {
    if (!managed()) {
        static auto f = next_sym<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>(
                "clock_nanosleep");
        return f(c, flags, req, rem);
    }
    std::uint64_t ns = static_cast<std::uint64_t>(req->tv_sec) * 1000000000ULL +
                       static_cast<std::uint64_t>(req->tv_nsec);
    if ((flags & TIMER_ABSTIME) != 0) {
        struct timespec now {};
        clock_gettime(c, &now);
        std::uint64_t n = static_cast<std::uint64_t>(now.tv_sec) * 1000000000ULL +
                          static_cast<std::uint64_t>(now.tv_nsec);
        ns = ns > n ? ns - n : 0;
    }
    yield_for(ns);
    return 0;
}

int usleep(useconds_t us) {
    struct timespec ts {};
    ts.tv_sec = us / 1000000;
    ts.tv_nsec = static_cast<long>(us % 1000000) * 1000;
    return nanosleep(&ts, nullptr);
}

int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!managed()) {
        return static_cast<int>(syscall(SYS_clock_gettime, c, ts));
    }
    account();
    std::uint64_t v = g_now + 1700000000ULL * 1000000000ULL;
    ts->tv_sec = static_cast<time_t>(v / 1000000000ULL);
    ts->tv_nsec = static_cast<long>(v % 1000000000ULL);
    return 0;
}

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    static auto f = next_sym<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>(
            "pthread_create");
    if (!managed()) { return f(th, attr, fn, arg); }
    if (g_n >= max_threads) { abort(); }
    account();
    int id = g_n++;
    auto& t = g_t[id];
    t = tcb{};
    t.fn = fn;
    t.arg = arg;
    t.prio = 1000000 + (rnd() % 1000000);
    t.state = st::ready;
    give_budget();
    int rc = f(th, attr, trampoline, &t);
    if (rc != 0) {
        t.state = st::done;
    } else {
        t.handle = *th;
    }
    return rc;
}

int pthread_join(pthread_t th, void** ret) {
    static auto f = next_sym<int (*)(pthread_t, void**)>("pthread_join");
    if (managed()) {
        for (int i = 1; i < g_n; ++i) {
            if (g_t[i].state != st::unused && g_t[i].fn != nullptr &&
                pthread_equal(g_t[i].handle, th) != 0) {
                while (g_t[i].state != st::done) { block_on(&g_t[i]); }
                g_t[i].fn = nullptr;
                break;
            }
        }
    }
    return f(th, ret);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto f = next_sym<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    static auto tr = next_sym<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!managed()) { return f(m); }
    for (;;) {
        int rc = tr(m);
        if (rc != EBUSY) { return rc; }
        block_on(m);
    }
}

int pthread_mutex_unlock(pthread_mutex_t* m) {
    static auto f = next_sym<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    int rc = f(m);
    if (managed()) { wake_all(m); }
    return rc;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    static auto f = next_sym<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
    static auto tr = next_sym<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
    if (!managed()) { return f(m); }
    for (;;) {
        int rc = tr(m);
        if (rc != EBUSY) { return rc; }
        block_on(m);
    }
}

int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    static auto f = next_sym<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
    static auto tr = next_sym<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
    if (!managed()) { return f(m); }
    for (;;) {
        int rc = tr(m);
        if (rc != EBUSY) { return rc; }
        block_on(m);
    }
}

int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    static auto f = next_sym<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
    int rc = f(m);
    if (managed()) { wake_all(m); }
    return rc;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto f = next_sym<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    if (!managed()) { return f(c, m); }
    pthread_mutex_unlock(m);
    block_on(c);
    return pthread_mutex_lock(m);
}

static int vs_timedwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk,
                        const struct timespec* ts) {
    struct timespec now {};
    clock_gettime(clk, &now);
    std::uint64_t n = static_cast<std::uint64_t>(now.tv_sec) * 1000000000ULL +
                      static_cast<std::uint64_t>(now.tv_nsec);
    std::uint64_t w = static_cast<std::uint64_t>(ts->tv_sec) * 1000000000ULL +
                      static_cast<std::uint64_t>(ts->tv_nsec);
    pthread_mutex_unlock(m);
    bool to = block_on_until(c, g_now + (w > n ? w - n : 0));
    pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}

int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    static auto f = next_sym<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>(
            "pthread_cond_timedwait");
    if (!managed()) { return f(c, m, ts); }
    return vs_timedwait(c, m, CLOCK_REALTIME, ts);
}

int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk,
                           const struct timespec* ts) {
    static auto f = next_sym<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t,
                                     const struct timespec*)>("pthread_cond_clockwait");
    if (!managed()) { return f(c, m, clk, ts); }
    return vs_timedwait(c, m, clk, ts);
}

int pthread_cond_signal(pthread_cond_t* c) {
    static auto f = next_sym<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    if (managed()) { wake_one(c); }
    return f(c);
}

int pthread_cond_broadcast(pthread_cond_t* c) {
    static auto f = next_sym<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    if (managed()) { wake_all(c); }
    return f(c);
}

// function-local statics: a thread preempted inside an initialiser must not
// make another one wait in the kernel
int __cxa_guard_acquire(long long int* g) {
    auto* b = reinterpret_cast<unsigned char*>(g);
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE) != 0) { return 0; }
    for (;;) {
        unsigned char exp = 0;
        if (__atomic_compare_exchange_n(b + 1, &exp, 1, false, __ATOMIC_ACQ_REL,
                                        __ATOMIC_ACQUIRE)) {
            if (__atomic_load_n(b, __ATOMIC_ACQUIRE) != 0) {
                __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE);
                return 0;
            }
            return 1;
        }
        if (managed()) {
            block_on(g);
        }
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE) != 0) { return 0; }
    }
}

void __cxa_guard_release(long long int* g) {
    auto* b = reinterpret_cast<unsigned char*>(g);
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE);
    if (managed()) { wake_all(g); }
}

void __cxa_guard_abort(long long int* g) {
    auto* b = reinterpret_cast<unsigned char*>(g);
    __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE);
    if (managed()) { wake_all(g); }
}

} // extern "C"
