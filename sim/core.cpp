#include "core.h"
#include <pthread.h>
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <math.h>
#include <limits.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <new>

const char *fault_name[F_MAX] = {
    "thread_stall", "thread_create_fail", "accept_fail", "setsockopt_fail", "epoll_ctl_fail", "eintr",
    "sock_short_read", "sock_short_write", "client_reset", "client_halfclose", "client_close", "peer_stall", "garbage_input",
    "file_enospc", "file_eio", "file_short_write", "file_read_eio", "file_short_read", "open_fail",
    "rename_fail", "fsync_fail", "unlink_fail", "kill", "power_loss", "sigterm", "clock_jump",
    "rss_change", "corrupt_byte", "truncate", "malloc_fail", "segment_split"
};

u64 Rng::logrange(u64 a, u64 b) {
    double la = log((double)a), lb = log((double)b);
    u64 x = (u64)(exp(la + (lb - la) * unit()) + 0.5);
    return x < a ? a : x > b ? b : x;
}

// ---------------------------------------------------------------- arena
static const size_t ARENA_SIZE = 3ull << 30;
static char *const ARENA = (char *)0x200000000000ull;
struct FreeNode { FreeNode *next; };
struct ArenaHdr { size_t bump; FreeNode *fl[64]; };
bool g_use_arena = false;

void arena_init(void) {
    void *p = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (p != ARENA) { perror("arena"); _exit(3); }
    arena_reset();
}
void arena_reset(void) {
    ArenaHdr *h = (ArenaHdr *)ARENA;
    if (h->bump > (256u << 20)) madvise(ARENA, ARENA_SIZE, MADV_REMOVE);
    memset(h, 0, sizeof *h);
    h->bump = (sizeof *h + 63) & ~63ull;
}
static inline int size_class(size_t n) {      // 16-byte classes to 256, then powers of two
    if (n <= 256) return (int)((n + 15) / 16);
    int c = 17; size_t s = 512;
    while (s < n) { s <<= 1; c++; }
    return c;
}
static inline size_t class_size(int c) { return c <= 16 ? (size_t)c * 16 : (size_t)512 << (c - 17); }
static void *arena_alloc(size_t n) {
    ArenaHdr *h = (ArenaHdr *)ARENA;
    int c = size_class(n + 16);
    FreeNode *f = h->fl[c];
    char *p;
    if (f) { h->fl[c] = f->next; p = (char *)f; }
    else {
        size_t s = class_size(c);
        if (h->bump + s > ARENA_SIZE) { dprintf(2, "sim: arena exhausted\n"); _exit(3); }
        p = ARENA + h->bump; h->bump += s;
    }
    *(u64 *)p = (u64)c;
    return p + 16;
}
static inline bool in_arena(void *p) { return (char *)p >= ARENA && (char *)p < ARENA + ARENA_SIZE; }
void *operator new(size_t n) {
    if (g_use_arena) return arena_alloc(n);
    void *p = malloc(n ? n : 1); if (!p) _exit(3); return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void operator delete(void *p) noexcept {
    if (!p) return;
    if (in_arena(p)) {
        if (!g_use_arena) return;
        char *q = (char *)p - 16; int c = (int)*(u64 *)q;
        ArenaHdr *h = (ArenaHdr *)ARENA;
        ((FreeNode *)q)->next = h->fl[c]; h->fl[c] = (FreeNode *)q;
        return;
    }
    free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// ---------------------------------------------------------------- state
Core *K = 0;
Thr *g_cur = 0;
volatile bool g_active = false;
int g_insim = 0;
static i64 g_quantum = 1;
static u64 g_quantum_start = 1;
unsigned char *g_cov = 0;
u32 g_cov_n = 0;

u64 hash_bytes(const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p; u64 h = 0xcbf29ce484222325ull;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
    return mix64(h ^ n);
}
void hmix(u64 x) { K->hash = mix64(K->hash * 31 + x); }
void logf(const char *fmt, ...) {
    if (!K->trace) return;
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    char pre[96];
    snprintf(pre, sizeof pre, "[%llu.%09llu s%llu i%d t%d] ", (unsigned long long)(K->now / SEC),
        (unsigned long long)(K->now % SEC), (unsigned long long)K->steps, K->incarnation, g_cur ? g_cur->id : -1);
    K->trace_text += pre; K->trace_text += buf; K->trace_text += "\n";
}
void probe(const char *name, u64 n) { K->probe[name] += n; }
void violation(const char *cls, const char *tags, const char *fmt, ...) {
    char buf[8192];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (auto &v : K->viol) if (v.cls == cls) return;
    K->viol.push_back(Violation{cls, tags, buf, K->steps, K->now});
    hmix(hash_bytes(cls, strlen(cls)));
    logf("VIOLATION %s: %s", cls, buf);
}
void fired(Fault f) { K->fired[f]++; hmix(0xfa, f); logf("fault %s", fault_name[f]); }
bool fault_at(Fault f, double p) {
    if (!K->faults_on || K->fault[f].budget <= 0 || p <= 0) return false;
    if (!K->rf.chance(p)) return false;
    K->fault[f].budget--; fired(f);
    return true;
}
bool fault(Fault f) { return fault_at(f, K->fault[f].p); }

void core_new(u64 seed, u64 sched_seed) {
    K = new Core();
    K->seed = seed; K->sched_seed = sched_seed;
    K->rs.seed(seed, 0x5c4ed + sched_seed);
    K->rf.seed(seed, 0xfa017);
    K->rk.seed(seed, 0x0e10 + sched_seed * 3);
    K->now = 1000 * SEC;
}
void at(u64 t, std::function<void()> fn) {
    if (t < K->now) t = K->now;
    K->events.emplace(std::make_pair(t, ++K->evseq), std::move(fn));
}
void at_inc(u64 t, std::function<void()> fn) {
    int inc = K->incarnation;
    at(t, [inc, fn]() { if (K->incarnation == inc) fn(); });
}

// ---------------------------------------------------------------- baton
static void futex_wait(int *p) { syscall(SYS_futex, p, FUTEX_WAIT, 0, 0, 0, 0); }
static void futex_wake(int *p) { syscall(SYS_futex, p, FUTEX_WAKE, 1, 0, 0, 0); }
static void give(Thr *t) { g_cur = t; __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); futex_wake(&t->go); }
static void park(Thr *me) {
    while (!__atomic_load_n(&me->go, __ATOMIC_ACQUIRE)) futex_wait(&me->go);
    me->go = 0;
}

void end_incarnation(int code) { fflush(0); _exit(code); }

static void new_quantum(void) {
    double u = K->rs.unit(); if (u < 1e-9) u = 1e-9;
    i64 q = (i64)(-log(u) * K->q_mean) + 1;
    if (q > 200000) q = 200000;
    g_quantum = q; g_quantum_start = q;
}
static void account_quantum(void) {
    u64 used = g_quantum_start - (u64)(g_quantum < 0 ? 0 : g_quantum);
    K->edges += used; if (g_cur) g_cur->edges += used;
    K->now += used / 8;                 // instrumented work takes simulated time
    g_quantum_start = g_quantum > 0 ? g_quantum : 0;
}

static void run_due(void) {
    while (!K->events.empty() && K->events.begin()->first.first <= K->now) {
        auto it = K->events.begin();
        std::function<void()> fn = std::move(it->second);
        K->events.erase(it);
        g_insim++; fn(); g_insim--;
        if (K->ending) return;
    }
}
static void budget(void) {
    if (K->limit_hit) return;
    if (K->steps > K->lim.max_steps || K->edges > K->lim.max_edges || K->now > K->lim.max_time) {
        K->limit_hit = true;
        K->limit_what = K->steps > K->lim.max_steps ? "steps" : K->edges > K->lim.max_edges ? "edges" : "time";
        K->ending = true; K->end_code = 0;
    }
}
static bool same_spin_deadlock(void) {
    for (Thr *t : K->thr) if (t->st == T_RUN && t->spinning && K->now - t->spin_since > K->lim.spin_limit && t->spin_n > 50) return true;
    return false;
}
// Select the next thread to run; runs world events while nothing can run.
static Thr *choose(Thr *me, int kind) {
    static std::vector<Thr *> *cand_p = 0;
    std::vector<Thr *> cand; (void)cand_p;
    for (;;) {
        if (K->ending) end_incarnation(K->end_code);
        cand.clear();
        bool onlyspin = true;
        for (Thr *t : K->thr) if (t->st == T_RUN) { cand.push_back(t); if (!t->spinning) onlyspin = false; }
        if (cand.empty() || (onlyspin && kind != SP_PREEMPT && !K->events.empty())) {
            if (K->events.empty()) {   // nothing can ever happen again
                K->limit_hit = true; K->limit_what = "deadlock"; K->ending = true; continue;
            }
            bool spinners = !cand.empty();
            u64 t = K->events.begin()->first.first;
            // spinning threads poll: let them look again at least every 50us
            if (spinners && t > K->now + 50 * USEC && K->rs.chance(0.02)) t = K->now + 50 * USEC;
            if (t > K->now) K->now = t;
            run_due();
            if (K->now > K->lim.max_time) budget();
            if (same_spin_deadlock()) { K->limit_hit = true; K->limit_what = "spin"; K->ending = true; continue; }
            if (!spinners) continue;
            // re-collect
            cand.clear();
            for (Thr *t2 : K->thr) if (t2->st == T_RUN) cand.push_back(t2);
            if (cand.empty()) continue;
            bool any = false;
            for (Thr *t2 : cand) if (!t2->spinning) any = true;
            if (any) { std::vector<Thr *> c2; for (Thr *t2 : cand) if (!t2->spinning) c2.push_back(t2); cand.swap(c2); }
            return cand[K->rs.below(cand.size())];
        }
        break;
    }
    // avoid pure spinners when someone else can work
    bool anywork = false;
    for (Thr *t : cand) if (!t->spinning) anywork = true;
    if (anywork && K->rs.chance(0.9)) {
        std::vector<Thr *> c2; for (Thr *t : cand) if (!t->spinning) c2.push_back(t); cand.swap(c2);
    }
    if (cand.size() == 1) return cand[0];
    if (K->policy == 1) {
        if (kind == SP_PREEMPT && me && me->st == T_RUN && K->rs.chance(0.3)) me->prio = (int)K->rs.below(1000) - 1000;
        Thr *best = cand[0];
        for (Thr *t : cand) if (t->prio > best->prio || (t->prio == best->prio && t->id < best->id)) best = t;
        if (best == me && (kind == SP_PAUSE)) { // never starve others behind a polling thread
            for (Thr *t : cand) if (t->prio < me->prio) me->prio = t->prio;
            me->prio -= 1 + (int)K->rs.below(3);
            best = cand[0];
            for (Thr *t : cand) if (t->prio > best->prio) best = t;
        }
        return best;
    }
    if (kind == SP_SYS && me && me->st == T_RUN && !me->spinning) {
        if (!K->rs.chance(K->p_sys)) return me;
    }
    if (kind != SP_SYS && me && me->st == T_RUN) {   // prefer somebody else
        std::vector<Thr *> c2; for (Thr *t : cand) if (t != me) c2.push_back(t);
        if (!c2.empty()) return c2[K->rs.below(c2.size())];
    }
    return cand[K->rs.below(cand.size())];
}

void sched_point(int kind, const char *what) {
    Thr *me = g_cur;
    if (!me || g_insim) return;
    int saved_errno = errno;
    g_active = false;
    account_quantum();
    K->steps++; me->steps++;
    me->what = what;
    K->now += K->tick_min + K->rs.below(K->tick_max - K->tick_min + 1);
    if (kind == SP_PAUSE) {
        if (!me->spinning) { me->spinning = true; me->spin_since = K->now; me->spin_n = 0; }
        me->spin_n++; me->pause_edges = me->edges;
    } else if (kind == SP_PREEMPT) { if (me->spinning && me->edges - me->pause_edges > 150) me->spinning = false; } // it got on with work
     else if (kind != SP_PREEMPT) me->spinning = false;
    run_due();
    budget();
    if (K->ending) end_incarnation(K->end_code);
    if (me->st == T_RUN && kind != SP_EXIT && kind != SP_PAUSE && fault(F_STALL)) {
        u64 d = 1 + K->rf.below(K->stall_max);
        me->st = T_BLOCK; me->why = W_STALL; me->wobj = 0;
        u64 gen = ++me->wake_gen; Thr *t = me;
        at_inc(K->now + d, [t, gen]() { if (t->st == T_BLOCK && t->why == W_STALL && t->wake_gen == gen) { t->st = T_RUN; t->why = W_NONE; } });
        logf("stall t%d %llu us", me->id, (unsigned long long)(d / 1000));
    }
    if (kind == SP_PREEMPT && (K->p_hold > 0 || K->at_site) && K->hold_max && me->st == T_RUN && K->faults_on && K->holds < 2000 && K->hold_total < 700 * MSEC && K->rs.chance(K->at_site ? 0.8 : K->p_hold)) {   // off the processor for a while
        u64 d = 1 + (K->rs.chance(0.3) ? K->rs.logrange(200, K->hold_max) : K->rs.below(K->hold_max)); K->holds++; K->hold_total += d;
        me->st = T_BLOCK; me->why = W_STALL; me->wobj = 0;
        u64 gen = ++me->wake_gen; Thr *t = me;
        at_inc(K->now + d, [t, gen]() { if (t->st == T_BLOCK && t->why == W_STALL && t->wake_gen == gen) { t->st = T_RUN; t->why = W_NONE; } });
    }
    K->at_site = false;
    Thr *n = choose(me, kind);
    if (n != me) {
        K->switches++;
        if (kind == SP_PREEMPT) K->preempts++;
        K->sched_hash = mix64(K->sched_hash * 31 + n->id + 131 * (u64)kind + me->edges * 977);
        give(n);
        if (me->st == T_DONE) return;
        park(me);
    }
    new_quantum();
    errno = saved_errno;
    g_active = true;
}

bool block_on(Why why, const void *obj, u64 timeout_ns) {
    Thr *me = g_cur;
    me->st = T_BLOCK; me->why = why; me->wobj = obj; me->timed_out = false;
    u64 gen = ++me->wake_gen;
    if (timeout_ns) {
        Thr *t = me;
        at_inc(K->now + timeout_ns, [t, gen]() {
            if (t->st == T_BLOCK && t->wake_gen == gen) { t->timed_out = true; t->st = T_RUN; t->why = W_NONE; }
        });
    }
    sched_point(SP_BLOCK, "block");
    return !me->timed_out;
}
void wake_thr(Thr *t) { if (t->st == T_BLOCK && t->why != W_STALL) { t->st = T_RUN; t->why = W_NONE; } }
void wake_all(Why why, const void *obj) {
    for (Thr *t : K->thr) if (t->st == T_BLOCK && t->why == why && t->wobj == obj) wake_thr(t);
}
void wake_one(Why why, const void *obj) {
    std::vector<Thr *> c;
    for (Thr *t : K->thr) if (t->st == T_BLOCK && t->why == why && t->wobj == obj) c.push_back(t);
    if (!c.empty()) wake_thr(c[K->rs.below(c.size())]);
}

static void *tramp(void *a) {
    Thr *t = (Thr *)a;
    park(t);
    new_quantum();
    g_active = true;
    t->ret = t->fn(t->arg);
    g_active = false;
    t->st = T_DONE;
    wake_all(W_JOIN, t);
    sched_point(SP_EXIT, "thread-exit");
    return 0;
}
Thr *thr_spawn(void *(*fn)(void *), void *arg, const char *what) {
    Thr *t = new Thr();
    t->id = (int)K->thr.size(); t->fn = fn; t->arg = arg; t->st = T_RUN; t->what = what;
    t->handle = 0x1000 + t->id; t->prio = (int)K->rs.below(1000);
    K->thr.push_back(t);
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    pthread_t p;
    int rc = pthread_create(&p, &at, tramp, t);
    if (rc) { dprintf(2, "sim: pthread_create: %s\n", strerror(rc)); _exit(3); }
    return t;
}
void core_reset_incarnation(void) {
    K->thr.clear(); g_cur = 0; K->ending = false; K->end_code = 0;
}
static void *boot_fn(void *) { return 0; }
void run_incarnation(std::function<void()> setup) {
    core_reset_incarnation();
    K->incarnation++;
    (void)boot_fn;
    setup();                        // must spawn at least one thread
    Thr *n = choose(0, SP_BLOCK);
    give(n);
    for (;;) pause();               // some thread ends the process
}

// ---------------------------------------------------------------- coverage hooks
static void preempt(void) {
    if (!g_cur || g_insim) { new_quantum(); return; }
    sched_point(SP_PREEMPT, "preempt");
}
// Some runs pick a few places of the program and often take a thread off the
// processor there, so that every place gets its turn however rarely it is run.
extern "C" const char *sut_files[]; extern "C" unsigned sut_guards[];      // in the order of their initialisation, see build.sh
static std::pair<u32, u32> g_range[64]; static int g_nranges = 0;
static unsigned char g_site[COV_MAX]; static unsigned short g_hits[COV_MAX];
void core_sites(int n, double p) {
    memset(g_site, 0, sizeof g_site); memset(g_hits, 0, sizeof g_hits); K->p_site = p;
    // half of the time only where commands are executed
    std::vector<std::pair<u32, u32>> rg; u32 tot = 0; bool cmds = K->rs.chance(0.75);
    for (int i = 0; i < g_nranges; i++) if (!cmds || !strcmp(sut_files[i], "cmds") || !strcmp(sut_files[i], "pogocache")) { rg.push_back(g_range[i]); tot += g_range[i].second - g_range[i].first; }
    for (int i = 0; i < n && tot; i++) { u32 x = (u32)K->rs.below(tot); for (auto &p : rg) { u32 m = p.second - p.first; if (x < m) { if (p.first + x < COV_MAX) g_site[p.first + x] = 1; break; } x -= m; } }
}
static void site(u32 i) {
    if (!g_cur || g_insim || !K->faults_on) return;
    if (g_hits[i] < 60000) g_hits[i]++;
    if (!K->rs.chance(g_hits[i] < 40 ? K->p_site : 0.01)) return;
    K->at_site = true; sched_point(SP_PREEMPT, "site");
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(u32 *start, u32 *stop) {
    if (start == stop || *start) return;
    for (u32 *x = start; x < stop; x++) *x = ++g_cov_n;
    u32 tot = 0; for (int i = 0; sut_files[i]; i++) tot += sut_guards[i];
    if (tot == g_cov_n) { u32 from = 1; for (int i = 0; sut_files[i] && i < 64; i++) { g_range[g_nranges++] = { from, from + sut_guards[i] }; from += sut_guards[i]; } }
    else { dprintf(2, "sim: %u coverage points, %u expected\n", g_cov_n, tot); _exit(3); }
}
void __sanitizer_cov_trace_pc_guard(u32 *g) {
    if (!g_active) return;
    u32 i = *g; if (g_cov && i < COV_MAX) g_cov[i] = 1;
    if (--g_quantum <= 0) preempt(); else if (i < COV_MAX && g_site[i]) site(i);
}
#define LS(n) void n(void *p) { (void)p; if (!g_active) return; if (--g_quantum <= 0) preempt(); }
// A store to a global variable is a likely place for a lost update or a broken
// check-then-act: some runs switch threads right before one.
extern char __data_start, _end;
static i64 g_gleft = 1;
static void global_store(void) {
    double u = K->rs.unit(); if (u < 1e-9) u = 1e-9;
    g_gleft = (i64)(-log(u) * K->g_mean) + 1;
    preempt();
}
#define SS(n) void n(void *p) { if (!g_active) return; if (--g_quantum <= 0) preempt(); else if (K->g_mean > 0 && (char *)p >= &__data_start && (char *)p < &_end && --g_gleft <= 0) global_store(); }
LS(__sanitizer_cov_load1) LS(__sanitizer_cov_load2) LS(__sanitizer_cov_load4) LS(__sanitizer_cov_load8) LS(__sanitizer_cov_load16)
SS(__sanitizer_cov_store1) SS(__sanitizer_cov_store2) SS(__sanitizer_cov_store4) SS(__sanitizer_cov_store8) SS(__sanitizer_cov_store16)
}
