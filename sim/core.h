// Deterministic simulation core: run arena, PRNG, virtual time, event queue,
// cooperative scheduling of real threads, fault decisions, run log.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <algorithm>
#include <memory>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

static const u64 USEC = 1000, MSEC = 1000000, SEC = 1000000000ull;

inline u64 mix64(u64 x) {
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27;
    x *= 0x94d049bb133111ebull; x ^= x >> 31; return x;
}
struct Rng {
    u64 s = 1;
    void seed(u64 a, u64 b = 0) { s = mix64(a + 0x9e3779b97f4a7c15ull) ^ mix64(b * 0xd1342543de82ef95ull + 77); }
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool chance(double p) { return p > 0 && (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    u64 logrange(u64 a, u64 b);         // log-uniform in [a,b]
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---- run arena -----------------------------------------------------------
// Everything the harness allocates during a run lives in one shared mapping at
// a fixed address, so that the simulated world outlives a forked server process.
void arena_init(void);
void arena_reset(void);
extern bool g_use_arena;

// ---- fault kinds -----------------------------------------------------------
enum Fault {
    F_STALL, F_THREAD_FAIL, F_ACCEPT_FAIL, F_SOCKOPT_FAIL, F_EPOLLCTL_FAIL, F_EINTR,
    F_SHORT_READ, F_SHORT_WRITE, F_RESET, F_HALFCLOSE, F_CLIENT_CLOSE, F_PEER_STALL, F_GARBAGE,
    F_FILE_ENOSPC, F_FILE_EIO, F_FILE_SHORT, F_READ_EIO, F_READ_SHORT, F_OPEN_FAIL,
    F_RENAME_FAIL, F_FSYNC_FAIL, F_UNLINK_FAIL, F_KILL, F_POWER, F_SIGTERM, F_CLOCK_JUMP,
    F_RSS, F_CORRUPT, F_TRUNC, F_MALLOC, F_SEGMENT, F_MAX
};
extern const char *fault_name[F_MAX];

// ---- threads -----------------------------------------------------------------
enum { T_NEW, T_RUN, T_BLOCK, T_DONE };
enum Why { W_NONE, W_SLEEP, W_EPOLL, W_MUTEX, W_COND, W_JOIN, W_SOCK, W_STALL, W_FOREVER };
struct Thr {
    int id; int go = 0; int st = T_NEW; int why = W_NONE; u64 wake_gen = 0;
    void *(*fn)(void *) = 0; void *arg = 0; void *ret = 0;
    unsigned long handle = 0; bool detached = false; bool joined = false;
    const void *wobj = 0; int prio = 0; bool spinning = false; u64 spin_since = 0; u64 spin_n = 0, pause_edges = 0;
    bool timed_out = false, intr = false; u64 steps = 0; const char *what = "";
    u64 edges = 0;
};

struct Limits { u64 max_steps = 1200000; u64 max_edges = 120000000; u64 spin_limit = 60 * SEC; u64 max_time = 3600ull * SEC * 24 * 400; };

struct FaultCfg { double p = 0; int budget = 0; };

struct Violation { std::string cls; std::string tags; std::string detail; u64 step; u64 time; };

struct Op;  // server.cpp

// Per-run state shared between the server process and its supervisor.
struct Core {
    u64 seed = 0, sched_seed = 0;
    Rng rs;          // scheduling
    Rng rf;          // fault decisions
    Rng rk;          // kernel: latencies, segmentation
    u64 now = 0;     // virtual ns since simulated boot
    u64 steps = 0, edges = 0, switches = 0, preempts = 0;
    u64 seq = 0;     // global event sequence
    u64 evseq = 0;
    std::map<std::pair<u64, u64>, std::function<void()>> events;
    std::vector<Thr *> thr;
    int incarnation = 0;
    bool ending = false;          // stop this incarnation now
    int end_code = 0;
    u64 hash = 0x1234567;         // hash over everything observable
    u64 sched_hash = 0x777;
    // scheduling policy
    int policy = 0;               // 0 random, 1 priority (PCT style), 2 run-to-block
    double p_sys = 0.3;           // switch probability at system calls
    double q_mean = 2000;         // mean preemption quantum in instrumented events
    double p_hold = 0;            // a preempted thread stays off the processor for up to hold_max
    u64 hold_max = 0, holds = 0, hold_total = 0; double p_site = 0; bool at_site = false;
    double g_mean = 0;            // mean number of stores to global variables between two switches right before one
    u64 tick_min = 50, tick_max = 800;
    u64 stall_max = 20 * MSEC;
    Limits lim;
    // faults
    FaultCfg fault[F_MAX];
    u64 fired[F_MAX] = {0};
    bool faults_on = false;
    u64 clock_skew = 0;           // wall clock minus boot clock offset (may jump)
    bool trace = false;
    std::string trace_text;
    std::vector<Violation> viol;
    std::map<std::string, u64> probe;
    bool limit_hit = false; std::string limit_what;
    u64 sut_out_hash = 0;
    std::string sut_out;          // tail of the server's terminal output
};
extern Core *K;
extern Thr *g_cur;                // thread holding the baton
extern volatile bool g_active;    // instrumented code may be preempted
extern int g_insim;

void core_new(u64 seed, u64 sched_seed);
void core_sites(int n, double p);        // places at which threads are often held
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void hmix(u64 x);
inline void hmix(u64 a, u64 b) { hmix(a); hmix(b); }
u64 hash_bytes(const void *p, size_t n);
void probe(const char *name, u64 n = 1);
bool fault(Fault f);                      // draw; counts when it fires
bool fault_at(Fault f, double p);         // draw with explicit probability
void fired(Fault f);
void violation(const char *cls, const char *tags, const char *fmt, ...) __attribute__((format(printf, 3, 4)));

void at(u64 t, std::function<void()> fn);               // world event
inline void after(u64 d, std::function<void()> fn) { at(K->now + d, fn); }
void at_inc(u64 t, std::function<void()> fn);           // event of this incarnation only

enum { SP_SYS, SP_PREEMPT, SP_PAUSE, SP_BLOCK, SP_EXIT };
void sched_point(int kind, const char *what);
bool block_on(Why why, const void *obj, u64 timeout_ns); // false on timeout (0 = none)
void wake_all(Why why, const void *obj);
void wake_one(Why why, const void *obj);
void wake_thr(Thr *t);
Thr *thr_spawn(void *(*fn)(void *), void *arg, const char *what);
void run_incarnation(std::function<void()> setup);       // never returns: _exit
void end_incarnation(int code);
void core_reset_incarnation(void);

#define COV_MAX 65536
extern unsigned char *g_cov;        // shared: edges of the system under test ever reached
extern u32 g_cov_n;
