// The simulated outside world around one pogocache server: clients, faults,
// phases of a run, and the checks over the recorded history.
#pragma once
#include "kern.h"
#include "kv.h"

struct Mask {                      // parts of a plan removed by minimisation
    std::set<int> ops, clients, events, faults;
    bool empty() const { return ops.empty() && clients.empty() && events.empty() && faults.empty(); }
};

struct RunSpec { std::string prop, scen; u64 seed = 0, sched = 0; Mask mask; bool trace = false; int thin = 0; };
struct RunOut {
    std::vector<Violation> viol;
    u64 hash = 0, sched_hash = 0, steps = 0, edges = 0, switches = 0, preempts = 0, simtime = 0, fired[F_MAX] = {0};
    u64 nops = 0, nreplies = 0, states = 0, undecided = 0; int incarnations = 0; int nclients = 0, nevents = 0;
    std::vector<std::pair<std::string, u64>> probe;
    std::string trace, sample, server_out; bool harness_error = false; std::string harness_why;
    u64 shape = 0;                 // hash of the observable outcome (replies in order)
};

enum Fate { FT_NONE, FT_RESET, FT_CLOSE, FT_HALF, FT_RECONNECT, FT_PARTIAL, FT_STALL };

struct Client;
struct Conn {
    int id = 0; Client *c = 0; Ep *ep = 0; Proto proto = P_RESP;
    std::deque<Op *> q; std::string in; bool dead = false, closing = false, excused = false, hs = false, ready = false, broken = false;
    u64 nrx = 0, ntx = 0; int order = 0; u64 opened = 0; bool fin_seen = false; bool half = false;
    std::string rlog;              // every byte received, when recording
    bool gotany = false; bool authed = false; std::map<std::string, std::string> stmts;   // prepared statements
};
struct PlanOp { Op *op; Fate fate = FT_NONE; u64 fate_arg = 0; };
struct Client {
    int id = 0; Proto proto = P_RESP; std::vector<PlanOp> plan; size_t next = 0; int depth = 1; Conn *conn = 0;
    u64 start = 0, think_min = 0, think_max = 0; bool waiting = false; bool finished = false, halted = false;
    int segmode = 0; size_t cap = 1 << 16; int burst = 1; bool unixs = false; int fails = 0;
    bool record = false; bool unauth = false; std::string pw; bool monitor = false; bool seq = false;
    std::vector<Conn *> conns;
    std::function<void(Client *)> on_idle;         // all operations answered
    std::function<void(Client *, Op *)> on_reply;
};

struct Cfg {                       // server configuration of a run
    int threads = 2, shards = 4, queuesize = 128, loadfactor = 75, maxconns = 0, backlog = 1024;
    bool cas = false, autosweep = true, evict = true, sixpack = true, unixsock = false, quickack = false, tcpnodelay = true, keepalive = true, reuseport = false;
    std::string maxmemory, auth, persist; u64 seed = 0; int verbose = 0; bool warmup = false;
    std::vector<std::string> extra;
    std::vector<std::string> args() const;
};

// what a scenario does besides running its clients
struct Hooks {
    std::function<void()> on_listen;                     // server reachable (each incarnation)
    std::function<bool()> on_exit;                       // process ended: true = start it again
    std::function<void()> at_quiet;                      // clients done, faults off, settled; call world_end() when finished
    std::function<void()> finish;                        // after the last incarnation (checks)
};

struct Phase { enum { BOOT, RUN, SETTLE, QUIET, CLOSING, TERM, OVER }; };

struct World {
    RunSpec spec; Rng rp;          // plan
    Cfg cfg; Hooks hk;
    std::vector<Client *> clients; std::vector<Op *> ops; std::set<std::string> keys;
    int nextop = 1, nextconn = 1; int phase = 0; u64 phase_since = 0; u64 run_max = 30 * SEC; u64 settle_max = 12 * SEC;
    u64 lat_min = 5 * USEC, lat_max = 50 * USEC; double p_slow = 0;
    int nevents = 0; bool listening = false; u64 boot_t0 = 0;
    bool expect_exit = false, allow_boot_fail = false; bool term_sent = false; u64 term_at = 0; u64 term_max = 20 * SEC;
    std::map<std::string, std::string> stats;            // last STATS reply
    u64 aud_dbsize = 0; std::vector<std::string> aud_keys; bool have_audit = false;
    bool lost_any = false;         // some operation's outcome is unknown
    std::vector<std::pair<u64, i64>> jumps;  // of the wall clock: time, offset to the boot clock
    u64 nreplies = 0; bool rot = false; bool lossy = false;                // entries may be evicted
    const std::vector<std::pair<u64, u64>> *loss_windows = 0;
    bool killed = false, power = false;
    Client *aud = 0; u64 states = 0, undecided = 0;
    u64 shape = 0; std::string note;
    bool check_lin = true; std::map<std::string, std::vector<KState>> init;
    u64 opens = 0;                 // connections opened by clients
    bool done = false; int closedcheck = 1; bool strict_end = true; std::string lin_tag = "lin";
    void *(*engine)(void *) = 0; u64 wgl_limit = 400000; u64 t_first = 0; bool boot_failed = false;
};
extern World *W;

void world_new(const RunSpec &s);
Op *new_op(Proto p, Kind k);
Client *new_client(Proto p);
void client_go(Client *c);                               // (re)start sending
void client_drop(Client *c, int how);                    // 0 close, 1 reset
Conn *conn_open(Client *c);
void conn_send(Conn *n, const std::vector<Op *> &ops);
bool has_event(Fault f);                                 // fault kind enabled by the mask
void plan_event(u64 t, Fault f, std::function<void()> fn); // timeline entry, maskable
void begin_run(void);                                    // start the clients
void world_end(void);                                    // quiet work done: close and terminate
void world_run(void);                                    // fork incarnations until finished (worker side)
Client *observer(void);                                  // the auditing client
void aud_send(Op *o, std::function<void(Op *)> cb);      // one operation of the observer
void audit(std::function<void()> then);                  // enumerate everything from one connection
u64 quiet_time(void);
void settle_then(u64 d, std::function<void()> fn);
void check_linearizable(void);
u64 stat_of(const char *name, bool *ok = 0);
void build_scenario(void);                               // scen.cpp
Op *gen_op(Rng &r, Proto p, const std::map<int, int> &w, struct Gen &g);
std::string gen_pattern(Rng &r, const std::vector<std::string> &keys, bool bin);

struct Gen {                       // operation generator settings
    double p_stars = 0;            // patterns of many stars, for the long key
    int nkeys = 6; std::vector<std::string> keys, nkeysv; double p_ttl = 0, p_flags = 0.3, p_cond = 0.3, p_keepttl = 0.2, p_get = 0.2, p_cas = 0;
    double p_big = 0.05; size_t big = 6000, bigmin = 100; bool binary = true; bool shortttl = false; double p_abs = 0; double p_noreply = 0; double p_num = 0.3; double p_err = 0.05; double p_edge = 0;
    bool longttl = true; int mgetmax = 4; bool inl = true, ext = true; bool distinct = false;
    std::string savepath;
};
RunOut run_one(const RunSpec &s);                        // full run in this process (forks)
void engine_build(void);                                 // engine.cpp
void persist_build(void);                                // persist.cpp
void persist_sending(Op *o);
void abuse_build(void); void auth_build(void); void mem_build(void); void monitor_build(void); void stream_build(void); // net.cpp
void pick_config(void); std::vector<std::string> make_keys(Rng &r, int n, bool binary); void net_shape(Client *c);
void server_faults(double intensity); void hard_faults(double intensity); void add_fates(Client *c, double p);
extern std::string g_scratch;
