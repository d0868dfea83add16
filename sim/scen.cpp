// Scenarios: what each simulated run consists of.
#include "world.h"

typedef std::map<int, int> Weights;
static bool is(const char *p) { return W->spec.prop == p; }

// ---- pieces ------------------------------------------------------------------
void pick_config(void) {
    Rng &r = W->rp; Cfg &c = W->cfg;
    static const int th[] = { 1, 2, 2, 3, 4, 6 }; c.threads = th[r.below(6)];
    static const int sh[] = { 1, 1, 2, 3, 4, 8, 16 }; c.shards = sh[r.below(7)];
    c.loadfactor = 55 + (int)r.below(41); c.queuesize = r.chance(0.4) ? 1 + (int)r.below(4) : 128;
    c.sixpack = r.chance(0.7); c.cas = r.chance(0.4); c.evict = r.chance(0.8);
    c.tcpnodelay = r.chance(0.8); c.keepalive = r.chance(0.8); c.quickack = r.chance(0.2); c.reuseport = r.chance(0.1);
    c.unixsock = r.chance(0.3); c.seed = r.chance(0.5) ? 0 : r.next() >> 1; c.verbose = r.chance(0.15) ? 1 + (int)r.below(2) : 0;
    c.autosweep = !r.chance(0.3); N->nprocs = 1 + (int)r.below(8);
}
std::vector<std::string> make_keys(Rng &r, int n, bool binary) {
    std::vector<std::string> v;
    for (int i = 0; i < n; i++) {
        std::string k = fmt("k%d", i);
        double x = r.unit();
        if (x < 0.16) { size_t len = r.logrange(6, 200); k += 'a' + r.below(26); while (k.size() < len) k += (char)('a' + r.below(26)); }
        else if (x < 0.2) { static const size_t ls[] = { 120, 126, 127, 128, 129, 130, 170, 171, 200, 249, 250 }; size_t len = ls[r.below(11)]; k += ':'; while (k.size() < len) k += (char)('a' + r.below(25)); }
        else if (x < 0.32) { size_t len = r.below(14); k += ".-_:ABxy"[r.below(8)]; while (len--) k += "-.:_ABCXYabcxy0123456789"[r.below(24)]; }
        else if (x < 0.38) { k += "QZz/#!~{}[](),;|<>^&*"[r.below(21)]; size_t len = r.below(6); while (len--) k += "QZz/#!~{}[](),;|<>^&*ab01"[r.below(25)]; }
        if (binary && r.chance(0.5)) { size_t len = 1 + r.below(10); for (size_t j = 0; j < len; j++) k += (char)r.below(256); }
        v.push_back(k);
    }
    return v;
}
void net_shape(Client *c) {
    Rng &r = W->rp;
    c->segmode = r.chance(0.5) ? 0 : (int)r.below(5);
    static const size_t caps[] = { 300, 2048, 16384, 65536 };
    c->cap = r.chance(0.6) ? 65536 : caps[r.below(4)];
    if (W->cfg.unixsock && r.chance(0.5)) c->unixs = true;
    c->burst = 1 + (int)r.below(8);
}
void server_faults(double intensity) {
    Rng &r = W->rp;
    auto f = [&](Fault k, double lo, double hi, int budget) { if (r.chance(0.5 * intensity) && has_event(k)) { K->fault[k].p = lo + (hi - lo) * r.unit(); K->fault[k].budget = budget; } };
    f(F_STALL, 0.0005, 0.02, 60);
    f(F_EINTR, 0.005, 0.05, 40);
    f(F_SHORT_READ, 0.05, 0.5, 400);
    f(F_SHORT_WRITE, 0.05, 0.5, 400);
    K->stall_max = r.logrange(10 * USEC, 80 * MSEC);
}
void hard_faults(double intensity) {
    Rng &r = W->rp;
    auto f = [&](Fault k, double p, int budget) { if (r.chance(0.5 * intensity) && has_event(k)) { K->fault[k].p = p; K->fault[k].budget = budget; } };
    f(F_THREAD_FAIL, 0.5, 20); f(F_ACCEPT_FAIL, 0.2, 10); f(F_SOCKOPT_FAIL, 0.05, 5); f(F_EPOLLCTL_FAIL, 0.05, 4);
}
void add_fates(Client *c, double p) {
    Rng &r = W->rp;
    for (auto &po : c->plan) {
        if (!r.chance(p)) continue;
        static const Fate f[] = { FT_RESET, FT_CLOSE, FT_HALF, FT_RECONNECT, FT_PARTIAL, FT_STALL };
        po.fate = f[r.below(6)]; po.fate_arg = r.logrange(1, 20 * MSEC);
        if (po.fate == FT_STALL) po.fate_arg = r.logrange(MSEC, 3 * SEC);
        if (po.fate == FT_HALF && c->proto == P_PG) po.fate = FT_CLOSE;
    }
}

// ---- kv: clients of every protocol against one server -----------------------
static void scen_kv(void) {
    Rng &r = W->rp; pick_config();
    Gen g; Weights w; int nc = 1 + (int)r.below(5), no = 5 + (int)r.below(30), nk = 1 + (int)r.below(6);
    double protos[P_N] = { 0.45, 0.2, 0.12, 0.23 }; double p_think = 0.1; u64 think = 200 * USEC; int depth = 1 + (int)r.below(8);
    double p_fates = r.chance(0.4) ? 0.06 : 0, intensity = r.chance(0.6) ? 1 : 0, hard = 0;
    bool respbin = r.chance(0.2);
    g.p_ttl = 0.1; g.longttl = true; g.shortttl = false;
    w = { { O_SET, 30 }, { O_GET, 25 }, { O_MGET, 6 }, { O_MGETS, 4 }, { O_DEL, 12 }, { O_EXISTS, 4 }, { O_TOUCH, 3 }, { O_TTL, 3 }, { O_PTTL, 2 }, { O_INCR, 6 }, { O_APPEND, 4 }, { O_PREPEND, 2 },
          { O_KEYS, 2 }, { O_DBSIZE, 1 }, { O_PING, 1 }, { O_ECHO, 1 }, { O_SWEEP, 1 }, { O_EXPIRE, 3 }, { O_SCAN, 1 } };
    g.p_edge = r.chance(0.3) ? 0.15 : 0;
    if (r.chance(0.25)) { w[O_FLUSH] = 1; }
    if (r.chance(0.1)) { w[O_STATS] = 2; w[O_VERSION] = 1; w[O_SELECT] = 1; w[O_UNKNOWN] = 2; }
    if (r.chance(0.15)) { nk = 20 + (int)r.below(120); no += 40; }              // map resizes
    if (is("C02")) {
        w = { { O_INCR, 30 }, { O_APPEND, 15 }, { O_PREPEND, 8 }, { O_SET, 25 }, { O_GET, 10 }, { O_DEL, 8 }, { O_MGETS, 3 }, { O_TTL, 2 } };
        nk = 1 + (int)r.below(3); nc = 2 + (int)r.below(4); g.p_cond = 0.6; g.p_get = 0.5; g.p_num = 0.4; W->cfg.threads = 1 + (int)r.below(4);
        if (r.chance(0.3)) { w[O_FLUSH] = 1; w[O_KEYS] = 2; }
    } else if (is("C03")) {
        w = { { O_MGETS, 25 }, { O_SET, 40 }, { O_GET, 6 }, { O_DEL, 6 }, { O_INCR, 5 }, { O_APPEND, 5 }, { O_EXPIRE, 4 }, { O_TOUCH, 2 }, { O_TTL, 2 }, { O_KEYS, 1 } };
        W->cfg.cas = r.chance(0.85); g.p_cas = 0.5; nk = 1 + (int)r.below(3); nc = 2 + (int)r.below(4); g.p_ttl = 0.15; g.shortttl = r.chance(0.3); g.mgetmax = 2;
        if (r.chance(0.2)) { w[O_FLUSH] = 1; w[O_SWEEP] = 1; }
    } else if (is("C04")) {
        w = { { O_SET, 35 }, { O_GET, 25 }, { O_MGET, 5 }, { O_TTL, 8 }, { O_PTTL, 8 }, { O_EXPIRE, 8 }, { O_EXISTS, 4 }, { O_TOUCH, 3 }, { O_DEL, 4 }, { O_INCR, 4 }, { O_APPEND, 4 }, { O_KEYS, 3 }, { O_SWEEP, 3 }, { O_SCAN, 1 }, { O_DBSIZE, 1 } };
        g.p_ttl = 0.7; g.shortttl = true; g.p_keepttl = 0.5; g.p_abs = 0.25; p_think = 0.6; think = (u64)r.logrange(10 * MSEC, 1500 * MSEC); depth = 1 + (int)r.below(3);
        int jumps = (int)r.below(3);
        if (r.chance(0.12)) { W->rot = true; jumps = 0; W->cfg.autosweep = false; nk = 20 + (int)r.below(60); no = 60 + (int)r.below(60); w = { { O_SET, 60 }, { O_EXPIRE, 5 }, { O_GET, 2 }, { O_SWEEP, 1 }, { O_INCR, 3 }, { O_APPEND, 3 } }; g.p_ttl = 0.9; p_think = 0.1; think = 20 * MSEC; }   // many entries left to expire
        for (int i = 0; i < jumps; i++) { u64 t = 1000 * SEC + r.logrange(MSEC, 20 * SEC); i64 by = r.range(-5, 5) * 3600 * (i64)SEC; plan_event(t, F_CLOCK_JUMP, [by]() { if (W->phase > Phase::SETTLE) return; fired(F_CLOCK_JUMP); N->wall_skew += by; W->jumps.push_back({ K->now, (i64)(N->wall_base + N->wall_skew) }); }); }
        if (jumps) W->jumps.push_back({ 0, (i64)(N->wall_base + N->wall_skew) });
    } else if (is("C09")) {
        depth = 1 + (int)r.below(40); g.p_noreply = 0.3; p_fates = r.chance(0.3) ? 0.05 : 0; g.p_big = 0.15; g.big = 60000; no += 20;
        w[O_SWEEP] = 3; w[O_SCAN] = 3; w[O_KEYS] = 4; w[O_UNKNOWN] = 3; w[O_PING] = 3; w[O_ECHO] = 3; w[O_STATS] = 1; w[O_VERSION] = 2; w[O_SELECT] = 1; w[O_FLUSH] = 1; if (r.chance(0.15)) { hard = 1; w[O_FLUSH] = 5; }
    } else if (is("C16")) {
        w = { { O_SET, 30 }, { O_DEL, 18 }, { O_KEYS, 15 }, { O_SCAN, 4 }, { O_GET, 4 }, { O_SWEEP, 2 }, { O_EXPIRE, 2 } };
        nk = r.chance(0.5) ? 3 + (int)r.below(12) : 20 + (int)r.below(150); no = 20 + (int)r.below(60); g.p_ttl = 0.3; g.shortttl = r.chance(0.5); g.longttl = true;
    } else if (is("C17")) {
        w = { { O_SET, 40 }, { O_GET, 20 }, { O_MGET, 8 }, { O_DEL, 4 }, { O_EXISTS, 4 }, { O_INCR, 3 }, { O_APPEND, 2 }, { O_KEYS, 6 }, { O_FLUSH, 3 + (int)r.below(8) }, { O_SWEEP, 1 }, { O_EXPIRE, 1 } };
        nk = r.chance(0.5) ? 2 + (int)r.below(8) : 10 + (int)r.below(60); nc = 1 + (int)r.below(4); no = 10 + (int)r.below(40); p_think = r.chance(0.5) ? 0.5 : 0.1; think = (u64)r.logrange(100 * USEC, 800 * MSEC); hard = r.chance(0.2) ? 0.5 : 0;
    } else if (is("C18")) {
        if (r.chance(0.4)) { g.p_noreply = 0.5; protos[P_MC] = 0.6; }
        p_fates = r.chance(0.2) ? 0.04 : 0; w[O_FLUSH] = r.chance(0.3) ? 2 : 0; w[O_SWEEP] = 2; w[O_EXPIRE] = 3; w[O_DEL] = 15; w[O_KEYS] = 4; g.p_cas = W->cfg.cas ? 0.15 : 0; g.p_ttl = 0.3; g.shortttl = r.chance(0.5); g.p_cond = 0.4;
        if (g.shortttl) { p_think = 0.4; think = 600 * MSEC; }
        if (r.chance(0.2)) W->cfg.auth = "Pass";
    } else if (is("C19")) {
        p_fates = 0.1; intensity = 1; hard = 0.7; w[O_SWEEP] = 3; w[O_FLUSH] = 2; w[O_SCAN] = 2; w[O_KEYS] = 4; depth = 1 + (int)r.below(20); g.p_big = 0.15; g.big = 40000;
    }
    if (r.chance(0.35)) for (auto &x : w) { static const int m[] = { 0, 1, 3, 3, 15 }; int v = x.second * m[r.below(5)]; x.second = x.first == O_SET && v == 0 ? x.second : v; }
    if (r.chance(is("C01") || is("C02") || is("C03") ? 0.4 : 0.12)) {
        nk = 1 + (int)r.below(2); nc = 3 + (int)r.below(4); no = 15 + (int)r.below(25); p_think = 0; depth = 1 + (int)r.below(6); W->cfg.threads = 2 + (int)r.below(3);
        if (r.chance(0.7)) {                         // a few kinds of commands only
            std::vector<int> kinds; for (auto &x : w) if (x.second && x.first != O_SET && x.first != O_GET) kinds.push_back(x.first);
            if (kinds.empty()) kinds.push_back(O_DEL);
            int gw = w[O_GET], f1 = r.pick(kinds), f2 = r.pick(kinds); w.clear(); w[O_SET] = 10; if (gw || r.chance(0.5)) w[O_GET] = 6; w[f1] = 12; if (r.chance(0.5)) w[f2] = 8;
        }
        if (r.chance(0.6)) { W->lat_min = r.logrange(100, 4 * USEC); W->lat_max = W->lat_min * (1 + r.below(5)); K->hold_max = W->lat_max * 4 * (1 + r.below(5)); }
    }   // contention
    respbin = respbin && !is("C09");
    g.keys = make_keys(r, nk, respbin); g.nkeys = nk;
    if (r.chance(is("C19") ? 0.05 : is("C16") ? 0.03 : 0)) { g.p_stars = 0.6; g.keys.push_back(std::string(60 + r.below(190), 'a')); if (w[O_KEYS] < 8) w[O_KEYS] = 8; if (w[O_SCAN] < 5) w[O_SCAN] = 5; }
    bool huge = (is("C09") && r.chance(0.04)) || (is("C19") && r.chance(0.02)); if (huge) { nc = 1 + (int)r.below(2); no = 12; K->lim.max_edges *= 4; W->wgl_limit = 300; }
    if (respbin) { protos[P_MC] = protos[P_HTTP] = 0; protos[P_PG] = 0; }
    int nn = (int)r.below(3) + (is("C02") ? 1 : 0); for (int i = 0; i < nn; i++) g.nkeysv.push_back(fmt("n%d", i));
    if (is("C02") && r.chance(0.5) && nk > 1) g.keys.resize(1);
    if (intensity > 0) server_faults(intensity);
    if (hard > 0) hard_faults(hard);
    if (r.chance(0.2)) W->p_slow = 0.05;
    for (int i = 0; i < nc; i++) {
        double x = r.unit(); int p = 0; double tot = 0; for (int q = 0; q < P_N; q++) tot += protos[q]; x *= tot; for (p = 0; p < P_N - 1; p++) { if (x < protos[p]) break; x -= protos[p]; }
        Client *c = new_client((Proto)p); c->depth = p == P_HTTP ? 1 : depth; net_shape(c); c->start = r.below(2 * MSEC);
        int n = 1 + (int)r.below(no);
        for (int j = 0; j < n; j++) { Op *o = gen_op(r, c->proto, w, g); if (r.chance(p_think)) o->think = r.below(think); c->plan.push_back(PlanOp{ o }); }
        if (huge && c->proto == P_PG) { c->cap = 262144; if (c->segmode == 1) c->segmode = 0; }   // they may read the big values
        if (huge && c->proto != P_PG) {              // requests of more than a packet buffer, followed by others
            for (int k = 1 + (int)r.below(2); k > 0; k--) { Op *o = new_op(c->proto, O_SET); o->keys.push_back(r.pick(g.keys)); o->val = fmt("v%d-", o->id); size_t n = 1000000 + r.below(1300000); while (o->val.size() < n) o->val += fmt("%zu.", o->val.size()); W->keys.insert(o->keys[0]); c->plan.insert(c->plan.begin() + r.below(c->plan.size() + 1), PlanOp{ o }); }
            c->cap = 262144; c->depth = c->proto == P_HTTP ? 1 : 8 + (int)r.below(8); c->burst = 8; if (c->segmode == 1) c->segmode = 0;
        }
        if (p_fates > 0 && r.chance(0.6)) add_fates(c, p_fates);
        if (W->cfg.auth.empty()) continue;
        c->pw = W->cfg.auth; if (c->proto == P_MC || (c->proto != P_PG && r.chance(0.3))) c->unauth = true;
        if (c->proto == P_HTTP) for (auto &po : c->plan) po.op->auth = !c->unauth ? c->pw : r.chance(0.3) ? "" : "pass";
        if (c->proto == P_RESP) for (int j = 0; j < 3; j++) { Op *a = new_op(P_RESP, O_AUTH); a->val = r.chance(0.4) ? c->pw : "pasS"; if (r.chance(0.2)) a->authbad = 1 + (int)r.below(3); c->plan.insert(c->plan.begin() + r.below(c->plan.size() + 1), PlanOp{ a }); }
    }
    W->settle_max = 20 * SEC;
}

void build_scenario(void) {
    const std::string &s = W->spec.scen;
    if (s == "kv") scen_kv();
    else if (s == "engine") engine_build();
    else if (s == "persist") persist_build();
    else if (s == "abuse") abuse_build();
    else if (s == "auth") auth_build();
    else if (s == "mem") mem_build();
    else if (s == "monitor") monitor_build();
    else if (s == "stream") stream_build();
}
