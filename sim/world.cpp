#include "world.h"
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <glob.h>

World *W = 0;
std::string g_scratch = "/tmp";
extern "C" void __sanitizer_set_report_path(const char *path);

std::vector<std::string> Cfg::args() const {
    std::vector<std::string> a = { "pogocache" };
    auto add = [&](const char *n, const std::string &v) { a.push_back(std::string("--") + n); a.push_back(v); };
    a.push_back("-p"); a.push_back("9401");
    if (unixsock) { a.push_back("-s"); a.push_back("/tmp/pogo.sock"); }
    add("threads", std::to_string(threads)); add("shards", std::to_string(shards)); add("queuesize", std::to_string(queuesize));
    add("loadfactor", std::to_string(loadfactor)); add("backlog", std::to_string(backlog));
    if (maxconns) add("maxconns", std::to_string(maxconns));
    add("cas", cas ? "yes" : "no"); if (!autosweep) add("autosweep", "no"); add("evict", evict ? "yes" : "no"); add("sixpack", sixpack ? "yes" : "no");
    add("tcpnodelay", tcpnodelay ? "yes" : "no"); add("keepalive", keepalive ? "yes" : "no"); add("quickack", quickack ? "yes" : "no"); add("reuseport", reuseport ? "yes" : "no");
    add("warmup", warmup ? "yes" : "no"); add("seed", std::to_string(seed));
    if (!maxmemory.empty()) add("maxmemory", maxmemory);
    if (!auth.empty()) add("auth", auth);
    if (!persist.empty()) add("persist", persist);
    if (verbose) a.push_back(verbose == 1 ? "-v" : "-vv");
    for (auto &x : extra) a.push_back(x);
    return a;
}

void world_new(const RunSpec &s) {
    core_new(s.seed, s.sched); kern_new(s.seed);
    K->trace = s.trace;
    W = new World(); W->spec = s; W->rp.seed(s.seed, 0x91a);
    // how the server's threads are interleaved in this run
    Rng &r = K->rs;
    K->policy = r.chance(0.25) ? 1 : 0;
    static const double ps[] = { 0.02, 0.1, 0.3, 0.6, 0.9 };
    K->p_sys = ps[r.below(5)];
    K->q_mean = (double)r.logrange(40, 20000);
    K->g_mean = r.chance(0.4) ? (double)r.logrange(1, 60) : 0; if (s.thin > 1) K->g_mean = 0;
    K->tick_min = 50; K->tick_max = r.logrange(100, 4000);
    for (int i = 0; i < s.thin; i++) { K->q_mean *= 4; K->p_sys *= 0.5; }   // minimisation: fewer switches
    W->lat_min = W->rp.logrange(200, 200 * USEC); W->lat_max = W->lat_min * (1 + W->rp.below(5));
    if (r.chance(0.6)) { static const double ph[] = { 0.1, 0.4, 0.9 }; K->p_hold = ph[r.below(3)]; if (r.chance(0.5)) K->q_mean = (double)r.logrange(150, 3000); }
    K->hold_max = W->lat_max * 4 * (1 + r.below(5));
    core_sites(r.chance(0.65) && s.thin < 2 ? (int)r.logrange(10, 150) : 0, 0.1 + 0.7 * r.unit());
    if (s.thin > 2) K->p_hold = 0;
    N->p_spurious = r.chance(0.3) ? 0.05 : 0;
    N->nprocs = 2;
    static const size_t caps[] = { 4096, 16384, 65536, 262144 };
    N->sndcap = caps[W->rp.below(4)];
}
Op *new_op(Proto p, Kind k) { Op *o = new Op(); o->id = W->nextop++; o->proto = p; o->kind = k; W->ops.push_back(o); return o; }
Client *new_client(Proto p) {
    Client *c = new Client(); c->id = (int)W->clients.size(); c->proto = p; W->clients.push_back(c);
    return c;
}
bool has_event(Fault f) { return !W->spec.mask.faults.count(f); }
void plan_event(u64 t, Fault f, std::function<void()> fn) {
    int id = W->nevents++;
    if (W->spec.mask.events.count(id) || !has_event(f)) return;
    at(t, [fn]() { if (W->done) return; fn(); });
}

// ------------------------------------------------------------------ clients
static void client_pump(Client *c);
static void conn_event(Conn *n);
static bool outstanding(Conn *n) { for (Op *o : n->q) if (!o->noreply) return true; return false; }

Conn *conn_open(Client *c) {
    Conn *n = new Conn(); n->id = W->nextconn++; n->c = c; n->proto = c->proto; n->opened = K->now; W->opens++;
    c->conn = n; c->conns.push_back(n);
    n->ep = cli_connect(c->unixs ? "/tmp/pogo.sock" : "9401", [n]() { conn_event(n); });
    n->ep->segmode = c->segmode; n->ep->lat_min = W->lat_min; n->ep->lat_max = W->lat_max; n->ep->p_slow = W->p_slow;
    n->ep->cap = c->cap;
    if (c->proto != P_PG && W->cfg.auth.empty()) n->ready = true;
    return n;
}
static void stamp(Conn *n, Op *o) { o->sent = true; o->inv = K->now; o->client = n->c->id; o->conn = n->id; o->seq = n->order++; }
static void resolve(Op *o);
void conn_send(Conn *n, const std::vector<Op *> &ops) {
    std::string s;
    for (Op *o : ops) {
        resolve(o); stamp(n, o); if (o->kind == O_LOAD) persist_sending(o);
        if (!W->cfg.auth.empty()) {
            if (o->proto == P_HTTP) o->denied = o->auth != W->cfg.auth;
            else if (o->proto != P_PG) { o->denied = !n->authed; if (o->kind == O_AUTH && o->authbad == 0 && o->val == W->cfg.auth) { n->authed = true; o->denied = false; } }
        }
        if (o->ext) o->stmts = &n->stmts;
        std::string e = encode(*o); o->stmts = 0; s += e;
        n->q.push_back(o);
        if (o->kind == O_QUIT || o->proto == P_HTTP) n->closing = true;
        logf("send %s", o->txt().c_str());
    }
    n->ntx += s.size();
    cli_send(n->ep, s);
}
static void handshake(Conn *n) {
    n->hs = true;
    std::vector<Op *> v;
    if (n->proto == P_PG) v.push_back(new_op(P_PG, O_STARTUP));
    if (!W->cfg.auth.empty() && !n->c->unauth) {
        if (n->proto == P_RESP) { Op *o = new_op(P_RESP, O_AUTH); o->val = n->c->pw; v.push_back(o); }
        else if (n->proto == P_PG) { conn_send(n, v); return; }   // the password follows the challenge
        else n->ready = true;
    } else if (n->c->unauth && n->proto != P_PG) n->ready = true;
    if (!v.empty()) conn_send(n, v);
}
void client_drop(Client *c, int how) {
    Conn *n = c->conn; if (!n) return;
    n->excused = true; n->dead = true; c->conn = 0;
    if (how == 1) cli_reset(n->ep); else cli_close(n->ep);
    for (Op *o : n->q) if (!o->done) { W->lost_any = true; }
}
static void conn_gone(Conn *n, const char *why) {
    Client *c = n->c;
    if (n->dead) return;
    n->dead = true; cli_close(n->ep);
    if (c->conn == n) c->conn = 0;
    for (Op *o : n->q) if (!o->done) { W->lost_any = true; if (o->noreply) o->resp = ~0ull; }
    if (c->halted) return;
    u64 d = n->ep->refused ? 5 * MSEC : 100 * USEC;
    if (++c->fails > 200) { c->finished = true; return; }
    int inc = K->incarnation; (void)inc;
    at(K->now + d, [c]() { client_pump(c); });
    (void)why;
}
static void op_done(Conn *n, Op *o) {
    o->resp = K->now; o->done = true; W->nreplies++;
    logf("reply %s", o->txt().c_str());
    if (!W->cfg.auth.empty()) {
        bool refused = o->res.st == R_ERR && (o->res.s.find("NOAUTH") != std::string::npos || o->res.s.find("Authentication required") != std::string::npos || o->res.s == "401");
        if (o->denied && o->res.st != R_ERR) violation("unauthorised", "C11", "a command on a connection that has not authenticated was answered: %s", o->txt().c_str());
        if (!o->denied && refused) violation("locked-out", "C11", "a command on an authenticated connection was refused: %s", o->txt().c_str());
        if (o->kind == O_AUTH && o->proto == P_RESP && (o->authbad || o->val != W->cfg.auth) && o->res.st != R_ERR) violation("wrong-password", "C11", "a wrong password was accepted: %s (password %s)", o->txt().c_str(), W->cfg.auth.c_str());
        if (o->kind == O_AUTH && o->proto == P_RESP && !o->authbad && o->val == W->cfg.auth && o->res.st == R_ERR) violation("right-password", "C11", "the right password was refused: %s", o->txt().c_str());
    }
    std::string t = o->res.txt();
    W->shape = mix64(W->shape * 31 + hash_bytes(t.data(), t.size()) + o->id);
    hmix(W->shape);
    if (o->kind == O_MGETS && o->res.st == R_LIST)
        for (size_t i = 0; i < o->keys.size() && i < o->res.sub.size(); i++)
            if (o->res.sub[i].st == R_VAL && o->res.sub[i].hascas) { auto &v = W->init["\x01tok" + o->keys[i]]; KState s; s.cas = o->res.sub[i].cas; v.push_back(s); }
    if (o->kind == O_STATS && o->res.st == R_LIST) { W->stats.clear(); for (auto &x : o->res.sub) if (!x.sub.empty()) W->stats[x.s] = x.sub[0].s; }
    if (o->kind == O_STARTUP || (o->kind == O_AUTH && !n->ready)) {
        if (o->kind == O_STARTUP && o->res.st == R_NO && !n->c->unauth) { Op *a = new_op(P_PG, O_AUTH); a->val = n->c->pw; conn_send(n, { a }); }
        else n->ready = true;
    }
    if (n->c->on_reply) n->c->on_reply(n->c, o);
}
static void resolve(Op *o) {
    if (!o->token_from_key) return;
    auto it = W->init.find("\x01tok" + o->keys[0]);
    if (it == W->init.end() || it->second.empty()) { o->token = ~0ull - o->id % 7; return; }
    size_t n = it->second.size();
    o->token = o->id % 5 == 0 ? it->second[o->id % n].cas : it->second[n - 1].cas;
}
static bool excuse_death(Conn *n) {
    if (n->excused || n->closing || n->c->halted) return true;
    if (n->ep->refused) { return K->fired[F_ACCEPT_FAIL] || W->expect_exit || !W->listening || W->cfg.maxconns || n->ep->refused; }
    if (W->phase == Phase::CLOSING || W->phase == Phase::TERM || W->phase == Phase::OVER || W->expect_exit || N->exited) return true;
    if (!n->gotany && (K->fired[F_ACCEPT_FAIL] + K->fired[F_SOCKOPT_FAIL] + K->fired[F_EPOLLCTL_FAIL])) return true;
    if (W->cfg.maxconns && !n->gotany) return true;
    return false;
}
static void conn_event(Conn *n) {
    if (n->dead) { cli_take(n->ep); return; }
    if (n->ep->stalled) return;
    std::string got = cli_take(n->ep);
    if (!got.empty()) n->gotany = true;
    if (n->c->record) n->rlog += got;
    n->nrx += got.size(); n->in += got;
    Client *c = n->c;
    if (n->broken) n->in.clear();
    while (!n->in.empty() && !n->broken && !n->dead) {
        size_t j = 0; while (j < n->q.size() && n->q[j]->noreply) j++;
        if (n->c->monitor && n->q.empty()) break;
        if (j == n->q.size()) {
            violation("extra-reply", "C09", "%s connection %d received bytes that answer no command: %s; last command: %s", proto_name[n->proto], n->id, esc(n->in).c_str(),
                j ? n->q[j - 1]->txt().c_str() : "(all answered)");
            n->broken = true; break;
        }
        Op *o = n->q[j];
        Res r; std::string why;
        long k = parse_reply(*o, n->in.data(), n->in.size(), r, n->ep->fin_rx, why);
        if (k == 0) break;
        if (k < 0) {
            violation("bad-reply", "C09", "reply to %s is malformed or answers another command (%s): %s", o->txt().c_str(), why.c_str(), esc(n->in, 160).c_str());
            n->broken = true; break;
        }
        n->in.erase(0, k);
        for (size_t i = 0; i < j; i++) { n->q[i]->done = true; n->q[i]->resp = K->now; }
        n->q.erase(n->q.begin(), n->q.begin() + j + 1);
        o->res = r; op_done(n, o);
    }
    if (n->dead) return;
    if (n->ep->rst_rx || n->ep->fin_rx) {
        bool explained = excuse_death(n);
        if (!explained && !n->half) {
            std::string pend; for (Op *o : n->q) { pend += o->txt() + "; "; if (pend.size() > 400) break; }
            violation("unexpected-close", "C09,C10,C19", "server closed %s connection %d of a well-behaved client (%s) with pending: %s", proto_name[n->proto], n->id, n->ep->rst_rx ? "reset" : "fin", pend.c_str());
        }
        if (n->half && n->ep->fin_rx && !n->ep->rst_rx && !explained) {
            if (outstanding(n)) violation("half-close-lost", "C09,C10", "connection %d was half-closed after sending complete commands; the server closed it without answering: %s", n->id, n->q.front()->txt().c_str());
        }
        if (n->ep->fin_rx && !n->ep->rst_rx && !n->in.empty() && !n->broken && !explained && !c->monitor)
            violation("torn-reply", "C09", "connection %d ended inside a reply: %s", n->id, esc(n->in).c_str());
        n->fin_seen = true;
        conn_gone(n, "closed");
        return;
    }
    if (n->closing && !outstanding(n) && n->proto == P_HTTP) { n->excused = true; conn_gone(n, "http"); return; }
    client_pump(c);
}
static void do_fate(Client *c, Conn *n, PlanOp &po) {
    u64 d = po.fate_arg;
    switch (po.fate) {
    case FT_RESET: if (!has_event(F_RESET)) return; fired(F_RESET); n->excused = true; after(d, [n]() { if (n->dead) return; n->excused = true; cli_reset(n->ep); conn_gone(n, "reset"); }); break;
    case FT_CLOSE: if (!has_event(F_CLIENT_CLOSE)) return; fired(F_CLIENT_CLOSE); n->excused = true; after(d, [n]() { if (n->dead) return; n->excused = true; conn_gone(n, "close"); }); break;
    case FT_HALF: if (!has_event(F_HALFCLOSE)) return; fired(F_HALFCLOSE); n->half = true; cli_shutdown(n->ep);
        after(8 * SEC, [n]() { if (n->dead) return; if (outstanding(n)) violation("half-close-hang", "C09,C10,C19", "half-closed connection %d: neither replies nor close within 8 s; pending %s", n->id, n->q.front()->txt().c_str());
            else violation("half-close-open", "C10", "half-closed connection %d is still open after 8 s", n->id); n->excused = true; conn_gone(n, "half"); }); break;
    case FT_STALL: if (!has_event(F_PEER_STALL)) return; fired(F_PEER_STALL); n->ep->stalled = true; after(d, [n]() { if (!n->dead) cli_resume(n->ep); }); break;
    default: break;
    }
}
static void client_pump(Client *c) {
    if (c->halted || c->waiting || c->finished) { return; }
    if (c->conn && c->conn->hs && !c->conn->ready) return;
    if (c->next >= c->plan.size() && !(c->conn && outstanding(c->conn))) {
        if (c->on_idle && !c->seq) { auto f = c->on_idle; c->on_idle = nullptr; f(c); if (c->next < c->plan.size()) goto more; }
        if (c->next >= c->plan.size()) { c->finished = !c->monitor; return; }
    }
more:
    if (W->phase >= Phase::CLOSING && c != W->aud) return;
    if (!c->conn) {
        if (!W->listening) { return; }
        conn_open(c);
    }
    Conn *n = c->conn;
    if (!n->hs) { handshake(n); if (!n->ready && n->proto != P_RESP) return; if (!n->ready) return; }
    if (n->half || n->broken) return;
    size_t out = 0; for (Op *o : n->q) if (!o->noreply) out++;
    if (n->proto == P_HTTP && (out > 0 || n->closing)) return;
    if (n->closing) return;
    std::vector<Op *> burst; PlanOp *fate = 0;
    size_t want = 1 + (c->burst > 1 ? W->rp.below(c->burst) : 0);
    while (c->next < c->plan.size() && out + burst.size() < (size_t)c->depth && burst.size() < want) {
        PlanOp &po = c->plan[c->next++];
        if (W->spec.mask.ops.count(po.op->id)) continue;
        if (po.fate == FT_RECONNECT) {
            if (out + burst.size()) { c->next--; break; }
            n->excused = true; cli_close(n->ep); n->dead = true; c->conn = 0; po.fate = FT_NONE; c->next--;
            at(K->now + 50 * USEC, [c]() { client_pump(c); }); return;
        }
        if (po.fate == FT_PARTIAL && has_event(F_CLIENT_CLOSE)) {
            std::string e = encode(*po.op); size_t k = 1 + po.fate_arg % (e.size() > 1 ? e.size() - 1 : 1);
            if (n->proto == P_PG) k = std::min<size_t>(k, 4);
            if (k >= e.size()) continue;
            fired(F_CLIENT_CLOSE); n->excused = true;
            if (!burst.empty()) conn_send(n, burst);
            cli_send(n->ep, e.substr(0, k)); logf("torn request conn %d: %s", n->id, esc(e.substr(0, k)).c_str());
            u64 d = po.fate_arg % 700 * USEC; bool rst = po.fate_arg & 1;
            after(d, [n, rst]() { if (n->dead) return; if (rst) cli_reset(n->ep); conn_gone(n, "torn"); });
            c->waiting = true; after(d + 100 * USEC, [c]() { c->waiting = false; client_pump(c); });
            return;
        }
        burst.push_back(po.op);
        if (n->proto == P_HTTP || po.op->kind == O_QUIT) { if (po.fate) fate = &po; break; }
        if (po.fate != FT_NONE) { fate = &po; break; }
        if (po.op->think) break;
    }
    if (burst.empty()) {
        if (c->next >= c->plan.size() && !outstanding(n) && !c->finished && out == 0) { c->finished = !c->monitor; }
        return;
    }
    conn_send(n, burst);
    if (fate) { PlanOp f = *fate; do_fate(c, n, f); }
    u64 think = burst.back()->think;
    if (think) { c->waiting = true; after(think, [c]() { c->waiting = false; client_pump(c); }); }
    else if (c->next < c->plan.size() && (c->depth > 1 || !outstanding(n))) after(1, [c]() { client_pump(c); });
    else if (c->next >= c->plan.size() && !outstanding(n)) after(1, [c]() { client_pump(c); });
}
void client_go(Client *c) { c->finished = false; client_pump(c); }

// ------------------------------------------------------------------ phases
static void set_phase(int p) { W->phase = p; W->phase_since = K->now; logf("phase %d", p); }
void settle_then(u64 d, std::function<void()> fn) { after(d, fn); }
static bool clients_idle(void) {
    for (Client *c : W->clients) { if (c == W->aud || c->halted) continue; if (!c->finished || (c->conn && outstanding(c->conn))) return false; }
    return true;
}
void begin_run(void) {
    K->faults_on = true;
    for (Client *c : W->clients) {
        if (W->spec.mask.clients.count(c->id)) { c->halted = true; continue; }
        after(c->start, [c]() { client_pump(c); });
    }
}
void world_end(void) {
    if (W->phase >= Phase::CLOSING) return;
    // work on buffered data is proportional to the data, however it is cut into segments
    if (N->moved > 16 * N->sockbytes + (8 << 20)) violation("moved-again", "C19,C09", "the server moved %.1f MB inside its buffers for %.1f MB received and sent in all", N->moved / 1e6, N->sockbytes / 1e6);
    set_phase(Phase::CLOSING);
}
static void report_unanswered(void) {
    for (Client *c : W->clients) {
        if (!c->conn || c->halted) continue; Conn *n = c->conn;
        if (n->dead || n->ep->stalled) continue;
        if (outstanding(n)) {
            Op *o = 0; for (Op *x : n->q) if (!x->noreply) { o = x; break; }
            std::string thr; for (Thr *t : K->thr) if (t->st != T_DONE) thr += fmt(" t%d:%s/%d", t->id, t->what, t->why);
            violation("unanswered", "C09,C19", "no reply within %.1f s although faults have stopped and the client is reading: %s (%zu bytes of a partial reply: %s) [threads:%s]",
                (K->now - std::max(o->inv, W->phase_since)) / 1e9, o->txt().c_str(), n->in.size(), esc(n->in, 60).c_str(), thr.c_str());
        } else if (!c->finished && !c->monitor) {
            violation("client-stuck", "C19", "client %d could not finish: %zu of %zu operations, connection %s", c->id, c->next, c->plan.size(), n->ready ? "ready" : "not accepted");
        }
    }
}
static void faults_off(void) {
    K->faults_on = false;
    for (Client *c : W->clients) if (c->conn && c->conn->ep->stalled) cli_resume(c->conn->ep);
}
// long enough for everything in flight on dropped connections to have been executed
u64 quiet_time(void) { return W->lat_max * 4 + 120 * MSEC + (W->p_slow > 0 ? 300 * MSEC : 0); }
static void default_quiet(void) {
    for (Client *c : W->clients) if (c->conn && !c->monitor) client_drop(c, 0);
    at_inc(K->now + quiet_time(), []() { audit([]() { world_end(); }); });
}
static void ctl_tick(void) {
    if (W->done) return;
    u64 el = K->now - W->phase_since;
    if (W->term_sent && W->phase != Phase::TERM) {           // a signal of the plan: clients go on until the process ends
        if (K->now - W->term_at > W->term_max) { violation("no-shutdown", "C08,C19", "server did not exit within %.0f s of a signal", (K->now - W->term_at) / 1e9); K->ending = true; }
        if (W->phase == Phase::BOOT && N->listeners.count("9401")) { W->listening = true; W->boot_failed = false; set_phase(Phase::RUN); if (W->hk.on_listen) W->hk.on_listen(); else begin_run(); }
        at_inc(K->now + MSEC, ctl_tick); return;
    }
    switch (W->phase) {
    case Phase::BOOT:
        if (N->listeners.count("9401")) {
            W->listening = true; W->boot_failed = false; set_phase(Phase::RUN);
            if (!W->t_first) W->t_first = K->now;
            if (W->hk.on_listen) W->hk.on_listen(); else begin_run();
        } else if (el > 60 * SEC) {
            violation("boot-hang", "C19", "server is not listening 60 s after its start (threads stuck)"); K->ending = true;
        }
        break;
    case Phase::RUN:
        if (clients_idle() || el > W->run_max) { faults_off(); set_phase(Phase::SETTLE); for (Client *c : W->clients) { Client *cc = c; at(K->now, [cc]() { client_pump(cc); }); } }
        break;
    case Phase::SETTLE:
        if (clients_idle() || el > W->settle_max) {
            if (!clients_idle()) report_unanswered();
            set_phase(Phase::QUIET);
            if (W->hk.at_quiet) W->hk.at_quiet(); else default_quiet();
        }
        break;
    case Phase::QUIET:
        if (el > 120 * SEC) { report_unanswered(); violation("quiet-hang", "C19", "the closing checks of the run got no answers for 120 s"); world_end(); }
        break;
    case Phase::CLOSING: {
        if (W->closedcheck == 1) { for (Client *c : W->clients) if (c->conn) client_drop(c, 0); W->closedcheck = 2; W->phase_since = K->now; break; }
        if (el < 300 * MSEC + 4 * W->lat_max) break;
        if (W->strict_end && W->closedcheck == 2) {
            int socks = 0; for (auto &p : N->fds) if (p.second->type == D_SOCK) socks++;
            if (socks) violation("fd-leak", "C10", "%d server sockets are still open 300 ms after every client closed its connection", socks);
            W->closedcheck = 3;
        }
        W->expect_exit = true; W->term_sent = true; W->term_at = K->now; set_phase(Phase::TERM); kern_signal(15);
        break; }
    case Phase::TERM:
        if (el > W->term_max) { violation("no-shutdown", "C08,C19", "server did not exit within %.0f s of SIGTERM", el / 1e9); K->ending = true; }
        break;
    }
    u64 step = W->phase == Phase::BOOT ? 200 * USEC : el < 100 * MSEC ? 500 * USEC : 5 * MSEC;
    at_inc(K->now + step, ctl_tick);
}
static void *main_thr(void *) {
    int rc = sut_main(W->cfg.args());
    logf("main returned %d", rc); N->exited = true; N->exit_code = rc; N->exit_time = K->now; end_incarnation(0); return 0;
}
static std::string slurp(const std::string &p) {
    std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0) { s.append(b, k); if (s.size() > 100000) break; } fclose(f); return s;
}
static std::string asan_report(pid_t pid, std::string &cls) {
    std::string p = g_scratch + "/asan." + std::to_string(pid), s = slurp(p); unlink(p.c_str());
    std::string first, frames; int nf = 0; size_t i = 0; std::string topfn;
    while (i < s.size()) {
        size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); std::string l = s.substr(i, j - i); i = j + 1;
        size_t e = l.find("ERROR: AddressSanitizer: ");
        if (e != std::string::npos) first = l.substr(e + 25);
        size_t h = l.find(" in ");
        if (h != std::string::npos && l.find('#') != std::string::npos && nf < 7) {
            std::string f = l.substr(h + 4); size_t sl = f.rfind('/'); size_t sp = f.find(' '); std::string fn = f.substr(0, sp);
            std::string loc = sl != std::string::npos ? f.substr(sl + 1) : ""; 
            if (topfn.empty() && fn.compare(0, 2, "__") != 0 && fn != "memcpy" && fn != "memmove" && fn != "memset" && fn != "strlen") topfn = fn;
            frames += " <- " + fn + (loc.empty() ? "" : "@" + loc); nf++;
        }
    }
    size_t sp = first.find(' '); cls = "crash:" + first.substr(0, sp) + ":" + topfn;
    // drop addresses so that the text is the same in every process
    std::string out; for (size_t k = 0; k < first.size(); k++) { if (first[k] == '0' && k + 1 < first.size() && first[k + 1] == 'x') { out += "ADDR"; k += 2; while (k < first.size() && isxdigit((unsigned char)first[k])) k++; k--; } else out += first[k]; }
    return out + frames;
}
void world_run(void) {
    __sanitizer_set_report_path((g_scratch + "/asan").c_str());
    bool first = true;
    for (;;) {
        W->phase = Phase::BOOT; W->phase_since = K->now; W->listening = false; W->boot_t0 = K->now; W->term_sent = false; W->closedcheck = 1;
        N->exited = false; N->aborted = false; K->ending = false; K->end_code = 0;
        W->killed = false; W->power = false;
        if (!first) W->expect_exit = false;
        first = false;
        fflush(0);
        pid_t pid = fork();
        if (pid == 0) {
            struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 40; signal(SIGALRM, SIG_DFL); setitimer(ITIMER_REAL, &it, 0);
            run_incarnation([]() { if (W->engine) { thr_spawn(W->engine, 0, "main"); return; } at_inc(K->now + 100 * USEC, ctl_tick); thr_spawn(main_thr, 0, "main"); });
        }
        if (pid < 0) { violation("harness", "", "fork failed"); break; }
        int st = 0; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { violation("harness", "", "simulator error"); break; }
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
            std::string cls, rep;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77) rep = asan_report(pid, cls);
            else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { cls = "stuck"; rep = "the server loops without ever making a call or passing an instrumented point (40 s of real time)"; }
            else { cls = "crash:signal"; rep = fmt("status %x", st); }
            violation(cls.c_str(), "*", "server crashed: %s", rep.c_str());
            break;
        }
        if (N->aborted) { violation("abort", "*", "server aborted: %s; last output: %s", N->abort_why.c_str(), esc(K->sut_out.size() > 200 ? K->sut_out.substr(K->sut_out.size() - 200) : K->sut_out, 300).c_str()); break; }
        if (K->limit_hit) {
            std::string thr; for (Thr *t : K->thr) if (t->st != T_DONE) thr += fmt(" t%d:%s st%d/%d", t->id, t->what, t->st, t->why);
            violation(("hang:" + K->limit_what).c_str(), "*", "server makes no progress (%s limit); threads:%s", K->limit_what.c_str(), thr.c_str()); break;
        }
        if (N->exited && !W->expect_exit && !W->killed && !W->allow_boot_fail && !W->boot_failed)
            violation("unexpected-exit", "*", "server exited with status %d on its own; last output: %s", N->exit_code, esc(K->sut_out.size() > 300 ? K->sut_out.substr(K->sut_out.size() - 300) : K->sut_out, 400).c_str());
        if (N->exited && W->phase == Phase::TERM && N->exit_code != 0 && W->strict_end)
            violation("exit-status", "C08", "server exited with status %d after SIGTERM; last output: %s", N->exit_code, esc(K->sut_out.size() > 300 ? K->sut_out.substr(K->sut_out.size() - 300) : K->sut_out, 400).c_str());
        bool power = W->power;
        kern_process_died(power);
        if (!W->hk.on_exit || !W->hk.on_exit()) break;
        if (!K->viol.empty()) break;
        K->now += 1 * MSEC;
        if (K->incarnation > 40) break;
    }
    W->done = true;
    bool fatal = false; for (auto &v : K->viol) if (v.cls == "harness") fatal = true;
    if (!fatal) {
        if (W->hk.finish) W->hk.finish();
        if (W->check_lin) check_linearizable();
    }
}
// Called in the server process when it is killed by the plan.

// ------------------------------------------------------------------ audit
Client *observer(void) {
    if (W->aud) return W->aud;
    Client *c = new_client(P_RESP); W->aud = c; c->pw = W->cfg.auth; c->seq = true; return c;
}
void aud_send(Op *o, std::function<void(Op *)> cb) {
    Client *c = W->aud;
    if (!c) return;
    c->on_reply = [cb, o](Client *, Op *x) { if (x == o) cb(o); };
    c->plan.push_back(PlanOp{ o }); client_go(c);
}
struct Aud {
    std::vector<std::string> k1, k2, scan; u64 scans = 0; std::function<void()> then; int tries = 0; std::string pat = "*"; std::vector<std::string> all; size_t pos = 0; std::vector<std::string> tt;
};
static void aud_dups(const std::vector<std::string> &v, const char *what) {
    std::set<std::string> s;
    for (auto &k : v) {
        if (!s.insert(k).second) violation("enum-dup", "C16", "%s lists key %s twice", what, esc(k).c_str());
        if (!W->keys.count(k)) violation("enum-alien", "C16,C01", "%s lists key %s, which was never stored", what, esc(k).c_str());
    }
}
static std::vector<std::string> names(const Res &r) { std::vector<std::string> v; for (auto &x : r.sub) v.push_back(x.s); return v; }
static void aud_count(Aud *a);
static void aud_stats(Aud *a);
static void aud_values(Aud *a) {
    if (a->pos < a->all.size()) {
        Op *o = new_op(P_RESP, O_MGETS); size_t n = 1 + W->rp.below(16);
        for (size_t i = 0; i < n && a->pos < a->all.size(); i++) o->keys.push_back(a->all[a->pos++]);
        aud_send(o, [a](Op *) { aud_values(a); }); return;
    }
    if (!a->tt.empty()) {
        Op *o = new_op(P_RESP, W->rp.chance(0.5) ? O_TTL : O_PTTL); o->keys.push_back(a->tt.back()); a->tt.pop_back();
        aud_send(o, [a](Op *) { aud_values(a); }); return;
    }
    W->have_audit = true;
    if ((W->spec.scen == "kv" || W->spec.scen == "auth") && K->incarnation <= 1) { a->tries = 0; aud_stats(a); return; }
    a->then();
}
// What the acknowledged commands add up to: a range per counter, exact where
// the outcome of every command is known.
struct Rg { u64 lo = 0, hi = 0; void add(u64 l, u64 h) { lo += l; hi += h; } };
// Requests without a reply on a connection that was closed in order after them:
// once the server has read everything and closed its end they have been executed.
static void sure_effects(void) {
    if (K->fired[F_ACCEPT_FAIL] + K->fired[F_SOCKOPT_FAIL] + K->fired[F_EPOLLCTL_FAIL] || W->cfg.maxconns) return;
    for (Client *c : W->clients) for (Conn *n : c->conns) {
        if (n->proto != P_MC || !n->dead || n->broken || n->ep->refused || !n->ep->peer->drained_at || outstanding(n)) continue;
        for (Op *o : n->q) if (!o->done) { o->done = true; o->resp = n->ep->peer->drained_at; probe("noreply_closed"); }
    }
}
static std::map<std::string, Rg> stats_expected(void) {
    sure_effects();
    std::map<std::string, Rg> m; bool auth = !W->cfg.auth.empty(), plain = W->cfg.maxmemory.empty();
    for (const char *n : { "cmd_get", "cmd_set", "cmd_flush", "cmd_touch", "get_hits", "get_misses", "delete_hits", "delete_misses", "incr_hits", "incr_misses", "decr_hits", "decr_misses", "touch_hits", "touch_misses", "auth_cmds", "auth_errors", "store_no_memory", "store_too_large" }) m[n];
    Rg total;
    for (Op *o : W->ops) {
        if (!o->sent || o->proto == P_N) continue;
        u64 k = o->keys.size(), must = o->done; bool err = o->done && o->res.st == R_ERR, known = o->done && !o->noreply && !err;
        auto yes = [&](const char *n, u64 c) { m[n].add(must && !err ? c : 0, c); };
        auto split = [&](const char *h, const char *s, u64 hits, u64 all) { if (known) { m[h].add(hits, hits); m[s].add(all - hits, all - hits); } else if (!err) { m[h].add(0, all); m[s].add(0, all); } };
        if (auth && o->proto != P_PG && o->kind != O_QUIT) {
            if (o->proto == P_HTTP || o->denied || o->kind == O_AUTH) m["auth_cmds"].add(must, 1);
            if (o->denied || (o->kind == O_AUTH && (o->authbad || o->val != W->cfg.auth))) m["auth_errors"].add(must, 1);
        }
        if (auth && o->kind == O_QUIT) { m["auth_cmds"].add(0, 1); m["auth_errors"].add(0, 1); }
        if (o->denied) continue;
        switch (o->kind) {
        case O_GET: yes("cmd_get", 1); split("get_hits", "get_misses", o->res.st == R_VAL, 1); break;
        case O_MGET: case O_MGETS: { u64 h = 0; for (auto &s : o->res.sub) h += s.st == R_VAL; yes("cmd_get", k); split("get_hits", "get_misses", h, k); break; }
        case O_TTL: case O_PTTL: split("get_hits", "get_misses", o->res.n != -2, 1); break;
        case O_SET: if (err) m["cmd_set"].add(0, 1); else yes("cmd_set", 1); plain = plain && !o->ttlkind; break;
        case O_DEL: { u64 h = o->res.st == R_INT ? o->res.n : 0; split("delete_hits", "delete_misses", h, k); break; }
        case O_TOUCH: yes("cmd_touch", k); split("touch_hits", "touch_misses", o->res.n, k); break;
        case O_EXPIRE: plain = false; if (o->proto == P_MC) { yes("cmd_touch", 1); split("touch_hits", "touch_misses", o->res.n, 1); } break;
        case O_INCR: split(o->decr ? "decr_hits" : "incr_hits", o->decr ? "decr_misses" : "incr_misses", o->res.st != R_NOTFOUND, 1); break;
        case O_FLUSH: plain = false; if (o->noreply && K->fired[F_THREAD_FAIL]) m["cmd_flush"].add(0, 1); else yes("cmd_flush", 1); break;
        case O_LOAD: case O_PURGE: plain = false; break;
        default: break;
        }
    }
    if (plain) { total = m["delete_hits"]; total.add(W->aud_dbsize, W->aud_dbsize); m["total_items"] = total; }
    if (auth && W->spec.scen == "auth") { m["auth_cmds"].hi = m["auth_errors"].hi = ~0ull; }   // connections of raw bytes count too
    return m;
}
static void aud_empty(Aud *a) {
    Op *st = new_op(P_RESP, O_STATS);
    aud_send(st, [a](Op *) {
        u64 items = stat_of("curr_items"), bytes = stat_of("bytes");
        if (items || bytes) violation("size-drift", "C18", "every key was deleted, STATS reports %llu entries of %llu bytes", (unsigned long long)items, (unsigned long long)bytes);
        a->then();
    });
}
static void aud_stats(Aud *a) {
    Op *st = new_op(P_RESP, O_STATS);
    aud_send(st, [a](Op *) {
        std::string bad; auto exp = stats_expected();
        for (auto &p : exp) {
            bool ok; u64 v = stat_of(p.first.c_str(), &ok);
            if (!ok) { bad = fmt("STATS does not list %s", p.first.c_str()); break; }
            if (v < p.second.lo || v > p.second.hi) { bad = fmt("%s is %llu, the commands answered so far make it %llu", p.first.c_str(), (unsigned long long)v, (unsigned long long)p.second.lo); if (p.second.lo != p.second.hi) bad += fmt(" to %llu", (unsigned long long)p.second.hi); break; }
            if (p.second.lo == p.second.hi) probe("stat_exact");
        }
        if (!bad.empty()) {
            if (++a->tries < 9) { at_inc(K->now + 1100 * MSEC, [a]() { aud_stats(a); }); return; }
            violation("stats-drift", "C18", "at rest: %s", bad.c_str());
        }
        if (W->aud_keys.empty()) { aud_empty(a); return; }
        Op *d = new_op(P_RESP, O_DEL); d->keys = W->aud_keys;
        aud_send(d, [a](Op *) { aud_empty(a); });
    });
}
static void aud_after_scan(Aud *a) {
    Op *o = new_op(P_RESP, O_KEYS);
    aud_send(o, [a](Op *o) {
        if (o->res.st != R_LIST) { violation("audit", "C16", "KEYS failed: %s", o->res.txt().c_str()); a->then(); return; }
        a->k2 = names(o->res); aud_dups(a->k2, "KEYS");
        std::set<std::string> s1(a->k1.begin(), a->k1.end()), s2(a->k2.begin(), a->k2.end());
        std::map<std::string, int> cnt; for (auto &k : a->scan) cnt[k]++;
        for (auto &k : s2) if (s1.count(k) && glob(a->pat.data(), a->pat.size(), k.data(), k.size()) && cnt[k] != 1) violation("scan", "C16", "full SCAN (%s) with no concurrent writes listed key %s %d times", esc(a->pat).c_str(), esc(k).c_str(), cnt[k]);
        for (auto &p : cnt) if (!s1.count(p.first) && !s2.count(p.first)) violation("scan-alien", "C16", "SCAN lists key %s, which KEYS lists neither before nor after it", esc(p.first).c_str());
        aud_count(a);
    });
}
static void aud_scan(Aud *a, u64 cursor) {
    Op *o = new_op(P_RESP, O_SCAN); o->cursor = cursor; o->pattern = a->pat; if (W->rp.chance(0.7)) o->count = W->rp.chance(0.1) ? 1 + W->rp.below(300) : 1 + W->rp.below(12);
    aud_send(o, [a](Op *o) {
        if (o->res.st != R_LIST) { violation("audit", "C16", "SCAN failed: %s", o->res.txt().c_str()); a->then(); return; }
        for (auto &k : names(o->res)) a->scan.push_back(k);
        if (++a->scans > W->keys.size() * 3 + (u64)W->cfg.shards * 2 + 200) { violation("scan-endless", "C16", "SCAN did not return to cursor 0 after %llu calls", (unsigned long long)a->scans); a->then(); return; }
        if (o->res.u == 0) aud_after_scan(a); else aud_scan(a, o->res.u);
    });
}
static void audit_rest(std::function<void()> then);
static void aud_count(Aud *a) {
    Op *s = new_op(P_RESP, O_SWEEP); s->fast = W->keys.size() % 2;
    aud_send(s, [a](Op *s) {
        if (s->res.st == R_ERR) violation("audit", "C16", "SWEEP failed: %s", s->res.txt().c_str());
        Op *d = new_op(P_RESP, O_DBSIZE);
        aud_send(d, [a](Op *d) {
            u64 n = d->res.n;
            Op *k = new_op(P_RESP, O_KEYS);
            aud_send(k, [a, n](Op *k) {
                auto v = names(k->res); aud_dups(v, "KEYS");
                Op *st = new_op(P_RESP, O_STATS);
                aud_send(st, [a, n, v](Op *) {
                    u64 items = strtoull(W->stats["curr_items"].c_str(), 0, 10);
                    if (n != v.size() || items != v.size()) {
                        if (++a->tries < 4) { at_inc(K->now + 1700 * MSEC, [a]() { aud_count(a); }); return; }
                        violation("count-drift", "C18", "at rest after SWEEP: DBSIZE says %llu, curr_items %llu, but KEYS lists %zu keys", (unsigned long long)n, (unsigned long long)items, v.size());
                    }
                    W->aud_dbsize = n; W->aud_keys = v;
                    u64 bytes = strtoull(W->stats["bytes"].c_str(), 0, 10);
                    if (n == 0 && bytes != 0) violation("size-drift", "C18", "cache is empty but reports %llu bytes of entries", (unsigned long long)bytes);
                    aud_values(a);
                });
            });
        });
    });
}
// Could an entry reach its deadline between two moments, or be cleared by a flush under way?
static bool may_vanish(u64 from, u64 to) {
    if (!W->jumps.empty() || W->lossy) return true;
    for (Op *o : W->ops) {
        if (!o->sent) continue;
        if (o->kind == O_FLUSH && (o->async || o->delay || !o->done)) return true;
        bool t = o->kind == O_EXPIRE || (o->kind == O_SET && o->ttlkind); if (!t) continue;
        if (!o->done) return true;
        int k = o->kind == O_EXPIRE ? 1 : o->ttlkind; if (k == 5) k = 1;
        if (k > 4 || (o->proto == P_MC && o->ttl > 2000000)) return true;
        if (o->ttl > 2) if (k == 3 || k == 4) { i64 d = (i64)((__int128)o->ttl * (k == 3 ? SEC : MSEC) > INT64_MAX ? INT64_MAX : o->ttl * (i64)(k == 3 ? SEC : MSEC)) - (i64)(N->wall_base + N->wall_skew); if (d <= (i64)(to + 5 * MSEC) && d + (i64)(5 * MSEC) >= (i64)from) return true; continue; }
        if (o->ttl <= 0 || o->ttl > 1000000000) continue;
        u64 d = (u64)o->ttl * (k == 1 ? SEC : MSEC), slack = 5 * MSEC;
        if (o->inv + d <= to + slack && o->resp + d + slack >= from) return true;
    }
    return false;
}
// A sweep removes every expired entry: what is counted after it is what can be listed.
static void aud_sweep(std::function<void()> then) {
    Op *s = new_op(P_RESP, O_SWEEP); s->fast = W->rp.chance(0.5);
    aud_send(s, [then](Op *s) {
        Op *d = new_op(P_RESP, O_DBSIZE);
        aud_send(d, [s, then](Op *d) {
            Op *k = new_op(P_RESP, O_KEYS);
            aud_send(k, [s, d, then](Op *k) {
                if (s->res.st != R_ERR && k->res.st == R_LIST && (u64)d->res.n != k->res.sub.size()) {
                    if (!may_vanish(s->inv, k->resp)) violation("sweep-left", "C04", "%s was answered and %lld entries counted, but only %zu keys are there", s->txt().c_str(), (long long)d->res.n, k->res.sub.size());
                    else probe("sweep_left_excused");
                }
                then();
            });
        });
    });
}
void audit(std::function<void()> then) {
    observer();
    if (W->spec.scen == "kv" && W->rp.chance(W->rot ? 0.9 : 0.5)) { probe("audit_sweep"); at_inc(K->now + (W->rp.chance(0.3) || W->rot ? W->rp.below(6000) * MSEC : 0), [then]() { aud_sweep([then]() { audit_rest(then); }); }); return; }
    audit_rest(then);
}
static void audit_rest(std::function<void()> then) {
    Aud *a = new Aud(); a->then = then;
    for (auto &k : W->keys) a->all.push_back(k);
    for (Op *o : W->ops) if (o->sent && (o->ttlkind || o->kind == O_EXPIRE)) for (auto &k : o->keys) if (a->tt.size() < 25 && std::find(a->tt.begin(), a->tt.end(), k) == a->tt.end()) a->tt.push_back(k);
    Op *k = new_op(P_RESP, O_KEYS);
    aud_send(k, [a](Op *k) {
        if (k->res.st != R_LIST) { violation("audit", "C16", "KEYS failed: %s", k->res.txt().c_str()); a->then(); return; }
        a->k1 = names(k->res); aud_dups(a->k1, "KEYS");
        if (W->rp.chance(0.4)) a->pat = gen_pattern(W->rp, a->k1.empty() ? a->all : a->k1, true);
        aud_scan(a, 0);
    });
}
u64 stat_of(const char *name, bool *ok) { auto it = W->stats.find(name); if (ok) *ok = it != W->stats.end(); return it == W->stats.end() ? 0 : strtoull(it->second.c_str(), 0, 10); }

// ------------------------------------------------------------------ checks
// Every enumeration a client made, whatever ran beside it.
static void check_enums(void) {
    bool own = W->spec.scen == "kv" || W->spec.scen == "monitor";
    for (Op *o : W->ops) {
        if ((o->kind != O_KEYS && o->kind != O_SCAN) || !o->done || o->res.st != R_LIST) continue;
        const char *what = o->kind == O_KEYS ? "KEYS" : "SCAN"; std::set<std::string> s;
        for (auto &x : o->res.sub) {
            if (!s.insert(x.s).second && o->kind == O_KEYS) violation("enum-dup", "C16", "%s %s lists key %s twice", what, esc(o->pattern).c_str(), esc(x.s).c_str());
            if (own && !W->keys.count(x.s)) violation("enum-alien", "C16,C01", "%s lists key %s, which was never stored", what, esc(x.s).c_str());
            if (!glob(o->pattern.data(), o->pattern.size(), x.s.data(), x.s.size())) violation("enum-pattern", "C16", "%s %s lists key %s, which does not match", what, esc(o->pattern).c_str(), esc(x.s).c_str());
        }
    }
}
void check_linearizable(void) {
    sure_effects(); check_enums();
    ModelCfg mc; mc.cas = W->cfg.cas; mc.lossy = W->lossy; mc.windows = W->loss_windows; mc.wall_minus_boot = (i64)(N->wall_base + N->wall_skew); mc.jumps = W->jumps;
    std::map<std::string, std::vector<KOp>> h;
    split(W->ops, W->keys, h, mc);
    for (auto &p : h) {
        std::vector<KState> init; auto it = W->init.find(p.first);
        if (it != W->init.end()) init = it->second; else init.push_back(KState());
        WglResult r = wgl(p.second, init, mc, W->wgl_limit, false);
        W->states += r.states;
        if (r.undecided) { W->undecided++; continue; }
        if (!r.ok) violation(W->lin_tag.c_str(), "*", "history of key %s has no sequential explanation: %s", esc(p.first).c_str(), r.why.c_str());
    }
}

// ------------------------------------------------------------------ operation generator
static std::string gen_value(Rng &r, Gen &g, Proto p, bool ext_or_bulk, int id) {
    std::string v = fmt("v%d", id);
    if (r.chance(0.04)) { static const size_t ls[] = { 0, 1, 200, 215, 225, 235, 245, 255, 256, 300 }; size_t n = ls[r.below(10)] + r.below(8); if (n < 8 && r.chance(0.5)) return std::string(n % 3, 'x'); v += "="; while (v.size() < n) v += (char)('a' + (v.size() * 5 + id) % 26); return v; }
    if (g.big >= 60000 && r.chance(0.01)) { size_t n = 65300 + r.below(300); v += "+"; while (v.size() < n) v += (char)('a' + (v.size() * 7 + id) % 26); return v; }
    if (r.chance(g.p_big)) { size_t n = r.logrange(g.bigmin, g.big); v += "-"; while (v.size() < n) v += (char)('a' + (v.size() * 7 + id) % 26); }
    else if (r.chance(0.3)) {
        size_t n = 1 + r.below(24);
        for (size_t i = 0; i < n; i++) v += g.binary && ext_or_bulk ? (char)r.below(256) : (char)(32 + r.below(95));
    } else if (r.chance(0.06)) {      // characters of one to four bytes, and the ones that are written with an escape
        for (int i = 1 + (int)r.below(5); i > 0; i--) {
            u32 c = r.chance(0.3) ? (u32)"\n\r\t\b\f\\'\"/"[r.below(9)] : r.chance(0.3) ? 0x80 + r.below(0x780) : r.chance(0.4) ? 0x800 + r.below(0xd000) : 0x10000 + r.below(0x100000);
            if (c < 0x80) v += (char)c; else if (c < 0x800) { v += (char)(0xc0 | c >> 6); v += (char)(0x80 | (c & 63)); }
            else { if (c < 0x10000) v += (char)(0xe0 | c >> 12); else { v += (char)(0xf0 | c >> 18); v += (char)(0x80 | (c >> 12 & 63)); } v += (char)(0x80 | (c >> 6 & 63)); v += (char)(0x80 | (c & 63)); }
        }
    }
    (void)p; return v;
}
std::string gen_pattern(Rng &r, const std::vector<std::string> &keys, bool bin) {
    if (keys.empty() || r.chance(0.2)) return r.chance(0.5) ? "k*" : "?1*";
    const std::string &k = r.pick(keys); std::string o; size_t from = 0, to = std::min<size_t>(k.size(), 40);
    if (r.chance(0.3)) { o = "*"; from = r.below(to + 1); } 
    bool tail = to < k.size() || r.chance(0.4); if (tail && to == k.size()) to = from + r.below(to - from + 1);
    for (size_t i = from; i < to; i++) {
        double x = r.unit(); char c = k[i]; if (bin && r.chance(0.04)) { o += r.chance(0.6) ? "\\?" : "\\*"; continue; }
        if (x < 0.15) o += '?'; else if (x < 0.22) { o += '*'; if (r.chance(0.5)) i += r.below(3); if (r.chance(0.2)) o += '*'; }
        else { if (c == '*' || c == '?' || c == '\\' || (bin && x > 0.93)) { if (bin) o += '\\'; else { o += '?'; continue; } } o += c; }
    }
    if (tail) o += '*';
    return o.empty() ? "*" : o;
}
static std::string star_pattern(Rng &r) { std::string o; for (int n = 2 + (int)r.below(12); n > 0; n--) { o += '*'; o.append(1 + r.below(3), r.chance(0.1) ? '?' : 'a'); } return r.chance(0.7) ? o + 'b' : r.chance(0.5) ? o + '*' : o; }
Op *gen_op(Rng &r, Proto p, const std::map<int, int> &w, Gen &g) {
    std::set<int> mcset = { O_SET, O_GET, O_MGET, O_MGETS, O_DEL, O_EXPIRE, O_INCR, O_APPEND, O_PREPEND, O_FLUSH, O_VERSION };
    std::set<int> httpset = { O_SET, O_GET, O_DEL };
    int tot = 0; std::vector<std::pair<int, int>> ok;
    for (auto &x : w) { if (p == P_MC && !mcset.count(x.first)) continue; if (p == P_HTTP && !httpset.count(x.first)) continue; if (p == P_PG && (x.first == O_SELECT || x.first == O_MGETS || x.first == O_PURGE)) continue; ok.push_back(x); tot += x.second; }
    if (!tot) { Op *o = new_op(p, O_GET); o->keys.push_back(g.keys[r.below(g.keys.size())]); return o; }
    int x = (int)r.below(tot), kind = O_GET; for (auto &y : ok) { if (x < y.second) { kind = y.first; break; } x -= y.second; }
    Op *o = new_op(p, (Kind)kind);
    if (p == P_RESP && g.inl && r.chance(0.15)) o->inl = true;
    if (p == P_PG && g.ext && r.chance(0.4)) o->ext = true;
    bool bin = (p == P_RESP && !o->inl) || p == P_MC || p == P_HTTP || (p == P_PG && o->ext);
    auto key = [&]() -> std::string { if (!g.nkeysv.empty() && r.chance(g.p_num)) return r.pick(g.nkeysv); return r.pick(g.keys); };
    auto setttl = [&]() {
        if (!r.chance(g.p_ttl)) return;
        int k = 1; if (p == P_RESP || p == P_PG) k = 1 + (int)r.below(2);
        if ((p == P_RESP || p == P_PG) && r.chance(g.p_abs)) k += 2;
        o->ttlkind = k;
        bool sh = g.shortttl && r.chance(0.8);
        if (k == 1) o->ttl = sh ? r.range(1, 4) : r.range(1000, 100000);
        else if (k == 2) o->ttl = sh ? (i64)r.logrange(3, 4000) : r.range(1000000, 9000000);
        else { u64 wall = N->wall_base + K->now; o->ttl = k == 3 ? (i64)(wall / SEC) + (sh ? r.range(1, 8) : 5000) : (i64)(wall / MSEC) + (sh ? r.range(500, 8000) : 5000000); }
    };
    auto mcabs = [&]() -> i64 { i64 w = (i64)((N->wall_base + K->now) / SEC); switch (r.below(4)) { case 0: return 2592000 + (i64)r.below(3); case 1: return w - (i64)r.below(1000000); case 2: return w + r.range(1, 8); default: return w + r.range(3000, 90000); } };
    switch (kind) {
    case O_SET: {
        std::string k = key(); o->keys.push_back(k);
        bool num = k[0] == 'n' && r.chance(0.8);
        if (num && r.chance(0.12)) { static const char *odd[] = { "", " 5", "5 ", "1e3", "0x10", "-", "1.5", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-1", "12a", "-0", " -5", "\t7", "99999999999999999999" }; o->val = odd[r.below(18)]; if (o->inl && o->val[0] == '\t') o->val = "x"; }
        else if (num) o->val = r.chance(0.1) ? fmt("%llu", (unsigned long long)(~0ull - r.below(3))) : r.chance(0.1) ? fmt("%lld", (long long)(INT64_MAX - (i64)r.below(3))) : fmt("%d", (int)r.below(1000));
        else o->val = gen_value(r, g, p, bin, o->id);
        if (p == P_HTTP && o->val.empty()) o->val = "x";
        if (o->val.size() > 20000) o->inl = false;
        setttl();
        if (r.chance(g.p_flags)) o->flags = r.chance(0.2) ? 0xffffffffu : 1 + (u32)r.below(100000);
        if (r.chance(g.p_cas)) { o->casop = true; if (r.chance(0.85)) o->token_from_key = true; else o->token = ~0ull - r.below(5); if (p == P_MC) {} }
        else if (r.chance(g.p_cond)) { if (r.chance(0.5)) o->nx = true; else o->xx = true; }
        if ((p == P_RESP || p == P_PG) && !o->nx && !o->xx && !o->casop && r.chance(g.p_get)) o->get = true;
        if ((p == P_RESP || p == P_PG) && !o->ttlkind && r.chance(g.p_keepttl)) o->keepttl = true;
        if (p == P_RESP && o->ttlkind == 1 && !o->nx && !o->xx && !o->get && !o->casop && !o->flags && r.chance(0.3)) o->ttlkind = 5;
        if (p == P_MC) {
            o->get = o->keepttl = false;
            if (o->ttlkind && r.chance(g.p_edge * 3)) o->ttl = r.chance(0.3) ? -1 - (i64)r.below(3) : mcabs();
        } else if (o->ttlkind && r.chance(g.p_edge)) o->ttl = o->ttlkind > 2 && r.chance(0.5) ? 1 : INT64_MAX - (i64)r.below(2);
        break; }
    case O_GET: case O_TTL: case O_PTTL: o->keys.push_back(key()); break;
    case O_EXPIRE: o->keys.push_back(key()); o->ttl = g.shortttl && r.chance(0.7) ? r.range(1, 4) : r.range(1000, 50000);
        if (r.chance(g.p_edge)) { static const i64 e[] = { 0, 0, -1, -100000, INT64_MIN, INT64_MAX, 9223372036ll, 9223372037ll }; o->ttl = r.pick(std::vector<i64>(e, e + 8)); }
        if (p == P_MC && r.chance(g.p_edge * 2)) o->ttl = mcabs();
        break;
    case O_MGET: case O_MGETS: case O_DEL: case O_EXISTS: case O_TOUCH: {
        int n = kind == O_DEL || kind == O_EXISTS || kind == O_TOUCH ? (r.chance(0.7) || p == P_MC || p == P_HTTP ? 1 : r.chance(0.7) ? 2 : 3 + (int)r.below(8)) : 1 + (int)r.below(g.mgetmax);
        std::set<std::string> s; while ((int)s.size() < n && s.size() < g.keys.size()) { std::string k = key(); if (!s.insert(k).second) { n--; continue; } o->keys.push_back(k); }
        if (o->keys.empty()) o->keys.push_back(g.keys[0]);
        break; }
    case O_INCR: {
        std::string k = !g.nkeysv.empty() && !r.chance(g.p_err) ? r.pick(g.nkeysv) : r.pick(g.keys); o->keys.push_back(k);
        o->decr = r.chance(0.4); o->uns = p == P_MC || r.chance(0.2); o->by = p == P_MC || r.chance(0.6);
        if (o->by) { o->delta = r.range(-50, 100); o->udelta = r.below(60); if (r.chance(0.05)) { o->delta = INT64_MAX - 5; o->udelta = ~0ull - 9; } } else { o->delta = 1; o->udelta = 1; }
        break; }
    case O_APPEND: case O_PREPEND: o->keys.push_back(r.pick(g.keys)); o->val = fmt("<%d>", o->id); break;
    case O_KEYS: o->pattern = g.p_stars > 0 && r.chance(g.p_stars) ? star_pattern(r) : r.chance(0.5) ? "*" : gen_pattern(r, g.keys, bin); break;
    case O_SCAN: if (g.p_stars > 0 && r.chance(g.p_stars)) o->pattern = star_pattern(r); else if (r.chance(0.4)) o->pattern = gen_pattern(r, g.keys, bin); o->cursor = r.chance(0.5) ? 0 : r.below(1ull << 35); o->count = r.chance(0.1) ? r.below(300) : r.below(8); break;
    case O_FLUSH: if (p == P_RESP || p == P_PG) { o->async = r.chance(0.3); o->fast = r.chance(0.3); } if (r.chance(0.15) && (p == P_RESP || p == P_MC)) { o->delay = r.chance(0.6) ? 1 : 2 + (int)r.below(4); } break;
    case O_SWEEP: o->async = r.chance(0.3); o->fast = r.chance(0.3); break;
    case O_SAVE: case O_LOAD: o->fast = r.chance(0.3); o->path = g.savepath; break;
    case O_ECHO: case O_PING: o->val = kind == O_PING && r.chance(0.5) ? "" : fmt("e%d", o->id); break;
    default: break;
    }
    if (p == P_MC && g.p_noreply > 0 && (kind == O_SET || kind == O_APPEND || kind == O_DEL || kind == O_INCR || kind == O_EXPIRE || kind == O_PREPEND || kind == O_FLUSH) && r.chance(g.p_noreply)) o->noreply = true;
    for (auto &k : o->keys) W->keys.insert(k);
    return o;
}
