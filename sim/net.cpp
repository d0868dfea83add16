// Scenarios around connections: misbehaving clients, authentication, memory
// pressure, monitors, and request streams cut at every place.
#include "world.h"
#include <stdlib.h>
#include <string.h>
typedef std::map<int, int> Weights;

// A connection driven byte by byte, outside of the request/reply clients.
struct Raw {
    Ep *ep = 0; std::string rx; bool over = false, closed_by_server = false, refused = false; u64 opened = 0, over_at = 0, last_rx = 0;
    std::function<void(Raw *)> on_data;
};
static Raw *raw_open(bool unixs, int segmode, size_t cap) {
    Raw *c = new Raw(); c->opened = K->now; W->opens++;
    c->ep = cli_connect(unixs ? "/tmp/pogo.sock" : "9401", [c]() {
        if (c->ep->stalled) return;
        std::string s = cli_take(c->ep);
        if (!s.empty()) { c->rx += s; c->last_rx = K->now; }
        if (!c->over && (c->ep->rst_rx || c->ep->fin_rx)) { c->over = true; c->over_at = K->now; c->closed_by_server = true; c->refused = c->ep->refused; cli_close(c->ep); }
        if (c->on_data) c->on_data(c);
    });
    c->ep->segmode = segmode; c->ep->lat_min = W->lat_min; c->ep->lat_max = W->lat_max; c->ep->p_slow = W->p_slow; c->ep->cap = cap;
    return c;
}
static void raw_end(Raw *c, int how) { // 0 close 1 reset
    if (c->over) return;
    c->over = true; c->over_at = K->now;
    if (how) cli_reset(c->ep); else cli_close(c->ep);
}

// ------------------------------------------------------------------ abuse (C10)
struct AStep { int kind; u64 delay; std::string data; };      // 0 send 1 fin 2 close 3 reset 4 stop reading 5 read again
struct Abuser { std::vector<AStep> steps; u64 start = 0; int segmode = 0; bool unixs = false; size_t cap = 65536; const char *what = ""; bool off = false; };
struct Abuse {
    std::vector<Abuser> ab; std::vector<Client *> victims; std::vector<std::vector<PlanOp>> rounds_plan; int round = 0, rounds = 6; int live = 0;
    std::vector<u64> cnt, bytes, serial; bool maxmode = false, fdmode = false; u64 bound = 3 * SEC; u64 refused = 0; bool hard = false; u64 base_rej = 0;
    std::vector<Raw *> caps; u64 stat_rej = 0, rejected = 1;
    bool busy = false, dropv = false;
};
static Abuse *A;

static std::string rbytes(Rng &r, size_t n) { std::string s; while (s.size() < n) s += (char)(r.chance(0.5) ? r.below(256) : 32 + r.below(95)); return s; }
static std::string mutate(Rng &r, std::string s) {
    int n = 1 + (int)r.below(4);
    for (int i = 0; i < n && !s.empty(); i++) {
        size_t p = r.below(s.size());
        switch (r.below(7)) {
        case 0: s[p] = (char)r.below(256); break;
        case 1: s.erase(p, 1 + r.below(4)); break;
        case 2: s.insert(p, rbytes(r, 1 + r.below(4))); break;
        case 3: s.resize(p); break;
        case 4: { size_t l = std::min<size_t>(s.size() - p, 1 + r.below(40)); std::string c = s.substr(p, l); s.insert(r.below(s.size()), c); break; }
        case 5: { size_t q = s.find_first_of("0123456789", p); if (q != std::string::npos) { static const char *nums[] = { "-1", "0", "99999999999999999999", "4294967296", "2147483648", "-9223372036854775808", "65536", "1000000" }; s.replace(q, 1, nums[r.below(8)]); } break; }
        case 6: { size_t q = s.find("\r\n", p); if (q != std::string::npos) s.erase(q, 1 + r.below(2)); break; }
        }
    }
    return s;
}
static std::string resp(const std::vector<std::string> &a) { std::string s = fmt("*%zu\r\n", a.size()); for (auto &x : a) s += fmt("$%zu\r\n", x.size()) + x + "\r\n"; return s; }
static std::string pgstart(void) { Op o; o.proto = P_PG; o.kind = O_STARTUP; return encode(o); }
static std::string z() { return std::string(1, '\0'); }
static std::string valid_stream(Rng &r, Proto p, int n) {
    const Weights w = { { O_SET, 30 }, { O_GET, 20 }, { O_MGET, 5 }, { O_MGETS, 5 }, { O_DEL, 10 }, { O_INCR, 6 }, { O_APPEND, 6 }, { O_TTL, 3 }, { O_EXPIRE, 3 }, { O_KEYS, 4 }, { O_SCAN, 4 }, { O_SWEEP, 2 }, { O_ECHO, 2 }, { O_STATS, 2 }, { O_PING, 2 }, { O_UNKNOWN, 2 }, { O_EXISTS, 2 } };
    Gen g; g.keys = { "ab1", "ab2", "ab3", "ab4" }; g.nkeys = 4; g.nkeysv = { "nab1" }; g.p_big = 0.1; g.big = 30000; g.p_ttl = 0.1; g.binary = true;
    std::string s = p == P_PG ? pgstart() : "";
    size_t mark = W->ops.size(); int id = W->nextop; std::set<std::string> keys = W->keys;
    for (int i = 0; i < n; i++) { Op *o = gen_op(r, p, w, g); s += encode(*o); if (p == P_HTTP) break; }
    W->ops.resize(mark); W->nextop = id; W->keys = keys;
    return s;
}
static std::string bad_resp(Rng &r) {
    switch (r.below(20)) {
    case 0: return "*-1\r\n"; case 1: return "*0\r\n*0\r\n"; case 2: return "*1000000000\r\n"; case 3: return "*3\r\n$3\r\nSET\r\n$3\r\nab9\r\n$700000000\r\nxxx";
    case 4: return "*2\r\n$-5\r\nGET\r\n"; case 5: return "*1\r\n$99999999999999999999999\r\n"; case 6: return "GET \"ab1\r\n"; case 7: return "GET 'ab1\" x\r\n";
    case 8: return std::string(70000, 'x'); case 9: return "\r\n\r\n\r\nGET ab1\r\n"; case 10: return "*1\r\n$4\r\nPINGxx"; case 11: return "*2\r\n$3\r\nGET\r\n:5\r\n";
    case 12: return resp({ "SET", "ab1" }); case 13: return resp({ "SET", "ab1", "v", "EX" }) + resp({ "SET", "ab1", "v", "EX", "-5" }) + resp({ "SET", "ab1", "v", "NX", "XX" });
    case 14: return resp({ "" }) + resp({ "", "", "" }); case 15: return resp({ std::string(500, 'Z'), "x" }); case 16: return resp({ "INCRBY", "ab1", "x" }) + resp({ "EXPIRE", "ab1", "99999999999999999999" }) + resp({ "MGET" });
    case 17: { std::vector<std::string> v = { "MGET" }; for (int i = 0; i < 900; i++) v.push_back("ab1"); return resp(v); }
    case 18: return resp({ "SAVE", "TO", "/nodir/x" }) + resp({ "LOAD", "FROM", "/data/none" }) + resp({ "SAVE", "BOGUS" }) + resp({ "FLUSH", "BOGUS" });
    default: return resp({ "SCAN", "abc" }) + resp({ "SCAN", "0", "COUNT", "-1" }) + resp({ "KEYS", std::string(300, '*') + "b" }) + resp({ "DEBUG", "NOPE" }) + resp({ "SELECT", "99" }) + resp({ "SWEEP", "x" }) + resp({ "AUTH" }) + resp({ "AUTH", "zz" });
    }
}
static std::string bad_mc(Rng &r) {
    switch (r.below(14)) {
    case 0: return "set " + std::string(300, 'k') + " 0 0 2\r\nxx\r\n"; case 1: return "set ab1 0 0 -1\r\n"; case 2: return "set ab1 0 0 5\r\nabcdefgh\r\n"; case 3: return "set ab1 0 0 999999999999\r\nx";
    case 4: return "get\r\n"; case 5: return "get " + std::string(251, 'g') + "\r\n"; case 6: return "incr ab1 abc\r\nincr ab1\r\n"; case 7: return "cas ab1 0 0 2\r\nxx\r\n";
    case 8: return "set ab1 abc 0 2\r\nxx\r\n"; case 9: return "delete ab1 0 0 0 0\r\n"; case 10: return "set ab1 0 0 2 noreply extra\r\nxx\r\n"; case 11: return "touch ab1\r\n" "touch ab1 x\r\n"; case 12: return "get" + std::string(3000, ' ') + "ab1\r\n";
    default: { std::string s = "get"; for (int i = 0; i < 400; i++) s += " ab2"; return s + "\r\n"; }
    }
}
static std::string bad_http(Rng &r) {
    switch (r.below(16)) {
    case 0: return "PATCH /ab1 HTTP/1.1\r\n\r\n"; case 1: return "GET /ab1 HTTP/1.1\r\nHost: x\r\n"; case 2: return "PUT /ab1 HTTP/1.1\r\nContent-Length: -4\r\n\r\nxxxx"; case 3: return "PUT /ab1 HTTP/1.1\r\nContent-Length: 99999999999999\r\n\r\nxx";
    case 4: return "PUT /ab1 HTTP/1.1\r\nContent-Length: 100\r\n\r\nshort"; case 5: return "GET / HTTP/1.1\r\nX: " + std::string(100000, 'h') + "\r\n\r\n"; case 6: return "GET /%zz%4 HTTP/1.1\r\n\r\n"; case 7: return "GET ab1\r\n\r\n";
    case 8: return "PUT /ab1 HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n"; case 9: return "GET /ab1?ttl=abc&flags=zz&cas=q HTTP/1.1\r\n\r\n"; case 10: return "PUT /ab1?ttl=-1&flags=99999999999 HTTP/1.1\r\nContent-Length: 1\r\n\r\nx"; case 11: return "GET /ab1 HTTP/9.9\r\n\r\n";
    case 12: return "GET  HTTP/1.1\r\n\r\n"; case 13: return "PUT /" + std::string(5000, 'u') + " HTTP/1.1\r\nContent-Length: 0\r\n\r\n"; case 14: return "GET /ab1 HTTP/1.1\r\n: novalue\r\nnocolon\r\n\r\n";
    default: return "GET /ab1 HTTP/1.0\r\nAuthorization: Basic xyz\r\n\r\nGET /ab2 HTTP/1.1\r\n\r\n";
    }
}
static std::string bad_pg(Rng &r) {
    std::string st = pgstart();
    switch (r.below(20)) {
    case 0: return be32(8) + be32(80877103); case 1: return be32(16) + be32(80877102) + be32(1) + be32(2); case 2: return be32(0x7fffffff) + be32(0x30000); case 3: return be32(4); case 4: return be32(9) + be32(0x30000) + "u";
    case 5: return st + pgmsg('E', "nosuch" + z() + be32(0)) + pgmsg('S', ""); case 6: return st + pgmsg('B', "p" + z() + "nosuch" + z() + be16(0) + be16(0) + be16(0)) + pgmsg('S', ""); case 7: return st + pgmsg('P', "s" + z() + "SET $1 $2" + z() + be16(0)) + pgmsg('B', z() + "s" + z() + be16(0) + be16(1) + be32(1) + "x" + be16(0)) + pgmsg('E', z() + be32(0)) + pgmsg('S', "");
    case 8: return st + "Q" + be32(3); case 9: return st + "Q" + be32(0xffffffff) + "zz"; case 10: return st + pgmsg('Q', "GET ab1"); case 11: return st + pgmsg('D', "Snosuch" + z()) + pgmsg('D', "Pnosuch" + z()) + pgmsg('S', ""); case 12: return st + pgmsg('C', "Snosuch" + z()) + pgmsg('S', "");
    case 13: return st + pgmsg('p', "pass" + z()) + pgmsg('Q', "GET ab1" + z()); case 14: return st + pgmsg('d', "copydata") + pgmsg('c', "") + pgmsg('f', "x" + z()); case 15: return st + st + st + pgmsg('Q', "GET ab1" + z());
    case 16: return st + pgmsg('B', z() + z() + be16(0) + be16(60000)) + pgmsg('S', ""); case 17: return st + pgmsg('P', "s1" + z() + "GET $" + z() + be16(0)) + pgmsg('P', "s1" + z() + "GET $99999999999" + z() + be16(0)) + pgmsg('P', "s1" + z() + "GET 'unterminated" + z() + be16(0)) + pgmsg('S', "");
    case 18: { std::string s = st; for (int i = 0; i < 40; i++) s += pgmsg('P', fmt("ps%d", i) + z() + "GET $1" + z() + be16(0)); return s + pgmsg('S', ""); }
    default: return st + pgmsg('Q', "SELECT 1; GET ab1; SET ab1 'x\\'y'" + z()) + pgmsg('F', be32(1) + be16(0)) + pgmsg('H', "");
    }
}
static Abuser make_abuser(Rng &r) {
    Abuser a; a.start = r.logrange(10 * USEC, 60 * MSEC); a.segmode = r.chance(0.5) ? 0 : (int)r.below(5); a.unixs = W->cfg.unixsock && r.chance(0.4);
    static const size_t caps[] = { 300, 4096, 65536 }; a.cap = caps[r.below(3)];
    auto send = [&](const std::string &s, u64 d) { a.steps.push_back(AStep{ 0, d, s }); };
    auto D = [&]() { return r.chance(0.3) ? 0 : r.logrange(1 * USEC, 5 * MSEC); };
    int k = (int)r.below(14); bool stall = false;
    static const char *names[] = { "garbage", "mutated", "pipeline", "resp", "memcache", "http", "postgres", "idle", "not-reading", "monitor", "connect-reset", "background", "big-request", "many" };
    a.what = names[k];
    switch (k) {
    case 0: for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) send(rbytes(r, r.logrange(1, 3000)), D()); break;
    case 1: send(mutate(r, valid_stream(r, (Proto)r.below(P_N), 1 + (int)r.below(8))), D()); if (r.chance(0.3)) send(mutate(r, valid_stream(r, (Proto)r.below(P_N), 3)), D()); break;
    case 2: { Proto p = r.chance(0.7) ? P_RESP : r.chance(0.5) ? P_MC : P_PG; send(valid_stream(r, p, 10 + (int)r.below(50)), D()); break; }
    case 3: for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) send(bad_resp(r), D()); break;
    case 4: for (int i = 0, n = 1 + (int)r.below(4); i < n; i++) send(bad_mc(r), D()); break;
    case 5: send(bad_http(r), D()); break;
    case 6: send(bad_pg(r), D()); if (r.chance(0.3)) send(pgmsg('Q', "GET ab1" + z()), D()); break;
    case 7: break;
    case 8: { std::string s = resp({ "SET", "abbig", std::string(20000, 'B') }); for (int i = 0, n = 3 + (int)r.below(20); i < n; i++) s += resp({ "GET", "abbig" }); a.steps.push_back(AStep{ 4, 0, "" }); send(s, D()); if (r.chance(0.5)) send(resp({ r.chance(0.5) ? "KEYS" : "STATS", "*" }), D()); stall = true; break; }
    case 9: send(resp({ "MONITOR" }), D()); if (r.chance(0.5)) a.steps.push_back(AStep{ 4, D(), "" }); if (r.chance(0.5)) send(r.chance(0.5) ? resp({ "PING" }) : r.chance(0.5) ? resp({ "GET", "ab1" }) : rbytes(r, 20), D()); break;
    case 10: break;
    case 11: { const std::vector<std::vector<std::string>> bg = { { "DEBUG", "DETACH" }, { "KEYS", "*" }, { "SCAN", "0" }, { "SWEEP" }, { "PURGE" }, { "SAVE", "TO", "/data/ab.dump" }, { "SAVE", "TO", "/data/ab.dump", "FAST" } };
        std::string s; for (int i = 0, n = 1 + (int)r.below(4); i < n; i++) { s += resp(bg[r.below(bg.size())]); if (r.chance(0.5)) s += resp({ "PING" }); } send(s, D()); break; }
    case 12: { std::string v(r.logrange(20000, 1500000), 'w'); std::string s = resp({ "SET", "abhuge", v }); if (r.chance(0.5)) s.resize(s.size() - 1 - r.below(s.size() / 2)); a.segmode = 0; send(s, D()); break; }
    case 13: for (int i = 0, n = 2 + (int)r.below(12); i < n; i++) send(valid_stream(r, P_RESP, 1), D()); break;
    }
    u64 d = r.chance(0.3) ? 0 : r.logrange(1 * USEC, k == 10 ? 100 * USEC : 30 * MSEC);
    int e = (int)r.below(4); if (k == 10) e = 1;
    if (stall && r.chance(0.3)) { a.steps.push_back(AStep{ 5, r.logrange(MSEC, 300 * MSEC), "" }); }
    if (e == 0) a.steps.push_back(AStep{ 2, d, "" });
    else if (e == 1) a.steps.push_back(AStep{ 3, d, "" });
    else if (e == 2) { a.steps.push_back(AStep{ 1, d, "" }); a.steps.push_back(AStep{ r.chance(0.5) ? 2 : 3, r.logrange(10 * USEC, 300 * MSEC), "" }); }
    else { a.steps.push_back(AStep{ 4, d, "" }); a.steps.push_back(AStep{ r.chance(0.5) ? 2 : 3, r.logrange(MSEC, 200 * MSEC), "" }); }
    return a;
}
static void abuse_next(void);
static void abuser_step(Abuser *a, Raw *c, size_t i) {
    if (i >= a->steps.size()) { raw_end(c, 0); A->live--; abuse_next(); return; }
    AStep *s = &a->steps[i];
    after(s->delay, [a, c, i, s]() {
        if (W->done || W->phase >= Phase::CLOSING) return;
        if (!c->over) switch (s->kind) {
        case 0: fired(F_GARBAGE); cli_send(c->ep, s->data); break;
        case 1: fired(F_HALFCLOSE); cli_shutdown(c->ep); break;
        case 2: fired(F_CLIENT_CLOSE); raw_end(c, 0); break;
        case 3: fired(F_RESET); raw_end(c, 1); break;
        case 4: fired(F_PEER_STALL); c->ep->stalled = true; break;
        case 5: cli_resume(c->ep); break;
        }
        abuser_step(a, c, i + 1);
    });
}
static bool victims_idle(void) { for (Client *c : A->victims) { if (c->halted) continue; if (c->next < c->plan.size()) return false; if (c->conn) for (Op *o : c->conn->q) if (!o->noreply) return false; } return true; }
static void abuse_round(void);
static void abuse_check(void);
static void abuse_next(void) {
    if (A->live > 0 || !victims_idle() || A->busy) return;
    A->busy = true;
    K->faults_on = false;
    for (Client *c : A->victims) if (c->conn && c->conn->ep->stalled) cli_resume(c->conn->ep);
    after(500 * MSEC + 4 * W->lat_max + (W->p_slow > 0 ? 600 * MSEC : 0), []() { abuse_check(); });
}
static void abuse_poll(void) { if (A->busy || W->done) return; abuse_next(); if (!A->busy) after(20 * MSEC, []() { abuse_poll(); }); }
static void abuse_round(void) {
    W->phase_since = K->now; A->busy = false; K->faults_on = true;
    logf("abuse round %d", A->round);
    for (size_t i = 0; i < A->ab.size(); i++) {
        Abuser *a = &A->ab[i]; if (a->off) continue; A->live++;
        after(a->start, [a]() {
            if (W->done || W->phase >= Phase::CLOSING) return;
            Raw *c = raw_open(a->unixs, a->segmode, a->cap);
            abuser_step(a, c, 0);
        });
    }
    for (size_t i = 0; i < A->victims.size(); i++) {
        Client *c = A->victims[i]; if (c->halted) continue;
        auto &pl = A->rounds_plan[i]; size_t n = pl.size() / A->rounds;
        for (size_t j = A->round * n; j < (A->round + 1) * n; j++) c->plan.push_back(pl[j]);
        client_go(c);
    }
    after(20 * MSEC, []() { abuse_poll(); });
}
static u64 open_clients(void) { u64 n = 0; for (Client *c : W->clients) if (c->conn && !c->conn->dead && c->conn->gotany) n++; return n; }
// true: the counters are as they must be; a server thread may be held up for a while, so only lasting differences count
static bool abuse_stats(bool last) {
    u64 cur = stat_of("curr_connections"), tot = stat_of("total_connections"), rej = stat_of("rejected_connections");
    u64 want = open_clients(); for (Raw *c : A->caps) if (!c->over) want++;
    u64 socks = 0; for (auto &p : N->fds) if (p.second->type == D_SOCK) socks++;
    u64 lost = K->fired[F_ACCEPT_FAIL] + K->fired[F_SOCKOPT_FAIL] + K->fired[F_EPOLLCTL_FAIL], opens = W->opens - N->refusals;
    if ((cur != want || socks != want || (tot + rej + lost < opens && !A->fdmode)) && !last) return false;
    if (cur != want) violation("conn-count", "C10,C18", "round %d: curr_connections is %llu but %llu connections are open", A->round, (unsigned long long)cur, (unsigned long long)want);
    bool refusals = A->fdmode;
    if (tot + rej > opens || (tot + rej + lost < opens && !refusals))
        violation("conn-total", "C10,C18", "round %d: %llu connections were opened, the server counts %llu accepted and %llu rejected (%llu failed accepts were injected)", A->round, (unsigned long long)opens, (unsigned long long)tot, (unsigned long long)rej, (unsigned long long)lost);
    if (!A->maxmode && rej) violation("conn-rejected", "C10", "%llu connections were rejected although the limit was never reached", (unsigned long long)rej);
    if (socks != want) violation("fd-count", "C10", "round %d: the server holds %llu sockets but %llu connections are open", A->round, (unsigned long long)socks, (unsigned long long)want);
    return true;
}
static void abuse_done_round(void) {
    A->cnt.push_back(N->live_count); A->bytes.push_back(N->live_bytes);
    logf("ledger round %d: %llu blocks %llu bytes", A->round, (unsigned long long)N->live_count, (unsigned long long)N->live_bytes);
    if (N->ledger_on) { if (A->round >= 3) ledger_dump(A->serial[A->round - 1], N->mallocs); fprintf(stderr, "--- end of round %d\n", A->round); }
    A->serial.push_back(N->mallocs);
    if (++A->round < A->rounds) { abuse_round(); return; }
    // identical rounds: nothing may be left behind by each of them
    size_t n = A->cnt.size(); bool up = A->dropv, upb = A->dropv;
    for (size_t i = 3; i < n; i++) { if (A->cnt[i] <= A->cnt[i - 1]) up = false; if (A->bytes[i] <= A->bytes[i - 1] + 256) upb = false; }
    std::string l; for (size_t i = 0; i < n; i++) l += fmt(" %llu/%llu", (unsigned long long)A->cnt[i], (unsigned long long)A->bytes[i]);
    if (up && n >= 5) violation("leak", "C10", "memory allocated by the server grows with every identical round of misbehaving clients (blocks/bytes after each):%s", l.c_str());
    else if (upb && n >= 5) violation("leak-bytes", "C10", "memory allocated by the server grows with every identical round of misbehaving clients (blocks/bytes after each):%s", l.c_str());
    for (Client *c : W->clients) if (c->conn && c != W->aud) client_drop(c, 0);
    after(quiet_time(), []() { audit([]() { world_end(); }); });
}
static void cap_expect_closed(std::function<void()> then);
static void cap_fill(size_t n, std::function<void()> then) {
    // n more connections must all be served
    if (n == 0) { then(); return; }
    auto left = std::make_shared<int>((int)n);
    for (size_t i = 0; i < n; i++) {
        Raw *c = raw_open(false, 0, 65536); A->caps.push_back(c);
        cli_send(c->ep, resp({ "PING" }));
        auto seen = std::make_shared<bool>(false);
        c->on_data = [c, left, then, seen](Raw *) {
            if (*seen || W->done) return;
            if (c->rx == "+PONG\r\n") { *seen = true; if (--*left == 0) after(1, then); }
            else if (c->over) { *seen = true; violation("refused-below-limit", "C10", "a connection was closed although fewer than maxconns=%d are open (received %s)", W->cfg.maxconns, esc(c->rx).c_str()); if (--*left == 0) after(1, then); }
        };
    }
    after(4 * SEC, [left]() { if (*left > 0 && !W->done) { violation("not-served", "C10", "%d of the connections within the limit got no service for 4 s", *left); world_end(); } });
}
static void cap_expect_closed(std::function<void()> then) {
    Raw *c = raw_open(false, 0, 65536); cli_send(c->ep, resp({ "PING" }));
    auto seen = std::make_shared<bool>(false);
    c->on_data = [c, then, seen](Raw *) {
        if (*seen || W->done) return;
        if (!c->rx.empty()) { *seen = true; violation("over-limit", "C10", "connection number %d is served although maxconns=%d", (int)(A->caps.size() + open_clients() + 1), W->cfg.maxconns); raw_end(c, 0); after(1, then); }
        else if (c->over) { *seen = true; after(1, then); }
    };
    after(4 * SEC, [seen]() { if (!*seen && !W->done) { violation("over-limit-open", "C10", "a connection beyond maxconns=%d is neither served nor closed for 4 s", W->cfg.maxconns); world_end(); } });
}
// More connections than there is room for, all at once. Some speak at once, some
// later: as many as there is room for are served, the others are closed.
static void cap_burst(size_t room, size_t more, std::function<void()> then) {
    struct B { size_t n, served = 0, closed = 0; bool done = false; }; auto b = std::make_shared<B>(); b->n = room + more; Rng &r = W->rp;
    for (size_t i = 0; i < b->n; i++) {
        Raw *c = raw_open(false, 0, 65536); A->caps.push_back(c);
        u64 d = r.chance(0.4) ? 0 : r.logrange(USEC, 300 * MSEC);
        if (d) after(d, [c]() { if (!c->over) cli_send(c->ep, resp({ "PING" })); }); else cli_send(c->ep, resp({ "PING" }));
        auto seen = std::make_shared<bool>(false);
        c->on_data = [c, b, room, then, seen](Raw *) {
            if (*seen || W->done || b->done) return;
            if (c->rx == "+PONG\r\n") { *seen = true; b->served++; } else if (c->over) { *seen = true; b->closed++; } else return;
            if (b->served + b->closed < b->n) return;
            b->done = true;
            if (b->served > room) violation("over-limit", "C10", "%zu of %zu connections that arrived together are served although there was room for %zu (maxconns=%d)", b->served, b->n, room, W->cfg.maxconns);
            if (b->served < room) violation("refused-below-limit", "C10", "only %zu of %zu connections that arrived together are served although there was room for %zu (maxconns=%d)", b->served, b->n, room, W->cfg.maxconns);
            std::vector<Raw *> live; for (Raw *x : A->caps) if (!x->over) live.push_back(x);
            A->caps = live;
            after(1, then);
        };
    }
    after(5 * SEC, [b]() { if (!b->done && !W->done) { violation("not-served", "C10", "of %zu connections that arrived together %zu are served and %zu closed after 5 s, nothing happens to the others", b->n, b->served, b->closed); world_end(); } });
}
static void obs(Kind k, std::function<void(Op *)> cb, std::function<void(Op *)> set = nullptr) { Op *o = new_op(P_RESP, k); if (set) set(o); aud_send(o, cb); }
static void abuse_counts(int tries, std::function<void()> then) {
    obs(O_STATS, [tries, then](Op *) { if (abuse_stats(tries >= 20)) then(); else after(400 * MSEC, [tries, then]() { abuse_counts(tries + 1, then); }); });
}
static void abuse_check(void) {
    obs(O_FLUSH, [](Op *) {
        if (A->dropv) for (Client *c : A->victims) if (c->conn) client_drop(c, 0);
        after(50 * MSEC, []() { abuse_counts(0, []() {
            if (!A->maxmode) { after(10 * MSEC, []() { abuse_done_round(); }); return; }
            A->stat_rej = stat_of("rejected_connections");
            size_t room = W->cfg.maxconns - std::min<size_t>(W->cfg.maxconns, open_clients());
            size_t more = W->rp.chance(0.5) ? 1 + W->rp.below(5) : 0; A->rejected = more ? more : 1;
            auto fill = [room, more](std::function<void()> then) { if (more) cap_burst(room, more, then); else cap_fill(room, [then]() { cap_expect_closed(then); }); };
            fill([]() {
                if (A->caps.empty()) { after(300 * MSEC, []() { abuse_done_round(); }); return; }
                raw_end(A->caps[0], (int)W->rp.below(2));
                after(300 * MSEC + 2 * W->lat_max + (W->p_slow > 0 ? 300 * MSEC : 0), []() { cap_fill(1, []() {
                    abuse_counts(0, []() {
                        u64 rej = stat_of("rejected_connections");
                        if (rej != A->stat_rej + A->rejected) violation("rejected-count", "C10,C18", "%llu connections were rejected, rejected_connections went from %llu to %llu", (unsigned long long)A->rejected, (unsigned long long)A->stat_rej, (unsigned long long)rej);
                        for (Raw *c : A->caps) raw_end(c, 0);
                        A->caps.clear();
                        after(300 * MSEC + 2 * W->lat_max + (W->p_slow > 0 ? 300 * MSEC : 0), []() { abuse_done_round(); });
                    });
                }); });
            });
        }); });
    }, [](Op *o) { o->async = false; o->delay = 0; o->fast = false; });
}
void abuse_build(void) {
    Rng &r = W->rp; pick_config(); A = new Abuse(); W->cfg.verbose = 0;
    W->keys.clear();
    N->ledger_on = getenv("SIM_LEDGER") != 0;
    A->maxmode = r.chance(0.35); A->dropv = !A->maxmode && r.chance(0.7); A->fdmode = !A->maxmode && r.chance(0.12);
    W->check_lin = true; A->rounds = 6; W->run_max = 20 * SEC;
    Gen g; int nk = 1 + (int)r.below(4); for (int i = 0; i < nk; i++) g.keys.push_back(fmt("vk%d-victim", i)); g.nkeys = nk; g.nkeysv = { "nvk-victim" }; g.p_big = 0.1; g.big = 8000;
    const Weights w = { { O_SET, 30 }, { O_GET, 30 }, { O_MGET, 5 }, { O_DEL, 8 }, { O_INCR, 8 }, { O_APPEND, 5 }, { O_PING, 3 }, { O_EXISTS, 3 }, { O_ECHO, 2 } };
    int nv = 1 + (int)r.below(3);
    for (int i = 0; i < nv; i++) {
        double x = r.unit(); Client *c = new_client(x < 0.5 ? P_RESP : x < 0.7 ? P_MC : x < 0.85 || A->maxmode || A->fdmode ? P_PG : P_HTTP);
        net_shape(c); c->cap = 65536; c->depth = c->proto == P_HTTP ? 1 : 1 + (int)r.below(4); A->victims.push_back(c);
        c->plan.push_back(PlanOp{ gen_op(r, c->proto, w, g) });
        int per = 3 + (int)r.below(8); std::vector<PlanOp> pl;
        for (int j = 0; j < per * A->rounds; j++) { Op *o = gen_op(r, c->proto, w, g); o->think = r.chance(0.5) ? r.logrange(10 * USEC, 20 * MSEC) : 0; pl.push_back(PlanOp{ o }); }
        A->rounds_plan.push_back(pl);
        c->on_reply = [](Client *c, Op *o) {
            if (o->kind == O_STARTUP || W->phase != Phase::QUIET) return;
            u64 d = o->resp - o->inv;
            if (d > A->bound) violation("victim-delayed", "C10", "a well-behaved client waited %.2f s for its reply while others misbehaved: %s", d / 1e9, o->txt().c_str());
            (void)c;
        };
    }
    int na = 2 + (int)r.below(r.chance(0.3) ? 16 : 8);
    for (int i = 0; i < na; i++) A->ab.push_back(make_abuser(r));
    if (A->maxmode) { W->cfg.maxconns = nv + 1 + (int)r.below(6); A->ab.insert(A->ab.end(), A->ab.begin(), A->ab.begin() + A->ab.size() / 2); }
    if (A->fdmode) { N->nofile = 30 + W->cfg.threads + nv + (int)r.below(4); for (int i = 0; i < 20; i++) A->ab.push_back(make_abuser(r)); }
    if (r.chance(0.6)) { server_faults(1); A->bound = 4 * SEC; }
    if (!A->maxmode && !A->fdmode && r.chance(0.25)) { hard_faults(1); A->hard = true; }
    for (auto &a : A->ab) { int id = W->nevents++; a.off = W->spec.mask.events.count(id) > 0; probe(fmt("abuse_%s", a.what).c_str()); }
    K->lim.max_steps = 4000000; K->lim.max_edges = 400000000;
    W->hk.at_quiet = []() {
        observer();
        obs(O_PING, [](Op *) { abuse_round(); });
    };
}
// ------------------------------------------------------------------ auth (C11)
// Authorised clients work on keys and values that carry a marker; intruders
// try to read or change them without the password.
struct Auth { std::vector<Client *> intr; std::vector<Raw *> raws; std::vector<std::string> rawdesc; std::vector<int> rawkind; std::string path = "/data/intruder.dump"; };
static Auth *AU;
static std::string wrong_pw(Rng &r, const std::string &pw) {
    switch (r.below(9)) {
    case 0: return pw + (char)('a' + r.below(26));
    case 1: return pw.size() > 1 ? pw.substr(0, 1 + r.below(pw.size() - 1)) : pw + pw;
    case 2: { std::string s = pw; size_t i = r.below(s.size()); s[i] = s[i] == 'q' ? 'r' : 'q'; return s; }
    case 3: { std::string s = pw; s[s.size() - 1] = s[s.size() - 1] == 'z' ? 'y' : 'z'; return s; }
    case 4: { std::string s = pw; bool ch = false; for (char &c : s) if (isalpha((unsigned char)c)) { c ^= 32; ch = true; } return ch ? s : pw + "1"; }
    case 5: return pw + pw;
    case 6: return "x" + pw;
    case 7: { std::string s(pw.rbegin(), pw.rend()); return s == pw ? s + "0" : s; }
    default: return "wrong";
    }
}
static std::string raw_intruder(Rng &r, int k) {
    const std::string &pw = W->cfg.auth; std::string ke = fmt("INTR%d", (int)r.below(5)), bad = wrong_pw(r, pw);
    auto any = [&]() -> std::vector<std::string> {
        switch (r.below(12)) {
        case 0: return { "SET", ke, "intruder" }; case 1: return { "GET", "KEYX0" }; case 2: return { "KEYS", "*" }; case 3: return { "SCAN", "0", "COUNT", "100" };
        case 4: return { "FLUSH" }; case 5: return { "SAVE", "TO", AU->path }; case 6: return { "DEL", "KEYX0", "KEYX1", "KEYX2" }; case 7: return { "STATS" };
        case 8: return { "DEBUG", "POPULATE", "10", "INTR", "5" }; case 9: return { "MGET", "KEYX0", "KEYX1" }; case 10: return { "MONITOR" }; default: return { "PURGE" };
        }
    };
    std::string sql; { auto a = any(); for (size_t i = 0; i < a.size(); i++) sql += (i ? " '" : "") + a[i] + (i ? "'" : ""); }
    std::string st = pgstart(), q = pgmsg('Q', sql + z());
    switch (k) {
    case 0: return st + q;                                                       // commands before the password
    case 1: return st + pgmsg('p', bad + z()) + q;
    case 2: return st + pgmsg('p', z()) + q + q;
    case 3: return st + st + q;
    case 4: { auto a = any(); std::string p = a[0], bind; for (size_t i = 1; i < a.size(); i++) { p += fmt(" $%zu", i); bind += be32(a[i].size()) + a[i]; } return st + pgmsg('P', z() + p + z() + be16(0)) + pgmsg('B', z() + z() + be16(0) + be16(a.size() - 1) + bind + be16(0)) + pgmsg('E', z() + be32(0)) + pgmsg('S', ""); }
    case 5: return be32(8) + be32(80877103) + st + q;
    case 6: return st + pgmsg('p', bad) + q;                                     // not terminated
    case 7: return st + pgmsg('Q', "AUTH " + bad + z()) + q;
    case 8: { std::string s; for (int i = 0, n = 1 + (int)r.below(6); i < n; i++) s += resp(any()); return s; }
    case 9: return resp({ "AUTH", bad }) + resp(any()) + resp(any());
    case 10: return resp({ "PING", pw }) + resp(any()) + resp({ "AUTHX", pw }) + resp(any()) + resp({ pw, "AUTH" }) + resp(any());
    case 11: return resp({ "AUTH", pw, pw }) + resp(any()) + resp({ "AUTH", "default", bad }) + resp(any());
    case 12: return resp({ "AUTH" }) + resp(any()) + resp({ "AUTH", "" }) + resp(any()) + resp({ "AUTH", pw + std::string(1, '\0') }) + resp(any()) + resp({ "AUTH", pw + std::string(1, '\0') + "x" }) + resp(any());
    case 13: return "set " + ke + " 0 0 2\r\nzz\r\nget KEYX0 KEYX1\r\ngets KEYX2\r\nstats\r\nflush_all\r\n" + "incr nKEYX 1\r\n";
    case 14: return "auth " + bad + "\r\n" + sql + "\r\n" + "AUTH '" + bad + "'\r\n" + sql + "\r\n";
    case 15: return "GET /KEYX0 HTTP/1.1\r\nHost: x\r\nAuthorization: " + pw + "\r\n\r\n";
    case 16: return "GET /KEYX0?auth=" + bad + " HTTP/1.1\r\nHost: x\r\n\r\n";
    case 17: return "DELETE /KEYX0 HTTP/1.1\r\nHost: x\r\nAuthorization: Bearer " + bad + "\r\n\r\n";
    case 18: return "PUT /" + ke + "?auth= HTTP/1.1\r\nHost: x\r\nContent-Length: 2\r\n\r\nzz";
    case 19: return "GET /KEYX0?auth=" + bad + " HTTP/1.1\r\nHost: x\r\nAuthorization: Bearer " + pw + "\r\n\r\n";   // the query counts
    case 20: return "PUT /" + ke + " HTTP/1.1\r\nHost: x\r\nX-Authorization: Bearer " + pw + "\r\nContent-Length: 2\r\n\r\nzz";
    default: return valid_stream(r, (Proto)r.below(P_N), 6);
    }
}
static void pg_intruder_check(Raw *c, const std::string &what) {
    size_t i = 0; const std::string &s = c->rx;
    if (s.empty() || s[0] == '-' || s[0] == '+') return;
    while (i + 5 <= s.size()) {
        u32 n = (u32)(unsigned char)s[i + 1] << 24 | (u32)(unsigned char)s[i + 2] << 16 | (u32)(unsigned char)s[i + 3] << 8 | (unsigned char)s[i + 4];
        if (s[i] == 'N' && i == 0) { i = 1; continue; }                           // answer to the SSL request
        if (i + 1 + (size_t)n > s.size()) return;                                 // torn by the end of the connection
        bool ok = strchr("EZ123nt", s[i]) || (s[i] == 'R' && n == 8 && i + 9 <= s.size() && s[i + 8] == 3) || s[i] == 'N';
        if (!ok) { violation("pg-unauthorised", "C11", "a Postgres connection that has not presented the password received message '%c': %s (sent %s)", s[i], esc(s, 120).c_str(), what.c_str()); return; }
        i += 1 + (size_t)n;
    }
}
static void leaks(const std::string &s, const std::string &what) {
    for (const char *m : { "SECRET", "KEYX" }) if (s.find(m) != std::string::npos) violation("leaked", "C11", "%s received stored data: %s", what.c_str(), esc(s.substr(s.find(m) > 40 ? s.find(m) - 40 : 0), 100).c_str());
}
static void auth_checks(void) {
    for (Client *c : AU->intr) for (Conn *n : c->conns) if (!n->authed) leaks(n->rlog, fmt("unauthenticated %s connection %d", proto_name[n->proto], n->id));
    for (size_t i = 0; i < AU->raws.size(); i++) { Raw *c = AU->raws[i]; leaks(c->rx, "a connection that sent " + AU->rawdesc[i]); if (AU->rawkind[i] < 8) pg_intruder_check(c, AU->rawdesc[i]); }
    if (fs_lookup(AU->path)) violation("unauthorised-save", "C11", "a file was written for a connection that has not authenticated");
}
void auth_build(void) {
    Rng &r = W->rp; pick_config(); AU = new Auth();
    std::string pw; size_t pl = r.chance(0.2) ? 1 : 1 + r.below(40); static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; for (size_t i = 0; i < pl; i++) pw += al[r.below(62)];
    W->cfg.auth = pw; W->lat_max = std::min<u64>(W->lat_max, 2 * MSEC); W->lat_min = std::min(W->lat_min, W->lat_max);
    Gen g; int nk = 1 + (int)r.below(4); for (int i = 0; i < nk; i++) g.keys.push_back(fmt("KEYX%d", i)); g.nkeys = nk; g.nkeysv = { "nKEYX" }; g.p_big = 0.05; g.binary = false;
    Weights w = { { O_SET, 40 }, { O_GET, 20 }, { O_MGET, 4 }, { O_DEL, 5 }, { O_INCR, 6 }, { O_APPEND, 5 }, { O_EXISTS, 3 }, { O_PING, 3 }, { O_KEYS, 3 }, { O_TTL, 2 } };
    Weights wi = w; wi[O_FLUSH] = 4; wi[O_KEYS] = 8; wi[O_SCAN] = 6; wi[O_STATS] = 4; wi[O_SAVE] = 4; wi[O_SWEEP] = 2; wi[O_MGETS] = 4; wi[O_DEL] = 15; wi[O_PURGE] = 2; wi[O_LOAD] = 1; wi[O_EXPIRE] = 5; wi[O_DBSIZE] = 3; wi[O_UNKNOWN] = 2; wi[O_VERSION] = 2; wi[O_TOUCH] = 2; g.savepath = AU->path;
    int ng = 1 + (int)r.below(4);
    for (int i = 0; i < ng; i++) {
        double x = r.unit(); Client *c = new_client(x < 0.55 ? P_RESP : x < 0.8 ? P_PG : P_HTTP); c->pw = pw; net_shape(c); c->cap = 65536; c->depth = c->proto == P_HTTP ? 1 : 1 + (int)r.below(5); c->start = r.below(2 * MSEC);
        int n = 4 + (int)r.below(25);
        for (int j = 0; j < n; j++) {
            Op *o = gen_op(r, c->proto, w, g);
            if (o->kind == O_APPEND || (o->kind == O_SET && o->keys[0][0] != 'n')) o->val = "SECRET" + o->val;
            if (c->proto == P_HTTP) o->auth = pw;
            if (r.chance(0.4)) o->think = r.logrange(USEC, 2 * MSEC);
            if (c->proto == P_RESP && r.chance(0.08)) { Op *a = new_op(P_RESP, O_AUTH); a->val = r.chance(0.4) ? pw : wrong_pw(r, pw); if (r.chance(0.2)) a->authbad = 1 + (int)r.below(3); c->plan.push_back(PlanOp{ a }); }
            c->plan.push_back(PlanOp{ o });
        }
        add_fates(c, 0.15);
    }
    int ni = 1 + (int)r.below(4);
    for (int i = 0; i < ni; i++) {
        double x = r.unit(); Client *c = new_client(x < 0.5 ? P_RESP : x < 0.75 ? P_MC : P_HTTP); c->unauth = true; c->record = true; net_shape(c); c->cap = 65536; c->depth = c->proto == P_HTTP ? 1 : 1 + (int)r.below(8); c->start = r.below(8 * MSEC);
        int n = 4 + (int)r.below(25); bool turns = c->proto == P_RESP && r.chance(0.4); int when = (int)r.below(n);
        for (int j = 0; j < n; j++) {
            Op *o = gen_op(r, c->proto, j >= when && turns ? w : wi, g); if (r.chance(0.5)) o->think = r.logrange(USEC, 2 * MSEC);
            if (c->proto == P_HTTP) o->auth = r.chance(0.3) ? "" : wrong_pw(r, pw);
            if (j == when && turns) { Op *a = new_op(P_RESP, O_AUTH); a->val = pw; c->plan.push_back(PlanOp{ a }); }
            else if (c->proto == P_RESP && r.chance(0.25)) { Op *a = new_op(P_RESP, O_AUTH); a->val = r.chance(0.2) ? pw : wrong_pw(r, pw); if (a->val == pw || r.chance(0.3)) a->authbad = 1 + (int)r.below(3); c->plan.push_back(PlanOp{ a }); }
            c->plan.push_back(PlanOp{ o });
        }
        if (!turns) add_fates(c, 0.12);
        AU->intr.push_back(c);
    }
    int nr = 2 + (int)r.below(8);
    for (int i = 0; i < nr; i++) {
        int k = (int)r.below(22); std::string data = raw_intruder(r, k); u64 t = 1000 * SEC + r.logrange(100 * USEC, 30 * MSEC), life = r.logrange(100 * USEC, 200 * MSEC); int seg = r.chance(0.5) ? 0 : (int)r.below(5), how = (int)r.below(2);
        plan_event(t, F_GARBAGE, [data, life, seg, how, k]() {
            if (W->phase > Phase::SETTLE || !W->listening) return;
            fired(F_GARBAGE); Raw *c = raw_open(false, seg, 65536); AU->raws.push_back(c); AU->rawdesc.push_back(esc(data, 200)); AU->rawkind.push_back(k);
            logf("intruder %d sends %s", k, esc(data, 300).c_str());
            cli_send(c->ep, data);
            after(life, [c, how]() { raw_end(c, how); });
        });
    }
    if (r.chance(0.5)) server_faults(1);
    W->hk.at_quiet = []() {
        for (Raw *c : AU->raws) raw_end(c, 0);
        for (Client *c : W->clients) if (c->conn) client_drop(c, 0);
        at_inc(K->now + quiet_time(), []() { auth_checks(); audit([]() { world_end(); }); });
    };
}
// ------------------------------------------------------------------ memory limit (C12)
struct MemStep { bool high; int fill; };
struct Mem {
    u64 level = 0, low = 20u << 20, high = 0, limit = 0; std::vector<std::pair<u64, u64>> win, evw; std::vector<MemStep> steps; size_t step = 0; int nkey = 0; bool isoff = false;
    u64 before = 0, refused = 0, nomem0 = 0; std::vector<Client *> storm; int newkeys = 0; std::vector<std::string> fresh; std::map<std::string, std::string> held;
};
static Mem *ME;
static const u64 MEM_LAG = 4 * SEC;                    // within a few seconds of crossing the limit
static void mem_level(bool high) {
    bool was = ME->level > ME->limit;
    ME->level = high ? ME->high : ME->low;
    if (high != was) { fired(F_RSS); logf("memory use %s the limit", high ? "above" : "below"); if (high) ME->win.push_back({ K->now, ~0ull }); else ME->win.back().second = K->now; }
}
static bool ever_high(u64 a, u64 b) { for (auto &w : ME->win) { u64 e = w.second == ~0ull ? ~0ull : w.second + MEM_LAG; if (w.first <= b && e >= a) return true; } return false; }
static bool surely_high(u64 a, u64 b) { for (auto &w : ME->win) if (a >= w.first + MEM_LAG && b <= w.second) return true; return false; }
static bool oom(const Op *o) { return o->res.st == R_ERR && o->res.s.find("memory") != std::string::npos; }
static void mem_op_checks(void) {
    for (Op *o : W->ops) {
        if (!o->done) continue;
        if (oom(o)) {
            if (W->cfg.evict) violation("refused-evicting", "C12", "a store was refused although eviction is enabled: %s", o->txt().c_str());
            else if (!ever_high(o->inv, o->resp)) violation("refused-below", "C12", "a store was refused although memory use has not been above the limit for %.0f s: %s", MEM_LAG / 1e9, o->txt().c_str());
            continue;
        }
        bool stored = (o->kind == O_SET && (o->res.st == R_OK || (o->get && o->res.st != R_ERR))) || (o->kind == O_INCR && (o->res.st == R_INT || o->res.st == R_UINT)) || ((o->kind == O_APPEND || o->kind == O_PREPEND) && (o->res.st == R_INT || o->res.st == R_OK));
        if (stored && !W->cfg.evict && surely_high(o->inv, o->resp)) violation("stored-over-limit", "C12", "memory use has been above the limit for %.0f s and eviction is disabled, but a store succeeded: %s", MEM_LAG / 1e9, o->txt().c_str());
    }
}
static void mem_next(void);
static std::string mem_newkey(void) { std::string k = fmt("m%d-%d", ME->nkey, (int)W->rp.below(1000)); ME->nkey++; W->keys.insert(k); return k; }
static Op *mem_store(Rng &r, const std::string &k, Proto p) {
    int x = (int)r.below(10); Op *o = new_op(p, x < 6 || p == P_MC || p == P_HTTP ? O_SET : x < 8 ? O_INCR : O_APPEND); o->keys.push_back(k);
    if (o->kind == O_INCR) { o->by = true; o->delta = 1 + r.below(100); } else o->val = fmt("v%d", o->id);
    if (o->kind == O_SET && r.chance(0.2)) o->nx = true;
    return o;
}
static void mem_storm_done(std::function<void()> then) {
    for (Client *c : ME->storm) { if (c->halted) continue; if (c->next < c->plan.size() || (c->conn && !c->conn->q.empty())) { after(20 * MSEC, [then]() { mem_storm_done(then); }); return; } }
    then();
}
static void mem_dbsize(std::function<void(u64)> then) { obs(O_DBSIZE, [then](Op *o) { then(o->res.n); }); }
// one after the other: store a new key, read it back at once
static void mem_fill(int n, std::function<void()> then) {
    if (n == 0) { then(); return; }
    std::string k = mem_newkey(); Op *o = mem_store(W->rp, k, P_RESP);
    aud_send(o, [k, n, then](Op *o) {
        bool hi = ME->level > ME->limit, ok = o->res.st != R_ERR;
        if (hi && !W->cfg.evict) { if (!ok && o->kind != O_APPEND) ME->refused++; }
        if (ok) { ME->newkeys++; ME->fresh.push_back(k); }
        if (!ok && !oom(o)) violation("store-failed", "C12", "a store failed: %s", o->txt().c_str());
        obs(O_GET, [n, then, ok, o](Op *g) {
            if (ok && g->res.st != R_VAL) violation("not-readable", "C12", "a new key was not readable right after %s: %s (memory %s the limit)", o->txt().c_str(), g->txt().c_str(), ME->level > ME->limit ? "above" : "below");
            if (!ok && g->res.st != R_MISS) violation("refused-stored", "C12", "a refused store took effect: %s then %s", o->txt().c_str(), g->txt().c_str());
            mem_fill(n - 1, then);
        }, [k](Op *g) { g->keys.push_back(k); });
    });
}
static void mem_verify(std::function<void()> then) {
    mem_dbsize([then](u64 n) {
        bool hi = ME->level > ME->limit;
        if (hi && W->cfg.evict) { if (n > ME->before + (u64)W->cfg.shards + 2) violation("grew-over-limit", "C12", "above the memory limit with eviction enabled the cache grew from %llu to %llu entries while %d new keys were stored (%d shards)", (unsigned long long)ME->before, (unsigned long long)n, ME->newkeys, W->cfg.shards); }
        else if (n != ME->before + (u64)ME->newkeys) violation("evicted-below", "C12", "%d new keys were stored %s, the cache went from %llu to %llu entries", ME->newkeys, hi ? "(all others refused) with eviction disabled" : "below the memory limit", (unsigned long long)ME->before, (unsigned long long)n);
        obs(O_STATS, [then, hi](Op *) {
            u64 m = stat_of("store_no_memory");
            if (!(hi && !W->cfg.evict) && m != ME->nomem0) violation("no-memory-stat", "C12,C18", "no store was refused, store_no_memory went from %llu to %llu", (unsigned long long)ME->nomem0, (unsigned long long)m);
            if (hi && !W->cfg.evict && m < ME->nomem0 + ME->refused) violation("no-memory-stat", "C12,C18", "%llu stores were refused, store_no_memory went from %llu to %llu", (unsigned long long)ME->refused, (unsigned long long)ME->nomem0, (unsigned long long)m);
            // everything stored must still be there when nothing may be evicted
            auto todo = std::make_shared<std::vector<std::string>>(); if (!(hi && W->cfg.evict)) *todo = ME->fresh;
            if (todo->empty()) { then(); return; }
            Op *g = new_op(P_RESP, O_MGET); g->keys = *todo; if (g->keys.size() > 300) g->keys.resize(300);
            aud_send(g, [then](Op *g) {
                for (size_t i = 0; i < g->keys.size() && i < g->res.sub.size(); i++) if (g->res.sub[i].st != R_VAL) violation("lost-below", "C12", "key %s, stored while nothing may be evicted, is gone", g->keys[i].c_str());
                then();
            });
        });
    });
}
static void mem_next(void) {
    W->phase_since = K->now;
    if (ME->step >= ME->steps.size()) {
        mem_op_checks();
        for (Client *c : W->clients) if (c->conn && c != W->aud) client_drop(c, 0);
        after(quiet_time(), []() { audit([]() { mem_op_checks(); world_end(); }); });
        return;
    }
    MemStep s = ME->steps[ME->step++]; mem_level(s.high); ME->newkeys = 0; ME->fresh.clear(); ME->refused = 0;
    after(MEM_LAG + SEC, [s]() { mem_dbsize([s](u64 n) {
        ME->before = n;
        obs(O_STATS, [s](Op *) {
            ME->nomem0 = stat_of("store_no_memory");
            bool storm = ME->storm.size() && W->rp.chance(0.5);
            if (!storm) { mem_fill(s.fill, []() { mem_verify([]() { mem_next(); }); }); return; }
            for (Client *c : ME->storm) { if (c->halted) continue; for (int i = 0; i < s.fill; i++) { std::string k = mem_newkey(); Op *o = mem_store(W->rp, k, c->proto); c->plan.push_back(PlanOp{ o }); } client_go(c); }
            mem_storm_done([]() {
                ME->newkeys = 0; ME->fresh.clear();
                for (Client *c : ME->storm) for (auto &p : c->plan) { Op *o = p.op; if (o->think == 1) continue; if (!o->sent) continue; o->think = 1; if (o->keys.size() == 1 && o->keys[0][0] == 'm' && o->done) { if (o->res.st == R_ERR) { if (o->kind != O_APPEND) ME->refused++; } else { ME->newkeys++; ME->fresh.push_back(o->keys[0]); } } }
                mem_verify([]() { mem_next(); });
            });
        });
    }); });
}
void mem_build(void) {
    Rng &r = W->rp; pick_config(); ME = new Mem(); W->cfg.evict = r.chance(0.6); W->cfg.shards = 1 + (int)r.below(8); W->cfg.verbose = r.chance(0.2) ? 1 : 0;
    N->memtotal = (u64)(1 + r.below(16)) << 30;
    switch (r.below(5)) {
    case 0: { u64 m = 50 + r.below(400); W->cfg.maxmemory = fmt("%llu%s", (unsigned long long)m, r.chance(0.5) ? "mb" : "M"); ME->limit = m << 20; break; }
    case 1: { u64 b = 60000000 + r.below(100000000); W->cfg.maxmemory = fmt("%llu", (unsigned long long)b); ME->limit = b; break; }
    case 2: W->cfg.maxmemory = "1G"; ME->limit = 1ull << 30; break;
    case 3: { u64 p = 10 + r.below(80); W->cfg.maxmemory = fmt("%llu%%", (unsigned long long)p); ME->limit = N->memtotal / 100 * p; break; }
    case 4: { u64 k = 60000 + r.below(100000); W->cfg.maxmemory = fmt("%lluk", (unsigned long long)k); ME->limit = k << 10; break; }
    }
    if (r.chance(0.5)) { ME->high = ME->limit + (1 << 20); ME->low = ME->limit - (1 << 20); } else { ME->high = ME->limit * 2; }
    ME->level = ME->low; N->rss = []() { return ME->level; };
    Gen g; int nk = 1 + (int)r.below(5); for (int i = 0; i < nk; i++) g.keys.push_back(fmt("k%d", i)); g.nkeys = nk; g.nkeysv = { "n0" };
    Weights w = { { O_SET, 40 }, { O_GET, 20 }, { O_MGET, 4 }, { O_DEL, 6 }, { O_INCR, 10 }, { O_APPEND, 8 }, { O_PREPEND, 2 }, { O_EXISTS, 2 }, { O_TTL, 1 }, { O_KEYS, 2 }, { O_DBSIZE, 1 } };
    int nc = 1 + (int)r.below(3); u64 span = r.logrange(2 * SEC, 20 * SEC);
    for (int i = 0; i < nc; i++) {
        double x = r.unit(); Client *c = new_client(x < 0.5 ? P_RESP : x < 0.7 ? P_MC : x < 0.85 ? P_PG : P_HTTP); net_shape(c); c->cap = 65536; c->depth = c->proto == P_HTTP ? 1 : 1 + (int)r.below(4);
        int n = 5 + (int)r.below(25); u64 t = 2 * span / n;
        for (int j = 0; j < n; j++) {
            Op *o = r.chance(0.3) ? mem_store(r, mem_newkey(), c->proto) : gen_op(r, c->proto, w, g);
            if (r.chance(0.7)) o->think = r.below(t); c->plan.push_back(PlanOp{ o });
        }
    }
    // the background filling of every shard
    int pre = r.chance(0.3) ? (int)r.below(3) : 20 * W->cfg.shards + (int)r.below(40); W->clients[0]->plan.reserve(400);
    std::vector<PlanOp> fill; for (int i = 0; i < pre; i++) { Op *o = new_op(W->clients[0]->proto, O_SET); o->keys.push_back(mem_newkey()); o->val = fmt("p%d", i); fill.push_back(PlanOp{ o }); }
    W->clients[0]->plan.insert(W->clients[0]->plan.begin(), fill.begin(), fill.end());
    int tog = (int)r.below(6); bool high = false; u64 t = 1000 * SEC;
    for (int i = 0; i < tog; i++) { t += r.chance(0.4) ? r.logrange(100 * MSEC, 2 * SEC) : r.logrange(SEC, 12 * SEC); high = !high; bool h = high; plan_event(t, F_RSS, [h]() { if (W->phase > Phase::SETTLE) return; mem_level(h); }); }
    int ns = 2 + (int)r.below(4); bool h = r.chance(0.5);
    for (int i = 0; i < ns; i++) { ME->steps.push_back(MemStep{ h, 10 + (int)r.below(60) }); if (r.chance(0.8)) h = !h; }
    for (int i = 0, n = (int)r.below(4); i < n; i++) { double x = r.unit(); Client *c = new_client(x < 0.6 ? P_RESP : x < 0.8 ? P_MC : P_PG); c->depth = 1 + (int)r.below(10); c->burst = 4; Op *o = new_op(c->proto, O_GET); o->keys = { "k0" }; o->think = 1; c->plan.push_back(PlanOp{ o }); W->keys.insert("k0"); ME->storm.push_back(c); }
    if (r.chance(0.4)) server_faults(1);
    W->run_max = 60 * SEC; W->settle_max = 60 * SEC; W->lossy = W->cfg.evict;
    W->hk.at_quiet = []() { observer(); obs(O_PING, [](Op *) { mem_next(); }); };
    W->hk.finish = []() { for (auto w : ME->win) { if (w.second != ~0ull) w.second += MEM_LAG; ME->evw.push_back(w); } W->loss_windows = &ME->evw; };
}
// ------------------------------------------------------------------ monitors (C21)
struct MonLine { double t; int port; std::vector<std::string> a; };
struct Mon { Raw *c = 0; int kind = 0, pings = 0, pingbytes = 0; bool prompt = false; u64 ok_at = 0, until = ~0ull; bool ended = false, half = false, stall = false; int id = 0; };
struct MonS { std::vector<Mon *> m; };
static MonS *MO;
static bool mon_parse(const std::string &l, MonLine &o, std::string &why) {
    // +<sec>.<usec> [0 <addr>] "arg" "arg"
    size_t i = 1; if (l.empty() || l[0] != '+') { why = "does not start with +"; return false; }
    size_t sp = l.find(' ', i); if (sp == std::string::npos) { why = "no time"; return false; }
    char *e; std::string ts = l.substr(1, sp - 1); o.t = strtod(ts.c_str(), &e); if (*e || ts.size() < 8 || ts[ts.size() - 7] != '.') { why = "bad time"; return false; }
    if (l.compare(sp, 4, " [0 ") != 0) { why = "no database and address"; return false; }
    size_t cb = l.find(']', sp); if (cb == std::string::npos) { why = "no address"; return false; }
    std::string addr = l.substr(sp + 4, cb - sp - 4); size_t col = addr.rfind(':'); o.port = col == std::string::npos ? -1 : atoi(addr.c_str() + col + 1);
    i = cb + 1;
    while (i < l.size()) {
        if (l[i] != ' ' || i + 1 >= l.size() || l[i + 1] != '"') { why = fmt("expected an argument at byte %zu", i); return false; }
        i += 2; std::string a;
        for (;;) {
            if (i >= l.size()) { why = "argument without closing quote"; return false; }
            unsigned char c = l[i++];
            if (c == '"') break;
            if (c < 32 || c >= 127) { why = "unescaped byte"; return false; }
            if (c != '\\') { a += (char)c; continue; }
            if (i >= l.size()) { why = "torn escape"; return false; }
            char x = l[i++];
            if (x == 'n') a += '\n'; else if (x == 'r') a += '\r'; else if (x == 't') a += '\t'; else if (x == '"' || x == '\\') a += x;
            else if (x == 'x' && i + 1 < l.size() && isxdigit((unsigned char)l[i]) && isxdigit((unsigned char)l[i + 1])) { a += (char)strtoul(l.substr(i, 2).c_str(), 0, 16); i += 2; }
            else { why = "bad escape"; return false; }
        }
        o.a.push_back(a);
    }
    if (o.a.empty()) { why = "no arguments"; return false; }
    return true;
}
static bool mon_match(const MonLine &l, const Op *o) {
    auto low = [](std::string s) { for (char &c : s) c = (char)tolower((unsigned char)c); return s; };
    if (o->proto == P_RESP || o->proto == P_PG) return l.a == argv_of(*o);
    size_t have = 0; for (auto &k : o->keys) if (std::find(l.a.begin() + 1, l.a.end(), k) != l.a.end()) have++;
    if (have != o->keys.size()) return false;
    if ((o->kind == O_SET || o->kind == O_APPEND || o->kind == O_PREPEND) && std::find(l.a.begin() + 1, l.a.end(), o->val) == l.a.end()) return false;
    std::string c = low(l.a[0]);
    switch (o->kind) {
    case O_SET: return c == "set" || c == "add" || c == "replace" || c == "cas" || c == "setex"; case O_GET: case O_MGET: return c == "get" || c == "mget"; case O_MGETS: return c == "mgets" || c == "gets" || c == "mget";
    case O_DEL: return c == "del" || c == "delete"; case O_INCR: return c.find(o->decr ? "decr" : "incr") != std::string::npos; case O_APPEND: return c == "append"; case O_PREPEND: return c == "prepend"; case O_EXPIRE: return c == "touch" || c == "expire" || c == "gat";
    case O_VERSION: return c == "version"; case O_STATS: return c == "stats"; case O_FLUSH: return c.compare(0, 5, "flush") == 0; default: return true;
    }
}
static bool monitored(const Op *o) { return o->sent && o->kind != O_AUTH && o->kind != O_QUIT && o->kind != O_UNKNOWN && o->kind != O_STARTUP && o->kind != O_MONITOR; }
static void mon_check(Mon *m) {
    Raw *c = m->c; std::string who = fmt("monitor %d (connection to port %d)", m->id, c->ep->port);
    const std::string &s = c->rx; size_t i = 0; int pong = 0; std::map<int, std::vector<MonLine>> by; double last = 0; (void)last;
    if (s.empty()) { if (m->prompt) violation("monitor-dead", "C21", "%s never received +OK", who.c_str()); return; }
    if (s.compare(0, 5, "+OK\r\n") != 0) { if (s.size() >= 5 || std::string("+OK\r\n").compare(0, s.size(), s) != 0) violation("monitor-start", "C21", "%s: the first bytes are not +OK: %s", who.c_str(), esc(s, 100).c_str()); return; }
    i = 5;
    while (i < s.size()) {
        size_t e = s.find("\r\n", i);
        if (e == std::string::npos) { if (m->prompt && !m->ended) violation("monitor-torn", "C21", "%s: the stream ends inside a line: %s", who.c_str(), esc(s.substr(i), 200).c_str()); break; }
        std::string l = s.substr(i, e - i); i = e + 2;
        if (l == "+PONG") { pong++; continue; }
        MonLine ml; std::string why;
        if (!mon_parse(l, ml, why)) { violation("monitor-garbled", "C21", "%s received a line that is no command (%s): %s", who.c_str(), why.c_str(), esc(l, 200).c_str()); return; }
        by[ml.port].push_back(ml);
    }
    if (pong > m->pings || (m->prompt && !m->ended && pong != m->pings)) violation("monitor-pong", "C21", "%s sent %d PINGs and received %d PONGs", who.c_str(), m->pings, pong);
    u64 wall = N->wall_base; u64 slack = 2 * W->lat_max + 100 * USEC + (W->p_slow > 0 ? 400 * MSEC : 0);
    for (Client *cl : W->clients) for (Conn *n : cl->conns) {
        std::vector<Op *> S; for (Op *o : W->ops) if (o->conn == n->id && monitored(o)) S.push_back(o);
        std::sort(S.begin(), S.end(), [](Op *a, Op *b) { return a->seq < b->seq; });
        auto L = by[n->ep->port]; by.erase(n->ep->port);
        // every command sent after the monitor was confirmed and answered before it ended must be there
        size_t from = S.size(), to = 0;
        for (size_t k = 0; k < S.size(); k++) if (S[k]->inv > m->ok_at && m->ok_at) { from = k; break; }
        if (m->ok_at) for (size_t k = from; k < S.size(); k++) if (S[k]->done && !S[k]->noreply && (m->until == ~0ull || S[k]->resp + slack < m->until)) to = k + 1;
        if (to <= from) { to = 0; from = S.size(); }       // nothing is required
        bool ok = L.empty() && !to; std::string why;
        if (!ok && L.empty() && from < S.size()) why = fmt("no line for %s", S[from]->txt().c_str());
        for (size_t a = 0; a <= from && a < S.size() && !ok && !L.empty(); a++) {
            size_t k = 0; while (k < L.size() && a + k < S.size() && mon_match(L[k], S[a + k])) k++;
            if (k < L.size()) { std::string x; for (auto &y : L[k].a) x += " " + esc(y, 40); if (why.empty() || a == from) why = fmt("line %zu of it is%s, expected %s", k, x.c_str(), a + k < S.size() ? S[a + k]->txt().c_str() : "nothing more"); continue; }
            if (a + L.size() < to) { if (why.empty() || a == from) why = fmt("%zu lines starting with %s, none for %s", L.size(), S[a]->txt().c_str(), S[a + L.size()]->txt().c_str()); continue; }
            bool tm = true;
            for (size_t j = 0; j < L.size(); j++) {
                double lo = (wall + S[a + j]->inv) / 1e9 - 2e-6, hi = (wall + (S[a + j]->done && !S[a + j]->noreply ? S[a + j]->resp : K->now)) / 1e9 + 2e-6;
                if (L[j].t < lo || L[j].t > hi) { why = fmt("line %zu, for %s, has time %.6f", j, S[a + j]->txt().c_str(), L[j].t); tm = false; break; }
            }
            if (tm) ok = true;
        }
        if (!ok && L.size() && why.empty()) why = "lines for a connection that sent no command";
        if (!ok && K->trace) { for (auto &l : L) { std::string x; for (auto &y : l.a) x += " " + esc(y, 60); logf("  line%s", x.c_str()); } for (Op *o : S) logf("  sent %s", o->txt().c_str()); }
        if (!ok) violation("monitor-lines", "C21", "%s: the lines for connection %d (port %d, %zu commands, confirmed at %.6f, %s) are not what was executed: %s", who.c_str(), n->id, n->ep->port, S.size(), m->ok_at / 1e9, m->until == ~0ull ? "open to the end" : fmt("ended at %.6f", m->until / 1e9).c_str(), why.c_str());
    }
    for (auto &p : by) if (p.second.size()) {
        if (p.first == -1) {        // the address of a connection that had been reset before its first command ran
            bool all = true;
            for (auto &l : p.second) { bool f = false; for (Op *o : W->ops) if (monitored(o) && !o->done && mon_match(l, o)) { f = true; break; } if (!f) all = false; }
            if (all) continue;
        }
        std::string x; for (auto &y : p.second[0].a) x += " " + esc(y, 40); violation("monitor-alien", "C21", "%s: a line for port %d, which no client uses:%s", who.c_str(), p.first, x.c_str()); }
}
static void mon_start(Mon *m, int segmode, size_t cap, bool inl, u64 pings, int pingsplit) {
    fired(F_SEGMENT); Raw *c = raw_open(false, segmode, cap); m->c = c;
    c->on_data = [m](Raw *c) {
        if (!m->ok_at && c->rx.compare(0, 5, "+OK\r\n") == 0) { m->ok_at = K->now; logf("monitor %d confirmed", m->id); }
        if (c->over && m->until == ~0ull) m->until = c->over_at;
        if (c->over && c->closed_by_server && !m->ended && !m->stall && W->phase < Phase::CLOSING && !W->done && (m->ok_at || !(K->fired[F_ACCEPT_FAIL] + K->fired[F_SOCKOPT_FAIL] + K->fired[F_EPOLLCTL_FAIL]))) { m->ended = true; violation("monitor-dropped", "C21", "the server closed monitor %d, which reads promptly; received so far: %s", m->id, esc(c->rx.size() > 100 ? c->rx.substr(c->rx.size() - 100) : c->rx, 120).c_str()); }
    };
    cli_send(c->ep, inl ? "MONITOR\r\n" : resp({ "MONITOR" }));
    for (u64 i = 0; i < pings; i++) {
        u64 d = 5 * MSEC + W->rp.logrange(100 * USEC, 2 * SEC); int sp = pingsplit;
        after(d, [m, sp]() {
            if (m->ended || m->c->over || W->done || W->phase >= Phase::QUIET || !m->ok_at || m->half) return;
            std::string p = sp & 1 ? "PING\r\n" : resp({ "ping" }); if (sp & 8) { p += p; m->pings++; } m->pings++;
            if (sp & 2) { size_t k = 1 + p.size() / 3; cli_send(m->c->ep, p.substr(0, k)); std::string q = p.substr(k); m->half = true; after(2 * MSEC, [m, q]() { m->half = false; if (!m->c->over && !m->ended) cli_send(m->c->ep, q); }); }
            else cli_send(m->c->ep, p);
        });
    }
}
static void mon_end(Mon *m, int how) {
    if (!m->c || m->c->over || m->ended) return;
    logf("monitor %d ends (%d)", m->id, how);
    m->ended = true; m->until = K->now; Raw *c = m->c; if (how >= 3 && (!m->ok_at || m->half)) how = 1;       // bytes right behind MONITOR are not looked at
    switch (how) {
    case 0: fired(F_CLIENT_CLOSE); raw_end(c, 0); break;
    case 1: fired(F_RESET); raw_end(c, 1); break;
    case 2: fired(F_HALFCLOSE); cli_shutdown(c->ep); break;
    case 3: fired(F_GARBAGE); cli_send(c->ep, resp({ "GET", "k0" })); break;        // ends the monitor
    case 4: fired(F_GARBAGE); cli_send(c->ep, "*9x\r\n"); break;
    case 5: fired(F_GARBAGE); cli_send(c->ep, resp({ "QUIT" })); break;
    }
    if (how >= 2) after(6 * SEC, [m]() { if (!m->c->over && !W->done && W->phase < Phase::CLOSING) { violation("monitor-open", "C21,C10", "monitor %d ended its session, but the connection is still open after 6 s", m->id); raw_end(m->c, 0); } });
}
void monitor_build(void) {
    Rng &r = W->rp; pick_config(); MO = new MonS(); W->cfg.unixsock = false; N->sndcap = 4 << 20; W->cfg.verbose = 0;
    Gen g; int nk = 1 + (int)r.below(5); g.keys = make_keys(r, nk, false); bool bin = r.chance(0.5); g.nkeys = nk; g.nkeysv = { "n0" }; g.p_ttl = 0.2; g.p_big = 0.1; g.big = r.chance(0.2) ? 60000 : 3000; g.binary = bin;
    Weights w = { { O_SET, 40 }, { O_GET, 20 }, { O_MGET, 5 }, { O_MGETS, 3 }, { O_DEL, 8 }, { O_INCR, 6 }, { O_APPEND, 5 }, { O_EXISTS, 3 }, { O_PING, 4 }, { O_ECHO, 4 }, { O_TTL, 3 }, { O_EXPIRE, 3 }, { O_KEYS, 2 }, { O_SCAN, 1 }, { O_UNKNOWN, 3 }, { O_VERSION, 1 }, { O_STATS, 1 }, { O_SWEEP, 1 }, { O_FLUSH, 1 }, { O_DBSIZE, 1 } };
    int nc = 1 + (int)r.below(5); u64 think = r.logrange(10 * USEC, 300 * MSEC); if (r.chance(0.25)) W->p_slow = 0.05;
    for (int i = 0; i < nc; i++) {
        double x = r.unit(); Client *c = new_client(x < 0.5 ? P_RESP : x < 0.7 ? P_MC : x < 0.9 ? P_PG : P_HTTP); net_shape(c); c->depth = c->proto == P_HTTP ? 1 : 1 + (int)r.below(8); c->start = r.below(2 * MSEC);
        int n = 4 + (int)r.below(40);
        for (int j = 0; j < n; j++) { Op *o = gen_op(r, c->proto, w, g); if (r.chance(0.6)) o->think = r.below(think); c->plan.push_back(PlanOp{ o }); }
        if (r.chance(0.4)) add_fates(c, 0.06);
    }
    int nm = 1 + (int)r.below(5);
    for (int i = 0; i < nm; i++) {
        Mon *m = new Mon(); m->id = i; m->kind = i == 0 && r.chance(0.7) ? 0 : (int)r.below(3); m->prompt = m->kind == 0; MO->m.push_back(m);
        int seg = r.chance(0.6) ? 0 : (int)r.below(5), split = (int)r.below(16), how = (int)r.below(6); bool inl = r.chance(0.3); u64 pings = r.chance(0.5) ? 0 : 1 + r.below(5), life = r.logrange(50 * USEC, 2 * SEC), t = 1000 * SEC + (r.chance(0.5) ? r.below(500 * USEC) : r.logrange(100 * USEC, think * 20)); size_t cap = m->kind == 2 ? (r.chance(0.5) ? 300 : 5000) : 4 << 20; u64 back = r.chance(0.5) ? r.logrange(MSEC, 3 * SEC) : 0;
        int cycles = m->kind == 1 ? 1 + (int)r.below(3) : 1; (void)cycles;
        plan_event(t, m->kind == 2 ? F_PEER_STALL : m->kind == 1 ? F_CLIENT_CLOSE : F_SEGMENT, [=]() {
            if (W->phase > Phase::SETTLE || !W->listening) return;
            m->stall = m->kind == 2;
            mon_start(m, seg, cap, inl, pings, split);
            if (m->kind == 1) after(life, [m, how]() { mon_end(m, how); });
            if (m->kind == 2) { after(life, [m, back]() { if (m->c->over) return; fired(F_PEER_STALL); m->c->ep->stalled = true; if (m->until == ~0ull) m->until = K->now; if (back) after(back, [m]() { if (!m->c->over && m->c->ep->stalled) cli_resume(m->c->ep); }); }); }
        });
    }
    if (r.chance(0.6)) { server_faults(1); K->fault[F_SHORT_WRITE].p = 0; }
    W->settle_max = 20 * SEC;
    W->hk.at_quiet = []() {
        for (Client *c : W->clients) if (c->conn) client_drop(c, 0);
        at_inc(K->now + quiet_time() + 8 * SEC, []() { audit([]() {
            after(quiet_time() + SEC, []() {
                for (Mon *m : MO->m) { if (!m->c) continue; if (m->c->ep->stalled) cli_resume(m->c->ep); }
                after(SEC, []() {
                    for (Mon *m : MO->m) if (m->c) { mon_check(m); m->ended = true; raw_end(m->c, 0); }
                    after(quiet_time(), []() { world_end(); });
                });
            });
        }); });
    };
}
// ------------------------------------------------------------------ request streams cut at every place (C09)
struct Cut { size_t n; u64 wait; };
struct SPass { int segmode = 0; size_t cap = 1 << 20; std::vector<Cut> cuts; bool faults = false; u64 stall_at = 0, stall_for = 0; };
struct SItem { Proto p; std::string data; std::vector<SPass> pass; bool unixs = false; const char *what = ""; };
struct Stream { std::vector<SItem> it; size_t i = 0, k = 0; std::string ref; bool refclosed = false; double p[F_MAX]; Raw *c = 0; int polls = 0; };
static Stream *SS;
static void stream_go(void);
static void stream_faults(bool on) { for (int f : { F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE }) K->fault[f].p = on ? SS->p[f] : 0; }
static void stream_done(void) {
    Raw *c = SS->c; SItem &it = SS->it[SS->i]; SPass &p = it.pass[SS->k]; stream_faults(false);
    bool closed = c->over && c->closed_by_server; raw_end(c, 0);
    if (SS->k == 0) { SS->ref = c->rx; SS->refclosed = closed; }
    else {
        auto at = [](const std::string &s, size_t i) { size_t b = i > 60 ? i - 60 : 0; return esc(s.substr(b, 160), 400); };
        if (c->rx != SS->ref) {
            size_t i = 0; while (i < c->rx.size() && i < SS->ref.size() && c->rx[i] == SS->ref[i]) i++;
            if (K->trace) logf("stream %s", esc(it.data, 100000).c_str());
            violation("stream-differs", "C09", "the same %zu bytes (%s, %s) sent as one piece and cut up get different replies (%zu and %zu bytes, first difference at %zu): %s | %s | request %s", it.data.size(), proto_name[it.p], it.what, SS->ref.size(), c->rx.size(), i, at(SS->ref, i).c_str(), at(c->rx, i).c_str(), esc(it.data, 600).c_str());
        } else if (closed != SS->refclosed) violation("stream-close", "C09", "the same %zu bytes (%s, %s) sent as one piece and cut up: the connection is %s in the first case and %s in the second | request %s", it.data.size(), proto_name[it.p], it.what, SS->refclosed ? "closed" : "left open", closed ? "closed" : "left open", esc(it.data, 600).c_str());
    }
    (void)p;
    if (++SS->k == it.pass.size()) { SS->k = 0; SS->i++; }
    W->phase_since = K->now;
    after(20 * MSEC, []() { stream_go(); });
}
// The pass is over when nothing has arrived for long enough.
static void stream_poll(void) {
    Raw *c = SS->c; u64 quiet = c->over ? 0 : SS->k && c->rx.size() >= SS->ref.size() && !SS->refclosed ? 300 * MSEC : 3 * SEC; bool st = c->ep->stalled;
    if (!st && K->now - std::max(c->last_rx, c->opened) >= quiet) { stream_done(); return; }
    after(50 * MSEC, []() { stream_poll(); });
}
static void stream_push(size_t off, size_t ci) {
    SItem &it = SS->it[SS->i]; SPass &p = it.pass[SS->k]; Raw *c = SS->c;
    size_t n = ci < p.cuts.size() ? std::min(p.cuts[ci].n, it.data.size() - off) : it.data.size() - off; u64 w = ci < p.cuts.size() ? p.cuts[ci].wait : 0;
    if (!c->over) cli_send(c->ep, it.data.substr(off, n));
    off += n; c->last_rx = K->now;
    if (off >= it.data.size() || c->over) { after(10 * MSEC, []() { stream_poll(); }); return; }
    after(w, [off, ci]() { stream_push(off, ci + 1); });
}
static void stream_go(void) {
    if (W->done) return;
    if (SS->i >= SS->it.size()) { world_end(); return; }
    obs(O_FLUSH, [](Op *) {
        SItem &it = SS->it[SS->i]; SPass &p = it.pass[SS->k]; logf("stream %zu pass %zu: %s, %zu bytes", SS->i, SS->k, it.what, it.data.size());
        Raw *c = SS->c = raw_open(it.unixs, p.segmode, std::max<size_t>(p.cap, SS->k ? SS->ref.size() / 500 : 0)); c->last_rx = K->now;
        if (p.faults) stream_faults(true);
        if (p.stall_for && has_event(F_PEER_STALL)) { u64 d = p.stall_for; after(p.stall_at, [c, d]() { if (c->over || SS->c != c) return; fired(F_PEER_STALL); c->ep->stalled = true; after(d, [c]() { if (!c->over) cli_resume(c->ep); c->last_rx = K->now; }); }); }
        stream_push(0, 0);
    });
}
static std::string stream_valid(Rng &r, Proto p, int n, const Gen &g, const Weights &w) {
    std::string s = p == P_PG ? pgstart() : "";
    size_t mark = W->ops.size(); int id = W->nextop; std::set<std::string> keys = W->keys; Gen h = g;
    for (int i = 0; i < n; i++) { Op *o = gen_op(r, p, w, h); s += encode(*o); }
    W->ops.resize(mark); W->nextop = id; W->keys = keys;
    return s;
}
void stream_build(void) {
    Rng &r = W->rp; pick_config(); SS = new Stream(); W->cfg.verbose = 0; W->check_lin = false;
    Weights w = { { O_SET, 40 }, { O_GET, 20 }, { O_MGET, 6 }, { O_DEL, 8 }, { O_INCR, 6 }, { O_APPEND, 6 }, { O_PREPEND, 2 }, { O_EXISTS, 3 }, { O_TTL, 3 }, { O_ECHO, 5 }, { O_PING, 4 }, { O_UNKNOWN, 3 }, { O_VERSION, 1 }, { O_DBSIZE, 2 }, { O_SWEEP, 2 } };
    if (r.chance(0.3)) w = { { O_SET, 10 }, { O_GET, 60 }, { O_MGET, 20 }, { O_DEL, 5 }, { O_SWEEP, 4 } };
    auto odd = [&](Proto p) -> std::string {        // numbers and lines around the limits of the parsers
        std::string zs((size_t)r.logrange(1, 60), r.chance(0.7) ? '0' : ' '), big((size_t)(r.chance(0.5) ? 60000 + r.below(30000) : r.logrange(200, 20000)), 'y');
        switch (p) {
        case P_RESP: switch (r.below(8)) { case 0: return "*" + zs + "1\r\n$4\r\nPING\r\n"; case 1: return "*1\r\n$" + zs + "4\r\nPING\r\n"; case 2: return "ECHO " + big + "\r\n"; case 3: return "ECHO \"a\\n" + big + "\"\r\nPING\r\n"; case 4: return resp({ "ECHO", big }); case 5: return "ECHO 'a b' \"c\r\nPING\r\n"; case 6: return "PING" + zs + "\n\n\r\nPING\n"; default: return "  PING\r\n" + resp({ "PING" }) + "ECHO \"\"\r\n"; }
        case P_MC: switch (r.below(9)) { case 0: return "get" + zs + "k0\r\n"; case 1: return "set k0 0 0 " + zs + "2\r\nxx\r\n"; case 2: return "get " + big + "\r\n"; case 3: return "set k0 0 0 " + fmt("%zu", big.size()) + "\r\n" + big + "\r\n"; case 4: return "set k0 0 0 " + fmt("%zu", big.size()) + " noreply\r\n" + big + "\r\nget k0\r\n"; case 5: return "set k0 0 0 2\nxx\r\nget k0\n"; case 6: { std::string s = "get"; while (s.size() < big.size()) s += " k0"; return s + "\r\n"; } case 7: return "set k0 0 0 2\r\nxxy\r\nget k0\r\nversion\r\n"; default: return "set k0 0 0 0\r\n\r\nset k1 0 0 2 noreply\r\n\r\n\r\nget k0 k1\r\n"; }
        case P_HTTP: switch (r.below(6)) { case 0: return "GET /k0 HTTP/1.1\r\nX: " + big + "\r\n\r\n"; case 1: return "PUT /k0 HTTP/1.1\r\nContent-Length: " + fmt("%zu", big.size()) + "\r\n\r\n" + big; case 2: return "PUT /k0 HTTP/1.1\r\nContent-Length:" + zs + "2\r\n\r\nxx"; case 3: return "GET /" + big + " HTTP/1.1\r\n\r\n"; case 4: return "PUT /k0 HTTP/1.1\r\nContent-Length: 2\r\nContent-Length: 3\r\n\r\nxxy"; default: return "PUT /k0 HTTP/1.1\r\n\r\nGET /k0 HTTP/1.1\r\n\r\n"; }
        default: { std::string q = "ECHO '" + big + "'"; return r.chance(0.5) ? pgmsg('Q', q + z()) : pgmsg('P', z() + "ECHO $1" + z() + be16(0)) + pgmsg('B', z() + z() + be16(0) + be16(1) + be32((uint32_t)big.size()) + big + be16(0)) + pgmsg('E', z() + be32(0)) + pgmsg('S', ""); }
        }
    };
    int n = 2 + (int)r.below(4);
    for (int f : { F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE }) SS->p[f] = 0;
    server_faults(1.5); for (int f : { F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE }) { SS->p[f] = K->fault[f].p; K->fault[f].p = 0; if (K->fault[f].budget) K->fault[f].budget *= 4; }
    if (r.chance(0.2)) W->p_slow = 0.05;
    for (int i = 0; i < n; i++) {
        SItem it; double x = r.unit(); it.p = x < 0.35 ? P_RESP : x < 0.65 ? P_MC : x < 0.85 ? P_PG : P_HTTP; it.unixs = W->cfg.unixsock && r.chance(0.3);
        Gen g; g.keys = make_keys(r, 1 + (int)r.below(5), it.p == P_RESP && r.chance(0.5)); g.nkeys = (int)g.keys.size(); g.nkeysv = { "n0" }; g.p_ttl = 0; g.binary = r.chance(0.6); g.p_big = r.chance(0.3) ? 0.3 : 0; g.big = r.chance(0.2) ? 200000 : r.chance(0.5) ? 20000 : 800;
        auto bad = [&]() { return it.p == P_RESP ? bad_resp(r) : it.p == P_MC ? bad_mc(r) : it.p == P_PG ? bad_pg(r) : bad_http(r); };
        int k = it.p == P_HTTP ? 1 + (int)r.below(3) : 1 + (int)r.below(20);
        switch (r.below(10)) {
        case 8: it.what = "odd first"; it.data = it.p == P_PG ? pgstart() + odd(it.p) : odd(it.p) + stream_valid(r, it.p, 2, g, w); break;
        case 9: it.what = "odd inside"; it.data = stream_valid(r, it.p, 1 + (int)r.below(3), g, w) + odd(it.p); if (it.p != P_PG) it.data += stream_valid(r, it.p, 2, g, w); break;
        case 0: case 1: case 2: it.what = "valid"; it.data = stream_valid(r, it.p, k, g, w); break;
        case 3: case 4: it.what = "mutated"; it.data = mutate(r, stream_valid(r, it.p, 1 + k / 4, g, w)); break;
        case 5: it.what = "mutated inside"; { std::string a = stream_valid(r, it.p, 1 + k / 3, g, w), b = mutate(r, stream_valid(r, it.p, 1 + (int)r.below(2), g, w)); it.data = a + b + stream_valid(r, it.p, 1 + k / 3, g, w); } break;
        case 6: it.what = "malformed"; it.data = bad(); break;
        case 7: it.what = "malformed inside"; it.data = stream_valid(r, it.p, 1 + k / 3, g, w) + bad() + stream_valid(r, it.p, 1 + k / 3, g, w); break;
        }
        if (r.chance(0.1) && it.data.size() > 1) { it.data.resize(1 + r.below(it.data.size())); }
        it.pass.push_back(SPass());
        int np = 1 + (int)r.below(3);
        for (int j = 0; j < np; j++) {
            SPass p; p.faults = r.chance(0.6); p.segmode = r.chance(0.5) ? 0 : 1 + (int)r.below(4); p.cap = r.chance(0.7) ? 1 << 20 : (size_t)r.logrange(64, 65536);
            size_t left = it.data.size();
            switch (r.below(4)) {
            case 0: break;
            case 1: if (left > 1) { size_t c = 1 + r.below(left - 1); p.cuts.push_back(Cut{ c, r.logrange(100 * USEC, 200 * MSEC) }); } break;
            case 2: for (int q = 0; q < 300 && left; q++) { size_t c = std::min<size_t>(left, 1 + r.below(1 + std::min<size_t>(left, 64))); p.cuts.push_back(Cut{ c, r.chance(0.7) ? 0 : r.logrange(10 * USEC, 20 * MSEC) }); left -= c; } break;
            case 3: { u64 d = r.logrange(USEC, 2 * MSEC); for (int q = 0; q < 400 && left; q++) { p.cuts.push_back(Cut{ 1, d }); left--; } break; }
            }
            if (r.chance(0.25)) { p.stall_at = r.logrange(50 * USEC, 50 * MSEC); p.stall_for = r.logrange(MSEC, 2 * SEC); }
            it.pass.push_back(p);
        }
        SS->it.push_back(it);
    }
    K->lim.max_steps = 20000000; K->lim.max_edges = 2000000000;
    if (r.chance(0.5)) { Client *c = new_client(P_RESP); c->depth = 1; for (int j = 0, m = (int)r.below(40); j < m; j++) { Op *o = new_op(P_RESP, r.chance(0.5) ? O_PING : O_ECHO); if (o->kind == O_ECHO) o->val = "x"; o->think = r.below(10 * MSEC); c->plan.push_back(PlanOp{ o }); } }
    W->hk.at_quiet = []() { observer(); stream_go(); };
}
