// Snapshots, crashes, restarts and shutdown: several incarnations of the server
// over one simulated disk, with kills, power cuts and signals at planned
// instants or file operations, and failing, short or full disks. Snapshot files
// are decoded by an independent reader and every version that ever appears at a
// snapshot path becomes an observation of every key in the recorded history.
#include "world.h"

namespace {
struct Ent { std::string key, val; u64 dwall = 0; bool ttl = false; u32 flags = 0; u64 cas = 0; };
struct Snap { bool ok = false; std::string why; std::vector<Ent> ents; std::vector<size_t> bounds; size_t good = 0; };
struct Ver { u64 t = 0, wlo = 0; std::string data; int ino = 0; Snap snap; int inc = 0; };
struct Rd { u64 t; std::string path; Snap snap; bool exists; int ino; };
struct Bad { std::string path; u64 t; };
enum { ST_NONE, ST_KILL, ST_POWER, ST_TERM, ST_INT };
struct Stop { int kind = 0; bool forced = false; bool atop = false; int nth = 0; bool pre = false; int opkind = -1; bool boot = false; u64 t = 0; u64 forced_after = 0; bool masked = false; };
struct Inc { Cfg cfg; int nprocs = 2; std::vector<Client *> clients; Stop stop; int damage = 0; u64 down = 0; i64 jump = 0; Fault bootfault = F_MAX; double bootp = 0; u64 ts_delay = 0; };
struct Jump { u64 t; i64 skew; };
struct Persist {
    std::vector<Inc> inc; int cur = 0; std::string ppath;
    std::map<std::string, std::vector<Ver>> vers; std::map<std::string, int> floor; std::map<std::string, std::string> other;
    std::vector<Rd> reads; std::vector<u64> errs, readerrs, thrfails; std::vector<int> readerr_ino; std::vector<Jump> jumps;
    u64 boot_t0 = 0, first_reply = 0, replies = 0; bool forced = false; int termsig = 0; bool damaged = false, started = false; std::string saved_good; bool nofile_good = false;
    int fsops = 0; bool crashed_ever = false, unlinkfail = false; Snap boot; u64 thr0 = 0; bool pendsave_term = false; bool retry = false; int refused = 0; bool final_ok = false;
    std::set<std::string> badpaths; bool fsyncfail = false; std::vector<std::pair<std::string, std::string>> badinfo;
};
Persist *P = 0;
bool isp(const char *p) { return W->spec.prop == p; }

// ---- independent reader of the snapshot format ---------------------------------
u32 crc32_of(const unsigned char *p, size_t n) {
    static u32 tab[256]; static bool init = false;
    if (!init) { for (u32 i = 0; i < 256; i++) { u32 c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; tab[i] = c; } init = true; }
    u32 c = 0xffffffffu; for (size_t i = 0; i < n; i++) c = tab[(c ^ p[i]) & 255] ^ (c >> 8); return ~c;
}
bool lz4_decode(const unsigned char *p, size_t n, size_t dlen, std::string &out) {
    out.clear(); out.reserve(dlen); size_t i = 0;
    for (;;) {
        if (i >= n) return false;
        unsigned t = p[i++]; size_t lit = t >> 4;
        if (lit == 15) { unsigned b; do { if (i >= n) return false; b = p[i++]; lit += b; } while (b == 255); }
        if (lit > n - i || out.size() + lit > dlen) return false;
        out.append((const char *)p + i, lit); i += lit;
        if (i == n) return out.size() == dlen;
        if (n - i < 2) return false;
        size_t off = p[i] | (p[i + 1] << 8); i += 2; if (!off || off > out.size()) return false;
        size_t ml = (t & 15) + 4;
        if ((t & 15) == 15) { unsigned b; do { if (i >= n) return false; b = p[i++]; ml += b; } while (b == 255); }
        if (out.size() + ml > dlen) return false;
        size_t from = out.size() - off; for (size_t k = 0; k < ml; k++) out += out[from + k];
    }
}
u32 le32(const unsigned char *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
bool uvar(const std::string &s, size_t &i, u64 &x) {
    x = 0; for (int sh = 0; sh < 70; sh += 7) { if (i >= s.size()) return false; unsigned char b = s[i++]; if (sh < 64) x |= (u64)(b & 127) << sh; if (!(b & 128)) return true; } return false;
}
Snap decode(const std::string &d) {
    Snap S; size_t o = 0; const unsigned char *p = (const unsigned char *)d.data();
    while (o < d.size()) {
        S.bounds.push_back(o);
        if (d.size() - o < 16) { S.why = "cut inside a block header"; return S; }
        if (memcmp(p + o, "POGO", 4)) { S.why = "no block tag"; return S; }
        u32 crc = le32(p + o + 4), dl = le32(p + o + 8), cl = le32(p + o + 12);
        if (cl > d.size() - o - 16) { S.why = "cut inside a block"; return S; }
        if (crc32_of(p + o + 16, cl) != crc) { S.why = "checksum mismatch"; return S; }
        std::string b; if ((u64)dl > (u64)cl * 255 + 64 || !lz4_decode(p + o + 16, cl, dl, b)) {
            // the server's threads may go on with intact blocks behind this one
            if (S.why.empty()) S.why = "bad compressed block";
            o += 16 + cl; continue;
        }
        size_t i = 0; u64 ut; if (!uvar(b, i, ut)) { S.why = "no time"; return S; }
        while (i < b.size()) {
            Ent e; u64 x; if (b[i++] != 0) { S.why = "unknown entry kind"; return S; }
            if (!uvar(b, i, x) || x > b.size() - i) { S.why = "bad key"; return S; } e.key = b.substr(i, x); i += x;
            if (!uvar(b, i, x) || x > b.size() - i) { S.why = "bad value"; return S; } e.val = b.substr(i, x); i += x;
            if (!uvar(b, i, x)) { S.why = "bad ttl"; return S; } if (x) { e.ttl = true; e.dwall = ut + x; if (e.dwall < ut || e.dwall > INT64_MAX) e.dwall = INT64_MAX; }
            if (!uvar(b, i, x) || x > 0xffffffffu) { S.why = "bad flags"; return S; } e.flags = (u32)x;
            if (!uvar(b, i, x)) { S.why = "bad cas"; return S; } e.cas = x;
            S.ents.push_back(e);
        }
        o += 16 + cl; S.good = S.ents.size();
    }
    S.bounds.push_back(d.size()); S.ok = S.why.empty(); return S;
}
// an independent writer too: literal-only LZ4 blocks
void put_uvar(std::string &s, u64 x) { while (x >= 128) { s += (char)(x | 128); x >>= 7; } s += (char)x; }
std::string enc_block(u64 ut, const std::vector<Ent> &v) {
    std::string b; put_uvar(b, ut);
    for (auto &e : v) { b += '\0'; put_uvar(b, e.key.size()); b += e.key; put_uvar(b, e.val.size()); b += e.val; put_uvar(b, e.ttl ? e.dwall - ut : 0); put_uvar(b, e.flags); put_uvar(b, e.cas); }
    std::string c; size_t n = b.size(); c += (char)((n < 15 ? n : 15) << 4); if (n >= 15) { size_t r = n - 15; while (r >= 255) { c += (char)255; r -= 255; } c += (char)r; } c += b;
    std::string h = "POGO"; auto w = [&](u32 x) { for (int i = 0; i < 4; i++) h += (char)(x >> (8 * i)); };
    w(crc32_of((const unsigned char *)c.data(), c.size())); w((u32)b.size()); w((u32)c.size()); return h + c;
}

// ---- clock conversions ----------------------------------------------------------
i64 skew_at(u64 t) { i64 s = 0; for (auto &j : P->jumps) if (j.t <= t) s = j.skew; return s; }
void to_boot(u64 dwall, u64 a, u64 b, u64 &lo, u64 &hi) {
    i64 s0 = skew_at(a), s1 = s0; for (auto &j : P->jumps) if (j.t >= a && j.t <= b) { s0 = std::min(s0, j.skew); s1 = std::max(s1, j.skew); }
    auto conv = [&](i64 s) -> u64 { u64 w = N->wall_base + s; return dwall > w ? dwall - w : 0; };
    lo = conv(s1); hi = conv(s0);
}
std::string content(const std::string &p, bool *ex = 0) { Inode *i = fs_lookup(p); if (ex) *ex = i != 0; return i ? i->data : ""; }
std::string opath(Op *o) { return o->path.empty() ? P->ppath : fs_norm(o->path); }
bool mine(Op *o) { return o->sent && o->inv >= P->boot_t0; }
u64 inflight_min(const std::string &path) {
    u64 m = ~0ull; bool any = false;
    for (Op *o : W->ops) if (o->kind == O_SAVE && mine(o) && !o->done && opath(o) == path) { m = std::min(m, o->inv); any = true; }
    if (W->term_sent && path == P->ppath) { m = std::min(m, W->term_at); any = true; }
    return any ? m : P->boot_t0;
}

// ---- stopping the process ----------------------------------------------------------
void crash_now(bool power) {
    if (W->killed) return;
    W->killed = true; W->power = power; W->expect_exit = true; fired(power ? F_POWER : F_KILL); P->crashed_ever = true;
    for (auto &v : P->vers) {
        int f = -1; auto it = N->dns.find(v.first);
        if (it != N->dns.end()) for (size_t i = 0; i < v.second.size(); i++) if (v.second[i].ino == it->second->id) f = (int)i;
        P->floor[v.first] = f;
    }
    logf("%s", power ? "power cut" : "kill -9"); N->exit_time = K->now;
    end_incarnation(0);
}
void send_signal(int sig) {
    if (W->phase >= Phase::CLOSING || N->exited) return;
    if (!W->term_sent) { W->term_sent = true; W->term_at = K->now; W->expect_exit = true; P->termsig = sig; for (Op *o : W->ops) if (o->kind == O_SAVE && mine(o) && !o->done) P->pendsave_term = true; }
    else { P->forced = true; }
    fired(F_SIGTERM); kern_signal(sig);
}
void do_stop(const Stop &s) {
    switch (s.kind) {
    case ST_KILL: crash_now(false); break;
    case ST_POWER: crash_now(true); break;
    case ST_TERM: case ST_INT: {
        send_signal(s.kind == ST_TERM ? 15 : 2);
        if (s.forced) { at_inc(K->now + s.forced_after, []() { if (!N->exited) send_signal(15); }); }
        break; }
    }
}

// ---- watching the file system -----------------------------------------------------
void check_paths(const char *when) {
    for (auto &v : P->vers) {
        Inode *i = fs_lookup(v.first);
        if (v.second.empty()) { if (i) violation("snapshot-torn", "C06", "a file appeared at snapshot path %s although no complete snapshot was moved there (%s)", v.first.c_str(), when); continue; }
        Ver &l = v.second.back();
        if (!i) violation("snapshot-lost", "C06", "the snapshot at %s vanished (%s)", v.first.c_str(), when);
        else if (i->id != l.ino || i->data.size() != l.data.size()) violation("snapshot-torn", "C06", "the file at %s is neither the previous nor the new complete snapshot (%s): %zu bytes, the last complete one had %zu", v.first.c_str(), when, i->data.size(), l.data.size());
    }
}
void on_fsop(int kind, bool pre, const std::string &path, Inode *ino) {
    if (kind == FO_ERROR) { P->errs.push_back(K->now); return; }
    if (kind == FO_READERR) { P->readerrs.push_back(K->now); P->readerr_ino.push_back(ino ? ino->id : 0); return; }
    if (kind == FO_READ) return;
    if (!pre) {
        if (kind == FO_OPENR) { Rd r; r.t = K->now; r.path = path; r.snap = decode(ino->data); r.exists = true; r.ino = ino->id; P->reads.push_back(r); }
        if (kind == FO_RENAME && path.find(".work") == std::string::npos) {
            auto &v = P->vers[path]; Ver n; n.t = K->now; n.wlo = inflight_min(path); n.data = ino->data; n.ino = ino->id; n.snap = decode(ino->data); n.inc = P->cur; if ((int)n.snap.bounds.size() - 1 > W->cfg.shards) probe("shard_in_several_blocks"); v.push_back(n);
            if (!n.snap.ok) violation("snapshot-invalid", "C06,C05", "the snapshot moved to %s is not readable: %s", path.c_str(), n.snap.why.c_str());
            if (!ino->pend.empty()) violation("not-durable", "C06", "a new snapshot was moved to %s before its contents were on stable storage: a power cut now may leave a damaged file there", path.c_str());
            std::set<std::string> seen;
            for (auto &e : n.snap.ents) {
                if (!seen.insert(e.key).second) violation("snapshot-dup", "C05", "key %s appears twice in the snapshot at %s", esc(e.key).c_str(), path.c_str());
                if (!W->keys.count(e.key)) violation("snapshot-alien", "C05", "the snapshot at %s has key %s, which was never stored", path.c_str(), esc(e.key).c_str());
            }
        }
        check_paths("after a file operation");
    }
    if (kind == FO_OPENR) return;
    Stop &s = P->inc[P->cur].stop;
    if (s.atop && !s.masked && s.kind && pre == s.pre && (s.opkind < 0 || s.opkind == kind) && !W->killed) {
        if (++P->fsops == s.nth) {
            if (s.kind == ST_KILL || s.kind == ST_POWER) crash_now(s.kind == ST_POWER);
            else { Stop q = s; at_inc(K->now + 1, [q]() { if (!W->term_sent) do_stop(q); }); }
        }
    }
}

// ---- incarnations -------------------------------------------------------------------
void leftovers(const char *when) {
    if (P->unlinkfail || K->fired[F_UNLINK_FAIL]) return;
    for (auto &p : N->ns) {
        if (P->vers.count(p.first) || P->other.count(p.first) || P->badpaths.count(p.first)) continue;
        size_t k = P->ppath.rfind('/'); bool pdir = p.first.compare(0, k + 1, P->ppath, 0, k + 1) == 0 && p.first.find('/', k + 1) == std::string::npos;
        if (P->crashed_ever && !pdir) continue;
        violation("work-file", "C06", "file %s was left behind (%s)", p.first.c_str(), when);
    }
}
void on_reply(Client *, Op *) {
    P->replies++;
    if (P->first_reply) return;
    P->first_reply = K->now;
    if (P->damaged) violation("damaged-loaded", "C07", "the server started and answers although its snapshot is damaged");
    bool loading = false; for (Op *o : W->ops) if (o->kind == O_LOAD && mine(o)) loading = true;
    if (!loading && !P->readerrs.empty() && P->readerrs.back() >= P->boot_t0) violation("read-error-ignored", "C07", "the server started and answers although reading its snapshot failed");
    bool saving = false; for (Op *o : W->ops) if (o->kind == O_SAVE && mine(o)) saving = true;
    if (!saving && !W->term_sent) leftovers("first reply after a start");
}
void begin_inc(void) {
    Inc &i = P->inc[P->cur]; W->cfg = i.cfg; N->nprocs = i.nprocs;
    P->first_reply = P->replies = 0; P->forced = false; P->termsig = 0; P->fsops = 0; P->pendsave_term = false; P->thr0 = K->fired[F_THREAD_FAIL]; P->boot_t0 = K->now; P->started = false;
    P->boot = decode(content(P->ppath)); W->run_max = 30 * SEC;
    Stop &s = i.stop;
    if (s.kind && !s.atop && !s.masked && s.boot) { Stop q = s; u64 b = P->boot_t0; at(K->now + s.t, [q, b]() { if (!W->done && W->phase < Phase::CLOSING && P->boot_t0 == b && !N->exited) do_stop(q); }); }
    if (i.bootfault != F_MAX && !P->retry && has_event(i.bootfault)) { K->fault[i.bootfault].p = i.bootp; K->fault[i.bootfault].budget += 3; K->faults_on = true; }
}
void on_listen(void) {
    Inc &i = P->inc[P->cur]; P->started = true;
    for (Client *c : W->clients) c->halted = true;
    for (Client *c : i.clients) c->halted = false;
    begin_run();
    for (Client *c : i.clients) c->on_reply = on_reply;
    Stop s = i.stop; if (s.kind && !s.atop && !s.masked && !s.boot) at_inc(K->now + s.t, [s]() { do_stop(s); });
}
Op *synth(Kind k, const std::string &key) { Op *o = new Op(); o->kind = k; o->keys.push_back(key); o->sent = true; o->client = -1; o->conn = -1; return o; }
void observe(std::vector<Op *> &ops, const Snap &s, u64 a, u64 b, const char *what, bool dead_miss) {
    std::map<std::string, const Ent *> m; for (auto &e : s.ents) m[e.key] = &e;
    for (auto &k : W->keys) {
        Op *o = synth(O_GET, k); o->done = true; o->inv = a; o->resp = b; o->path = what;
        auto it = m.find(k);
        if (it == m.end()) o->res.st = R_MISS;
        else {
            const Ent &e = *it->second; o->res.st = R_VAL; o->res.s = e.val; o->res.flags = e.flags; o->res.hasflags = true; o->res.hasdl = true;
            if (e.ttl) { u64 lo, hi; to_boot(e.dwall, a, b, lo, hi); if (dead_miss) { if (lo <= b) { delete o; continue; } } u64 w = b - a + 2; o->res.dlo = lo > w ? lo - w : 1; o->res.dhi = hi + w; if (o->res.dhi < hi) o->res.dhi = hi; }
        }
        ops.push_back(o);
    }
}
void loaded(std::vector<Op *> &ops, const Snap &s, u64 a, u64 b, bool done, bool must) {
    size_t n = s.ok ? s.ents.size() : s.good;
    for (size_t i = 0; i < n; i++) {
        const Ent &e = s.ents[i]; Op *o = synth(O_SET, e.key); o->val = e.val; o->flags = e.flags; o->inv = a; o->resp = b; o->path = "LOAD"; bool sure = must;
        if (e.ttl) { u64 lo, hi; to_boot(e.dwall, a, done ? b : a + 100 * SEC, lo, hi); if (hi <= a) { delete o; continue; } u64 w = (done ? b - a : K->now - a) + 2; o->ttlkind = 6; o->dlo = lo > w ? lo - w : 1; o->dhi = hi; if (lo <= b) sure = false; }
        o->done = sure && done; if (o->done) o->res.st = R_OK; ops.push_back(o);
    }
}
bool any_in(const std::vector<u64> &v, u64 a, u64 b) { for (u64 t : v) if (t >= a && t <= b) return true; return false; }
void check_saves(std::vector<Op *> &ops, u64 end) {
    for (Op *o : W->ops) {
        if (!mine(o)) continue;
        if (o->kind == O_SAVE && o->done) {
            std::string p = opath(o); int n = 0; for (auto &v : P->vers[p]) if (v.t >= o->inv && v.t <= o->resp) n++;
            if (o->res.st == R_OK) { if (!n) violation("save-nothing", "C06,C05", "%s reported success but no snapshot was put in place", o->txt().c_str()); }
            else if (o->res.st == R_ERR) {
                bool expl = any_in(P->errs, o->inv, o->resp) || K->fired[F_THREAD_FAIL] > P->thr0;
                if (!expl) violation("save-refused", "C06,C05", "%s failed although no file operation failed", o->txt().c_str());
                bool alone = !(W->term_sent && W->term_at <= o->resp); for (Op *x : W->ops) if (x != o && x->kind == O_SAVE && mine(x) && opath(x) == p && x->inv <= o->resp && (!x->done || x->resp >= o->inv)) alone = false;
                if (alone && n) violation("save-misreported", "C06", "%s reported failure but replaced the snapshot", o->txt().c_str());
            }
        }
        if (o->kind == O_LOAD) {
            std::string p = opath(o); u64 b = o->done ? o->resp : end; std::vector<Rd *> c; for (auto &r : P->reads) if (r.path == p && r.t >= o->inv && r.t <= b) c.push_back(&r);
            bool alone = true; for (Op *x : W->ops) if (x != o && x->kind == O_LOAD && mine(x) && opath(x) == p && x->inv <= b && (!x->done || x->resp >= o->inv)) alone = false;
            bool rerr = false; for (size_t i = 0; i < P->readerrs.size(); i++) if (P->readerrs[i] >= o->inv && P->readerrs[i] <= b) for (auto r : c) if (r->ino == P->readerr_ino[i]) rerr = true;
            if (!o->done) { for (auto r : c) loaded(ops, r->snap, o->inv, ~0ull, false, false); continue; }
            if (o->res.st == R_OK) {
                if (c.empty()) { violation("load-nothing", "C05,C07", "%s reported success without reading the snapshot", o->txt().c_str()); continue; }
                bool anyok = false; for (auto r : c) if (r->snap.ok) anyok = true;
                if (!anyok) violation("damaged-loaded", "C07", "%s reported success although the file is damaged (%s)", o->txt().c_str(), c[0]->snap.why.c_str());
                if (alone && c.size() == 1 && rerr) violation("read-error-ignored", "C07", "%s reported success although reading the file failed", o->txt().c_str());
                if (alone && c.size() == 1) { loaded(ops, c[0]->snap, o->inv, o->resp, true, true); probe("loads_exact"); }
                else for (auto r : c) loaded(ops, r->snap, o->inv, o->resp, true, false);
            } else {
                bool absent = true; auto it = P->vers.find(p); if (it != P->vers.end()) for (auto &v : it->second) if (v.t < o->inv) absent = false;
                for (auto &x : P->badinfo) if (x.first == p && fs_lookup(p)) absent = absent && c.empty();
                bool bad = false; for (auto r : c) if (!r->snap.ok) bad = true;
                if (!absent && !bad && !rerr && !any_in(P->readerrs, o->inv, b) && !any_in(P->errs, o->inv, b) && K->fired[F_THREAD_FAIL] == P->thr0)
                    violation("load-refused", "C05", "%s failed although the snapshot is intact and nothing failed", o->txt().c_str());
                for (auto r : c) loaded(ops, r->snap, o->inv, o->resp, true, false);
                if (bad) probe("damaged_refused");
            }
        }
    }
}
// a save that reported success vouches for whatever is there from then on
void vouch(void) {
    for (auto &v : P->vers) for (size_t i = 0; i < v.second.size(); i++) {
        Ver &x = v.second[i]; if (x.t < P->boot_t0 || x.inc != P->cur) continue;
        u64 until = i + 1 < v.second.size() ? v.second[i + 1].t : ~0ull;
        for (Op *o : W->ops) if (o->kind == O_SAVE && mine(o) && o->done && o->res.st == R_OK && opath(o) == v.first && o->resp < until && o->inv > x.wlo) { x.wlo = o->inv; if (o->resp < x.t) probe("save_after_save"); }
        if (x.wlo > x.t) { violation("save-superseded", "C06,C05", "SAVE reported success while an older snapshot stayed at %s", v.first.c_str()); x.wlo = x.t; }
    }
}
void check_history(std::vector<Op *> &ops, u64 end) {
    (void)end;
    for (Op *o : W->ops) if (mine(o)) ops.push_back(o);
    for (auto &v : P->vers) for (size_t i = 0; i < v.second.size(); i++) {
        Ver &x = v.second[i]; if (x.t < P->boot_t0 || x.inc != P->cur || !x.snap.ok) continue;
        observe(ops, x.snap, x.wlo, x.t, "SNAPSHOT", false); probe("snapshots_checked");
    }
    std::map<std::string, const Ent *> m; if (P->boot.ok) for (auto &e : P->boot.ents) m[e.key] = &e;
    ModelCfg mc; mc.cas = W->cfg.cas; mc.lossy = false; mc.wall_minus_boot = (i64)(N->wall_base + N->wall_skew);
    std::map<std::string, std::vector<KOp>> h; split(ops, W->keys, h, mc);
    u64 bend = P->first_reply ? P->first_reply : K->now;
    for (auto &p : h) {
        KState s; auto it = m.find(p.first);
        if (it != m.end()) {
            const Ent &e = *it->second; s.present = true; s.val = e.val; s.flags = e.flags;
            if (e.ttl) { u64 lo, hi; to_boot(e.dwall, P->boot_t0, bend, lo, hi); u64 w = bend - P->boot_t0 + 2; s.ttl = true; s.lo = lo > w ? lo - w : 1; s.hi = hi; if (hi <= P->boot_t0) s = KState(); }
        }
        WglResult r = wgl(p.second, { s }, mc, W->wgl_limit, false);
        W->states += r.states; if (r.undecided) { W->undecided++; continue; }
        if (!r.ok) violation("lin", "*", "history of key %s (incarnation %d, starting from %s) has no sequential explanation: %s", esc(p.first).c_str(), P->cur, s.txt().c_str(), r.why.c_str());
    }
}
std::string damage(Rng &r, const std::string &d, const Snap &s, std::string &how) {
    std::string x = d; if (d.empty()) { how = "garbage"; return "POGX"; }
    for (int tries = 0; tries < 20; tries++) {
        x = d; int k = (int)r.below(8); size_t nb = s.bounds.size();
        size_t b = nb > 1 ? s.bounds[r.below(nb - 1)] : 0;
        switch (k) {
        case 0: case 1: { size_t o = r.below(d.size()); x[o] ^= (char)(1 << r.below(8)); how = fmt("bit of byte %zu flipped", o); break; }
        case 2: { size_t o = b + r.below(16); if (o >= d.size()) continue; x[o] = (char)r.below(256); how = fmt("header byte %zu changed", o); break; }
        case 3: case 4: { size_t o = r.below(d.size()); bool edge = false; for (size_t q : s.bounds) if (q == o) edge = true; if (edge) continue; x.resize(o); how = fmt("cut at %zu of %zu", o, d.size()); break; }
        case 5: { size_t o = r.below(d.size()), n = std::min<size_t>(1 + r.below(600), d.size() - o); for (size_t i = 0; i < n; i++) x[o + i] = 0; how = fmt("%zu bytes at %zu zeroed", n, o); break; }
        case 6: { size_t n = 1 + r.below(40); for (size_t i = 0; i < n; i++) x += (char)r.below(256); how = fmt("%zu bytes appended", n); break; }
        case 7: { size_t o = b + 8 + r.below(8); if (o >= d.size()) continue; x[o] = (char)(x[o] + (r.chance(0.5) ? 1 : -1)); how = fmt("length byte %zu changed", o); break; }
        }
        if (x != d && !decode(x).ok) return x;
    }
    x = d + "x"; how = "byte appended"; return x;
}
bool on_exit_hook(void) {
    u64 end = std::max(K->now, N->exit_time); bool power = W->power;
    K->faults_on = false; N->disk_free = 1ll << 40;
    if (K->fired[F_UNLINK_FAIL]) P->unlinkfail = true;
    for (auto &x : P->other) if (content(x.first) != x.second) violation("bystander", "C06", "file %s, which is no snapshot and no work file, was changed or removed", x.first.c_str());
    std::vector<Op *> ops; check_saves(ops, end);
    vouch();
    // the snapshot paths
    if (!power) check_paths("after the process ended");
    else for (auto &v : P->vers) {
        bool ex; std::string c = content(v.first, &ex); int f = P->floor.count(v.first) ? P->floor[v.first] : -1; int hit = -2;
        if (!ex) { if (f < 0) hit = -1; } else for (int i = std::max(f, 0); i < (int)v.second.size(); i++) if (v.second[i].data == c) hit = i;
        if (hit == -2) violation("snapshot-torn", "C06", "after a power cut the file at %s holds neither the previous nor the new complete snapshot (%zu bytes%s)", v.first.c_str(), c.size(), ex ? "" : ", missing");
        else if (hit < (int)v.second.size() - 1) probe("power_lost_rename");
        std::vector<Ver> keep; for (int i = 0; i <= hit; i++) keep.push_back(v.second[i]);
        std::vector<Ver> all = v.second; v.second = keep;
        if (hit >= 0) { Inode *i = fs_lookup(v.first); v.second.back().ino = i->id; }
        // keep lost versions as observations of this incarnation
        for (size_t i = keep.size(); i < all.size(); i++) if (all[i].inc == P->cur) P->vers["\x01lost"].push_back(all[i]);
    }
    bool refused = false;
    if (!W->killed) {
        bool fault_boot = any_in(P->readerrs, P->boot_t0, end) || any_in(P->errs, P->boot_t0, end) || K->fired[F_THREAD_FAIL] > P->thr0;
        if (!W->term_sent) {
            if (P->replies) violation("unexpected-exit", "*", "server exited with status %d on its own", N->exit_code);
            else if (P->damaged || fault_boot) {
                refused = true; probe("boot_refused");
                if (N->exit_code == 0) violation("refusal-status", "C07", "the server gave up loading its snapshot but exited with status 0");
            } else violation("unexpected-exit", "*", "server exited with status %d at start-up although its snapshot is intact; last output: %s", N->exit_code, esc(K->sut_out.size() > 300 ? K->sut_out.substr(K->sut_out.size() - 300) : K->sut_out, 400).c_str());
        } else if (N->exit_code >= 128) probe("signal_before_handler");
        else if (P->damaged && !P->replies && N->exit_code != 0) refused = true;
        else if (P->forced) probe("forced_exit");
        else if (N->exit_code != 0) {
            if (!any_in(P->errs, W->term_at, end) && !(P->first_reply == 0 && fault_boot) && K->fired[F_THREAD_FAIL] == P->thr0)
                violation("exit-status", "C08", "server exited with status %d after a signal although nothing failed; last output: %s", N->exit_code, esc(K->sut_out.size() > 300 ? K->sut_out.substr(K->sut_out.size() - 300) : K->sut_out, 400).c_str());
            probe("final_save_failed");
        } else if (!P->damaged) {
            // everything acknowledged before the signal has to be in the file
            Snap s = decode(content(P->ppath)); bool fresh = false; auto &v = P->vers[P->ppath]; if (!v.empty() && v.back().t >= W->term_at) fresh = true;
            observe(ops, s, W->term_at, end, "FINAL-SNAPSHOT", !fresh); probe("final_snapshots_checked");
        }
    }
    if (!P->damaged) check_history(ops, end);
    P->vers.erase("\x01lost");
    bool natural = !W->killed && W->term_sent && W->phase == Phase::TERM && N->exit_code == 0;
    bool pend = false; for (Op *o : W->ops) if (o->kind == O_SAVE && mine(o) && !o->done) pend = true;
    if (natural && !pend) leftovers("after a graceful exit with no save in progress");
    if (!natural) P->crashed_ever = true;
    // next
    for (Client *c : W->clients) { c->halted = true; if (c->conn) { c->conn->dead = true; c->conn->excused = true; c->conn = 0; } }
    W->aud = 0; W->have_audit = false; W->stats.clear(); W->listening = false;
    for (auto it = W->init.begin(); it != W->init.end();) if (it->first[0] == 1) it = W->init.erase(it); else ++it;
    if (!K->viol.empty()) return false;
    Inc &ci = P->inc[P->cur]; bool again = false;
    if (P->damaged) {
        // the operator restores the file
        fs_put(P->ppath, P->saved_good, true); P->vers[P->ppath].back().data = P->saved_good; P->vers[P->ppath].back().ino = fs_lookup(P->ppath)->id; P->damaged = false; again = refused; P->cur += refused ? 0 : 1;
    } else if (refused) { again = true; }
    else P->cur++;
    P->retry = again;
    if (again) { if (++P->refused > 6) { violation("boot-loop", "C19", "the server did not start in 6 attempts after the faults stopped"); return false; } ci.damage = 0; ci.bootfault = F_MAX; for (int f = 0; f < F_MAX; f++) if (f == F_READ_EIO || f == F_OPEN_FAIL || f == F_THREAD_FAIL) K->fault[f].p = 0; }
    if (P->cur >= (int)P->inc.size()) return false;
    Inc &ni = P->inc[P->cur];
    K->now = end + (again ? 10 * MSEC : ni.down);
    if (!again && ni.jump && has_event(F_CLOCK_JUMP)) { N->wall_skew += ni.jump; fired(F_CLOCK_JUMP); P->jumps.push_back({ K->now, N->wall_skew }); }
    if (!again && ni.damage) {
        auto &v = P->vers[P->ppath];
        if (!v.empty() && v.back().snap.ok && has_event(F_CORRUPT)) {
            P->saved_good = v.back().data; std::string how, x = damage(W->rp, v.back().data, v.back().snap, how); fired(F_CORRUPT); P->damaged = true;
            fs_put(P->ppath, x, true); v.back().data = x; v.back().ino = fs_lookup(P->ppath)->id; logf("snapshot damaged: %s", how.c_str());
        }
    }
    begin_inc();
    return true;
}
}

void pick_config(void); std::vector<std::string> make_keys(Rng &r, int n, bool binary); void net_shape(Client *c); void server_faults(double intensity); void add_fates(Client *c, double p);

void persist_build(void) {
    Rng &r = W->rp; P = new Persist(); pick_config();
    W->check_lin = false; W->allow_boot_fail = true; W->term_max = 25 * SEC; W->strict_end = false;
    int c = isp("C05") ? 5 : isp("C06") ? 6 : isp("C07") ? 7 : isp("C08") ? 8 : 0;
    W->cfg.persist = r.chance(0.2) ? "p.pogocache" : "/data/p.pogocache"; P->ppath = fs_norm(W->cfg.persist);
    P->other["/data/notes.txt"] = "notes\n"; P->other["/data/keep.pogocache"] = std::string("not a snapshot") + '\0'; P->other["/data/p.pogocache.work.txt"] = "x"; P->other["/tmp/a.pogocache.work.bak"] = "y";
    for (auto &x : P->other) fs_put(x.first, x.second, true);
    P->vers[P->ppath]; std::string p2 = "/data/other.pogocache", p3 = "/tmp/b.snap"; if (r.chance(0.25)) p2 = "/data/" + std::string(20 + r.below(180), 'n') + ".pogocache"; P->vers[p2]; P->vers[p3];
    P->jumps.push_back({ 0, 0 });
    Gen g;
    std::map<int, int> w = { { O_SET, 40 }, { O_GET, 12 }, { O_DEL, 10 }, { O_INCR, 5 }, { O_APPEND, 5 }, { O_EXPIRE, 3 }, { O_TTL, 3 }, { O_PTTL, 2 }, { O_MGETS, 3 }, { O_KEYS, 1 } };
    int nk = r.chance(0.7) ? 1 + (int)r.below(8) : r.chance(0.8) ? 10 + (int)r.below(60) : 100 + (int)r.below(200);
    g.keys = make_keys(r, nk, false); g.nkeys = nk; g.nkeysv.push_back("n0"); g.p_ttl = r.chance(0.6) ? 0.3 : 0; g.shortttl = r.chance(0.5); g.p_big = r.chance(0.3) ? 0.3 : 0.05; g.big = r.chance(0.3) ? 200000 : 5000;
    bool bulky = r.chance(0.04);                     // shards of more than one block of a snapshot
    if (bulky) { nk = 8 + (int)r.below(8); g.keys = make_keys(r, nk, false); g.nkeys = nk; g.p_big = 0.8; g.bigmin = 60000; g.big = 450000; w = { { O_SET, 60 }, { O_GET, 3 }, { O_DEL, 3 }, { O_EXPIRE, 3 }, { O_TTL, 4 } }; K->lim.max_edges *= 5; K->lim.max_steps *= 5; }
    if (r.chance(0.1)) w[O_FLUSH] = 1;
    if (r.chance(0.1)) w[O_SWEEP] = 1;
    int nsave = c == 8 ? (r.chance(0.5) ? 3 : 0) : c == 7 ? 4 : 8, nload = c == 5 ? 6 : c == 7 ? 3 : r.chance(0.3) ? 2 : 0; nsave *= r.chance(0.3) ? 3 : 1;
    int ninc = 1 + (int)r.below(c == 5 ? 3 : 4); if (c != 5 && ninc == 1) ninc = 2;
    // a snapshot written by someone else
    u64 wall0 = N->wall_base + K->now;
    if (r.chance(0.35)) {
        std::string d; int nb = (int)r.below(5); std::set<std::string> used;
        for (int b = 0; b < nb; b++) {
            std::vector<Ent> v; int n = (int)r.below(6);
            for (int i = 0; i < n; i++) { Ent e; e.key = r.pick(g.keys); if (!used.insert(e.key).second) continue; e.val = fmt("s%d.%d", b, i); if (r.chance(0.1)) e.val += std::string(r.below(3000), 'z'); if (r.chance(0.3)) e.flags = (u32)r.below(1000); if (r.chance(0.3)) { e.ttl = true; e.dwall = wall0 + r.logrange(MSEC, 100 * SEC); } e.cas = r.below(50); v.push_back(e); }
            for (auto &e : v) W->keys.insert(e.key);
            d += enc_block(wall0 - (r.chance(0.5) ? 0 : r.below(3600) * SEC), v);
        }
        // an entry's remaining time counts from its block's time, keep what the reader says
        fs_put(P->ppath, d, true); Ver v; v.t = 0; v.data = d; v.ino = fs_lookup(P->ppath)->id; v.snap = decode(d); v.inc = -1; P->vers[P->ppath].push_back(v);
    }
    for (auto &k : g.keys) W->keys.insert(k);
    W->keys.insert("n0");
    double inten = r.chance(0.5) ? 1 : 0; if (inten > 0) server_faults(inten);
    // disk faults
    auto f = [&](Fault k, double p, double lo, double hi, int budget) { if (r.chance(p) && has_event(k)) { K->fault[k].p = lo + (hi - lo) * r.unit(); K->fault[k].budget = budget; } };
    double df = c == 6 ? 0.35 : c == 7 ? 0.1 : c == 8 ? 0.15 : 0.05;
    f(F_FILE_ENOSPC, df, 0.01, 0.3, 3); f(F_FILE_EIO, df, 0.01, 0.3, 3); f(F_FILE_SHORT, df + 0.2, 0.1, 0.9, 500); f(F_OPEN_FAIL, df, 0.05, 0.4, 2);
    f(F_RENAME_FAIL, df, 0.1, 0.6, 2); f(F_FSYNC_FAIL, df, 0.1, 0.6, 2); f(F_UNLINK_FAIL, df * 0.3, 0.1, 0.5, 2); f(F_THREAD_FAIL, 0.15, 0.1, 0.6, 4); f(F_READ_EIO, c == 7 ? 0.4 : 0.05, 0.02, 0.4, 2);
    bool slow = r.chance(c == 8 ? 0.6 : 0.2);
    Cfg base = W->cfg;
    for (int n = 0; n < ninc; n++) {
        Inc I; I.cfg = base; I.nprocs = 1 + (int)r.below(6); I.down = r.logrange(MSEC, 5 * SEC); if (r.chance(0.1)) I.down = r.below(7200) * SEC + MSEC;
        if (n && r.chance(0.4)) { std::string per = base.persist; W->cfg = base; pick_config(); I.cfg = W->cfg; I.cfg.persist = per; I.cfg.unixsock = base.unixsock; }
        if (n && r.chance(0.1)) I.jump = r.range(-3, 3) * 1800 * (i64)SEC;
        if (bulky) I.cfg.shards = 1 + (int)r.below(2);
        W->cfg = I.cfg;
        int nc = 1 + (int)r.below(4);
        for (int k = 0; k < nc; k++) {
            double x = r.unit(); Proto pr = x < 0.6 ? P_RESP : x < 0.8 ? P_PG : x < 0.92 ? P_MC : P_HTTP;
            Client *cl = new_client(pr); cl->halted = true; cl->depth = pr == P_HTTP ? 1 : 1 + (int)r.below(5); net_shape(cl); cl->start = r.below(2 * MSEC);
            int no = 2 + (int)r.below(22); if (nk > 60) no += 60; if (bulky) no += 10;
            std::map<int, int> ww = w; if (pr == P_RESP || pr == P_PG) { ww[O_SAVE] = nsave; ww[O_LOAD] = nload; }
            if (nk > 60) { ww[O_SAVE] = (nsave + 3) / 4; ww[O_LOAD] = (nload + 3) / 4; }
            for (int j = 0; j < no; j++) {
                Op *o = gen_op(r, pr, ww, g);
                if (o->kind == O_SAVE || o->kind == O_LOAD) {
                    double y = r.unit(); o->path = y < 0.7 ? "" : y < 0.9 ? p2 : p3;
                    if (o->kind == O_LOAD && r.chance(c == 7 ? 0.6 : 0.08)) {
                        std::string bp = fmt("/data/bad%d", o->id); o->path = bp; P->badpaths.insert(bp);
                        std::string src = r.chance(0.8) ? P->ppath : p2; u64 t = r.logrange(100 * USEC, 300 * MSEC); u64 ds = r.next(); int inc = n;
                        // made when this incarnation is running
                        cl->plan.push_back(PlanOp{ o }); cl->plan.back().fate = FT_NONE; o->raw = src; o->cursor = ds; (void)t; (void)inc;
                        if (r.chance(0.4)) o->think = r.below(50 * MSEC);
                        continue;
                    }
                }
                if (r.chance(slow ? 0.5 : 0.15)) o->think = r.below(slow ? 60 * MSEC : 3 * MSEC);
                if (g.shortttl && r.chance(0.05)) o->think = r.below(2 * SEC);
                cl->plan.push_back(PlanOp{ o });
            }
            if (r.chance(0.1)) add_fates(cl, 0.05);
            I.clients.push_back(cl);
        }
        Stop &s = I.stop; double y = r.unit(); bool last = n == ninc - 1;
        if (!last) {
            if (c == 6) s.kind = y < 0.4 ? ST_KILL : y < 0.75 ? ST_POWER : y < 0.85 ? ST_TERM : ST_NONE;
            else if (c == 8) s.kind = y < 0.5 ? ST_TERM : y < 0.8 ? ST_INT : y < 0.87 ? ST_KILL : ST_NONE;
            else s.kind = y < 0.25 ? ST_TERM : y < 0.4 ? ST_KILL : y < 0.5 ? ST_POWER : ST_NONE;
            if (s.kind == ST_KILL || s.kind == ST_POWER) s.atop = r.chance(0.75); else s.atop = r.chance(0.2);
            if (s.atop) { s.pre = r.chance(0.5); if (r.chance(0.5)) { static const int ks[] = { FO_RENAME, FO_RENAME, FO_FSYNC, FO_UNLINK, FO_WRITE, FO_OPENW }; s.opkind = ks[r.below(6)]; s.nth = 1 + (int)r.below(4); } else s.nth = (int)r.logrange(1, 40); if (s.opkind == FO_OPENW) s.pre = false; }
            else { s.boot = r.chance(0.25); s.t = s.boot ? r.logrange(10 * USEC, 20 * MSEC) : r.logrange(10 * USEC, slow ? 600 * MSEC : 60 * MSEC); }
            s.forced = (s.kind == ST_TERM || s.kind == ST_INT) && r.chance(0.06); s.forced_after = r.logrange(USEC, 150 * MSEC);
        }
        if (s.kind) { int id = W->nevents++; Fault fk = s.kind == ST_KILL ? F_KILL : s.kind == ST_POWER ? F_POWER : F_SIGTERM; s.masked = W->spec.mask.events.count(id) || !has_event(fk); }
        if (n && r.chance(c == 7 ? 0.5 : 0.03)) I.damage = 1;
        if ((n || !P->vers[P->ppath].empty()) && r.chance(c == 7 ? 0.2 : 0.03)) { I.bootfault = r.chance(0.7) ? F_READ_EIO : r.chance(0.5) ? F_THREAD_FAIL : F_OPEN_FAIL; I.bootp = 0.05 + 0.6 * r.unit(); }
        P->inc.push_back(I);
    }
    W->cfg = base;
    // full disk for a while
    if (r.chance(c == 6 ? 0.4 : c == 8 ? 0.15 : 0.03)) {
        u64 t = 1000 * SEC + r.logrange(MSEC, 500 * MSEC); u64 d = r.logrange(MSEC, 500 * MSEC); i64 room = (i64)r.logrange(1, 20000);
        plan_event(t, F_FILE_ENOSPC, [room]() { if (W->phase == Phase::RUN) { N->disk_free = room; logf("disk almost full: %lld", (long long)room); } });
        at(t + d, []() { N->disk_free = 1ll << 40; });
    }
    N->on_fsop = on_fsop; W->hk.on_listen = on_listen; W->hk.on_exit = on_exit_hook;
    W->settle_max = 25 * SEC;
    begin_inc();
    W->note = fmt("persist incarnations=%d keys=%d", ninc, nk);
}
// the file a "damaged" LOAD reads is made when the command is sent
void persist_sending(Op *o) {
    if (o->kind != O_LOAD || o->raw.empty()) return;
    Inode *i = fs_lookup(o->raw); if (!i) return;
    Snap s = decode(i->data); if (!s.ok || !has_event(F_CORRUPT)) return;
    Rng r; r.seed(o->cursor, 5); std::string how, x = damage(r, i->data, s, how);
    fs_put(o->path, x, true); P->badinfo.emplace_back(fs_norm(o->path), how); fired(F_CORRUPT); logf("damaged copy %s of %s: %s", o->path.c_str(), o->raw.c_str(), how.c_str());
}
