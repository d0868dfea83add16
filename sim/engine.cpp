// The embeddable engine (pogocache.h) driven directly by several simulated
// threads: every call is recorded and checked against the sequential model, and
// the notify/evicted callbacks, which run at the linearization points under the
// shard lock, maintain a shadow copy that the engine must agree with.
#include <climits>
#include "world.h"
extern "C" {
#include "pogocache.h"
}

namespace {
enum { E_STORE, E_LOAD, E_UPDATE, E_DELETE, E_ITER, E_SWEEP, E_POLL, E_CLEAR, E_COUNT, E_EITER, E_BEGIN, E_END, E_HELD, E_NK };
const char *ename[] = { "store", "load", "update", "delete", "iter", "sweep", "sweep_poll", "clear", "count", "entry_iter", "begin", "end", "held" };
struct EOp {
    Op *op = 0; int kind = 0; bool xtime = false, notouch = false, cb = false, cbret = true, oneshard = false, defer = false, lowmem = false, nullopts = false;
    int shard = 0; int action = 0; double pdel = 0, pstop = 0; int cas = 0; u64 rnd = 0; bool absexp = false;
};
struct Sh { bool present = false; std::string val; bool ttl = false; u64 lo = 0, hi = 0; u64 since = 0; u64 gen = 0; };
struct Held { pogocache_entry *e; std::string key, val; };
struct Cur {
    EOp *eo = 0; int kind = -1; std::string key, val; u64 inv = 0; bool ttl = false; u64 lo = 0, hi = 0; bool keepttl = false; bool lowmem = false;
    int ins = 0, rep = 0, del = 0, evexp = 0, evlow = 0, evclr = 0; bool called = false; std::string cbval; u32 cbflags = 0; u64 cbcas = 0; i64 cbexp = 0; int ncalls = 0;
    std::map<std::string, std::string> visited; std::set<std::string> deleted, dups; bool stopped = false;
    bool pend = false; std::string pkey, pval; i64 ptime = 0; bool pexpok = false, pdelok = false; pogocache_update upd; std::string updval;
    std::string note;
};
struct Th { int id; std::vector<EOp> ops; pogocache *batch = 0; bool batches = false; };
struct Eng {
    pogocache *c = 0; pogocache_opts o; bool notify = false, evicted = false; int nth = 1; std::vector<Th> th;
    std::map<void *, size_t> live; u64 nalloc = 0; std::map<void *, int> heldptr;
    std::map<std::string, Sh> S; std::map<std::string, int> shardof; std::map<std::string, std::vector<u64>> tok;
    std::map<std::string, std::pair<int, u64>> owner; std::vector<Held> held; Cur cur[64]; bool infault = false; int inop[64] = { 0 };
    std::vector<std::string> keys; int finish = 0; u64 inserts = 0; Rng r; double p_retain = 0, p_yield = 0; bool single = false, ordered = false; int newfails = 0; u64 nomem = 0;
};
Eng *E = 0;
#define TAG "C15"
int tid(void) { return g_cur->id & 63; }
u64 stamp(void) { return ++K->now; }
std::string S_(const void *p, size_t n) { return std::string((const char *)p, n); }

void *e_malloc(size_t n) {
    if (E->inop[tid()] && fault(F_MALLOC)) return 0;
    void *p = sim_malloc(n); if (!p) return 0;
    E->live[p] = n; E->nalloc++; return p;
}
void e_free(void *p) {
    if (!p) return;
    auto it = E->live.find(p);
    if (it == E->live.end()) { violation("bad-free", "C20", "the engine frees memory that it does not own (freed twice?) in %s", E->cur[tid()].kind >= 0 ? ename[E->cur[tid()].kind] : "cleanup"); return; }
    if (E->heldptr.count(p)) { violation("freed-retained", "C20", "an entry that the user has retained was freed"); return; }
    E->live.erase(it); sim_free(p);
}
void e_yield(void *) { sched_point(SP_PAUSE, "yield"); }

void isolation(const std::string &k, const char *what) {
    auto it = E->owner.find(k);
    if (it != E->owner.end() && it->second.first != tid()) violation("batch-isolation", "C14", "thread %d %s key %s while the batch of thread %d, which used it, is still open", tid(), what, esc(k).c_str(), it->second.first);
}
void settle_pending(Cur &c) {        // a removal without an eviction report: it has to be a plain deletion
    if (!c.pend) return;
    c.pend = false; c.del++;
    if (E->evicted ? !c.pdelok : !(c.pdelok || c.pexpok))
        violation("notify-removal", TAG, "%s removed key %s%s, which it was not asked to delete%s", ename[c.kind], esc(c.pkey).c_str(), E->evicted ? " without an eviction report" : "", c.pexpok ? "" : " and which had not expired");
}
void cb_notify(int shard, int64_t time, pogocache_entry *nw, pogocache_entry *old, void *ud) {
    Cur &c = E->cur[tid()]; char b1[128], b2[128]; size_t n; std::string kn, vn, ko, vo; int saved = E->inop[tid()];
    if (ud != E) violation("callback-udata", TAG, "notify got the wrong udata");
    if (nw) { const void *p = pogocache_entry_key(E->c, nw, &n, b1); kn = S_(p, n); p = pogocache_entry_value(E->c, nw, &n); vn = S_(p, n); }
    if (old) { const void *p = pogocache_entry_key(E->c, old, &n, b2); ko = S_(p, n); p = pogocache_entry_value(E->c, old, &n); vo = S_(p, n); }
    settle_pending(c);
    if (c.kind < 0) { if (!E->finish) violation("notify-unasked", TAG, "notify called outside any operation"); return; }
    if (!nw && !old) { violation("notify-empty", TAG, "notify without entries"); return; }
    const std::string k = nw ? kn : ko;
    if (nw && old && kn != ko) violation("notify-keys", TAG, "notify: new entry has key %s but old entry has key %s", esc(kn).c_str(), esc(ko).c_str());
    auto sd = E->shardof.find(k);
    if (sd == E->shardof.end()) { violation("notify-alien", TAG, "%s notified a change of key %s, which was never stored", ename[c.kind], esc(k).c_str()); return; }
    if (sd->second != shard) violation("notify-shard", TAG, "notify for key %s names shard %d instead of %d", esc(k).c_str(), shard, sd->second);
    isolation(k, "changed");
    Sh &s = E->S[k];
    bool expired_before = s.present && s.ttl && (u64)time >= s.lo;
    if (nw && old) {
        c.rep++;
        if (!s.present) violation("notify-replay", TAG, "%s reported key %s replaced, but by the notifications so far it does not exist", ename[c.kind], esc(k).c_str());
        else if (s.val != vo) violation("notify-replay", TAG, "%s reported key %s replaced with old value \"%s\", but the notifications so far left \"%s\"", ename[c.kind], esc(k).c_str(), esc(vo).c_str(), esc(s.val).c_str());
    } else if (nw) {
        c.ins++; E->inserts++;
        if (s.present) violation("notify-replay", TAG, "%s reported key %s inserted, but by the notifications so far it exists", ename[c.kind], esc(k).c_str());
    }
    if (nw) {
        if (c.kind != E_STORE && c.kind != E_UPDATE) violation("notify-new", TAG, "%s reported a new entry for key %s", ename[c.kind], esc(k).c_str());
        else if (k != c.key) violation("notify-new", TAG, "%s of key %s reported a new entry for key %s", ename[c.kind], esc(c.key).c_str(), esc(k).c_str());
        else if (vn != c.val) violation("notify-value", TAG, "%s of key %s stored \"%s\" but notify reports \"%s\"", ename[c.kind], esc(k).c_str(), esc(c.val).c_str(), esc(vn).c_str());
        bool hadttl = s.present && s.ttl; u64 lo = s.lo, hi = s.hi;
        s.present = true; s.val = vn; s.since = stamp(); s.gen++;
        if (c.kind == E_UPDATE) { }                       // keeps its deadline
        else if (c.keepttl && old && hadttl) { s.ttl = true; s.lo = lo; s.hi = hi; }
        else if (c.keepttl && old && !s.ttl) { s.ttl = false; }
        else { s.ttl = c.ttl; s.lo = c.lo; s.hi = c.ttl && c.hi == ~0ull ? ~0ull : c.hi; }
    } else {
        if (!s.present) violation("notify-replay", TAG, "%s reported key %s removed, but by the notifications so far it does not exist", ename[c.kind], esc(k).c_str());
        else if (s.val != vo) violation("notify-replay", TAG, "%s reported key %s removed with value \"%s\", but the notifications so far left \"%s\"", ename[c.kind], esc(k).c_str(), esc(vo).c_str(), esc(s.val).c_str());
        c.pend = true; c.pkey = k; c.pval = vo; c.ptime = time; c.pexpok = expired_before;
        c.pdelok = (c.kind == E_DELETE && k == c.key) || (c.kind == E_ITER && c.deleted.count(k)) || (!E->evicted && (c.kind == E_CLEAR || (c.kind == E_STORE && c.lowmem && k != c.key)));
        s.present = false; s.since = stamp(); s.gen++; s.ttl = false; s.val.clear();
    }
    if (E->p_retain > 0) for (pogocache_entry *e : { nw, old }) if (e && E->r.chance(E->p_retain) && E->held.size() < 200) {
        pogocache_entry_retain(E->c, e); E->heldptr[(void *)e]++; E->held.push_back(Held{ e, k, e == nw ? vn : vo });
    }
    if (E->r.chance(E->p_yield)) sched_point(SP_PREEMPT, "notify");
    E->inop[tid()] = saved;
}
void cb_evicted(int shard, int reason, int64_t time, const void *key, size_t kl, const void *val, size_t vl, int64_t expires, uint32_t, uint64_t, void *ud) {
    Cur &c = E->cur[tid()]; std::string k = S_(key, kl), v = S_(val, vl);
    if (ud != E) violation("callback-udata", TAG, "evicted got the wrong udata");
    if (c.kind < 0) { if (!E->finish) violation("notify-unasked", TAG, "evicted called outside any operation"); return; }
    auto sd = E->shardof.find(k);
    if (sd == E->shardof.end()) { violation("notify-alien", TAG, "%s evicted key %s, which was never stored", ename[c.kind], esc(k).c_str()); return; }
    if (sd->second != shard) violation("notify-shard", TAG, "evicted for key %s names shard %d instead of %d", esc(k).c_str(), shard, sd->second);
    isolation(k, "evicted");
    if (E->notify) {
        if (!c.pend || c.pkey != k || c.pval != v) violation("evict-notify", TAG, "%s reported an eviction of key %s value \"%s\" that does not follow its notification", ename[c.kind], esc(k).c_str(), esc(v).c_str());
        c.pend = false;
    }
    bool dead = expires > 0 && expires <= time;
    if (reason == POGOCACHE_REASON_EXPIRED) { c.evexp++; if (!dead) violation("evict-reason", TAG, "%s evicted key %s as expired, but its deadline %lld is after %lld", ename[c.kind], esc(k).c_str(), (long long)expires, (long long)time); }
    else if (reason == POGOCACHE_REASON_LOWMEM) { c.evlow++; if (c.kind != E_STORE || !c.lowmem || k == c.key || E->o.noevict) violation("evict-reason", TAG, "%s evicted key %s for low memory", ename[c.kind], esc(k).c_str()); if (dead) violation("evict-reason", TAG, "expired key %s was reported as evicted for low memory", esc(k).c_str()); }
    else if (reason == POGOCACHE_REASON_CLEARED) { c.evclr++; if (c.kind != E_CLEAR) violation("evict-reason", TAG, "%s evicted key %s as cleared", ename[c.kind], esc(k).c_str()); if (dead) violation("evict-reason", TAG, "expired key %s was reported as cleared", esc(k).c_str()); }
    else violation("evict-reason", TAG, "unknown eviction reason %d", reason);
    if (E->r.chance(E->p_yield)) sched_point(SP_PREEMPT, "evicted");
}
bool cb_store(int shard, int64_t, const void *key, size_t kl, const void *val, size_t vl, int64_t expires, uint32_t flags, uint64_t cas, void *ud) {
    Cur &c = *(Cur *)ud; (void)shard; std::string k = S_(key, kl);
    c.called = true; c.ncalls++; c.cbval = S_(val, vl); c.cbflags = flags; c.cbcas = cas; c.cbexp = expires;
    isolation(k, "saw");
    if (k != c.key) violation("callback-key", "C01", "callback for key %s in an operation on key %s", esc(k).c_str(), esc(c.key).c_str());
    if (E->r.chance(E->p_yield)) sched_point(SP_PREEMPT, "entry");
    return c.eo->cbret;
}
void cb_load(int shard, int64_t, const void *key, size_t kl, const void *val, size_t vl, int64_t expires, uint32_t flags, uint64_t cas, pogocache_update **upd, void *ud) {
    Cur &c = *(Cur *)ud; (void)shard; std::string k = S_(key, kl);
    c.called = true; c.ncalls++; c.cbval = S_(val, vl); c.cbflags = flags; c.cbcas = cas; c.cbexp = expires;
    isolation(k, "saw");
    if (k != c.key) violation("callback-key", "C01", "callback for key %s in an operation on key %s", esc(k).c_str(), esc(c.key).c_str());
    if (E->notify) { Sh &s = E->S[k]; if (!s.present || s.val != c.cbval) violation("notify-replay", TAG, "load of key %s sees \"%s\", but the notifications so far left %s", esc(k).c_str(), esc(c.cbval).c_str(), s.present ? ("\"" + esc(s.val) + "\"").c_str() : "nothing"); }
    if (c.kind == E_UPDATE) { c.val = c.cbval + c.eo->op->val; c.updval = c.val; c.upd.value = c.updval.data(); c.upd.valuelen = c.updval.size(); c.upd.flags = flags; c.upd.expires = expires; *upd = &c.upd; }
    if (E->r.chance(E->p_yield)) sched_point(SP_PREEMPT, "entry");
}
int cb_iter(int shard, int64_t time, const void *key, size_t kl, const void *val, size_t vl, int64_t expires, uint32_t, uint64_t, void *ud) {
    Cur &c = *(Cur *)ud; std::string k = S_(key, kl), v = S_(val, vl);
    settle_pending(c);
    isolation(k, "visited");
    auto sd = E->shardof.find(k);
    if (sd == E->shardof.end()) { violation("iter-alien", "C16", "iteration visits key %s, which was never stored", esc(k).c_str()); return 0; }
    if (sd->second != shard) violation("iter-shard", "C16", "iteration visits key %s in shard %d instead of %d", esc(k).c_str(), shard, sd->second);
    if (c.eo->oneshard && shard != c.eo->shard) violation("iter-shard", "C16", "iteration over shard %d visits shard %d", c.eo->shard, shard);
    if (c.visited.count(k)) violation("iter-dup", "C16", "iteration visits key %s twice", esc(k).c_str());
    if (c.stopped) violation("iter-stop", "C16", "iteration continued after it was stopped");
    if (expires > 0 && expires <= time) violation("iter-expired", "C04,C16", "iteration visits expired key %s", esc(k).c_str());
    if (E->notify) { Sh &s = E->S[k]; if (!s.present || s.val != v) violation("notify-replay", TAG, "iteration sees key %s with \"%s\", but the notifications so far left %s", esc(k).c_str(), esc(v).c_str(), s.present ? ("\"" + esc(s.val) + "\"").c_str() : "nothing"); }
    c.visited[k] = v; int act = 0;
    if (E->r.chance(c.eo->pdel)) { act |= POGOCACHE_ITER_DELETE; c.deleted.insert(k); }
    if (E->r.chance(c.eo->pstop)) { act |= POGOCACHE_ITER_STOP; c.stopped = true; }
    if (E->r.chance(E->p_yield)) sched_point(SP_PREEMPT, "iter");
    return act;
}

void finish_op(Op *o, RSt st, const std::string &v = "") { o->resp = stamp(); o->done = true; o->res.st = st; o->res.s = v; W->nreplies++; std::string t = o->res.txt(); W->shape = mix64(W->shape * 31 + hash_bytes(t.data(), t.size()) + o->id); hmix(W->shape); logf("%s", o->txt().c_str()); }
Op *derived(Op *like, Kind k, const std::string &key) {
    Op *o = new_op(P_RESP, k); o->keys.push_back(key); o->sent = true; o->done = true; o->client = like->client; o->conn = -1; o->inv = like->inv; o->resp = K->now; o->seq = like->seq; return o;
}
bool absent_sometime(const std::string &k, u64 inv) { Sh &s = E->S[k]; return !s.present || s.since >= inv; }

void verify_held(size_t i, bool release) {
    Held h = E->held[i]; E->held.erase(E->held.begin() + i);      // nobody else releases it meanwhile
    char b[128]; size_t n; const void *p = pogocache_entry_key(E->c, h.e, &n, b); std::string k = S_(p, n); p = pogocache_entry_value(E->c, h.e, &n); std::string v = S_(p, n);
    if (k != h.key || v != h.val) violation("retained-changed", "C20", "a retained entry was key %s value \"%s\" and is now key %s value \"%s\"", esc(h.key).c_str(), esc(h.val).c_str(), esc(k).c_str(), esc(v).c_str());
    if (!release) { E->held.push_back(h); return; }
    if (--E->heldptr[(void *)h.e] == 0) E->heldptr.erase((void *)h.e);
    pogocache_entry_release(E->c, h.e);
}

void run_op(Th &t, EOp &e) {
    Cur &c = E->cur[tid()]; c = Cur(); c.eo = &e; c.kind = e.kind; Op *o = e.op;
    pogocache *pc = t.batch ? t.batch : E->c; bool inbatch = t.batch != 0;
    if (e.kind == E_BEGIN) {
        c.kind = -1; if (t.batch) return;
        E->inop[tid()] = 1; t.batch = pogocache_begin(E->c); E->inop[tid()] = 0;
        if (!t.batch && !K->fired[F_MALLOC]) violation("begin-failed", "C14", "pogocache_begin returned nothing"); logf("begin"); return;
    }
    if (e.kind == E_END) {
        c.kind = -1; if (!t.batch) return;
        logf("end");
        for (auto it = E->owner.begin(); it != E->owner.end();) if (it->second.first == tid()) it = E->owner.erase(it); else ++it;
        pogocache_end(t.batch); t.batch = 0; return;
    }
    if (e.kind == E_HELD) { c.kind = -1; if (!E->held.empty()) verify_held(e.rnd % E->held.size(), e.rnd & 1); return; }
    const std::string k = o->keys.empty() ? "" : o->keys[0]; c.key = k; c.val = o->val; c.lowmem = e.lowmem; c.keepttl = o->keepttl;
    size_t cnt0 = 0, sz0 = 0; u64 tot0 = 0; pogocache_size_opts so; memset(&so, 0, sizeof so); so.entriesonly = true;
    if (E->single) { cnt0 = pogocache_count(pc, 0); sz0 = pogocache_size(pc, &so); tot0 = pogocache_total(pc, 0); }
    o->sent = true; o->client = tid(); o->conn = tid(); o->seq = o->id; o->inv = c.inv = stamp(); i64 xt = e.xtime ? (i64)K->now : 0;
    E->inop[tid()] = 1; bool nomem = false; u64 nf0 = K->fired[F_MALLOC];
    switch (e.kind) {
    case E_STORE: {
        pogocache_store_opts so2; memset(&so2, 0, sizeof so2); so2.time = xt; so2.flags = o->flags; so2.nx = o->nx; so2.xx = o->xx; so2.keepttl = o->keepttl; so2.lowmem = e.lowmem; so2.casop = o->casop;
        if (o->ttlkind == 7) { so2.ttl = o->ttl; c.ttl = true; c.lo = c.inv + o->ttl; c.hi = ~0ull; }
        if (o->ttlkind == 6) { o->ttl = (i64)K->now + o->ttl; if (o->ttl < 1) o->ttl = 1; o->dlo = o->dhi = o->ttl; so2.expires = o->ttl; c.ttl = true; c.lo = c.hi = o->ttl; }
        if (o->casop) { auto &v = E->tok[k]; o->token = v.empty() || e.cas == 2 ? ~0ull - e.rnd % 5 : e.cas == 1 ? v[e.rnd % v.size()] : v.back(); so2.cas = o->token; }
        if (e.cb) { so2.entry = cb_store; so2.udata = &c; }
        int rc = pogocache_store(pc, k.data(), k.size(), o->val.data(), o->val.size(), e.nullopts ? 0 : &so2);
        E->inop[tid()] = 0; settle_pending(c);
        bool ok = rc == POGOCACHE_INSERTED || rc == POGOCACHE_REPLACED;
        o->get = e.cb && (ok || rc == POGOCACHE_CANCELED);
        if (rc == POGOCACHE_NOMEM) { nomem = true; E->nomem++; finish_op(o, R_ERR, "nomem"); bool why = K->fired[F_MALLOC] != nf0 || (e.lowmem && E->o.noevict); if (!why) violation("nomem", "C13", "store of key %s reports out of memory but no allocation failed", esc(k).c_str()); if (c.called) violation("nomem-callback", "C13", "a store that failed for lack of memory called back"); }
        else if (rc == POGOCACHE_CANCELED) { if (!c.called || e.cbret) violation("cancel", "C15", "store canceled but the callback %s", c.called ? "agreed" : "was not called"); o->kind = O_GET; finish_op(o, R_VAL, c.cbval); o->res.flags = c.cbflags; o->res.hasflags = true; if (E->o.usecas) { o->res.cas = c.cbcas; o->res.hascas = true; } }
        else if (ok) { if (c.called && !e.cbret) violation("cancel", "C15", "store went ahead although the callback refused"); if (e.cb) { if (rc == POGOCACHE_REPLACED ? !c.called : c.called) violation("callback", "C15", "store of key %s returned %d and its callback was %scalled", esc(k).c_str(), rc, c.called ? "" : "not "); finish_op(o, rc == POGOCACHE_REPLACED ? R_VAL : R_MISS, c.cbval); } else finish_op(o, R_OK); }
        else if (rc == POGOCACHE_FOUND) finish_op(o, R_EXISTS);
        else if (rc == POGOCACHE_NOTFOUND) finish_op(o, R_NOTFOUND);
        else violation("return", "C01", "store returned %d", rc);
        if (E->notify) {
            int wi = rc == POGOCACHE_INSERTED, wr = rc == POGOCACHE_REPLACED;
            if (c.ins != wi || c.rep != wr) violation("notify-count", TAG, "store of key %s returned %d with %d insert and %d replace notifications", esc(k).c_str(), rc, c.ins, c.rep);
            if (nomem && (c.del + c.evexp + c.evlow)) violation("notify-count", "C13", "a store that failed for lack of memory removed entries");
            if (c.evlow + c.evexp + c.del > 1 + (e.lowmem ? 1 : 0)) violation("notify-count", TAG, "store of key %s removed %d entries", esc(k).c_str(), c.evlow + c.evexp + c.del);
        }
        if (ok && E->single && e.lowmem && rc == POGOCACHE_INSERTED && E->nth == 1) { pogocache_count_opts co; memset(&co, 0, sizeof co); size_t n = pogocache_count(pc, 0); if (n > cnt0 && cnt0 >= (size_t)E->o.nshards + 64) {} (void)co; }
        break; }
    case E_LOAD: case E_UPDATE: {
        pogocache_load_opts lo; memset(&lo, 0, sizeof lo); lo.time = xt; lo.notouch = e.notouch; lo.entry = cb_load; lo.udata = &c;
        int rc = pogocache_load(pc, k.data(), k.size(), &lo); E->inop[tid()] = 0; settle_pending(c);
        if ((rc == POGOCACHE_NOTFOUND) == c.called || c.ncalls > 1) violation("callback", "C01", "load of key %s returned %d and called back %d times", esc(k).c_str(), rc, c.ncalls);
        if (rc == POGOCACHE_NOMEM) { nomem = true; E->nomem++; if (e.kind == E_LOAD || K->fired[F_MALLOC] == nf0) violation("nomem", "C13", "load of key %s reports out of memory but no allocation failed", esc(k).c_str()); if (c.rep) violation("notify-count", "C13", "an update that failed for lack of memory was notified"); o->kind = O_GET; finish_op(o, R_VAL, c.cbval); }
        else if (rc == POGOCACHE_FOUND) {
            if (e.kind == E_LOAD) { finish_op(o, R_VAL, c.cbval); if (E->o.usecas) { o->res.cas = c.cbcas; o->res.hascas = true; auto &v = E->tok[k]; if (v.empty() || v.back() != c.cbcas) v.push_back(c.cbcas); } o->res.flags = c.cbflags; o->res.hasflags = true; }
            else { Op *g = derived(o, O_GET, k); (void)g; g->sent = false; finish_op(o, R_OK); if (E->notify && c.rep != 1) violation("notify-count", TAG, "update of key %s was notified %d times", esc(k).c_str(), c.rep); }
            if (c.cbexp > 0 && c.cbexp <= (i64)o->inv) violation("load-expired", "C04", "load of key %s succeeds %lld ns after its deadline", esc(k).c_str(), (long long)((i64)o->inv - c.cbexp));
        } else if (rc == POGOCACHE_NOTFOUND) { if (e.kind == E_UPDATE) finish_op(o, R_NO); else finish_op(o, R_MISS); if (E->notify && !absent_sometime(k, c.inv)) violation("notify-replay", TAG, "load of key %s finds nothing, but by the notifications it exists", esc(k).c_str()); }
        else violation("return", "C01", "load returned %d", rc);
        if (E->notify && e.kind == E_LOAD && (c.ins || c.rep)) violation("notify-count", TAG, "load of key %s was notified as a change", esc(k).c_str());
        break; }
    case E_DELETE: {
        pogocache_delete_opts d; memset(&d, 0, sizeof d); d.time = xt; if (e.cb) { d.entry = cb_store; d.udata = &c; }
        int rc = pogocache_delete(pc, k.data(), k.size(), e.nullopts ? 0 : &d); E->inop[tid()] = 0;
        bool removed = c.pend && c.pdelok && !(E->evicted && false);
        (void)removed; int d0 = c.del; settle_pending(c); int plain = c.del - d0;
        if (rc == POGOCACHE_DELETED) { finish_op(o, R_INT); o->res.n = 1; if (e.cb && !e.nullopts && (!c.called || !e.cbret)) violation("cancel", "C15", "delete of key %s went ahead although its callback %s", esc(k).c_str(), c.called ? "refused" : "was not called"); if (E->notify && plain != 1) violation("notify-count", TAG, "delete of key %s was notified %d times", esc(k).c_str(), plain); }
        else if (rc == POGOCACHE_NOTFOUND) { finish_op(o, R_INT); o->res.n = 0; if (E->notify && !absent_sometime(k, c.inv)) violation("notify-replay", TAG, "delete of key %s finds nothing, but by the notifications it exists", esc(k).c_str()); if (E->notify && E->evicted && plain) violation("notify-count", TAG, "delete of an absent key %s was notified as deleted", esc(k).c_str()); }
        else if (rc == POGOCACHE_CANCELED) { o->kind = O_GET; finish_op(o, R_VAL, c.cbval); o->res.flags = c.cbflags; o->res.hasflags = true; if (E->o.usecas) { o->res.cas = c.cbcas; o->res.hascas = true; } if (!c.called || e.cbret) violation("cancel", "C15", "delete canceled without a refusal"); if (E->notify && (plain || c.evexp)) violation("notify-count", TAG, "a canceled delete of key %s was notified", esc(k).c_str()); }
        else violation("return", "C01", "delete returned %d", rc);
        break; }
    case E_ITER: {
        pogocache_iter_opts io; memset(&io, 0, sizeof io); io.time = xt; io.oneshard = e.oneshard; io.oneshardidx = e.shard; io.entry = cb_iter; io.udata = &c;
        int rc = pogocache_iter(pc, &io); E->inop[tid()] = 0; settle_pending(c);
        o->sent = false; o->resp = stamp();
        if (rc != (c.stopped ? POGOCACHE_CANCELED : POGOCACHE_FINISHED)) violation("return", "C16", "iter returned %d", rc);
        for (auto &kk : E->keys) {
            if (e.oneshard && E->shardof[kk] != e.shard) continue;
            auto v = c.visited.find(kk);
            if (v == c.visited.end()) { if (!c.stopped) { Op *x = derived(o, O_GET, kk); x->res.st = R_MISS; if (E->notify && !absent_sometime(kk, c.inv)) violation("iter-missed", "C16", "iteration missed key %s, which existed throughout", esc(kk).c_str()); } }
            else if (c.deleted.count(kk)) { Op *x = derived(o, O_DEL, kk); x->res.st = R_INT; x->res.n = 1; }
            else { Op *x = derived(o, O_GET, kk); x->res.st = R_VAL; x->res.s = v->second; }
        }
        W->nreplies++; W->shape = mix64(W->shape * 31 + c.visited.size() * 7 + c.deleted.size()); hmix(W->shape); logf("iter shard %d visited %zu deleted %zu%s", e.oneshard ? e.shard : -1, c.visited.size(), c.deleted.size(), c.stopped ? " stopped" : "");
        if (E->notify && E->evicted && c.del != (int)c.deleted.size()) violation("notify-count", TAG, "iteration deleted %zu entries with %d notifications", c.deleted.size(), c.del);
        break; }
    case E_SWEEP: {
        pogocache_sweep_opts so2; memset(&so2, 0, sizeof so2); so2.time = xt; so2.oneshard = e.oneshard; so2.oneshardidx = e.shard; size_t sw = 0, kp = 0;
        pogocache_sweep(pc, &sw, &kp, &so2); E->inop[tid()] = 0; settle_pending(c); o->sent = false; o->resp = stamp(); logf("sweep swept %zu kept %zu", sw, kp);
        if ((E->notify || E->evicted) && (size_t)(c.evexp + c.del) != sw) violation("sweep-count", TAG, "sweep reports %zu removed entries but notified %d", sw, c.evexp + c.del);
        if (E->single && !e.oneshard && sw + kp != cnt0) violation("sweep-count", "C18", "sweep of %zu entries reports %zu removed and %zu kept", cnt0, sw, kp);
        break; }
    case E_POLL: { pogocache_sweep_poll_opts po; memset(&po, 0, sizeof po); po.time = xt; po.pollsize = (int)(e.rnd % 30); double d = pogocache_sweep_poll(pc, &po); E->inop[tid()] = 0; settle_pending(c); o->sent = false; if (!(d >= 0 && d <= 1)) violation("poll", "C18", "sweep_poll returned %f", d); break; }
    case E_CLEAR: {
        pogocache_clear_opts co; memset(&co, 0, sizeof co); co.time = xt; co.oneshard = e.oneshard; co.oneshardidx = e.shard; co.deferfree = e.defer;
        pogocache_clear(pc, &co); E->inop[tid()] = 0; settle_pending(c); o->resp = stamp(); logf("clear shard %d defer %d", e.oneshard ? e.shard : -1, e.defer);
        o->sent = false;
        for (auto &kk : E->keys) if (!e.oneshard || E->shardof[kk] == e.shard) {
            Op *x = derived(o, O_DEL, kk); x->noreply = true; x->res.st = R_INT;
            if (E->notify && !absent_sometime(kk, c.inv)) violation("clear-left", "C17,C15", "clear left key %s, which existed before it", esc(kk).c_str());
        }
        if (E->notify && !E->evicted && false) {}
        break; }
    case E_COUNT: {
        size_t n = pogocache_count(pc, 0); pogocache_size(pc, 0); pogocache_total(pc, 0); pogocache_nshards(pc); E->inop[tid()] = 0; o->sent = false;
        if (n > E->keys.size()) violation("count", "C18", "count says %zu but only %zu keys were ever used", n, E->keys.size());
        break; }
    case E_EITER: {
        u64 cur = e.rnd % 3 ? 0 : E->r.next() >> (E->r.below(40)); int n = 0; std::set<std::string> seen; bool whole = cur == 0; std::vector<pogocache_entry *> es; o->sent = false;
        for (;;) {
            u64 inv = stamp(), cur0 = cur; pogocache_entry *x = pogocache_entry_iter(pc, xt ? (i64)inv : 0, &cur); settle_pending(c); u64 rs = stamp();
            if (!x) { if (cur != 0) violation("cursor", "C16", "the last call of entry_iter left cursor %llx", (unsigned long long)cur); break; }
            if (cur == 0 || cur == cur0) { violation("cursor", "C16", "entry_iter returned an entry with cursor %llx", (unsigned long long)cur); }
            char b[128]; size_t kl, vl; const void *p = pogocache_entry_key(E->c, x, &kl, b); std::string kk = S_(p, kl); p = pogocache_entry_value(E->c, x, &vl); std::string vv = S_(p, vl);
            if (!E->shardof.count(kk)) violation("iter-alien", "C16", "entry_iter returns key %s, which was never stored", esc(kk).c_str());
            else { Op *q = derived(o, O_GET, kk); q->inv = inv; q->resp = rs; q->res.st = R_VAL; q->res.s = vv; if (!seen.insert(kk).second && E->single) violation("iter-twice", "C16", "a walk with entry_iter returned key %s twice although nothing changed meanwhile", esc(kk).c_str()); }
            if (E->r.chance(0.3) && E->held.size() < 200) { E->heldptr[(void *)x]++; E->held.push_back(Held{ x, kk, vv }); }
            else pogocache_entry_release(E->c, x);
            if (++n > 3000) { violation("cursor", "C16", "entry_iter does not end"); break; }
            if (E->r.chance(c.eo->pstop)) { whole = false; break; }
        }
        E->inop[tid()] = 0; if (whole && E->single) for (auto &kk : E->keys) if (!seen.count(kk)) { Op *x = derived(o, O_GET, kk); x->res.st = R_MISS; }
        logf("entry_iter %d entries", n);
        break; }
    }
    E->inop[tid()] = 0;
    if (inbatch && !k.empty()) E->owner[k] = { tid(), K->now };
    else if (!k.empty()) { auto it = E->owner.find(k); if (it != E->owner.end() && it->second.first != tid() && it->second.second < c.inv) violation("batch-isolation", "C14", "thread %d completed %s of key %s while the batch of thread %d, which used it, was open all the time", tid(), ename[e.kind], esc(k).c_str(), it->second.first); }
    if (E->single) {
        size_t cnt = pogocache_count(pc, 0), sz = pogocache_size(pc, &so); u64 tot = pogocache_total(pc, 0);
        if (nomem && (cnt != cnt0 || tot != tot0 || sz != sz0)) violation("nomem-state", "C13,C18", "%s of key %s failed for lack of memory and changed count %zu->%zu, size %zu->%zu, total %llu->%llu", ename[e.kind], esc(k).c_str(), cnt0, cnt, sz0, sz, (unsigned long long)tot0, (unsigned long long)tot);
        if (E->notify) {
            size_t live = 0; for (auto &p : E->S) live += p.second.present;
            if (cnt != live) violation("count", "C18,C15", "after %s the count is %zu but %zu entries are live by the notifications", ename[e.kind], cnt, live);
            if (tot != tot0 + c.ins) violation("total", "C18", "%s changed the total from %llu to %llu with %d inserts", ename[e.kind], (unsigned long long)tot0, (unsigned long long)tot, c.ins);
        } else if (e.kind == E_STORE && o->res.st != R_OK && !o->get && tot != tot0) violation("total", "C18", "a store of key %s that stored nothing changed the total from %llu to %llu", esc(k).c_str(), (unsigned long long)tot0, (unsigned long long)tot);
    }
    c.kind = -1;
}
// Batches of different threads that take several shards take them in ascending
// order, so that they cannot wait for each other in a circle.
// Mostly a shard that exists; one that does not must make the call do nothing.
int anyshard(Rng &r) {
    int n = E->o.nshards; if (!r.chance(0.08)) return (int)r.below(n);
    static const int odd[] = { -1, INT_MIN, INT_MAX, 0, 1 }; int i = (int)r.below(5); return i < 3 ? odd[i] : n + odd[i];
}
int order_of(const EOp &e) {
    if (e.kind == E_HELD) return 0;
    if (e.op && !e.op->keys.empty()) return E->shardof[e.op->keys[0]];
    return e.oneshard ? e.shard : -1;
}
void order_batches(Th &t) {
    for (size_t i = 0; i < t.ops.size(); i++) {
        if (t.ops[i].kind != E_BEGIN) continue;
        size_t j = i + 1; while (j < t.ops.size() && t.ops[j].kind != E_END) { if (t.ops[j].kind == E_EITER) t.ops[j].rnd -= t.ops[j].rnd % 3, t.ops[j].rnd += 1; if (t.ops[j].kind == E_POLL) t.ops[j].kind = E_COUNT; j++; }
        std::stable_sort(t.ops.begin() + i + 1, t.ops.begin() + j, [](const EOp &a, const EOp &b) { return order_of(a) < order_of(b); });
        i = j;
    }
}
void *worker(void *a) {
    Th &t = *(Th *)a; if (E->ordered) order_batches(t);
    for (EOp &e : t.ops) {
        if (e.op && W->spec.mask.ops.count(e.op->id)) continue;
        if (!K->viol.empty()) break;
        run_op(t, e);
        if (e.rnd % 5 == 0) sched_point(SP_SYS, "op");
        if (e.rnd % 61 == 7) { u64 d = E->r.logrange(1000, 2 * SEC); block_on(W_SLEEP, g_cur, d); }
    }
    EOp end; end.kind = E_END; run_op(t, end);
    return 0;
}
// what the size accounting must be: a fresh cache holding the same entries
size_t fresh_size(pogocache *ref, const std::vector<std::pair<std::string, std::string>> &kv, const std::vector<std::pair<i64, u32>> &ex) {
    pogocache_clear(ref, 0);
    for (size_t i = 0; i < kv.size(); i++) { pogocache_store_opts so; memset(&so, 0, sizeof so); so.time = 1; so.expires = ex[i].first; so.flags = ex[i].second; pogocache_store(ref, kv[i].first.data(), kv[i].first.size(), kv[i].second.data(), kv[i].second.size(), &so); }
    pogocache_size_opts so; memset(&so, 0, sizeof so); so.entriesonly = true; return pogocache_size(ref, &so);
}
struct Dump { std::vector<std::pair<std::string, std::string>> kv; std::vector<std::pair<i64, u32>> ex; std::vector<int> sh; };
int cb_dump(int shard, int64_t, const void *key, size_t kl, const void *val, size_t vl, int64_t expires, uint32_t flags, uint64_t, void *ud) {
    Dump &d = *(Dump *)ud; d.kv.push_back({ S_(key, kl), S_(val, vl) }); d.ex.push_back({ expires, flags }); d.sh.push_back(shard); return 0;
}
void cb_shard(int shard, int64_t, const void *key, size_t kl, const void *, size_t, int64_t, uint32_t, uint64_t, pogocache_update **, void *) { E->shardof[S_(key, kl)] = shard; }

void *eng_main(void *) {
    K->faults_on = true; EOp dummy;
    // the reference cache finds out where keys live; it never sees faults
    pogocache_opts ro = E->o; ro.malloc = (void *(*)(size_t))sim_malloc; ro.free = sim_free; ro.notify = 0; ro.evicted = 0; ro.yield = 0;
    pogocache *ref = pogocache_new(&ro);
    for (auto &k : E->keys) { pogocache_store(ref, k.data(), k.size(), "", 0, 0); pogocache_load_opts lo; memset(&lo, 0, sizeof lo); lo.entry = cb_shard; pogocache_load(ref, k.data(), k.size(), &lo); }
    // creation may fail, and then must leave nothing
    for (int i = 0; i < E->newfails; i++) {
        E->inop[tid()] = 1; pogocache *x = pogocache_new(&E->o); E->inop[tid()] = 0;
        if (x) { if (E->c == 0 && i + 1 < E->newfails && E->r.chance(0.5)) { pogocache_free(x); } else { E->c = x; break; } }
        if (!E->live.empty()) { violation("new-leak", "C13", "pogocache_new failed and left %zu allocations", E->live.size()); break; }
    }
    if (!E->c) E->c = pogocache_new(&E->o);
    if (!E->c) { violation("new-failed", "C13", "pogocache_new failed without a failed allocation"); end_incarnation(0); }
    if (pogocache_nshards(E->c) != E->o.nshards) violation("nshards", "C18", "nshards is %d", pogocache_nshards(E->c));
    std::vector<Thr *> th; for (auto &t : E->th) th.push_back(thr_spawn(worker, &t, "worker"));
    for (Thr *t : th) while (t->st != T_DONE) block_on(W_JOIN, t, 0);
    K->faults_on = false;
    // ---- at rest
    if (K->viol.empty()) {
        Cur &c = E->cur[tid()]; EOp e; e.kind = E_ITER; c = Cur(); c.eo = &e; c.kind = E_ITER;
        Op *like = new_op(P_RESP, O_KEYS); like->inv = stamp(); like->client = tid(); like->seq = like->id;
        std::map<std::string, int> w0; bool walked = E->r.chance(0.7);
        if (walked) { // a cursor walk that meets expired entries
            u64 wc = 0; int n = 0; c.kind = E_EITER;
            for (;;) { pogocache_entry *x = pogocache_entry_iter(E->c, 0, &wc); if (!x) break; char b[128]; size_t kl; const void *p = pogocache_entry_key(E->c, x, &kl, b); w0[S_(p, kl)]++; pogocache_entry_release(E->c, x); if (++n > 5000) { violation("cursor", "C16", "entry_iter does not end"); break; } }
            settle_pending(c); c.kind = E_ITER;
        }
        Dump d; pogocache_iter_opts io; memset(&io, 0, sizeof io); io.entry = cb_dump; io.udata = &d; pogocache_iter(E->c, &io); settle_pending(c); c.kind = -1;
        like->resp = stamp();
        if (walked) {
            for (auto &p : w0) if (p.second != 1) violation("scan", "C16", "a cursor walk over a quiet cache returned key %s %d times", esc(p.first).c_str(), p.second);
            for (auto &x : d.kv) if (!w0.count(x.first)) violation("scan", "C16", "a cursor walk over a quiet cache missed key %s", esc(x.first).c_str());
        }
        std::map<std::string, std::string> got;
        for (size_t i = 0; i < d.kv.size(); i++) { if (!got.insert(d.kv[i]).second) violation("iter-dup", "C16", "at rest, iteration visits key %s twice", esc(d.kv[i].first).c_str()); if (!E->shardof.count(d.kv[i].first)) violation("iter-alien", "C16", "iteration visits key %s, which was never stored", esc(d.kv[i].first).c_str()); }
        for (auto &k : E->keys) { Op *x = derived(like, O_GET, k); x->inv = like->inv; x->resp = like->resp; auto it = got.find(k); if (it == got.end()) x->res.st = R_MISS; else { x->res.st = R_VAL; x->res.s = it->second; } }
        size_t n = pogocache_count(E->c, 0); pogocache_size_opts so; memset(&so, 0, sizeof so); so.entriesonly = true; size_t sz = pogocache_size(E->c, &so), fs = fresh_size(ref, d.kv, d.ex);
        if (n != d.kv.size()) violation("count", "C18", "at rest the count is %zu but %zu entries are stored", n, d.kv.size());
        if (sz != fs) violation("size", "C18", "at rest the entries take %zu bytes by the accounting, but a fresh cache with the same %zu entries takes %zu", sz, d.kv.size(), fs);
        u64 tot = pogocache_total(E->c, 0); size_t sumc = 0, sums = 0; u64 sumt = 0;
        for (int i = 0; i < E->o.nshards; i++) { pogocache_count_opts co; memset(&co, 0, sizeof co); co.oneshard = true; co.oneshardidx = i; sumc += pogocache_count(E->c, &co); pogocache_size_opts s2 = so; s2.oneshard = true; s2.oneshardidx = i; sums += pogocache_size(E->c, &s2); pogocache_total_opts t2; memset(&t2, 0, sizeof t2); t2.oneshard = true; t2.oneshardidx = i; sumt += pogocache_total(E->c, &t2); }
        for (int i : { -1, E->o.nshards, INT_MIN, INT_MAX }) { pogocache_count_opts co; memset(&co, 0, sizeof co); co.oneshard = true; co.oneshardidx = i; sumc += pogocache_count(E->c, &co); pogocache_size_opts s2 = so; s2.oneshard = true; s2.oneshardidx = i; sums += pogocache_size(E->c, &s2); pogocache_total_opts t2; memset(&t2, 0, sizeof t2); t2.oneshard = true; t2.oneshardidx = i; sumt += pogocache_total(E->c, &t2); }
        if (sumc != n || sums != sz || sumt != tot) violation("count", "C18", "the shards add up to count %zu size %zu total %llu instead of %zu %zu %llu", sumc, sums, (unsigned long long)sumt, n, sz, (unsigned long long)tot);
        if (E->notify) {
            if (tot != E->inserts) violation("total", "C18", "the total is %llu after %llu inserts", (unsigned long long)tot, (unsigned long long)E->inserts);
            for (auto &p : E->S) { auto it = got.find(p.first); if (p.second.present != (it != got.end()) || (p.second.present && p.second.val != it->second)) violation("notify-replay", TAG, "at rest the notifications leave key %s %s, but the cache has %s", esc(p.first).c_str(), p.second.present ? ("as \"" + esc(p.second.val) + "\"").c_str() : "absent", it == got.end() ? "nothing" : ("\"" + esc(it->second) + "\"").c_str()); }
            for (auto &p : got) if (!E->S[p.first].present) violation("notify-replay", TAG, "at rest the cache has key %s, which was never notified", esc(p.first).c_str());
        }
        // a full cursor walk over a quiet cache
        std::map<std::string, int> cnt; u64 cur = 0; int steps = 0; bool noexp = true; for (auto &x : d.ex) if (x.first) noexp = false;
        c.kind = E_EITER; for (;;) { pogocache_entry *x = pogocache_entry_iter(E->c, 0, &cur); if (!x) break; char b[128]; size_t kl; const void *p = pogocache_entry_key(E->c, x, &kl, b); cnt[S_(p, kl)]++; pogocache_entry_release(E->c, x); if (++steps > 5000) break; } settle_pending(c); c.kind = -1;
        if (noexp) { for (auto &p : got) if (cnt[p.first] != 1) violation("scan", "C16", "a full cursor walk over a quiet cache returned key %s %d times", esc(p.first).c_str(), cnt[p.first]); for (auto &p : cnt) if (!got.count(p.first)) violation("scan", "C16", "a cursor walk returned key %s, which does not exist", esc(p.first).c_str()); }
        // every lock is free, every key works
        for (auto &k : E->keys) { if (E->r.chance(0.8)) continue; c.kind = E_LOAD; c.key = k; pogocache_load(E->c, k.data(), k.size(), 0); settle_pending(c); c.kind = -1; }
        if (E->r.chance(0.6)) {       // empty it
            int how = (int)E->r.below(3); c.eo = &e;
            if (how == 0) { c.kind = E_CLEAR; pogocache_clear_opts co; memset(&co, 0, sizeof co); co.deferfree = E->r.chance(0.5); pogocache_clear(E->c, &co); }
            else if (how == 1) for (auto &k : E->keys) { c.kind = E_DELETE; c.key = k; pogocache_delete(E->c, k.data(), k.size(), 0); settle_pending(c); }
            else { c.kind = E_ITER; e.pdel = 1; c.deleted.clear(); c.visited.clear(); io.entry = cb_iter; io.udata = &c; pogocache_iter(E->c, &io); }
            settle_pending(c); c.kind = -1;
            sz = pogocache_size(E->c, &so); n = pogocache_count(E->c, 0);
            if (n || sz) violation("size-empty", "C18,C20", "an emptied cache reports %zu entries of %zu bytes", n, sz);
            if (E->notify) for (auto &p : E->S) if (p.second.present) violation("notify-replay", TAG, "emptying the cache never notified key %s", esc(p.first).c_str());
        }
        for (size_t i = 0, n = E->held.size(); i < n; i++) verify_held(0, false);
        while (!E->held.empty()) verify_held(0, true);
        E->finish = 1;
        pogocache_free(E->c); E->c = 0;
        if (!E->live.empty()) { size_t b = 0; for (auto &p : E->live) b += p.second; violation("leak", "C20,C13", "%zu allocations of %zu bytes are left after the cache was freed", E->live.size(), b); }
    }
    logf("engine run done"); probe("engine_nomem", E->nomem); end_incarnation(0); return 0;
}
u64 th64(const void *data, size_t len, u64 seed) {
    const unsigned char *p = (const unsigned char *)data, *e = p + len; u64 r = 0x14020a57acced8b7ull, x, h = seed;
    while (p + 8 <= e) { memcpy(&x, p, 8); x *= r; p += 8; x = x << 31 | x >> 33; h = h * r ^ x; h = h << 31 | h >> 33; }
    while (p < e) h = h * r ^ *(p++);
    return (h = h * r + len, h ^= h >> 31, h *= r, h ^= h >> 31, h *= r, h ^= h >> 31, h *= r, h);
}
bool is(const char *p) { return W->spec.prop == p; }
}

void engine_build(void) {
    Rng &r = W->rp; E = new Eng(); E->r.seed(W->spec.seed, 0xe9e); W->engine = eng_main; W->check_lin = true; W->cfg.cas = r.chance(0.5); W->lin_tag = "engine-lin";
    memset(&E->o, 0, sizeof E->o);
    static const int shs[] = { 1, 1, 1, 2, 3, 7, 16 };
    E->o.nshards = shs[r.below(7)]; E->o.usecas = W->cfg.cas; E->o.nosixpack = r.chance(0.3); E->o.noevict = r.chance(0.2); E->o.allowshrink = r.chance(0.6); E->o.usethreadbatch = r.chance(0.4);
    E->o.loadfactor = r.chance(0.3) ? 0 : 50 + (int)r.below(50); E->o.seed = r.chance(0.5) ? 0 : r.next(); E->o.udata = E; E->o.malloc = e_malloc; E->o.free = e_free;
    if (r.chance(0.3)) E->o.yield = e_yield;
    double x = r.unit(); E->notify = x < 0.65; E->evicted = x < 0.4 || (x > 0.65 && x < 0.8); if (is("C15")) { E->notify = x < 0.9; E->evicted = x < 0.6 || x > 0.9; }
    if (E->notify) E->o.notify = cb_notify; if (E->evicted) E->o.evicted = cb_evicted;
    E->nth = r.chance(is("C13") || is("C18") ? 0.6 : is("C14") ? 0.05 : 0.25) ? 1 : 2 + (int)r.below(3); E->single = E->nth == 1 && r.chance(0.9);
    E->p_retain = r.chance(is("C20") ? 0.9 : 0.4) ? 0.05 + 0.4 * r.unit() : 0; E->p_yield = r.chance(0.4) ? 0.3 : 0;
    K->q_mean = (double)r.logrange(3, 3000); K->lim.max_steps = 3000000; K->stall_max = MSEC;
    bool many = r.chance(is("C16") || is("C18") ? 0.5 : 0.25); int nk = many ? 40 + (int)r.below(260) : 1 + (int)r.below(10);
    bool collide = r.chance(0.04);
    if (collide) {
        E->o.nshards = 1; u64 mask = r.chance(0.5) ? 1023 : 4095; u64 home = r.below(mask + 1); int want = 100 + (int)r.below(260);
        for (int i = 0; (int)E->keys.size() < want && i < 4000000; i++) { std::string k = fmt("c%d", i); if ((th64(k.data(), k.size(), E->o.seed) & mask) == home) E->keys.push_back(k); }
        many = true;
    } else for (int i = 0; i < nk; i++) {
        std::string k = fmt("k%d", i); double y = r.unit();
        if (y < 0.1) { static const size_t ls[] = { 120, 126, 127, 128, 129, 130, 170, 171, 200, 300 }; size_t l = ls[r.below(10)]; while (k.size() < l) k += (char)('a' + r.below(25)); }
        else if (y < 0.2) { size_t l = 1 + r.below(20); while (l--) k += (char)r.below(256); }
        else if (y < 0.25) k += "QZz"; else if (y < 0.4) { size_t l = r.below(12); while (l--) k += "-.:_ABCXYabcxy0123456789"[r.below(24)]; }
        E->keys.push_back(k);
    }
    if (r.chance(0.03)) E->keys.push_back("");
    std::sort(E->keys.begin(), E->keys.end()); E->keys.erase(std::unique(E->keys.begin(), E->keys.end()), E->keys.end());
    for (auto &k : E->keys) W->keys.insert(k);
    bool mal = r.chance(is("C13") ? 0.9 : 0.15) && has_event(F_MALLOC);
    if (mal) { K->fault[F_MALLOC].p = (double)r.logrange(2, 400) / 1000.0; K->fault[F_MALLOC].budget = 1 + (int)r.below(200); E->newfails = r.chance(0.5) ? 1 + (int)r.below(6) : 0; }
    if (r.chance(0.3) && has_event(F_STALL)) { K->fault[F_STALL].p = 0.01; K->fault[F_STALL].budget = 50; }
    bool lowmem = r.chance(0.25), batch = r.chance(is("C14") ? 1 : 0.25), ttls = r.chance(0.6), multi = r.chance(0.8), clears = r.chance(is("C17") ? 0.95 : 0.5);
    double pstore = 0.25 + 0.3 * r.unit(), pdel = 0.05 + 0.25 * r.unit(); int nbt = 0;
    bool longrun = many;
    E->th.resize(E->nth);
    for (int t = 0; t < E->nth; t++) {
        Th &T = E->th[t]; T.id = t; T.batches = batch && (t == 0 || r.chance(0.7)); nbt += T.batches;
    }
    for (int t = 0; t < E->nth; t++) {
        Th &T = E->th[t]; int n = longrun ? 100 + (int)r.below(E->nth == 1 ? 900 : 300) : 10 + (int)r.below(80);
        bool inb = false; int left = 0; bool first = false; int fill = many && t == 0 ? (int)E->keys.size() : 0; size_t fi = 0;
        for (int i = 0; i < n || inb; i++) {
            EOp e; e.rnd = r.next() >> 8; e.xtime = r.chance(0.3); e.notouch = r.chance(0.3);
            if (T.batches && !inb && r.chance(0.2)) { e.kind = E_BEGIN; T.ops.push_back(e); inb = true; first = true; left = 1 + (int)r.below(6); continue; }
            if (inb && left-- <= 0) { e.kind = E_END; T.ops.push_back(e); inb = false; continue; }
            double y = r.unit(); bool multiok = !inb || first || nbt == 1 || E->o.nshards == 1;
            if (y < 0.08 && E->p_retain > 0) e.kind = E_HELD;
            else if (y < 0.2 && multi && multiok) { static const int m[] = { E_ITER, E_ITER, E_ITER, E_SWEEP, E_SWEEP, E_CLEAR, E_COUNT, E_EITER }; e.kind = m[r.below(8)]; if (e.kind == E_CLEAR && (!clears || r.chance(many ? 0.85 : 0.5))) e.kind = E_COUNT; if (r.chance(0.1) && (!inb || nbt == 1)) e.kind = E_POLL; if (many && e.kind == E_ITER && r.chance(0.7)) e.kind = E_LOAD; }
            else { double z = r.unit(); e.kind = z < pstore ? E_STORE : z < pstore + pdel ? E_DELETE : z < pstore + pdel + 0.12 ? E_UPDATE : E_LOAD; }
            if (fill > 0 && !inb) { e.kind = E_STORE; fill--; }
            if (inb && e.kind != E_HELD) first = false;
            Op *o = new_op(P_RESP, O_GET); e.op = o;
            if (e.kind == E_STORE || e.kind == E_LOAD || e.kind == E_UPDATE || e.kind == E_DELETE) o->keys.push_back(fill > 0 || (many && fi < E->keys.size() && r.chance(0.5)) ? E->keys[fi++ % E->keys.size()] : r.pick(E->keys));
            switch (e.kind) {
            case E_STORE: {
                o->kind = O_SET; o->val = fmt("v%d", o->id); double v = r.unit();
                if (v < 0.1) { static const size_t ls[] = { 150, 200, 210, 215, 220, 225, 230, 240, 255, 256, 300, 4000 }; size_t l = ls[r.below(12)] + r.below(8); while (o->val.size() < l) o->val += (char)('a' + o->val.size() % 26); }
                else if (v < 0.11) o->val += std::string(65400 + r.below(200), 'x'); else if (v < 0.15) o->val.clear();
                if (r.chance(0.3)) o->flags = r.chance(0.3) ? 0xffffffffu : (u32)r.below(1000);
                if (ttls && r.chance(0.4)) { if (r.chance(0.5)) { o->ttlkind = 7; o->ttl = (i64)r.logrange(1000, 5ull * SEC); if (r.chance(0.2)) o->ttl = INT64_MAX - (i64)r.below(3); } else { o->ttlkind = 6; o->ttl = r.chance(0.1) ? -(i64)r.below(1000) - 1 : (i64)r.logrange(100, 5ull * SEC); } }
                double z = r.unit(); if (z < 0.1) o->nx = true; else if (z < 0.2) o->xx = true; else if (z < 0.35 && r.chance(0.6)) { o->casop = true; e.cas = (int)r.below(4); } else if (z < 0.5) { e.cb = true; e.cbret = r.chance(0.6); }
                if (!o->ttlkind && r.chance(0.2)) o->keepttl = true;
                e.lowmem = lowmem && r.chance(0.3);
                if (r.chance(0.05)) { e.nullopts = true; o->flags = 0; o->ttlkind = 0; o->nx = o->xx = o->casop = o->keepttl = false; e.cb = false; e.lowmem = false; }
                if (e.lowmem && !E->o.noevict) W->lossy = true;
                break; }
            case E_UPDATE: o->kind = O_APPEND; o->proto = P_MC; o->val = fmt("<%d>", o->id); break;
            case E_DELETE: o->kind = O_DEL; if (r.chance(0.3)) { e.cb = true; e.cbret = r.chance(0.6); } else if (r.chance(0.2)) e.nullopts = true; break;
            case E_ITER: e.pdel = r.chance(0.4) ? 0.3 * r.unit() : 0; if (r.chance(0.1)) e.pdel = 1; e.pstop = r.chance(0.2) ? 0.05 : 0; e.oneshard = r.chance(0.3); e.shard = anyshard(r); break;
            case E_EITER: e.pstop = r.chance(0.4) ? 0.1 : 0; break;
            case E_SWEEP: case E_CLEAR: e.oneshard = r.chance(0.4); e.shard = anyshard(r); e.defer = r.chance(0.5); break;
            default: break;
            }
            if (e.kind == E_HELD) e.op = 0;
            T.ops.push_back(e);
        }
    }
    E->ordered = nbt > 1 && E->o.nshards > 1;
    W->note = fmt("engine threads=%d shards=%d keys=%zu cas=%d notify=%d evicted=%d threadbatch=%d", E->nth, E->o.nshards, E->keys.size(), E->o.usecas, E->notify, E->evicted, E->o.usethreadbatch);
}
