// Commands, their encodings in four protocols, reply parsing, and the
// sequential key-value model with a linearizability checker.
#pragma once
#include "core.h"

enum Proto { P_RESP, P_MC, P_HTTP, P_PG, P_N };
extern const char *proto_name[P_N];

enum Kind {
    O_SET, O_GET, O_MGET, O_MGETS, O_DEL, O_EXISTS, O_TOUCH, O_TTL, O_PTTL, O_EXPIRE,
    O_INCR, O_APPEND, O_PREPEND,
    O_DBSIZE, O_KEYS, O_SCAN, O_FLUSH, O_SAVE, O_LOAD, O_SWEEP, O_STATS, O_PING, O_ECHO, O_VERSION,
    O_AUTH, O_PURGE, O_DETACH, O_QUIT, O_SELECT, O_UNKNOWN, O_STARTUP, O_MONITOR, O_RAW, O_PSTMT
};
extern const char *kind_name[];

enum RSt { R_NONE, R_OK, R_NO, R_EXISTS, R_NOTFOUND, R_VAL, R_MISS, R_INT, R_UINT, R_ERR, R_LIST, R_LOST };
struct Res {
    RSt st = R_NONE;
    std::string s; i64 n = 0; u64 u = 0;
    u32 flags = 0; bool hasflags = false; u64 cas = 0; bool hascas = false;
    bool hasdl = false; u64 dlo = 0, dhi = 0;   // observed deadline (dhi 0: none)
    std::vector<Res> sub;                 // per key (MGET), or listed keys (s)
    std::string txt() const;
};

struct Op {
    int id = 0, client = -1, conn = -1, seq = 0; Proto proto = P_RESP; Kind kind = O_PING;
    std::vector<std::string> keys; std::string val;
    // SET
    u32 flags = 0; int ttlkind = 0;       // 0 none, 1 EX, 2 PX, 3 EXAT, 4 PXAT, 5 SETEX
    i64 ttl = 0; bool nx = false, xx = false, get = false, keepttl = false;
    bool casop = false; u64 token = 0; bool token_from_key = false;  // resolved when sent
    // INCR
    bool decr = false, uns = false, by = false; i64 delta = 1; u64 udelta = 1;
    // FLUSH / SAVE / LOAD / SWEEP
    bool async = false, fast = false; i64 delay = 0; std::string path;
    u64 cursor = 0, count = 0; std::string pattern = "*";
    bool denied = false; int authbad = 0; // sent without authorisation; malformed AUTH
    std::string auth;                     // HTTP per-request password
    bool noreply = false; bool inl = false; bool ext = false; mutable bool noparse = false; mutable int ndesc = 0, nsync = 1; std::map<std::string, std::string> *stmts = 0; // inline RESP, extended Postgres
    std::string raw;                      // O_RAW bytes
    int rawreplies = 1;
    u64 dlo = 0, dhi = 0;                 // ttlkind 6: absolute deadline; 7: relative, ns
    // result
    u64 inv = 0, resp = 0; bool sent = false, done = false; Res res;
    u64 think = 0;
    std::string txt() const;
};

std::string encode(const Op &o);
std::vector<std::string> argv_of(const Op &o);
std::string pgmsg(char t, const std::string &b); std::string be32(u32 x); std::string be16(u32 x);
// bytes consumed, 0 = incomplete, -1 = malformed for this command
long parse_reply(const Op &o, const char *p, size_t n, Res &r, bool eof, std::string &why);
std::string esc(const std::string &s, size_t max = 80);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
bool glob(const char *p, size_t pn, const char *s, size_t sn);

// ---------------------------------------------------------------- model
struct KState {
    bool present = false; std::string val; u32 flags = 0;
    u64 lo = 0, hi = 0; bool ttl = false;     // deadline interval
    u64 since = 0;                            // evictions before this time do not matter
    bool casknown = false; u64 cas = 0; std::vector<u64> old;
    u64 h() const;
    std::string txt() const;
};
struct KOp {
    const Op *op = 0; Kind kind; u64 inv, resp; int conn, order; bool must; // must: took effect
    Res res; bool known;                 // outcome known
    std::string key;
};
struct ModelCfg { bool cas = false; bool lossy = false; const std::vector<std::pair<u64, u64>> *windows = 0; // when entries may be evicted (0: always)
 i64 wall_minus_boot = 0; std::vector<std::pair<u64, i64>> jumps; };   // jumps: time, wall - boot from then on
struct WglResult { bool ok; bool undecided; u64 states; std::string why; std::vector<KState> finals; };
// Check one key's history; initial states given.
WglResult wgl(const std::vector<KOp> &ops, const std::vector<KState> &init, const ModelCfg &cfg, u64 limit, bool want_finals);
// Split operations into per-key histories
void split(const std::vector<Op *> &ops, const std::set<std::string> &keys, std::map<std::string, std::vector<KOp>> &out, const ModelCfg &cfg);
bool parse_i64s(const std::string &s, i64 *v);
bool parse_u64s(const std::string &s, u64 *v);
