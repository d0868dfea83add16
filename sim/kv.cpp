#include "kv.h"
#include <stdarg.h>
#include <stdlib.h>
#include <errno.h>
#include <unordered_set>

const char *proto_name[P_N] = { "resp", "memcache", "http", "postgres" };
const char *kind_name[] = {
    "SET", "GET", "MGET", "MGETS", "DEL", "EXISTS", "TOUCH", "TTL", "PTTL", "EXPIRE", "INCR", "APPEND", "PREPEND",
    "DBSIZE", "KEYS", "SCAN", "FLUSH", "SAVE", "LOAD", "SWEEP", "STATS", "PING", "ECHO", "VERSION",
    "AUTH", "PURGE", "DETACH", "QUIT", "SELECT", "UNKNOWN", "STARTUP", "MONITOR", "RAW", "PSTMT"
};
std::string fmt(const char *f, ...) { char b[16384]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
std::string esc(const std::string &s, size_t max) {
    std::string o;
    for (size_t i = 0; i < s.size() && i < max; i++) { unsigned char c = s[i]; if (c < 32 || c >= 127 || c == '\\') o += fmt("\\x%02x", c); else o += c; }
    if (s.size() > max) o += fmt("...(%zu)", s.size());
    return o;
}
std::string Res::txt() const {
    switch (st) {
    case R_NONE: return "none"; case R_OK: return "OK"; case R_NO: return "not-stored"; case R_EXISTS: return "EXISTS";
    case R_NOTFOUND: return "NOT_FOUND"; case R_MISS: return "(miss)"; case R_INT: return fmt("%lld", (long long)n);
    case R_UINT: return fmt("%llu", (unsigned long long)u); case R_ERR: return "ERR " + esc(s); case R_LOST: return "(lost)";
    case R_VAL: return "\"" + esc(s, 40) + "\"" + (hasflags ? fmt(" fl=%u", flags) : "") + (hascas ? fmt(" cas=%llu", (unsigned long long)cas) : "");
    case R_LIST: { std::string o = "["; for (auto &x : sub) o += x.txt() + " "; return o + "]"; }
    }
    return "?";
}
std::string Op::txt() const {
    std::string o = fmt("op%d c%d/conn%d %s %s", id, client, conn, proto_name[proto], kind_name[kind]);
    if (kind == O_INCR) o += fmt("%s%s %s", uns ? "U" : "", decr ? "-" : "+", uns ? fmt("%llu", (unsigned long long)udelta).c_str() : fmt("%lld", (long long)delta).c_str());
    for (auto &k : keys) o += " " + esc(k, 30);
    if (kind == O_SET || kind == O_APPEND || kind == O_PREPEND) o += " \"" + esc(val, 30) + "\"";
    if (flags) o += fmt(" flags=%u", flags);
    if (ttlkind || kind == O_EXPIRE) o += fmt(" ttl%d=%lld", ttlkind, (long long)ttl);
    if (nx) o += " NX"; if (xx) o += " XX"; if (get) o += " GET"; if (keepttl) o += " KEEPTTL";
    if (casop) o += fmt(" CAS=%llu", (unsigned long long)token);
    if (!path.empty()) o += " " + path;
    if (async) o += " ASYNC"; if (fast) o += " FAST"; if (delay) o += fmt(" DELAY %lld", (long long)delay);
    if (noreply) o += " noreply";
    o += fmt(" [%.6f..%.6f]", inv / 1e9, resp / 1e9) + (done ? " -> " + res.txt() : sent ? " -> pending" : " unsent");
    return o;
}
bool parse_i64s(const std::string &s, i64 *v) {
    if (s.empty() || s.size() > 20) return false;
    for (size_t i = 0; i < s.size(); i++) if (!(s[i] >= '0' && s[i] <= '9') && !(i == 0 && s[i] == '-' && s.size() > 1)) return false;
    errno = 0; char *e; long long x = strtoll(s.c_str(), &e, 10); if (errno || *e) return false; *v = x; return true;
}
bool parse_u64s(const std::string &s, u64 *v) {
    if (s.empty() || s.size() > 20) return false;
    for (char c : s) if (c < '0' || c > '9') return false;
    errno = 0; char *e; unsigned long long x = strtoull(s.c_str(), &e, 10); if (errno || *e) return false; *v = x; return true;
}
bool glob(const char *p, size_t pn, const char *s, size_t sn) {
    std::vector<char> at(sn + 1, 0), nx; at[0] = 1;     // the lengths of the text which the pattern so far matches
    for (size_t i = 0; i < pn; i++) {
        nx.assign(sn + 1, 0);
        if (p[i] == '*') { bool any = false; for (size_t j = 0; j <= sn; j++) { any = any || at[j]; nx[j] = any; } }
        else {
            bool esc = p[i] == '\\'; if (esc && ++i == pn) return false;
            for (size_t j = 0; j < sn; j++) if (at[j] && ((!esc && p[i] == '?') || p[i] == s[j])) nx[j + 1] = 1;
        }
        at.swap(nx);
    }
    return at[sn];
}

// ---------------------------------------------------------------- encoding
static std::vector<std::string> argv0(const Op &o);
// Names of commands and options in any case.
std::vector<std::string> argv_of(const Op &o) {
    std::vector<std::string> a = argv0(o);
    if (a.empty() || (o.proto == P_RESP && o.inl) || o.kind == O_RAW) return a;
    u64 h = mix64((u64)o.id * 977 + 5);
    auto low = [&](std::string &s) { int k = h % 4; h = mix64(h); if (k < 2) return; for (size_t i = 0; i < s.size(); i++) { if (k == 2 || (h >> (i % 60) & 1)) s[i] = (char)tolower((unsigned char)s[i]); } };
    low(a[0]);
    if (o.kind == O_FLUSH || o.kind == O_SWEEP || o.kind == O_PURGE) for (size_t i = 1; i < a.size(); i++) low(a[i]);
    if (o.kind == O_SAVE || o.kind == O_LOAD) for (size_t i = 1; i < a.size(); i++) { if (i == 1 && !o.path.empty()) { low(a[i]); i++; continue; } low(a[i]); }
    return a;
}
static std::vector<std::string> argv0(const Op &o) {
    std::vector<std::string> a;
    auto num = [](i64 x) { return fmt("%lld", (long long)x); };
    switch (o.kind) {
    case O_SET:
        if (o.ttlkind == 5) { a = { "SETEX", o.keys[0], num(o.ttl), o.val }; break; }
        a = { "SET", o.keys[0], o.val };
        {
            std::vector<std::pair<std::string, std::string>> v;
            if (o.nx) v.push_back({ "NX", "" }); if (o.xx) v.push_back({ "XX", "" }); if (o.get) v.push_back({ "GET", "" }); if (o.keepttl) v.push_back({ "KEEPTTL", "" });
            if (o.ttlkind) { static const char *t[] = { "", "EX", "PX", "EXAT", "PXAT" }; v.push_back({ t[o.ttlkind], num(o.ttl) }); }
            if (o.flags) v.push_back({ "FLAGS", num(o.flags) });
            if (o.casop) v.push_back({ "CAS", fmt("%llu", (unsigned long long)o.token) });
            u64 h = mix64((u64)o.id * 31 + 7); bool in = o.proto == P_RESP && o.inl;
            if (h & 1) for (size_t i = v.size(); i > 1; i--) { std::swap(v[i - 1], v[(h >> (i * 4)) % i]); }
            for (auto &p : v) { std::string s = p.first; if (!in && (h >> 40) % 3 == 0) for (char &c : s) c = (char)tolower((unsigned char)c); a.push_back(s); if (!p.second.empty()) a.push_back(p.second); }
        }
        break;
    case O_GET: a = { "GET", o.keys[0] }; break;
    case O_MGET: a = { "MGET" }; for (auto &k : o.keys) a.push_back(k); break;
    case O_MGETS: a = { "MGETS" }; for (auto &k : o.keys) a.push_back(k); break;
    case O_DEL: a = { "DEL" }; for (auto &k : o.keys) a.push_back(k); break;
    case O_EXISTS: a = { "EXISTS" }; for (auto &k : o.keys) a.push_back(k); break;
    case O_TOUCH: a = { "TOUCH" }; for (auto &k : o.keys) a.push_back(k); break;
    case O_TTL: a = { "TTL", o.keys[0] }; break;
    case O_PTTL: a = { "PTTL", o.keys[0] }; break;
    case O_EXPIRE: a = { "EXPIRE", o.keys[0], num(o.ttl) }; break;
    case O_INCR: {
        std::string c = std::string(o.uns ? "U" : "") + (o.decr ? "DECR" : "INCR") + (o.by ? "BY" : "");
        a = { c, o.keys[0] };
        if (o.by) a.push_back(o.uns ? fmt("%llu", (unsigned long long)o.udelta) : num(o.delta));
        break; }
    case O_APPEND: a = { "APPEND", o.keys[0], o.val }; break;
    case O_PREPEND: a = { "PREPEND", o.keys[0], o.val }; break;
    case O_DBSIZE: a = { "DBSIZE" }; break;
    case O_KEYS: a = { "KEYS", o.pattern }; break;
    case O_SCAN: a = { "SCAN", fmt("%llu", (unsigned long long)o.cursor) };
        if (o.count && o.id % 2) { a.push_back("COUNT"); a.push_back(num(o.count)); }
        if (o.pattern != "*") { a.push_back("MATCH"); a.push_back(o.pattern); }
        if (o.id % 7 == 3) { a.push_back("TYPE"); a.push_back("string"); }
        if (o.count && !(o.id % 2)) { a.push_back("COUNT"); a.push_back(num(o.count)); } break;
    case O_FLUSH: a = { o.id % 3 == 0 ? "FLUSHDB" : o.id % 3 == 1 ? "FLUSHALL" : "FLUSH" }; if (o.async) a.push_back("ASYNC"); else if (o.id % 2) a.push_back("SYNC");
        if (o.fast) a.push_back("FAST"); if (o.delay) { a.push_back("DELAY"); a.push_back(num(o.delay)); } break;
    case O_SAVE: a = { "SAVE" }; if (!o.path.empty()) { a.push_back("TO"); a.push_back(o.path); } if (o.fast) a.push_back("FAST"); break;
    case O_LOAD: a = { "LOAD" }; if (!o.path.empty()) { a.push_back("FROM"); a.push_back(o.path); } if (o.fast) a.push_back("FAST"); break;
    case O_SWEEP: a = { "SWEEP" }; if (o.async) a.push_back("ASYNC"); if (o.fast) a.push_back("FAST"); break;
    case O_STATS: a = { "STATS" }; break;
    case O_PING: a = { "PING" }; if (!o.val.empty()) a.push_back(o.val); break;
    case O_ECHO: a = { "ECHO", o.val }; break;
    case O_VERSION: a = { "VERSION" }; break;
    case O_AUTH: a = { "AUTH", o.val }; if (o.authbad == 1) a.push_back(o.val); else if (o.authbad == 2) a.pop_back(); else if (o.authbad == 3) { a.insert(a.begin() + 1, "default"); a.push_back("x"); } break;
    case O_PURGE: a = { "PURGE" }; if (o.async) a.push_back("ASYNC"); break;
    case O_DETACH: a = { "DEBUG", "DETACH" }; break;
    case O_QUIT: a = { "QUIT" }; break;
    case O_SELECT: if (o.proto == P_PG && o.id % 4) { a = { o.id % 4 == 1 ? "BEGIN" : o.id % 4 == 2 ? "ROLLBACK" : "COMMIT" }; break; } a = { "SELECT", "0" }; break;
    case O_UNKNOWN: a = { "NOSUCH" + fmt("%d", o.id % 10), "x" }; if (o.proto == P_PG && o.id % 3 == 0) a = { "::nosuch", "DEL", "k0", "k1" }; break;
    case O_MONITOR: a = { "MONITOR" }; break;
    default: break;
    }
    return a;
}
std::string be32(u32 x) { std::string s; s += (char)(x >> 24); s += (char)(x >> 16); s += (char)(x >> 8); s += (char)x; return s; }
std::string be16(u32 x) { std::string s; s += (char)(x >> 8); s += (char)x; return s; }
std::string pgmsg(char t, const std::string &b) { return std::string(1, t) + be32(b.size() + 4) + b; }
static std::string quote_sql(const std::string &s, bool force) {
    bool plain = !s.empty() && !force; 
    for (char c : s) if (!(isalnum((unsigned char)c) || c == '_' || c == ':' || c == '.' || c == '-' || c == '*')) plain = false;
    if (plain && (s[0] == 'e' || s[0] == 'E') ) plain = false;
    if (plain && s[0] == ':') plain = false;
    if (plain) return s;
    std::string o = "'"; for (char c : s) { if (c == '\'') o += "''"; else o += c; } return o + "'";
}
static int decoy_of(const Op &o) { return o.ext && mix64((u64)o.id * 13 + 1) % 6 == 0; }
// An escape string: E'...' with backslashes.
static std::string quote_esc(const std::string &s, u64 h) {
    std::string o = h & 1 ? "E'" : "e'";
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i]; h = mix64(h + 1); static const char raw[] = "\\'\n\r\t\b\f\"/", nam[] = "\\'nrtbf\"/";
        const char *q = c ? strchr(raw, c) : 0;
        if (q && (c == '\\' || c == '\'' || h % 4)) { o += '\\'; o += nam[q - raw]; continue; }
        u32 cp = c; size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
        if (n > 1) { cp = c & (0xff >> (n + 1)); for (size_t j = 1; j < n; j++) { unsigned char d = i + j < s.size() ? s[i + j] : 0; if ((d & 0xc0) != 0x80) { n = 0; break; } cp = cp << 6 | (d & 63); } }
        static const u32 least[] = { 0, 0, 0x80, 0x800, 0x10000 };
        if (!n || cp < least[n] || (cp >= 0xd800 && cp < 0xe000) || cp > 0x10ffff || h % (n > 1 ? 2 : 20)) { o += (char)c; continue; }
        if (cp < 0x10000) o += fmt(h & 64 ? "\\u%04x" : "\\u%04X", cp); else o += fmt("\\u%04x\\u%04X", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + (cp & 0x3ff));
        i += n - 1;
    }
    return o + "'";
}
static bool ssl_asked(const Op &o) { return o.kind == O_STARTUP && o.id > 0 && mix64(o.id * 57 + 5) % 4 == 3; }
std::string encode(const Op &o) {
    if (o.kind == O_RAW) return o.raw;
    if (o.proto == P_RESP) {
        auto a = argv_of(o);
        if (o.inl) {
            std::string s;
            for (size_t i = 0; i < a.size(); i++) {
                if (i) s += mix64(o.id * 67 + i) % 9 ? " " : "  \t ";
                bool plain = !a[i].empty();
                for (unsigned char c : a[i]) if (c <= ' ' || c == '"' || c == '\'' || c == '\\' || c >= 127) plain = false;
                if (plain) { s += a[i]; continue; }
                u64 h = mix64(o.id * 61 + i); char qt = h % 3 ? '"' : '\''; if (h % 7 == 0 && a[i].size() > 1 && a[i][0] > ' ' && a[i][0] < 127 && a[i][0] != '"' && a[i][0] != '\'' && a[i][0] != '\\') { s += a[i][0]; a[i].erase(0, 1); }   // quotes may begin inside a word
                s += qt;
                for (char c : a[i]) { if (c == '\n') s += "\\n"; else if (c == '\r') s += "\\r"; else if (c == '\t' && h & 64) s += "\\t"; else if (c == qt || c == '\\') { s += '\\'; s += c; } else s += c; }
                s += qt;
            }
            return s + (o.id % 3 ? "\r\n" : "\n");
        }
        std::string s = fmt("*%zu\r\n", a.size());
        for (auto &x : a) { s += fmt("$%zu\r\n", x.size()); s += x; s += "\r\n"; }
        return s;
    }
    if (o.proto == P_MC) {
        std::string nr = o.noreply ? " noreply" : "", nl = mix64(o.id * 59 + 1) % 6 ? "\r\n" : "\n";   // a line feed is enough
        switch (o.kind) {
        case O_SET: { std::string c = o.casop ? "cas" : o.nx ? "add" : o.xx ? "replace" : "set";
            std::string s = c + " " + o.keys[0] + fmt(" %u %lld %zu", o.flags, (long long)(o.ttlkind ? o.ttl : 0), o.val.size());
            if (o.casop) s += fmt(" %llu", (unsigned long long)o.token);
            return s + nr + nl + o.val + "\r\n"; }
        case O_APPEND: return "append " + o.keys[0] + fmt(" 0 0 %zu", o.val.size()) + nr + nl + o.val + "\r\n";
        case O_PREPEND: return "prepend " + o.keys[0] + fmt(" 0 0 %zu", o.val.size()) + nr + nl + o.val + "\r\n";
        case O_GET: case O_MGET: { std::string s = "get"; for (auto &k : o.keys) s += " " + k; return s + nl; }
        case O_MGETS: { std::string s = "gets"; for (auto &k : o.keys) s += " " + k; return s + nl; }
        case O_DEL: return "delete " + o.keys[0] + nr + nl;
        case O_INCR: return std::string(o.decr ? "decr " : "incr ") + o.keys[0] + fmt(" %llu", (unsigned long long)o.udelta) + nr + nl;
        case O_EXPIRE: return "touch " + o.keys[0] + fmt(" %lld", (long long)o.ttl) + nr + nl;
        case O_FLUSH: return "flush_all" + (o.delay ? fmt(" %lld", (long long)o.delay) : std::string()) + nr + nl;
        case O_STATS: return "stats\r\n";
        case O_VERSION: return "version\r\n";
        case O_QUIT: return "quit\r\n";
        case O_UNKNOWN: return "nosuch x\r\n";
        default: return "";
        }
    }
    if (o.proto == P_HTTP) {
        u64 h = mix64(o.id * 91 + 7); std::vector<std::string> hs = { "Host: x" }; std::vector<std::string> qs;
        if (h % 5 == 0) hs.push_back("Accept: */*"); if (h % 7 == 0) hs.push_back("X-Empty:"); if (h % 11 == 0) hs.push_back("X-Long: " + std::string(10 + h % 900, 'h')); if (h % 13 == 0) hs.push_back("Connection: keep-alive"); if (h % 17 == 0) hs.push_back("Connection: close"); if (h % 19 == 0) hs.push_back("X-Content-Length: 3: 4");
        if (!o.auth.empty()) { if (o.id % 2) hs.push_back("Authorization: Bearer " + o.auth); else qs.push_back("auth=" + o.auth); }
        auto add = [&](const std::string &x) { qs.push_back(x); };
        std::string m = o.kind == O_SET ? "PUT" : o.kind == O_DEL ? "DELETE" : "GET";
        if (o.kind == O_SET) {
            if (o.nx) add(h % 3 ? "nx=1" : "nx"); if (o.xx) add(h % 3 ? "xx=1" : "xx"); if (o.ttlkind) add(fmt("%s=%lld", o.id % 2 ? "ttl" : "ex", (long long)o.ttl));
            if (o.flags) add(fmt("flags=%u", o.flags)); if (o.casop) add(fmt("cas=%llu", (unsigned long long)o.token));
            if (!o.val.empty() || h & 16384) hs.push_back(fmt(h & 4096 ? "Content-Length: %zu" : h & 8192 ? "content-length:%zu" : "CONTENT-LENGTH:   %zu", o.val.size()));
        }
        if (h % 23 == 0) add("other=1"); if (h % 29 == 0) add("z");
        auto mix = [&](std::vector<std::string> &v) { for (size_t i = v.size(); i > 1; i--) { h = mix64(h); std::swap(v[i - 1], v[h % i]); } }; mix(hs); mix(qs);
        std::string hdr, q; for (auto &x : hs) hdr += x + "\r\n"; for (auto &x : qs) { if (!q.empty()) q += "&"; q += x; } if (!q.empty() && h % 6 == 0) q += "&";
        return m + " /" + (o.keys.empty() ? "" : o.keys[0]) + (q.empty() ? "" : "?" + q) + (h % 31 == 0 ? " HTTP/1.0\r\n" : " HTTP/1.1\r\n") + hdr + "\r\n" + (o.kind == O_SET ? o.val : "");
    }
    // Postgres
    if (o.kind == O_STARTUP) {
        std::string b = be32(0x30000); b += "user"; b += '\0'; b += "sim"; b += '\0'; b += "database"; b += '\0'; b += "x"; b += '\0';
        u64 h = mix64(o.id * 57 + 5); if (h & 1) b += std::string("client_encoding\0UTF8\0", 21); if (h & 2) b += std::string("application_name\0sim test\0", 26); if (h & 4) b += std::string("options\0\0", 9);
        b += '\0';
        return (ssl_asked(o) ? be32(8) + be32(80877103) : "") + be32(b.size() + 4) + b;
    }
    if (o.kind == O_AUTH) return pgmsg('p', o.val + std::string(1, '\0'));
    if (o.kind == O_QUIT) return pgmsg('X', "");
    auto a = argv_of(o);
    if (mix64(o.id * 53 + 2) % 12 == 0 && a[0][0] != ':') a.insert(a.begin(), mix64(o.id) & 1 ? "::bytea" : mix64(o.id) & 2 ? "::TEXT" : "::text");
    if (!o.ext) {
        std::string s; for (size_t i = 0; i < a.size(); i++) { if (i) s += ' '; s += i == 0 ? a[i] : mix64(o.id * 31 + i) % 5 == 0 && a[i].size() < 20000 ? quote_esc(a[i], mix64(o.id * 33 + i)) : quote_sql(a[i], (o.id + i) % 2 == 0); }
        if (o.id % 3 == 0) s += ";";
        return pgmsg('Q', s + std::string(1, '\0'));
    }
    o.ndesc = 0; o.nsync = 1;
    // A request which fails part way: the server skips everything up to the Sync, the statement or portal of that name from before is not run.
    if (o.kind == O_UNKNOWN && o.stmts && mix64(o.id * 71 + 9) % 4) {
        u64 h = mix64(o.id * 73 + 9); std::string z(1, '\0'), st, po, bind = be16(0) + be16(0) + be16(0); auto &m = *o.stmts;
        std::vector<std::string> had; for (auto &p : m) if (p.first[0] == '\1') had.push_back(p.first.substr(1));
        if (!had.empty()) { st = had[(h >> 8) % had.size()]; bind = m["\1" + st]; po = m["\2" + st]; probe("pg_failed_reuse"); }
        static const char *bad[] = { "SET $1 \"x\"", "GET $$k$$", "DEL 'k", "SET $1 $3", "FLUSH; PING", "GET $0" };
        int v = h % 10; std::string long_(64 + h % 9, 'n'), P = pgmsg('P', st + z + "NOSUCH 'x'" + z + be16(0)), B = pgmsg('B', po + z + st + z + bind), E = pgmsg('E', po + z + be32(0));
        if (v < 6) P = pgmsg('P', st + z + bad[v] + z + be16(0));
        else if (v == 6) { P = ""; B = pgmsg('B', po + z + st + z + be16(1) + be16(2) + be16(0) + be16(0)); }
        else if (v == 7) { P = ""; B = pgmsg('B', long_ + z + st + z + bind); }
        else if (v == 8) P = pgmsg('P', long_ + z + "PING" + z + be16(0));
        else { P = pgmsg('D', "Snone" + z); }
        std::string D = h >> 20 & 1 && !P.empty() ? pgmsg('D', "S" + st + z) : ""; probe("pg_failed_part");
        return P + D + B + E + (h >> 21 & 1 ? B + E : "") + pgmsg('S', "");
    }
    // Parameters in any order, some arguments in the text, joined parts, named portals, formats, a statement that is not executed.
    u64 h = mix64(o.id * 77 + 3); std::string sql = a[0]; std::vector<std::string> ps; std::vector<std::pair<size_t, size_t>> parts;
    for (size_t i = 1; i < a.size(); i++) {
        h = mix64(h); size_t cut = h % 11 == 0 && a[i].size() > 1 ? 1 + (h >> 8) % (a[i].size() - 1) : a[i].size(); bool lit = a[i].find('\0') == std::string::npos && h % 7 == 0;
        if (lit) { sql += " " + (h & 256 && a[i].size() < 20000 ? quote_esc(a[i], h) : quote_sql(a[i], true)); continue; }
        sql += fmt(" $<%zu>", ps.size()); ps.push_back(a[i].substr(0, cut)); if (cut < a[i].size()) { sql += fmt("$<%zu>", ps.size()); ps.push_back(a[i].substr(cut)); }
    }
    std::vector<size_t> perm(ps.size()), at(ps.size()); for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
    if (h % 3 == 0) for (size_t i = perm.size(); i > 1; i--) { h = mix64(h); std::swap(perm[i - 1], perm[h % i]); }
    std::string s2; size_t at0 = 0;                  // number the parameters
    for (size_t i = 0; i < ps.size(); i++) { at[perm[i]] = i; std::string m = fmt("$<%zu>", i); size_t q = sql.find(m, at0); s2 += sql.substr(at0, q - at0) + fmt("$%zu", perm[i] + 1); at0 = q + m.size(); }
    sql = s2 + sql.substr(at0); std::string bind; for (size_t i = 0; i < ps.size(); i++) { const std::string &v = ps[at[i]]; bind += be32(v.size()) + v; }
    size_t np = ps.size(); std::string z(1, '\0'), st = o.id % 2 ? a[0] + fmt("%d", o.id % 4) : "", po = o.id % 5 == 1 ? fmt("p%d", o.id % 3) : "", types, forms = be16(0), res = be16(0), decoy;
    h = mix64(h); if (h % 3 == 0) { types = be16(np); for (size_t i = 0; i < np; i++) types += be32(25); } else types = be16(0);
    if (h >> 8 & 1) forms = be16(1) + be16(h >> 9 & 1); else if (h >> 10 & 1) { forms = be16(np); for (size_t i = 0; i < np; i++) forms += be16(h >> (11 + i % 20) & 1); }
    if (h >> 40 & 1) res = be16(1) + be16(0);
    if (decoy_of(o)) decoy = pgmsg('P', "zz" + z + "DEL $1" + z + be16(0)) + pgmsg('B', "zp" + z + "zz" + z + be16(0) + be16(1) + be32(2) + "zk" + be16(0));
    if (o.stmts && !st.empty()) { auto &had = (*o.stmts)[st]; o.noparse = had == sql && h >> 41 & 1; had = sql; if (o.noparse) probe("stmt_reused"); }
    if (o.stmts && !a.empty()) { (*o.stmts)["\1" + st] = forms + be16(np) + bind + res; (*o.stmts)["\2" + st] = po; }
    std::string desc; h = mix64(h); if (h % 4 == 0) { desc = pgmsg('D', "S" + st + z); o.ndesc = np + 1; } if (!o.noparse && h >> 8 & 1 && h >> 9 & 1) { desc += pgmsg('S', ""); o.nsync = 2; }
    return (o.noparse ? "" : pgmsg('P', st + z + sql + z + types)) + desc + decoy + pgmsg('B', po + z + st + z + forms + be16(np) + bind + res) + (h >> 10 & 3 ? "" : pgmsg('D', "P" + po + z)) + pgmsg('E', po + z + be32(h >> 12 & 1)) + pgmsg('S', "");
}

// ---------------------------------------------------------------- replies
struct RV { char t = 0; std::string s; bool null = false; std::vector<RV> a; };
static long rv_parse(const char *p, size_t n, RV &v, int depth, std::string &why) {
    const char *nl = (const char *)memchr(p, '\n', n);
    if (n == 0) return 0;
    if (!strchr("+-:$*", p[0])) { why = fmt("reply starts with byte 0x%02x", (unsigned char)p[0]); return -1; }
    if (!nl) { if (n > 65536) { why = "unterminated reply line"; return -1; } return 0; }
    if (nl == p || nl[-1] != '\r') { why = "reply line not ended by CRLF"; return -1; }
    std::string line(p + 1, nl - 1);
    long used = nl + 1 - p;
    if (line.find('\r') != std::string::npos) { why = "bare CR inside reply line"; return -1; }
    v.t = p[0];
    if (v.t == '+' || v.t == '-') { v.s = line; return used; }
    i64 x; if (!parse_i64s(line, &x)) { why = "bad number in reply: " + esc(line); return -1; }
    if (v.t == ':') { v.s = line; return used; }
    if (v.t == '$') {
        if (x == -1) { v.null = true; return used; }
        if (x < 0) { why = "negative bulk length"; return -1; }
        if (n < (size_t)used + x + 2) return 0;
        if (p[used + x] != '\r' || p[used + x + 1] != '\n') { why = "bulk reply not followed by CRLF"; return -1; }
        v.s.assign(p + used, x); return used + x + 2;
    }
    if (x < 0 || depth > 4) { why = "bad array"; return -1; }
    for (i64 i = 0; i < x; i++) {
        RV e; long k = rv_parse(p + used, n - used, e, depth + 1, why);
        if (k <= 0) return k;
        used += k; v.a.push_back(e);
    }
    return used;
}
static long parse_resp_reply(const Op &o, const char *p, size_t n, Res &r, std::string &why) {
    RV v; long k = rv_parse(p, n, v, 0, why); if (k <= 0) return k;
    auto bad = [&](const char *m) -> long { why = fmt("unexpected reply type '%c' (%s) for %s: %s", v.t, m, kind_name[o.kind], esc(v.s).c_str()); return -1; };
    if (v.t == '-') { r.st = R_ERR; r.s = v.s; return k; }
    auto isint = [&](RV &x) { i64 q; return x.t == ':' && parse_i64s(x.s, &q); };
    switch (o.kind) {
    case O_SET:
        if (o.get) { if (v.t != '$') return bad("want bulk"); if (v.null) r.st = R_MISS; else { r.st = R_VAL; r.s = v.s; } return k; }
        if (v.t == '+' && v.s == "OK") r.st = R_OK; else if (v.t == '$' && v.null) r.st = R_NO; else return bad("want OK or null");
        return k;
    case O_GET: if (v.t != '$') return bad("want bulk"); if (v.null) r.st = R_MISS; else { r.st = R_VAL; r.s = v.s; } return k;
    case O_MGET: case O_MGETS:
        if (v.t != '*' || v.a.size() != o.keys.size()) return bad("want array of keys");
        r.st = R_LIST;
        for (auto &e : v.a) {
            Res s;
            if (e.t == '$' && e.null) s.st = R_MISS;
            else if (o.kind == O_MGET) { if (e.t != '$') return bad("element"); s.st = R_VAL; s.s = e.s; }
            else {
                if (e.t != '*' || e.a.size() != 3 || e.a[0].t != '+' || e.a[1].t != '+' || e.a[2].t != '$' || e.a[2].null) return bad("element");
                u64 f, c; if (!parse_u64s(e.a[0].s, &f) || !parse_u64s(e.a[1].s, &c)) return bad("number");
                s.st = R_VAL; s.s = e.a[2].s; s.flags = f; s.hasflags = true; s.cas = c; s.hascas = true;
            }
            r.sub.push_back(s);
        }
        return k;
    case O_DEL: case O_EXISTS: case O_TOUCH: case O_TTL: case O_PTTL: case O_EXPIRE: case O_APPEND: case O_PREPEND: case O_DBSIZE:
        if (!isint(v)) return bad("want integer"); r.st = R_INT; parse_i64s(v.s, &r.n); return k;
    case O_INCR:
        if (o.uns) { if (v.t != '+' || !parse_u64s(v.s, &r.u)) return bad("want unsigned"); r.st = R_UINT; return k; }
        if (!isint(v)) return bad("want integer"); r.st = R_INT; parse_i64s(v.s, &r.n); return k;
    case O_KEYS: if (v.t != '*') return bad("want array"); r.st = R_LIST; for (auto &e : v.a) { if (e.t != '$' || e.null) return bad("element"); Res s; s.s = e.s; r.sub.push_back(s); } return k;
    case O_SCAN: {
        if (v.t != '*' || v.a.size() != 2 || v.a[0].t != '$' || v.a[1].t != '*' || !parse_u64s(v.a[0].s, &r.u)) return bad("want [cursor,[keys]]");
        r.st = R_LIST; for (auto &e : v.a[1].a) { if (e.t != '$' || e.null) return bad("element"); Res s; s.s = e.s; r.sub.push_back(s); } return k; }
    case O_STATS: if (v.t != '*') return bad("want array"); r.st = R_LIST;
        for (auto &e : v.a) { if (e.t != '*' || e.a.size() != 2) return bad("element"); Res s; s.s = e.a[0].s; Res s2; s2.s = e.a[1].s; s.sub.push_back(s2); r.sub.push_back(s); } return k;
    case O_PING: if (o.val.empty() ? (v.t != '+' || v.s != "PONG") : (v.t != '$' || v.s != o.val)) return bad("want PONG"); r.st = R_OK; return k;
    case O_ECHO: case O_DETACH: if (v.t != '$' || v.null) return bad("want bulk"); r.st = R_VAL; r.s = v.s; return k;
    case O_FLUSH: case O_SAVE: case O_LOAD: case O_SWEEP: case O_AUTH: case O_PURGE: case O_QUIT: case O_SELECT: case O_MONITOR:
        if (v.t != '+' || v.s != "OK") return bad("want OK"); r.st = R_OK; return k;
    case O_VERSION: if (v.t != '+') return bad("want string"); r.st = R_OK; r.s = v.s; return k;
    case O_UNKNOWN: return bad("want error");
    default: r.st = R_OK; return k;
    }
}
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static long parse_mc_reply(const Op &o, const char *p, size_t n, Res &r, std::string &why) {
    size_t off = 0;
    auto line = [&](std::string &l) -> long {
        const char *nl = (const char *)memchr(p + off, '\n', n - off);
        if (!nl) { if (n - off > 65536) { why = "unterminated line"; return -1; } return 0; }
        if (nl == p + off || nl[-1] != '\r') { why = "line not ended by CRLF: " + esc(std::string(p + off, nl)); return -1; }
        l.assign(p + off, nl - 1); off = nl + 1 - p; return 1;
    };
    std::string l; long k = line(l); if (k <= 0) return k;
    auto bad = [&]() -> long { why = fmt("unexpected memcache reply to %s: \"%s\"", kind_name[o.kind], esc(l).c_str()); return -1; };
    if (l == "ERROR" || starts(l, "CLIENT_ERROR ") || starts(l, "SERVER_ERROR ")) { r.st = R_ERR; r.s = l; return off; }
    switch (o.kind) {
    case O_SET: r.st = l == "STORED" ? R_OK : l == "NOT_STORED" ? R_NO : l == "EXISTS" ? R_EXISTS : l == "NOT_FOUND" ? R_NOTFOUND : R_NONE; if (r.st == R_NONE) return bad(); return off;
    case O_APPEND: case O_PREPEND: r.st = l == "STORED" ? R_OK : l == "NOT_STORED" ? R_NO : R_NONE; if (r.st == R_NONE) return bad(); return off;
    case O_DEL: if (l == "DELETED") { r.st = R_INT; r.n = 1; } else if (l == "NOT_FOUND") { r.st = R_INT; r.n = 0; } else return bad(); return off;
    case O_EXPIRE: if (l == "TOUCHED") { r.st = R_INT; r.n = 1; } else if (l == "NOT_FOUND") { r.st = R_INT; r.n = 0; } else return bad(); return off;
    case O_INCR: if (l == "NOT_FOUND") { r.st = R_NOTFOUND; return off; } if (!parse_u64s(l, &r.u)) return bad(); r.st = R_UINT; return off;
    case O_FLUSH: if (l != "OK") return bad(); r.st = R_OK; return off;
    case O_VERSION: if (!starts(l, "VERSION ")) return bad(); r.st = R_OK; return off;
    case O_GET: case O_MGET: case O_MGETS: {
        std::map<std::string, Res> got;
        while (l != "END") {
            char key[600]; unsigned fl; unsigned long long len, cas = 0; int used = 0;
            bool ok;
            if (o.kind == O_MGETS) ok = sscanf(l.c_str(), "VALUE %599s %u %llu %llu%n", key, &fl, &len, &cas, &used) == 4;
            else ok = sscanf(l.c_str(), "VALUE %599s %u %llu%n", key, &fl, &len, &used) == 3;
            if (!ok || (size_t)used != l.size()) return bad();
            if (n - off < len + 2) return 0;
            Res s; s.st = R_VAL; s.s.assign(p + off, len); s.flags = fl; s.hasflags = true;
            if (o.kind == O_MGETS) { s.cas = cas; s.hascas = true; }
            if (p[off + len] != '\r' || p[off + len + 1] != '\n') { why = "value not followed by CRLF"; return -1; }
            off += len + 2; got[key] = s;
            k = line(l); if (k <= 0) return k;
        }
        r.st = R_LIST; std::set<std::string> uniq(o.keys.begin(), o.keys.end());
        for (auto &g : got) if (!uniq.count(g.first)) { why = "value for a key not asked: " + esc(g.first); return -1; }
        for (auto &kk : o.keys) { auto it = got.find(kk); Res s; if (it == got.end()) s.st = R_MISS; else s = it->second; r.sub.push_back(s); }
        if (o.kind == O_GET) { Res s = r.sub[0]; r = s; }
        return off; }
    case O_STATS: r.st = R_LIST;
        while (l != "END") {
            if (!starts(l, "STAT ")) return bad();
            size_t sp = l.find(' ', 5); if (sp == std::string::npos) return bad();
            Res s, v; s.s = l.substr(5, sp - 5); v.s = l.substr(sp + 1); s.sub.push_back(v); r.sub.push_back(s);
            k = line(l); if (k <= 0) return k;
        }
        return off;
    default: return bad();
    }
}
static long parse_http_reply(const Op &o, const char *p, size_t n, Res &r, std::string &why) {
    std::string s(p, n); size_t h = s.find("\r\n\r\n");
    if (n >= 9 && !starts(s, "HTTP/1.1 ")) { why = "not an HTTP response: " + esc(s.substr(0, 40)); return -1; }
    if (h == std::string::npos) { if (n > 100000) { why = "endless header"; return -1; } return 0; }
    int code = atoi(s.c_str() + 9);
    size_t c = s.find("Content-Length: "); if (c == std::string::npos || c > h) { why = "no content length"; return -1; }
    size_t len = strtoull(s.c_str() + c + 16, 0, 10);
    if (n < h + 4 + len) return 0;
    std::string body = s.substr(h + 4, len);
    long used = h + 4 + len;
    auto bad = [&]() -> long { why = fmt("unexpected HTTP reply to %s: %d \"%s\"", kind_name[o.kind], code, esc(body).c_str()); return -1; };
    if (code == 401) { r.st = R_ERR; r.s = "401"; return used; }
    if (code == 500 || code == 400 || code == 405) { r.st = R_ERR; r.s = body; return used; }
    if (o.kind == O_GET) { if (code == 200) { r.st = R_VAL; r.s = body; } else if (code == 404) r.st = R_MISS; else return bad(); return used; }
    if (o.kind == O_SET) { if (code == 200 && body == "Stored\r\n") r.st = R_OK; else if (code == 404) r.st = R_NO; else return bad(); return used; }
    if (o.kind == O_DEL) { r.st = R_INT; if (code == 200 && body == "Deleted\r\n") r.n = 1; else if (code == 404) r.n = 0; else return bad(); return used; }
    if (o.kind == O_RAW) { r.st = R_OK; r.s = body; return used; }
    return bad();
}
static u32 rd32(const char *p) { return ((u32)(unsigned char)p[0] << 24) | ((u32)(unsigned char)p[1] << 16) | ((u32)(unsigned char)p[2] << 8) | (unsigned char)p[3]; }
static long parse_pg_reply(const Op &o, const char *p, size_t n, Res &r, std::string &why) {
    size_t off = 0; std::string tag, errm; bool err = false, authok = false; int stage = 0;
    std::vector<std::vector<std::string>> rows; bool gotC = false; int parsed = 0, bound = 0, ready = 0;
    if (ssl_asked(o)) { if (!n) return 0; if (p[0] != 'N') { why = "bad answer to SSLRequest"; return -1; } off = 1; }
    for (;;) {
        if (n - off < 5) return 0;
        char t = p[off]; u32 len = rd32(p + off + 1);
        if (!strchr("TDCZE12RSINt", t) || len < 4 || len > (64u << 20)) { why = fmt("bad postgres message '%c'(0x%02x) len %u", t, (unsigned char)t, len); return -1; }
        if (n - off < 1 + (size_t)len) return 0;
        const char *b = p + off + 5; size_t bl = len - 4; off += 1 + len;
        if (t == 'Z') { if (bl != 1 || b[0] != 'I') { why = "bad ReadyForQuery"; return -1; } if (++ready < (o.ext ? o.nsync : 1)) continue; break; }
        else if (t == 'R') { if (bl != 4) { why = "bad auth message"; return -1; } u32 c = rd32(b); if (c == 3) { r.st = R_NO; return off; } if (c == 0) authok = true; }
        else if (t == 'S') {}
        else if (t == '1') parsed++;
        else if (t == '2') bound++;
        else if (t == 'I') {}
        else if (t == 't') { if (!o.ndesc || bl != 2 + 4 * (size_t)(o.ndesc - 1) || (((unsigned char)b[0] << 8) | (unsigned char)b[1]) != o.ndesc - 1) { why = "bad ParameterDescription"; return -1; } }
        else if (t == 'T') {}
        else if (t == 'D') {
            int nc = ((unsigned char)b[0] << 8) | (unsigned char)b[1]; size_t q = 2; std::vector<std::string> row;
            for (int i = 0; i < nc; i++) { if (q + 4 > bl) { why = "torn DataRow"; return -1; } u32 l = rd32(b + q); q += 4; if (l == 0xffffffffu) { row.push_back(""); continue; } if (q + l > bl) { why = "torn DataRow"; return -1; } row.push_back(std::string(b + q, l)); q += l; }
            if (q != bl) { why = "DataRow length mismatch"; return -1; }
            rows.push_back(row);
        }
        else if (t == 'C') { if (gotC) { why = "two CommandComplete"; return -1; } gotC = true; tag = std::string(b, bl ? bl - 1 : 0); }
        else if (t == 'E') { err = true; for (size_t i = 0; i + 1 < bl;) { char f = b[i]; if (!f) break; std::string s(b + i + 1); if (f == 'M') errm = s; i += s.size() + 2; } }
        (void)stage;
    }
    if (o.kind == O_STARTUP || o.kind == O_AUTH) { if (authok) { r.st = R_OK; return off; } if (err) { r.st = R_ERR; r.s = errm; return off; } why = "no AuthenticationOk"; return -1; }
    if (o.ext && !err && (parsed != !o.noparse + decoy_of(o) || bound != 1 + decoy_of(o))) { why = "missing ParseComplete/BindComplete"; return -1; }
    if (err) { if (gotC || (o.ext && o.kind == O_UNKNOWN && !rows.empty())) { why = "error and completion"; return -1; } r.st = R_ERR; r.s = errm; return off; }
    if (o.kind == O_RAW) { r.st = R_OK; r.s = tag; return off; }
    if (!gotC) { why = "no CommandComplete"; return -1; }
    auto bad = [&]() -> long { why = fmt("unexpected postgres reply to %s: tag \"%s\" rows %zu", kind_name[o.kind], esc(tag).c_str(), rows.size()); return -1; };
    auto tagnum = [&](i64 *x) { size_t sp = tag.rfind(' '); return sp != std::string::npos && parse_i64s(tag.substr(sp + 1), x); };
    auto one = [&](i64 *x) { return rows.size() == 1 && rows[0].size() == 1 && parse_i64s(rows[0][0], x); };
    i64 x;
    switch (o.kind) {
    case O_SET:
        if (o.get) { if (rows.size() == 1 && rows[0].size() == 1) { r.st = R_VAL; r.s = rows[0][0]; } else if (rows.empty()) r.st = R_MISS; else return bad(); return off; }
        if (!tagnum(&x) || !rows.empty()) return bad(); r.st = x == 1 ? R_OK : R_NO; return off;
    case O_GET: if (rows.size() > 1 || !tagnum(&x) || x != (i64)rows.size()) return bad(); if (rows.empty()) r.st = R_MISS; else { r.st = R_VAL; r.s = rows[0][0]; } return off;
    case O_MGET: case O_MGETS: {
        std::map<std::string, Res> got; size_t w = o.kind == O_MGET ? 2 : 4;
        for (auto &row : rows) { if (row.size() != w) return bad(); Res s; s.st = R_VAL; s.s = row[w - 1]; if (w == 4) { u64 f, c; if (!parse_u64s(row[1], &f) || !parse_u64s(row[2], &c)) return bad(); s.flags = f; s.hasflags = true; s.cas = c; s.hascas = true; } got[row[0]] = s; }
        if (!tagnum(&x) || x != (i64)rows.size()) return bad();
        r.st = R_LIST; for (auto &kk : o.keys) { auto it = got.find(kk); Res s; if (it == got.end()) s.st = R_MISS; else s = it->second; r.sub.push_back(s); }
        for (auto &g : got) if (std::find(o.keys.begin(), o.keys.end(), g.first) == o.keys.end()) return bad();
        return off; }
    case O_DEL: case O_TOUCH: case O_EXPIRE: case O_APPEND: case O_PREPEND: if (!tagnum(&x) || !rows.empty()) return bad(); r.st = R_INT; r.n = x; return off;
    case O_EXISTS: case O_DBSIZE: if (!one(&x)) return bad(); r.st = R_INT; r.n = x; return off;
    case O_TTL: case O_PTTL: if (rows.empty()) { r.st = R_INT; r.n = -2; } else if (one(&x)) { r.st = R_INT; r.n = x; } else return bad(); return off;
    case O_INCR: if (rows.size() != 1 || rows[0].size() != 1) return bad(); if (o.uns) { if (!parse_u64s(rows[0][0], &r.u)) return bad(); r.st = R_UINT; } else { if (!parse_i64s(rows[0][0], &r.n)) return bad(); r.st = R_INT; } return off;
    case O_KEYS: if (!tagnum(&x) || x != (i64)rows.size()) return bad(); r.st = R_LIST; for (auto &row : rows) { Res s; s.s = row[0]; r.sub.push_back(s); } return off;
    case O_SCAN: if (!tagnum(&x) || x != (i64)rows.size()) return bad(); r.st = R_LIST; for (auto &row : rows) { Res s; s.s = row[0]; if (row.size() != 2 || !parse_u64s(row[1], &r.u)) return bad(); r.sub.push_back(s); } return off;
    case O_STATS: r.st = R_LIST; for (auto &row : rows) { if (row.size() != 2) return bad(); Res s, v; s.s = row[0]; v.s = row[1]; s.sub.push_back(v); r.sub.push_back(s); } return off;
    case O_ECHO: case O_DETACH: if (rows.size() != 1) return bad(); r.st = R_VAL; r.s = rows[0][0]; return off;
    case O_PING: if (rows.size() != 1 || rows[0][0] != (o.val.empty() ? "PONG" : o.val)) return bad(); r.st = R_OK; return off;
    case O_VERSION: if (rows.size() != 1) return bad(); r.st = R_OK; return off;
    case O_UNKNOWN: return bad();
    default: r.st = R_OK; return off;
    }
}
long parse_reply(const Op &o, const char *p, size_t n, Res &r, bool eof, std::string &why) {
    (void)eof;
    if (n == 0) return 0;
    switch (o.proto) {
    case P_RESP: return parse_resp_reply(o, p, n, r, why);
    case P_MC: return parse_mc_reply(o, p, n, r, why);
    case P_HTTP: return parse_http_reply(o, p, n, r, why);
    default: return parse_pg_reply(o, p, n, r, why);
    }
}

// ---------------------------------------------------------------- model
// Long values eight bytes at a time.
static u64 hash_val(const std::string &v) {
    size_t n = v.size(), i = 0; if (n < 256) return hash_bytes(v.data(), n);
    u64 a = n * 0x9e3779b97f4a7c15ull, b = ~a, x, y;
    for (; i + 16 <= n; i += 16) { memcpy(&x, v.data() + i, 8); memcpy(&y, v.data() + i + 8, 8); a = (a ^ x) * 0xff51afd7ed558ccdull; a ^= a >> 29; b = (b ^ y) * 0xc4ceb9fe1a85ec53ull; b ^= b >> 31; }
    return mix64(a * 3 + b) ^ hash_bytes(v.data() + i, n - i);
}
u64 KState::h() const {
    u64 x = present ? hash_val(val) : 5;
    x = mix64(x * 31 + flags); x = mix64(x * 31 + (ttl ? lo * 7 + hi : 3)); x = mix64(x * 31 + (casknown ? cas * 2 + 1 : 0));
    if (since) x = mix64(x * 31 + since);
    for (u64 o : old) x = mix64(x * 31 + o);
    return x;
}
std::string KState::txt() const {
    if (!present) return "absent";
    return "\"" + esc(val, 40) + "\"" + (flags ? fmt(" fl=%u", flags) : "") + (ttl ? fmt(" dl=[%.6f,%.6f]", lo / 1e9, hi / 1e9) : "") + (casknown ? fmt(" cas=%llu", (unsigned long long)cas) : "");
}
static void modified(KState &s) {
    if (s.casknown) { s.old.insert(std::lower_bound(s.old.begin(), s.old.end(), s.cas), s.cas); s.casknown = false; }
}
static u64 clampadd(u64 a, i64 b) { if (b < 0) { u64 m = (u64)(-b); return a > m ? a - m : 0; } u64 r = a + (u64)b; if (r < a || r > 0x7fffffffffffffffull) return 0x7fffffffffffffffull; return r; }
static i64 clampmul(i64 a, i64 b) { i64 r; if (__builtin_mul_overflow(a, b, &r)) return a < 0 ? INT64_MIN : INT64_MAX; return r; }
static void setdl(KState &s, const KOp &k, i64 ns) { s.ttl = true; s.lo = clampadd(k.inv, ns); s.hi = clampadd(k.resp == ~0ull ? 0x3fffffffffffffffull : k.resp, ns); }
// a wall clock time, converted with the offset the clocks had while the operation ran
static void setabs(KState &s, const KOp &k, u64 wall, const ModelCfg &cfg) {
    i64 a = cfg.wall_minus_boot, b = a;
    if (!cfg.jumps.empty()) {
        a = INT64_MAX; b = INT64_MIN;
        for (size_t i = 0; i < cfg.jumps.size(); i++) {
            u64 from = cfg.jumps[i].first, to = i + 1 < cfg.jumps.size() ? cfg.jumps[i + 1].first : ~0ull;
            if (to < k.inv || from > k.resp) continue;
            a = std::min(a, cfg.jumps[i].second); b = std::max(b, cfg.jumps[i].second);
        }
    }
    auto at = [&](i64 off) -> u64 { return wall > (u64)off ? wall - (u64)off : 0; };
    u64 w = 50 * MSEC + (k.resp == ~0ull ? 100 * SEC : k.resp - k.inv), lo = at(b), hi = at(a);
    s.ttl = true; s.lo = lo > w ? lo - w : 0; s.hi = clampadd(hi, w);
    if (s.hi < k.resp) s.hi = k.resp;      // passed already: commands that began before may still see it
}

// successors of state s under operation k
// an entry may have been evicted between the two times
static bool lost_between(const ModelCfg &c, u64 a, u64 b) { if (!c.windows) return true; for (auto &w : *c.windows) if (w.first <= b && w.second >= a) return true; return false; }
static void step(const KState &s0, const KOp &k, const ModelCfg &cfg, std::vector<KState> &out) {
    const Op &o = *k.op; const Res &r = k.res;
    for (int alive = 0; alive < 2; alive++) {
        KState s = s0;
        if (alive) {
            if (!s.present) continue;
            if (s.ttl) { if (k.inv >= s.hi) continue; if (s.lo <= k.inv) s.lo = k.inv + 1; }
        } else if (s.present) {
            bool canexp = s.ttl && k.resp >= s.lo;
            if (!canexp && !(cfg.lossy && lost_between(cfg, s.since, k.resp))) continue;
            modified(s); s.present = false; s.val.clear(); s.ttl = false; s.flags = 0;
        }
        bool kn = k.known;
        auto accept = [&](KState &x) { x.since = x.present && cfg.windows ? k.inv : 0; if (!x.present) { x.val.clear(); x.ttl = false; x.flags = 0; x.lo = x.hi = 0; } if (!x.ttl) x.lo = x.hi = 0; out.push_back(x); };
        switch (k.kind) {
        case O_SET: {
            bool store = true; RSt fail = R_NO;
            if (kn && r.st == R_ERR) { accept(s); break; }       // refused: no effect (checked separately)
            if (o.casop) {
                if (!alive) { store = false; fail = R_NOTFOUND; }
                else if (!cfg.cas || !(s.casknown && s.cas == o.token)) { store = false; fail = R_EXISTS; }
            } else if (o.nx && alive) { store = false; fail = R_EXISTS; }
            else if (o.xx && !alive) { store = false; fail = R_NOTFOUND; }
            if (kn) {
                if (o.get) {
                    if (alive ? (r.st != R_VAL || r.s != s.val) : r.st != R_MISS) break;
                } else if (store) { if (r.st != R_OK) break; }
                else {
                    // "not stored" replies: the condition that failed must be the reported one
                    if (r.st == R_OK) break;
                    if (r.st == R_EXISTS && fail != R_EXISTS) break;
                    if (r.st == R_NOTFOUND && fail != R_NOTFOUND) break;
                    if (r.st != R_NO && r.st != R_EXISTS && r.st != R_NOTFOUND) break;
                    if (r.st == R_NO && o.proto == P_MC && o.casop) break;
                }
            }
            if (store) {
                bool hadttl = s.ttl; u64 lo = s.lo, hi = s.hi;
                modified(s); s.present = true; s.val = o.val; s.flags = o.flags; s.ttl = false;
                if (o.keepttl && alive && hadttl) { s.ttl = true; s.lo = lo; s.hi = hi; }
                switch (o.ttlkind) {
                case 1: case 5:
                    if (o.proto == P_MC && o.ttl <= 0) { s.ttl = true; s.lo = k.inv; s.hi = k.resp; }
                    else if (o.proto == P_MC && o.ttl > 2592000) {
                        setabs(s, k, clampmul(o.ttl, SEC), cfg);
                    }
                    else setdl(s, k, clampmul(o.ttl, SEC));
                    break;
                case 2: setdl(s, k, clampmul(o.ttl, MSEC)); break;
                case 6: s.ttl = true; s.lo = o.dlo; s.hi = o.dhi; break;
                case 7: setdl(s, k, o.ttl); break;
                case 3: case 4: setabs(s, k, clampmul(o.ttl, o.ttlkind == 3 ? SEC : MSEC), cfg); break;
                }
            }
            accept(s); break; }
        case O_GET: case O_MGET: case O_MGETS:
            if (kn) {
                if (alive) {
                    if (r.st != R_VAL || r.s != s.val) break;
                    if (r.hasflags && r.flags != s.flags) break;
                    if (r.hasdl) {
                        if ((r.dhi != 0) != s.ttl) break;
                        if (s.ttl) { if (r.dlo > s.lo) s.lo = r.dlo; if (r.dhi < s.hi) s.hi = r.dhi; if (s.lo > s.hi) break; }
                    }
                    if (r.hascas && cfg.cas) {
                        if (s.casknown) { if (s.cas != r.cas) break; }
                        else { if (std::binary_search(s.old.begin(), s.old.end(), r.cas)) break; s.casknown = true; s.cas = r.cas; }
                    }
                } else if (r.st != R_MISS) break;
            }
            accept(s); break;
        case O_EXISTS: case O_TOUCH: case O_KEYS:
            if (kn && (r.n != 0) != (alive != 0)) break;
            accept(s); break;
        case O_DEL:
            if (kn && (r.n != 0) != (alive != 0)) break;
            if (alive) { modified(s); s.present = false; }
            accept(s); break;
        case O_TTL: case O_PTTL:
            if (kn) {
                if (!alive) { if (r.n != -2) break; }
                else if (!s.ttl) { if (r.n != -1) break; }
                else {
                    if (r.n < 0) break;
                    u64 unit = k.kind == O_TTL ? SEC : MSEC;
                    u64 a = clampadd(k.inv, clampmul(r.n, unit)), b = clampadd(k.resp, clampmul(r.n + 1, unit));
                    if (a > s.lo) s.lo = a; if (b < s.hi) s.hi = b;
                    if (s.lo > s.hi) break;
                }
            }
            accept(s); break;
        case O_EXPIRE:
            if (kn && (r.n != 0) != (alive != 0)) break;
            if (alive) {
                modified(s);
                if (o.proto == P_MC && o.ttl == 0) s.ttl = false;     // never expires
                else if (o.ttl <= 0) { s.ttl = true; s.lo = k.inv; s.hi = k.resp; }
                else if (o.proto == P_MC && o.ttl > 2592000) setabs(s, k, clampmul(o.ttl, SEC), cfg);
                else setdl(s, k, clampmul(o.ttl, SEC));
            }
            accept(s); break;
        case O_INCR: {
            if (!alive && o.proto == P_MC) { if (kn && r.st != R_NOTFOUND) break; accept(s); break; }
            u64 uv = 0; i64 iv = 0; bool num = true;
            if (alive) num = o.uns ? parse_u64s(s.val, &uv) : parse_i64s(s.val, &iv);
            if (!num) { if (kn && r.st != R_ERR) break; accept(s); break; }
            bool ovf = o.uns ? (o.decr ? __builtin_sub_overflow(uv, o.udelta, &uv) : __builtin_add_overflow(uv, o.udelta, &uv))
                             : (o.decr ? __builtin_sub_overflow(iv, o.delta, &iv) : __builtin_add_overflow(iv, o.delta, &iv));
            if (ovf && o.proto != P_MC) { if (kn && r.st != R_ERR) break; accept(s); break; }
            if (kn) { if (o.uns ? (r.st != R_UINT || r.u != uv) : (r.st != R_INT || r.n != iv)) break; }
            modified(s); if (!alive) { s.flags = 0; s.ttl = false; }
            s.present = true; s.val = o.uns ? fmt("%llu", (unsigned long long)uv) : fmt("%lld", (long long)iv);
            accept(s); break; }
        case O_APPEND: case O_PREPEND: {
            if (!alive && o.proto == P_MC) { if (kn && r.st != R_NO) break; accept(s); break; }
            std::string nv = !alive ? o.val : k.kind == O_APPEND ? s.val + o.val : o.val + s.val;
            if (kn) { if (r.st == R_ERR) { accept(s); break; } if (o.proto == P_MC ? r.st != R_OK : (r.st != R_INT || r.n != (i64)nv.size())) break; }
            modified(s); if (!alive) { s.flags = 0; s.ttl = false; }
            s.present = true; s.val = nv; accept(s); break; }
        case O_FLUSH: if (s.present) modified(s); s.present = false; accept(s); break;
        default: accept(s); break;
        }
    }
}

struct H128 { u64 a, b; bool operator==(const H128 &o) const { return a == o.a && b == o.b; } };
struct HH { size_t operator()(const H128 &x) const { return x.a; } };
namespace {
struct Search {
    const std::vector<KOp> &ops; const ModelCfg &cfg; u64 limit; bool want;
    std::vector<char> done; std::unordered_set<H128, HH> seen; u64 za = 0, zb = 0; u64 states = 0, work = 0; size_t ncomplete = 0; bool over = false;
    size_t best = 0; std::string bestwhy; std::vector<KState> finals; std::set<u64> fh;
    Search(const std::vector<KOp> &o, const ModelCfg &c, u64 l, bool w) : ops(o), cfg(c), limit(l), want(w), done(o.size(), 0) {
        for (auto &k : ops) if (k.must) ncomplete++;
    }
    bool dfs(const KState &s, size_t ndone, size_t first) {
        if (over) return false;
        u64 sh = s.h();
        if (!seen.insert(H128{ mix64(za * 3 + sh), mix64(zb * 5 + sh + 99) }).second) return false;
        if (limit > 1000) work += s.val.size() / 1024;
        if (++states > limit || work > limit * 50) { over = true; return false; }
        if (ndone == ncomplete) { if (!want) return true; if (fh.insert(sh).second) finals.push_back(s); if (finals.size() > 64) return true; }
        while (first < ops.size() && done[first]) first++;
        u64 minresp = ~0ull;
        for (size_t i = first; i < ops.size(); i++) { if (ops[i].inv > minresp) break; if (!done[i] && ops[i].must && ops[i].resp < minresp) minresp = ops[i].resp; }
        std::vector<KState> nx;
        for (size_t i = first; i < ops.size(); i++) {
            if (ops[i].inv > minresp) break;
            if (done[i]) continue;
            bool blocked = false;       // program order on one connection
            work += i - first + 1;
            if (ops[i].conn >= 0) for (size_t j = first; j < i && !blocked; j++) if (!done[j] && ops[j].conn == ops[i].conn && ops[j].order < ops[i].order) blocked = true;
            if (blocked) continue;
            nx.clear(); step(s, ops[i], cfg, nx);
            if (nx.empty()) { if (ndone >= best) { best = ndone; bestwhy = "state " + s.txt() + " does not allow: " + ops[i].op->txt(); } continue; }
            done[i] = 1; u64 z1 = mix64(i * 2 + 1), z2 = mix64(i * 7 + 12345); za ^= z1; zb ^= z2;
            for (auto &t : nx) if (dfs(t, ndone + ops[i].must, first)) { return true; }
            done[i] = 0; za ^= z1; zb ^= z2;
        }
        return false;
    }
};
}
WglResult wgl(const std::vector<KOp> &ops_in, const std::vector<KState> &init, const ModelCfg &cfg, u64 limit, bool want) {
    std::vector<KOp> ops = ops_in;
    std::stable_sort(ops.begin(), ops.end(), [](const KOp &a, const KOp &b) { return a.inv != b.inv ? a.inv < b.inv : a.order < b.order; });
    Search S(ops, cfg, limit, want);
    WglResult r; r.ok = false; r.undecided = false;
    for (auto &s : init) if (S.dfs(s, 0, 0)) { r.ok = true; break; }
    if (!r.ok && !S.finals.empty()) r.ok = true;
    if (!r.ok && S.over) r.undecided = true, r.ok = true;
    r.states = S.states; r.finals = S.finals;
    if (!r.ok) {
        r.why = S.bestwhy + "\n  history:";
        size_t n = 0;
        for (auto &k : ops) { if (ops.size() > 60 && n + 60 < ops.size()) { n++; continue; } r.why += "\n    " + k.op->txt() + (k.known ? " => " + k.res.txt() : ""); n++; }
    }
    return r;
}
void split(const std::vector<Op *> &ops, const std::set<std::string> &keys, std::map<std::string, std::vector<KOp>> &out, const ModelCfg &cfg) {
    for (Op *op : ops) {
        if (!op->sent || op->denied) continue;
        KOp k; k.op = op; k.kind = op->kind; k.inv = op->inv; k.resp = op->done ? op->resp : ~0ull; k.conn = op->conn; k.order = op->seq; k.must = op->done; k.known = op->done; k.res = op->res;
        bool err = op->done && op->res.st == R_ERR;
        switch (op->kind) {
        case O_SET: case O_GET: case O_TTL: case O_PTTL: case O_EXPIRE: case O_INCR: case O_APPEND: case O_PREPEND:
            if (err && (op->kind != O_INCR || op->res.s.find("memory") != std::string::npos)) break;
            if (op->noreply) { k.must = op->done; k.known = false; k.resp = op->done ? op->resp : ~0ull; }
            if (!op->done && (op->kind == O_GET || op->kind == O_TTL || op->kind == O_PTTL)) break;
            k.key = op->keys[0]; out[k.key].push_back(k); break;
        case O_MGET: case O_MGETS:
            if (err || !op->done) break;
            for (size_t i = 0; i < op->keys.size(); i++) { KOp q = k; q.key = op->keys[i]; q.res = op->res.sub[i]; out[q.key].push_back(q); }
            break;
        case O_DEL: case O_EXISTS: case O_TOUCH:
            if (err) break;
            if (op->kind != O_DEL && !op->done) break;
            for (size_t i = 0; i < op->keys.size(); i++) {
                KOp q = k; q.key = op->keys[i];
                if (op->done && op->keys.size() > 1) { if (op->res.n == 0) q.res.n = 0; else if (op->res.n == (i64)op->keys.size()) q.res.n = 1; else q.known = false; }
                if (op->noreply) { q.must = op->done; q.known = false; }
                out[q.key].push_back(q);
            }
            break;
        case O_KEYS:
            if (err || !op->done) break;
            for (auto &kk : keys) {
                if (!glob(op->pattern.data(), op->pattern.size(), kk.data(), kk.size())) continue;
                KOp q = k; q.key = kk; q.res.st = R_INT; q.res.n = 0;
                for (auto &s : op->res.sub) if (s.s == kk) q.res.n = 1;
                q.conn = -1;
                out[kk].push_back(q);
            }
            break;
        case O_FLUSH:
            if (err) break;
            for (auto &kk : keys) {
                KOp q = k; q.key = kk;
                if (!op->done) q.conn = -1;     // may have been refused
                if (op->noreply) { q.known = false; if (K->fired[F_THREAD_FAIL]) { q.must = false; q.conn = -1; } }   // so may this one, silently
                if (op->async || op->delay) { q.inv = op->inv + op->delay * SEC; q.conn = -1; if (op->done) q.resp = op->resp + op->delay * SEC + 5 * SEC; else q.must = false; }
                out[kk].push_back(q);
            }
            break;
        default: break;
        }
    }
}
