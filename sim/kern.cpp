#include "kern.h"
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>
#include <poll.h>
#include <netdb.h>
#include <sched.h>
#include <pthread.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/utsname.h>
#include <execinfo.h>
#include <sanitizer/common_interface_defs.h>

Kern *N = 0;
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *p);

#define SYS(name) sched_point(SP_SYS, name); N->nsys++
struct Quiet { bool a; Quiet() { a = g_active; g_active = false; } ~Quiet() { g_active = a; } };
static int err(int e) { errno = e; return -1; }

void kern_new(u64 seed) {
    N = new Kern();
    N->ru.seed(seed, 0xab5eed);
    N->rss = []() { return (u64)(20u << 20) + N->live_bytes; };
}

// ------------------------------------------------------------------ sockets
static void notify(Desc *d) {
    if (!d) return;
    if (d->ep) wake_all(W_SOCK, d->ep);
    if (d->type == D_LISTEN) {
        std::vector<Epoll *> w(d->watchers.begin(), d->watchers.end());
        std::sort(w.begin(), w.end(), [](Epoll *a, Epoll *b) { return a->id < b->id; });
        for (size_t i = 0; i + 1 < w.size(); i++) std::swap(w[i], w[i + K->rk.below(w.size() - i)]);
        bool first = true;
        // exclusive wakeups reach at least one waiter
        for (Epoll *e : w) {
            bool waiting = false;
            for (Thr *t : K->thr) if (t->st == T_BLOCK && t->why == W_EPOLL && t->wobj == e) waiting = true;
            if (!waiting) continue;
            if (first || K->rk.chance(0.25)) { wake_all(W_EPOLL, e); first = false; }
        }
    } else {
        for (Epoll *e : d->watchers) wake_all(W_EPOLL, e);
    }
}
static void arrive_rst(Ep *to) {
    if (to->rst_rx) return;
    to->rst_rx = true;
    if (to->server) notify(to->desc); else if (!to->closed && to->on_event) to->on_event();
}
static void wire(Ep *from, Ep *to, u64 d, std::function<void()> fn) {
    u64 t = K->now + d;
    if (to->lastdel > t) t = to->lastdel;
    to->lastdel = t + 1;
    at(t, fn);
}
static u64 latency(Ep *from) {
    Ep *c = from->server ? from->peer : from;
    u64 d = c->lat_min + K->rk.below(c->lat_max - c->lat_min + 1);
    if (c->p_slow > 0 && K->rk.chance(c->p_slow)) d += K->rk.below(250 * MSEC);   // retransmission
    return d;
}
static void send_rst(Ep *from) {
    Ep *to = from->peer;
    wire(from, to, latency(from), [to]() { arrive_rst(to); });
}
static void send_fin(Ep *from) {
    if (from->wr_shut) return;
    from->wr_shut = true;
    Ep *to = from->peer;
    wire(from, to, latency(from), [to]() {
        if (to->closed || to->rst_rx) return;
        to->fin_rx = true;
        if (to->server) notify(to->desc); else if (to->on_event) to->on_event();
    });
}
static void send_data(Ep *from, const char *p, size_t n) {
    Ep *to = from->peer;
    from->ntx += n;
    Ep *c = from->server ? to : from;
    int mode = from->server ? 0 : c->segmode;
    size_t off = 0;
    while (off < n) {
        size_t k = n - off;
        if (mode == 1) k = 1 + K->rk.below(1448);
        else if (mode == 2) k = 1 + K->rk.below(16);
        else if (mode == 3) k = 1;
        else if (mode == 4) k = K->rk.chance(0.5) ? 1 + K->rk.below(4) : 1 + K->rk.below(200);
        if (mode >= 2 && n > 3000) k = 1 + K->rk.below(n / 8);
        if (k > n - off) k = n - off;
        if (off + k < n) K->fired[F_SEGMENT]++;
        std::string s(p + off, k); off += k;
        to->inflight += k;
        u64 d = latency(from);
        wire(from, to, d, [from, to, s]() {
            to->inflight -= s.size();
            if (to->closed) { if (!from->closed || from->wr_shut) send_rst(to); return; }
            if (to->rst_rx || to->rd_shut) return;
            to->rx += s; to->nrx += s.size();
            if (to->server) notify(to->desc); else if (!to->stalled && to->on_event) to->on_event();
        });
    }
}
static size_t space(Ep *from) {
    Ep *to = from->peer;
    size_t used = to->avail() + to->inflight;
    return used >= to->cap ? 0 : to->cap - used;
}
static std::string take(Ep *e, size_t max) {
    size_t n = std::min(max, e->avail());
    std::string s = e->rx.substr(e->rxoff, n);
    e->rxoff += n;
    if (e->rxoff == e->rx.size()) { e->rx.clear(); e->rxoff = 0; }
    else if (e->rxoff > 65536) { e->rx.erase(0, e->rxoff); e->rxoff = 0; }
    return s;
}
static void ep_close(Ep *e) {
    if (e->closed) return;
    e->closed = true;
    if (e->server && e->fin_rx && !e->rst_rx && !e->avail()) e->drained_at = K->now;
    if (e->rst_rx) return;
    if (e->avail() > 0 || false) { send_rst(e); return; }
    send_fin(e);
}
static Ep *ep_pair(Ep **srv) {
    Ep *c = new Ep(), *s = new Ep();
    c->id = N->next_id++; s->id = N->next_id++;
    c->peer = s; s->peer = c; s->server = true;
    c->cap = N->sndcap; s->cap = 1u << 30;
    c->port = 20000 + (c->id % 40000); s->port = c->port;
    *srv = s; return c;
}
Ep *cli_connect(const std::string &addr, std::function<void()> on_event) {
    Ep *s, *c = ep_pair(&s);
    c->on_event = on_event;
    c->unixs = s->unixs = addr[0] == '/';
    wire(c, s, 30 * USEC, [c, s, addr]() {
        std::function<void()> attempt;
        auto it = N->listeners.find(addr);
        if (it == N->listeners.end()) { N->refusals++; c->refused = true; c->rst_rx = true; s->closed = true; if (c->on_event) c->on_event(); return; }
        Listener *l = it->second;
        if ((int)l->q.size() >= l->backlog) { N->refusals++; c->refused = true; c->rst_rx = true; s->closed = true; if (c->on_event) c->on_event(); return; }
        l->q.push_back(s);
        logf("connect conn=%d", c->id);
        notify(l->desc);
    });
    return c;
}
void cli_send(Ep *e, const std::string &d) { if (!e->closed && !e->wr_shut && !e->rst_rx) send_data(e, d.data(), d.size()); }
void cli_shutdown(Ep *e) { if (!e->closed) send_fin(e); }
void cli_close(Ep *e) { ep_close(e); }
void cli_reset(Ep *e) { if (e->closed) return; e->closed = true; if (!e->rst_rx) send_rst(e); }
std::string cli_take(Ep *e) {
    std::string s = take(e, (size_t)-1);
    if (!s.empty() && e->peer->desc) notify(e->peer->desc);
    return s;
}
void cli_resume(Ep *e) { e->stalled = false; if (e->on_event) e->on_event(); }

// ------------------------------------------------------------------ descriptors
static Desc *getd(int fd) { auto it = N->fds.find(fd); return it == N->fds.end() ? 0 : it->second; }
static int newfd(int type, Desc **out) {
    int fd = 3;
    for (auto &p : N->fds) { if (p.first > fd) break; if (p.first == fd) fd++; }
    if (fd >= N->nofile) return err(EMFILE);
    Desc *d = new Desc(); d->type = type; d->fd = fd;
    N->fds[fd] = d; *out = d;
    return fd;
}
static void close_desc(Desc *d) {
    for (Epoll *e : d->watchers) e->items.erase(d->fd);
    d->watchers.clear();
    if (d->type == D_SOCK && d->ep) { wake_all(W_SOCK, d->ep); d->ep->desc = 0; ep_close(d->ep); }
    if (d->type == D_LISTEN && d->ln) {
        for (Ep *s : d->ln->q) { s->closed = true; send_rst(s); }
        N->listeners.erase(d->ln->addr);
    }
    if (d->type == D_FILE) d->ino->opens--;
    N->fds.erase(d->fd);
}
static u32 ready(Desc *d) {
    u32 r = 0;
    if (d->type == D_SOCK) {
        Ep *e = d->ep;
        if (e->avail() || e->fin_rx || e->rst_rx) r |= EPOLLIN;
        if (e->fin_rx) r |= EPOLLRDHUP;
        if (space(e) > 0 || e->rst_rx) r |= EPOLLOUT;
        if (e->rst_rx) r |= EPOLLERR | EPOLLHUP;
        if (e->fin_rx && e->wr_shut) r |= EPOLLHUP;
    } else if (d->type == D_LISTEN) { if (!d->ln->q.empty()) r |= EPOLLIN; }
    else r |= EPOLLIN | EPOLLOUT;
    return r;
}

void kern_process_died(bool power) {
    // the kernel closes every descriptor of the dead process
    std::vector<Desc *> v; for (auto &p : N->fds) v.push_back(p.second);
    for (Desc *d : v) {
        if (d->type == D_SOCK && d->ep) {
            Ep *e = d->ep; e->desc = 0;
            if (power) { if (!e->closed) { e->closed = true; send_rst(e); } d->ep = 0; }
        }
        close_desc(d);
    }
    N->fds.clear(); N->listeners.clear(); N->mtx.clear();
    N->live_bytes = N->live_count = 0; N->moved = N->sockbytes = 0;
    for (int i = 0; i < 65; i++) N->sig[i] = 0;
    if (!power) return;
    // power loss: a prefix of the namespace changes and an arbitrary subset of the
    // unsynced writes reach the disk
    size_t keep = K->rf.below(N->journal.size() + 1);
    for (size_t i = 0; i < N->journal.size(); i++) {
        NsOp &o = N->journal[i];
        if (i >= keep) break;
        if (o.kind == 0) N->dns[o.a] = o.ino;
        else if (o.kind == 1) N->dns.erase(o.a);
        else { N->dns.erase(o.a); N->dns[o.b] = o.ino; }
    }
    N->journal.clear();
    std::set<Inode *> seen;
    for (auto &p : N->dns) {
        Inode *i = p.second;
        if (!seen.insert(i).second) continue;
        std::string img = i->dur;
        int mode = (int)K->rf.below(3);          // nothing, prefix, random subset of pages
        size_t upto = mode == 1 ? K->rf.below(i->pend.size() + 1) : mode == 2 ? i->pend.size() : 0;
        for (size_t k = 0; k < upto; k++) {
            size_t off = i->pend[k].first; const std::string &d = i->pend[k].second;
            size_t n = d.size();
            if (mode == 1 && k + 1 == upto && n) n = K->rf.below(n + 1);      // torn write
            for (size_t b = 0; b < n; b += 512) {
                if (mode == 2 && K->rf.chance(0.3)) continue;                 // lost page
                size_t m = std::min<size_t>(512, n - b);
                if (img.size() < off + b + m) img.resize(off + b + m, '\0');
                img.replace(off + b, m, d, b, m);
            }
        }
        i->data = i->dur = img; i->pend.clear();
    }
    N->ns = N->dns;
}

void kern_signal(int s) {
    if (!N->sig[s]) {
        if (s == SIGTERM || s == SIGINT || s == SIGKILL) { N->exited = true; N->exit_code = 128 + s; K->ending = true; K->end_code = 0; }
        return;
    }
    logf("signal %d", s);
    bool a = g_active; g_active = false; g_insim++;
    N->sig[s](s);
    g_insim--; g_active = a;
    std::vector<Thr *> c;
    for (Thr *t : K->thr) if (t->st == T_BLOCK && (t->why == W_EPOLL || t->why == W_SLEEP)) c.push_back(t);
    if (!c.empty()) { Thr *t = c[K->rf.below(c.size())]; t->intr = true; wake_thr(t); }
}

// ------------------------------------------------------------------ files
static std::string norm(const char *p) {
    std::string s = p; 
    if (s.empty()) return s;
    if (s[0] != '/') s = "/cwd/" + s;
    std::string o; std::vector<std::string> parts; size_t i = 0;
    while (i < s.size()) { size_t j = s.find('/', i); if (j == std::string::npos) j = s.size(); std::string c = s.substr(i, j - i); i = j + 1;
        if (c.empty() || c == ".") continue; if (c == "..") { if (!parts.empty()) parts.pop_back(); continue; } parts.push_back(c); }
    for (auto &c : parts) o += "/" + c;
    return o.empty() ? "/" : o;
}
static std::string dirof(const std::string &p) { size_t k = p.rfind('/'); return k == 0 || k == std::string::npos ? "/" : p.substr(0, k); }
static bool isdir(const std::string &p) { return p == "/" || p == "/cwd" || p == "/data" || p == "/tmp"; }
std::string fs_norm(const std::string &p) { return norm(p.c_str()); }
Inode *fs_lookup(const std::string &p) { auto it = N->ns.find(norm(p.c_str())); return it == N->ns.end() ? 0 : it->second; }
void fs_put(const std::string &p, const std::string &data, bool durable) {
    Inode *i = new Inode(); i->id = N->next_id++; i->data = data; if (durable) i->dur = data;
    std::string q = norm(p.c_str());
    if (durable) { // whoever writes durably flushes the journal up to here, as fsync does
        for (NsOp &o : N->journal) { if (o.kind == 0) N->dns[o.a] = o.ino; else if (o.kind == 1) N->dns.erase(o.a); else { N->dns.erase(o.a); N->dns[o.b] = o.ino; } }
        N->journal.clear(); N->dns[q] = i;
    }
    N->ns[q] = i;
}

extern "C" {
void sim_pause(void) { sched_point(SP_PAUSE, "pause"); }
int sim_sched_yield(void) { sched_point(SP_PAUSE, "yield"); return 0; }

// ---- output --------------------------------------------------------------
static void out(const char *p, size_t n) {
    Quiet q;
    K->sut_out.append(p, n);
    if (K->sut_out.size() > 32768) K->sut_out.erase(0, 16384);
    if (K->trace) { std::string s(p, n); while (!s.empty() && s.back() == '\n') s.pop_back(); logf("out: %s", s.c_str()); }
}
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) {
    if (f != stdout && f != stderr) return vfprintf(f, fmt, ap);
    SYS("printf");
    char b[8192]; int n = vsnprintf(b, sizeof b, fmt, ap);
    out(b, n < 0 ? 0 : n < (int)sizeof b ? n : sizeof b - 1); return n;
}
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(stdout, fmt, ap); }
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(stderr, fmt, ap); va_end(ap); (void)fd; return n; }
int sim_puts(const char *s) { SYS("puts"); out(s, strlen(s)); out("\n", 1); return 0; }
int sim_fputs(const char *s, FILE *f) { (void)f; SYS("puts"); out(s, strlen(s)); return 0; }
int sim_putchar(int c) { char b = c; out(&b, 1); return c; }
int sim_fputc(int c, FILE *f) { if (f != stdout && f != stderr) return fputc(c, f); char b = c; out(&b, 1); return c; }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) { if (f != stdout && f != stderr) return fwrite(p, a, b, f); SYS("fwrite"); out((const char *)p, a * b); return b; }
int sim_fflush(FILE *f) { (void)f; return 0; }
void sim_perror(const char *s) { int e = errno; sim_fprintf(stderr, "%s: %s\n", s, strerror(e)); errno = e; }
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { (void)f, (void)b, (void)m, (void)n; return 0; }
int sim_isatty(int fd) { (void)fd; return 0; }

// ---- process ---------------------------------------------------------------
__attribute__((noreturn)) static void die(bool aborted, int code, const char *why) {
    Quiet q; g_active = false;
    N->exited = !aborted; N->exit_code = code; N->aborted = aborted; N->abort_why = why; N->exit_time = K->now;
    logf("process %s %d %s", aborted ? "aborted" : "exited", code, why);
    K->ending = true;
    end_incarnation(0);
    _exit(0);
}
void sim_exit(int c) { 
    if (g_insim) { N->exited = true; N->exit_code = c; N->exit_time = K->now; K->ending = true; K->end_code = 0; pthread_exit(0); }
    SYS("exit"); die(false, c, ""); }
void sim__exit(int c) {
    if (g_insim) { N->exited = true; N->exit_code = c; N->exit_time = K->now; logf("process _exit %d in signal handler", c); K->ending = true; end_incarnation(0); }
    die(false, c, ""); }
void sim__Exit(int c) { sim__exit(c); }
void sim_abort(void) { die(true, 134, "abort"); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    char b[512]; const char *bf = strrchr(f, '/'); snprintf(b, sizeof b, "assertion failed: %s (%s:%u %s)", e, bf ? bf + 1 : f, l, fn);
    die(true, 134, b);
}
void (*sim_signal(int s, void (*h)(int)))(int) { Quiet q; if (s < 0 || s > 64) return SIG_ERR; auto o = N->sig[s]; N->sig[s] = (h == SIG_IGN || h == SIG_DFL) ? 0 : h; return o ? o : SIG_DFL; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); if (a) sim_signal(s, a->sa_handler); return 0; }
int sim_raise(int s) { kern_signal(s); return 0; }
int sim_getpid(void) { return 4242; }
int sim_getrlimit(int w, struct rlimit *r) { (void)w; r->rlim_cur = r->rlim_max = N->nofile; return 0; }
int sim_setrlimit(int w, const struct rlimit *r) { (void)w, (void)r; return 0; }
int sim_getrusage(int w, struct rusage *r) { (void)w; memset(r, 0, sizeof *r); r->ru_utime.tv_sec = 1; return 0; }
long sim_sysconf(int n) { if (n == _SC_PAGESIZE) return 4096; if (n == _SC_NPROCESSORS_CONF || n == _SC_NPROCESSORS_ONLN) return N->nprocs; return sysconf(n); }
int sim_sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) { (void)p; memset(m, 0, n); for (int i = 0; i < N->nprocs; i++) CPU_SET_S(i, n, m); return 0; }
int sim_uname(struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->machine, "x86_64"); strcpy(u->release, "6.0-sim"); return 0; }
int sim_rand(void) { Quiet q; return (int)(N->ru.next() & 0x7fffffff); }
long sim_random(void) { return sim_rand(); }
int sim_rand_r(unsigned *s) { (void)s; return sim_rand(); }
void sim_srand(unsigned s) { (void)s; }
static void rnd(void *p, size_t n) { Quiet q; unsigned char *c = (unsigned char *)p; for (size_t i = 0; i < n; i++) c[i] = (unsigned char)N->ru.next(); }
ssize_t sim_getrandom(void *p, size_t n, unsigned f) { (void)f; rnd(p, n); return n; }
int sim_getentropy(void *p, size_t n) { rnd(p, n); return 0; }
char *sim_getenv(const char *n) { (void)n; return 0; }

// ---- time ------------------------------------------------------------------
static u64 wall(void) { return N->wall_base + K->now + N->wall_skew; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
    SYS("clock_gettime");
    u64 t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall() : K->now;
    ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC; return 0;
}
time_t sim_time(time_t *o) { time_t t = wall() / SEC; if (o) *o = t; return t; }
int sim_gettimeofday(struct timeval *tv, void *z) { (void)z; u64 t = wall(); tv->tv_sec = t / SEC; tv->tv_usec = t % SEC / 1000; return 0; }
static bool dosleep(u64 ns) {
    SYS("sleep"); g_cur->intr = false;
    if (ns == 0) return true;
    block_on(W_SLEEP, g_cur, ns);
    return !g_cur->intr;
}
unsigned sim_sleep(unsigned s) { return dosleep((u64)s * SEC) ? 0 : 1; }
int sim_usleep(unsigned us) { return dosleep((u64)us * 1000) ? 0 : err(EINTR); }
int sim_nanosleep(const struct timespec *t, struct timespec *r) { if (r) memset(r, 0, sizeof *r); return dosleep(t->tv_sec * SEC + t->tv_nsec) ? 0 : err(EINTR); }
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
    (void)r; u64 n = t->tv_sec * SEC + t->tv_nsec;
    if (fl & TIMER_ABSTIME) { u64 b = c == CLOCK_REALTIME ? wall() : K->now; n = n > b ? n - b : 0; }
    return dosleep(n) ? 0 : EINTR;
}

// ---- memory ----------------------------------------------------------------
// debugging aid: where what is still allocated was allocated
void ledger_add(void *p, size_t n) { if (!N->ledger_on) return; Quiet q; void *b[12]; int k = backtrace(b, 12); N->ledger[p] = LedgerItem{ n, N->mallocs, std::vector<void *>(b + 2, b + (k > 2 ? k : 2)) }; }
void ledger_dump(u64 from, u64 to) {
    for (auto &p : N->ledger) if (p.second.serial >= from && p.second.serial < to) {
        fprintf(stderr, "alive: %zu bytes, allocation %llu:", p.second.n, (unsigned long long)p.second.serial);
        for (void *a : p.second.bt) { char buf[256]; __sanitizer_symbolize_pc(a, "%f:%l", buf, sizeof buf); fprintf(stderr, " %s", buf); }
        fprintf(stderr, "\n");
    }
}
void *sim_malloc(size_t n) {
    void *p = malloc(n);
    if (p) { ledger_add(p, n); N->live_bytes += n; N->live_count++; N->mallocs++; }
    return p;
}
void sim_free(void *p) {
    if (!p) return;
    size_t n = __sanitizer_get_allocated_size(p);
    if (N->ledger_on) { Quiet q; N->ledger.erase(p); }
    if (n) { N->live_bytes -= n; N->live_count--; }
    free(p);
}
void *sim_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (p) { ledger_add(p, a * b); N->live_bytes += a * b; N->live_count++; N->mallocs++; } return p; }
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    size_t o = __sanitizer_get_allocated_size(p);
    if (N->ledger_on) { Quiet q; N->ledger.erase(p); }
    void *q = realloc(p, n); if (q) ledger_add(q, n);
    if (q) { N->live_bytes += n; N->live_bytes -= o; }
    return q;
}
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; } return sim_realloc(p, n); }
size_t sim_malloc_usable_size(void *p) { return p ? __sanitizer_get_allocated_size(p) : 0; }
int sim_posix_memalign(void **o, size_t al, size_t n) { void *p = 0; int rc = posix_memalign(&p, al, n); if (!rc) { *o = p; ledger_add(p, n); N->live_bytes += n; N->live_count++; N->mallocs++; } return rc; }
void *sim_aligned_alloc(size_t al, size_t n) { void *p = 0; if (al < sizeof(void *)) al = sizeof(void *); return sim_posix_memalign(&p, al, n) ? 0 : p; }
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
int sim_vasprintf(char **o, const char *f, va_list ap) { va_list b; va_copy(b, ap); int n = vsnprintf(0, 0, f, b); va_end(b); if (n < 0) return -1; *o = (char *)sim_malloc(n + 1); return vsnprintf(*o, n + 1, f, ap); }
int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(o, f, ap); va_end(ap); return n; }
int sim_malloc_trim(size_t n) { (void)n; SYS("malloc_trim"); return 1; }

// ---- threads -----------------------------------------------------------------
int sim_pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    (void)a;
    SYS("pthread_create"); Quiet q;
    if (g_cur->id != 0 && fault(F_THREAD_FAIL)) return EAGAIN;   // not while the server starts
    Thr *t = thr_spawn(fn, arg, "thread");
    *th = t->handle;
    logf("thread t%d created", t->id);
    return 0;
}
static Thr *bythr(pthread_t h) { for (Thr *t : K->thr) if (t->handle == h) return t; return 0; }
int sim_pthread_join(pthread_t h, void **r) {
    SYS("pthread_join");
    Thr *t = bythr(h);
    if (!t || t->joined || t->detached) return ESRCH;
    while (t->st != T_DONE) block_on(W_JOIN, t, 0);
    t->joined = true; if (r) *r = t->ret;
    return 0;
}
int sim_pthread_detach(pthread_t h) { Thr *t = bythr(h); if (!t) return ESRCH; t->detached = true; return 0; }
pthread_t sim_pthread_self(void) { return g_cur ? g_cur->handle : 0x1; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const void *a) { (void)a; memset(m, 0, sizeof *m); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
static void mlock(const void *m) {
    for (;;) {
        { Quiet q; Thr *&o = N->mtx[m]; if (!o) { o = g_cur; return; } }
        block_on(W_MUTEX, m, 0);
    }
}
static void munlock(const void *m) { Quiet q; N->mtx.erase(m); wake_all(W_MUTEX, m); }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { SYS("mutex_lock"); mlock(m); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { SYS("mutex_trylock"); Quiet q; Thr *&o = N->mtx[m]; if (o) return EBUSY; o = g_cur; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { munlock(m); SYS("mutex_unlock"); return 0; }
int sim_pthread_spin_init(void *m, int s) { (void)m, (void)s; return 0; }
int sim_pthread_spin_lock(void *m) { SYS("spin_lock"); mlock(m); return 0; }
int sim_pthread_spin_destroy(void *m) { (void)m; return 0; }
int sim_pthread_spin_trylock(void *m) { return sim_pthread_mutex_trylock((pthread_mutex_t *)m); }
int sim_pthread_spin_unlock(void *m) { munlock(m); SYS("spin_unlock"); return 0; }
struct RW { int readers; Thr *w; };
static std::map<const void *, RW> *rws(void) { static std::map<const void *, RW> *m = 0; if (!m) m = new std::map<const void *, RW>(); return m; }
int sim_pthread_rwlock_init(void *m, const void *a) { (void)m, (void)a; return 0; }
int sim_pthread_rwlock_destroy(void *m) { (void)m; return 0; }
int sim_pthread_rwlock_rdlock(void *m) { SYS("rdlock"); for (;;) { { Quiet q; RW &r = (*rws())[m]; if (!r.w) { r.readers++; return 0; } } block_on(W_MUTEX, m, 0); } }
int sim_pthread_rwlock_wrlock(void *m) { SYS("wrlock"); for (;;) { { Quiet q; RW &r = (*rws())[m]; if (!r.w && !r.readers) { r.w = g_cur; return 0; } } block_on(W_MUTEX, m, 0); } }
int sim_pthread_rwlock_tryrdlock(void *m) { SYS("tryrdlock"); Quiet q; RW &r = (*rws())[m]; if (r.w) return EBUSY; r.readers++; return 0; }
int sim_pthread_rwlock_trywrlock(void *m) { SYS("trywrlock"); Quiet q; RW &r = (*rws())[m]; if (r.w || r.readers) return EBUSY; r.w = g_cur; return 0; }
int sim_pthread_rwlock_unlock(void *m) { { Quiet q; RW &r = (*rws())[m]; if (r.w) r.w = 0; else r.readers--; wake_all(W_MUTEX, m); } SYS("rwunlock"); return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const void *a) { (void)a; memset(c, 0, sizeof *c); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    SYS("cond_wait");
    munlock(m);
    if (N->p_spurious > 0 && K->rf.chance(N->p_spurious)) sched_point(SP_PAUSE, "spurious");
    else block_on(W_COND, c, 0);
    mlock(m); return 0;
}
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    SYS("cond_timedwait");
    u64 w = wall(), n = t->tv_sec * SEC + t->tv_nsec; munlock(m);
    bool ok = n > w ? block_on(W_COND, c, n - w) : false;
    mlock(m); return ok ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_signal(pthread_cond_t *c) { { Quiet q; wake_one(W_COND, c); } SYS("cond_signal"); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { { Quiet q; wake_all(W_COND, c); } SYS("cond_broadcast"); return 0; }
int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) { if (*o == 0) { *o = (pthread_once_t)1; fn(); } return 0; }

// ---- sockets -----------------------------------------------------------------
static std::string saddr(const struct sockaddr *sa) {
    if (sa->sa_family == AF_UNIX) return norm(((const struct sockaddr_un *)sa)->sun_path);
    char b[16]; snprintf(b, sizeof b, "%d", ntohs(((const struct sockaddr_in *)sa)->sin_port)); return b;
}
int sim_socket(int dom, int type, int proto) {
    (void)proto; SYS("socket"); Quiet q; Desc *d; int fd = newfd(D_UNBOUND, &d);
    if (fd >= 0) { d->unixs = dom == AF_UNIX; if (type & SOCK_NONBLOCK) d->nonblock = true; }
    return fd;
}
int sim_bind(int fd, const struct sockaddr *sa, socklen_t n) {
    (void)n; SYS("bind"); Quiet q; Desc *d = getd(fd); if (!d) return err(EBADF);
    std::string a = saddr(sa);
    if (N->listeners.count(a)) return err(EADDRINUSE);
    d->ln = new Listener(); d->ln->addr = a; d->ln->desc = d; return 0;
}
int sim_listen(int fd, int backlog) {
    SYS("listen"); Quiet q; Desc *d = getd(fd); if (!d || !d->ln) return err(EINVAL);
    d->type = D_LISTEN; d->ln->backlog = backlog > 4096 ? 4096 : backlog < 1 ? 1 : backlog;
    N->listeners[d->ln->addr] = d->ln; logf("listen %s", d->ln->addr.c_str()); return 0;
}
static int accept_common(int fd, struct sockaddr *sa, socklen_t *sl, int fl) {
    SYS("accept"); Quiet q;
    Desc *d = getd(fd); if (!d || d->type != D_LISTEN) return err(EBADF);
    while (d->ln->q.empty()) {
        if (d->nonblock) return err(EAGAIN);
        block_on(W_SOCK, d->ln, 0);
    }
    if (fault(F_ACCEPT_FAIL)) {
        int k = (int)K->rf.below(3);
        if (k == 0) { Ep *e = d->ln->q.front(); d->ln->q.pop_front(); e->closed = true; send_rst(e); return err(ECONNABORTED); }
        return err(k == 1 ? EMFILE : ENOBUFS);
    }
    Ep *e = d->ln->q.front();
    Desc *c; int nfd = newfd(D_SOCK, &c);
    if (nfd < 0) return -1;
    d->ln->q.pop_front();
    c->ep = e; e->desc = c; c->unixs = d->unixs; N->accepted++;
    if (fl & SOCK_NONBLOCK) c->nonblock = true;
    if (sa && sl) { memset(sa, 0, *sl); sa->sa_family = AF_INET; *sl = sizeof(struct sockaddr_in); }
    logf("accept fd=%d conn=%d", nfd, e->peer->id); hmix(0xacc, e->id);
    return nfd;
}
int sim_accept(int fd, struct sockaddr *sa, socklen_t *sl) { return accept_common(fd, sa, sl, 0); }
int sim_accept4(int fd, struct sockaddr *sa, socklen_t *sl, int fl) { return accept_common(fd, sa, sl, fl); }
int sim_connect(int fd, const struct sockaddr *sa, socklen_t n) {
    (void)n; SYS("connect"); Quiet q;
    Desc *d = getd(fd); if (!d) return err(EBADF);
    auto it = N->listeners.find(saddr(sa));
    if (it == N->listeners.end() || (int)it->second->q.size() >= it->second->backlog) return err(ECONNREFUSED);
    Ep *s, *c = ep_pair(&s);
    c->server = true; c->cap = 1 << 16; d->type = D_SOCK; d->ep = c; c->desc = d;
    it->second->q.push_back(s); notify(it->second->desc);
    return 0;
}
int sim_setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
    (void)l, (void)v, (void)n; SYS("setsockopt"); Quiet q; Desc *d = getd(fd); if (!d) return err(EBADF);
    if (d->type == D_SOCK && fault(F_SOCKOPT_FAIL)) return err(EINVAL);
    (void)o; return 0;
}
int sim_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { (void)fd, (void)l, (void)o; memset(v, 0, *n); return 0; }
int sim_getpeername(int fd, struct sockaddr *sa, socklen_t *sl) {
    SYS("getpeername"); Quiet q; Desc *d = getd(fd); if (!d) return err(EBADF);
    if (d->type != D_SOCK || d->ep->rst_rx) return err(ENOTCONN);
    if (d->unixs || d->ep->unixs) { sa->sa_family = AF_UNIX; *sl = 2; return 0; }
    struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(d->ep->peer->port); s.sin_addr.s_addr = htonl(0x7f000001);
    memcpy(sa, &s, std::min<size_t>(*sl, sizeof s)); *sl = sizeof s; return 0;
}
int sim_getsockname(int fd, struct sockaddr *sa, socklen_t *sl) { return sim_getpeername(fd, sa, sl); }
int sim_shutdown(int fd, int how) { SYS("shutdown"); Quiet q; Desc *d = getd(fd); if (!d || d->type != D_SOCK) return err(ENOTSOCK); if (how != SHUT_RD) send_fin(d->ep); if (how != SHUT_WR) { d->ep->fin_rx = true; d->ep->rd_shut = true; notify(d); } return 0; }
int sim_getaddrinfo(const char *h, const char *p, const struct addrinfo *hi, struct addrinfo **o) {
    (void)h, (void)hi; Quiet q;
    struct { struct addrinfo ai; struct sockaddr_in in; } *x;
    x = (decltype(x))operator new(sizeof *x); memset((void *)x, 0, sizeof *x);
    x->ai.ai_family = AF_INET; x->ai.ai_socktype = SOCK_STREAM; x->ai.ai_protocol = IPPROTO_TCP;
    x->ai.ai_addr = (struct sockaddr *)&x->in; x->ai.ai_addrlen = sizeof x->in;
    x->in.sin_family = AF_INET; x->in.sin_port = htons(atoi(p)); x->in.sin_addr.s_addr = htonl(0x7f000001);
    *o = &x->ai; return 0;
}
void sim_freeaddrinfo(struct addrinfo *a) { (void)a; }
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long v = va_arg(ap, long); va_end(ap);
    SYS("fcntl"); Quiet q; Desc *d = getd(fd); if (!d) return err(EBADF);
    if (cmd == F_GETFL) return O_RDWR | (d->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { d->nonblock = (v & O_NONBLOCK) != 0; return 0; }
    return 0;
}
int sim_ioctl(int fd, unsigned long r, ...) { (void)fd, (void)r; return err(ENOTTY); }

// ---- epoll -------------------------------------------------------------------
int sim_epoll_create1(int f) { (void)f; SYS("epoll_create"); Quiet q; Desc *d; int fd = newfd(D_EPOLL, &d); if (fd < 0) return -1; d->epo = new Epoll(); d->epo->id = N->next_id++; return fd; }
int sim_epoll_create(int n) { (void)n; return sim_epoll_create1(0); }
int sim_epoll_ctl(int qfd, int op, int fd, struct epoll_event *ev) {
    SYS("epoll_ctl"); Quiet q;
    Desc *e = getd(qfd), *d = getd(fd);
    if (!e || !d) return err(EBADF);
    if (e->type != D_EPOLL || d->type == D_EPOLL) return err(EINVAL);
    if (d->type == D_FILE) return err(EPERM);
    auto it = e->epo->items.find(fd);
    if (op == EPOLL_CTL_ADD) {
        if (it != e->epo->items.end()) return err(EEXIST);
        if (d->type == D_SOCK && !d->registered) { d->registered = true; if (fault(F_EPOLLCTL_FAIL)) return err(ENOSPC); }
        e->epo->items[fd] = EpItem{ev->events, ev->data.u64, d}; d->watchers.insert(e->epo);
        logf("epoll add q=%d fd=%d ev=%x", qfd, fd, ev->events & 0xfff);
        if (ready(d) & (ev->events | EPOLLERR | EPOLLHUP)) wake_all(W_EPOLL, e->epo);
        return 0;
    }
    if (it == e->epo->items.end()) return err(ENOENT);
    if (op == EPOLL_CTL_DEL) { e->epo->items.erase(it); d->watchers.erase(e->epo); return 0; }
    if (op == EPOLL_CTL_MOD) { it->second.events = ev->events; it->second.data = ev->data.u64; if (ready(d) & (ev->events | EPOLLERR | EPOLLHUP)) wake_all(W_EPOLL, e->epo); return 0; }
    return err(EINVAL);
}
int sim_epoll_wait(int qfd, struct epoll_event *evs, int max, int timeout) {
    SYS("epoll_wait");
    Desc *e = getd(qfd); if (!e || e->type != D_EPOLL) return err(EBADF);
    if (max <= 0) return err(EINVAL);
    u64 until = timeout > 0 ? K->now + (u64)timeout * MSEC : 0;
    for (;;) {
        {
            Quiet q;
            std::vector<struct epoll_event> r;
            for (auto &p : e->epo->items) {
                u32 m = ready(p.second.d) & ((p.second.events & 0xffff) | EPOLLERR | EPOLLHUP);
                if (m) { struct epoll_event x; x.events = m; x.data.u64 = p.second.data; r.push_back(x); if (p.second.events & EPOLLONESHOT) p.second.events = 0; }
            }
            if (!r.empty()) {
                if (fault(F_EINTR)) return err(EINTR);
                for (size_t i = 0; i + 1 < r.size(); i++) std::swap(r[i], r[i + K->rk.below(r.size() - i)]);
                int n = std::min<size_t>(max, r.size());
                for (int i = 0; i < n; i++) evs[i] = r[i];
                return n;
            }
            if (timeout == 0) return 0;
            g_cur->intr = false;
        }
        u64 left = 0;
        if (until) { if (K->now >= until) return 0; left = until - K->now; }
        block_on(W_EPOLL, e->epo, left);
        if (g_cur->intr) { g_cur->intr = false; fired(F_EINTR); return err(EINTR); }
    }
}
int sim_epoll_pwait(int qfd, struct epoll_event *evs, int max, int timeout, const sigset_t *s) { (void)s; return sim_epoll_wait(qfd, evs, max, timeout); }
int sim_poll(struct pollfd *p, nfds_t n, int timeout) {
    u64 until = timeout >= 0 ? K->now + (u64)timeout * MSEC : 0;
    for (;;) {
        SYS("poll"); int c = 0;
        for (nfds_t i = 0; i < n; i++) { Desc *d = getd(p[i].fd); u32 m = d ? ready(d) : POLLNVAL; p[i].revents = m & (p[i].events | POLLERR | POLLHUP | POLLNVAL); if (p[i].revents) c++; }
        if (c || (timeout >= 0 && K->now >= until)) return c;
        block_on(W_SLEEP, g_cur, 1 * MSEC);
    }
}

static void fsop(int k, bool pre, const std::string &p, Inode *i) { if (N->on_fsop) N->on_fsop(k, pre, p, i); }
// ---- read / write --------------------------------------------------------------
static ssize_t file_read(Desc *d, void *p, size_t n, size_t off) {
    Inode *i = d->ino;
    if (off >= i->data.size()) return 0;
    size_t k = std::min(n, i->data.size() - off);
    if (fault(F_READ_EIO)) { fsop(FO_READERR, false, "", i); return err(EIO); }
    if (k > 16 && fault(F_READ_SHORT)) k = 1 + K->rf.below(k);
    memcpy(p, i->data.data() + off, k);
    return k;
}
static ssize_t file_write(Desc *d, const void *p, size_t n, size_t off) {
    Inode *i = d->ino;
    fsop(FO_WRITE, true, "", i);
    if (fault(F_FILE_EIO)) { fsop(FO_ERROR, false, "", i); return err(EIO); }
    if (fault(F_FILE_ENOSPC)) { fsop(FO_ERROR, false, "", i); return err(ENOSPC); }
    if (n > 1 && fault(F_FILE_SHORT)) n = 1 + K->rf.below(n - 1);
    if (off + n > i->data.size()) {
        i64 need = (i64)(off + n - i->data.size());
        if (need > N->disk_free) {
            fired(F_FILE_ENOSPC);
            fsop(FO_ERROR, false, "", i);
            if (N->disk_free <= 0) return err(ENOSPC);
            n -= need - N->disk_free; need = N->disk_free;
        }
        N->disk_free -= need;
        i->data.resize(off + n, '\0');
    }
    i->data.replace(off, n, (const char *)p, n);
    i->pend.emplace_back(off, std::string((const char *)p, n));
    fsop(FO_WRITE, false, "", i);
    return n;
}
ssize_t sim_read(int fd, void *p, size_t n) {
    SYS("read"); Desc *d = getd(fd); if (!d) return err(EBADF);
    if (d->type == D_FILE) { Quiet q; ssize_t k = file_read(d, p, n, d->off); if (k > 0) d->off += k; hmix(0x4ead, k); logf("read file fd=%d -> %zd", fd, k); return k; }
    if (d->type == D_RANDOM) { rnd(p, n); return n; }
    if (d->type == D_NULL) return 0;
    if (d->type != D_SOCK) return err(EINVAL);
    Ep *e = d->ep;
    for (;;) {
        {
            Quiet q;
            if (e->avail()) {
                size_t k = std::min(n, e->avail());
                if (k > 1 && fault(F_SHORT_READ)) k = 1 + K->rf.below(k);
                std::string s = take(e, k); memcpy(p, s.data(), k); N->sockbytes += k;
                hmix(0x4ead5, ((u64)e->id << 32) ^ hash_bytes(p, k)); logf("read fd=%d conn=%d n=%zu", fd, e->peer->id, k);
                return k;
            }
            if (e->rst_rx) { logf("read fd=%d conn=%d ECONNRESET", fd, e->peer->id); return err(ECONNRESET); }
            if (e->fin_rx) { logf("read fd=%d conn=%d EOF", fd, e->peer->id); return 0; }
            if (d->nonblock) return err(EAGAIN);
        }
        block_on(W_SOCK, e, 0);
        if (getd(fd) != d) return err(EBADF);
    }
}
// large memmoves of the server (as the sanitizer sees them): they take time and are counted
void *sim___asan_memmove(void *d, const void *s, size_t n) { if (n >= 2048) { N->moved += n; K->now += n / 8; } return memmove(d, s, n); }
ssize_t sim_recv(int fd, void *p, size_t n, int f) { (void)f; return sim_read(fd, p, n); }
ssize_t sim_write(int fd, const void *p, size_t n) {
    if (fd == 1 || fd == 2) { out((const char *)p, n); return n; }
    SYS("write"); Desc *d = getd(fd); if (!d) return err(EBADF);
    if (d->type == D_FILE) {
        Quiet q; ssize_t k = file_write(d, p, n, d->append ? d->ino->data.size() : d->off); if (k > 0) d->off += k;
        hmix(0x3417e, k); logf("write file fd=%d n=%zu -> %zd", fd, n, k); return k;
    }
    if (d->type == D_NULL) return n;
    if (d->type != D_SOCK) return err(EINVAL);
    Ep *e = d->ep;
    size_t total = 0;
    for (;;) {
        {
            Quiet q;
            if (e->rst_rx || e->wr_shut) return err(e->rst_rx ? ECONNRESET : EPIPE);
            if (n == 0) return 0;
            size_t s = space(e);
            if (s > 0) {
                size_t k = std::min(s, n - total);
                if (d->nonblock && k > 1 && fault(F_SHORT_WRITE)) k = 1 + K->rf.below(k - 1);
                hmix(0x3417e5, ((u64)e->id << 32) ^ hash_bytes((const char *)p + total, k));
                logf("write fd=%d conn=%d n=%zu of %zu", fd, e->peer->id, k, n);
                send_data(e, (const char *)p + total, k); N->sockbytes += k;
                total += k;
                if (d->nonblock || total == n) return total;
                continue;
            }
            if (d->nonblock) {
                // full send buffer: let simulated time pass for pollers that retry at once
                probe("write_eagain"); 
                errno = EAGAIN; 
            }
        }
        if (d->nonblock) { sched_point(SP_PAUSE, "write-eagain"); return err(EAGAIN); }
        probe("blocking_write_wait");
        block_on(W_SOCK, e, 0);
        if (getd(fd) != d) return err(EBADF);
    }
}
ssize_t sim_send(int fd, const void *p, size_t n, int f) { (void)f; return sim_write(fd, p, n); }
ssize_t sim_sendto(int fd, const void *p, size_t n, int f, const void *a, socklen_t l) { (void)f, (void)a, (void)l; return sim_write(fd, p, n); }
ssize_t sim_recvfrom(int fd, void *p, size_t n, int f, void *a, void *l) { (void)f, (void)a, (void)l; return sim_read(fd, p, n); }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { std::string s; { Quiet q; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); } return sim_write(fd, s.data(), s.size()); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) { for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int f) { (void)f; return sim_writev(fd, m->msg_iov, m->msg_iovlen); }
ssize_t sim_recvmsg(int fd, struct msghdr *m, int f) { (void)f; return sim_readv(fd, m->msg_iov, m->msg_iovlen); }
ssize_t sim_pread(int fd, void *p, size_t n, off_t o) { SYS("pread"); Quiet q; Desc *d = getd(fd); if (!d || d->type != D_FILE) return err(EBADF); return file_read(d, p, n, o); }
ssize_t sim_pwrite(int fd, const void *p, size_t n, off_t o) { SYS("pwrite"); Quiet q; Desc *d = getd(fd); if (!d || d->type != D_FILE) return err(EBADF); return file_write(d, p, n, o); }
int sim_close(int fd) {
    SYS("close"); Quiet q; Desc *d = getd(fd); if (!d) return err(EBADF);
    logf("close fd=%d%s", fd, d->type == D_SOCK ? " (socket)" : "");
    close_desc(d);
    return 0;
}
off_t sim_lseek(int fd, off_t o, int w) { Quiet q; Desc *d = getd(fd); if (!d || d->type != D_FILE) return err(EBADF); d->off = w == SEEK_SET ? o : w == SEEK_CUR ? d->off + o : d->ino->data.size() + o; return d->off; }
int sim_open(const char *path, int fl, ...) {
    SYS("open"); Quiet q;
    if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) { Desc *d; return newfd(D_RANDOM, &d); }
    if (!strcmp(path, "/dev/null")) { Desc *d; return newfd(D_NULL, &d); }
    std::string p = norm(path);
    bool dir = isdir(p);
    if (dir) { if (fl & (O_WRONLY | O_RDWR)) return err(EISDIR); Desc *d; int fd = newfd(D_NULL, &d); return fd; }
    if (!isdir(dirof(p))) return err(ENOENT);
    if (p.size() - p.rfind('/') - 1 > 255) return err(ENAMETOOLONG);
    auto it = N->ns.find(p);
    if (it != N->ns.end() && (fl & O_CREAT) && (fl & O_EXCL)) return err(EEXIST);
    if (it == N->ns.end() && !(fl & O_CREAT)) return err(ENOENT);
    if (fault(F_OPEN_FAIL)) fsop(FO_ERROR, false, p, 0); else goto opened;
    return err(K->rf.chance(0.5) ? EMFILE : EACCES);
opened:
    Inode *i;
    if (it == N->ns.end()) {
        i = new Inode(); i->id = N->next_id++; N->ns[p] = i;
        N->journal.push_back(NsOp{0, p, "", i});
    } else i = it->second;
    Desc *d; int fd = newfd(D_FILE, &d); if (fd < 0) return -1;
    d->ino = i; i->opens++; d->append = (fl & O_APPEND) != 0;
    if ((fl & O_TRUNC) && (fl & (O_WRONLY | O_RDWR))) { N->disk_free += i->data.size(); i->data.clear(); i->dur.clear(); i->pend.clear(); }
    if (fl & (O_WRONLY | O_RDWR)) N->opens.push_back(p);
    logf("open %s fl=%x fd=%d", p.c_str(), fl, fd); hmix(0x09e4, fd);
    fsop(fl & (O_WRONLY | O_RDWR) ? FO_OPENW : FO_OPENR, false, p, i);
    return fd;
}
int sim_creat(const char *p, mode_t m) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int sim_fsync(int fd) {
    SYS("fsync"); Quiet q; Desc *d = getd(fd); if (!d) return err(EBADF);
    N->fsyncs++;
    fsop(FO_FSYNC, true, "", d->type == D_FILE ? d->ino : 0);
    if (fault(F_FSYNC_FAIL)) { fsop(FO_ERROR, false, "", 0); return err(EIO); }
    if (d->type == D_FILE) {
        d->ino->dur = d->ino->data; d->ino->pend.clear();
    }
    for (NsOp &o : N->journal) { if (o.kind == 0) N->dns[o.a] = o.ino; else if (o.kind == 1) N->dns.erase(o.a); else { N->dns.erase(o.a); N->dns[o.b] = o.ino; } }
    N->journal.clear();
    logf("fsync fd=%d", fd); fsop(FO_FSYNC, false, "", d->type == D_FILE ? d->ino : 0);
    return 0;
}
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync(void) {}
int sim_ftruncate(int fd, off_t n) { SYS("ftruncate"); Quiet q; Desc *d = getd(fd); if (!d || d->type != D_FILE) return err(EBADF); d->ino->data.resize(n, '\0'); d->ino->dur.resize(std::min<size_t>(d->ino->dur.size(), n)); d->ino->pend.clear(); d->ino->pend.emplace_back(0, d->ino->data); return 0; }
int sim_rename(const char *a, const char *b) {
    SYS("rename"); Quiet q; std::string x = norm(a), y = norm(b);
    auto it = N->ns.find(x); if (it == N->ns.end()) return err(ENOENT);
    if (isdir(y)) return err(EISDIR);
    if (!isdir(dirof(y))) return err(ENOENT);
    fsop(FO_RENAME, true, y, it->second);
    if (fault(F_RENAME_FAIL)) { fsop(FO_ERROR, false, y, it->second); return err(EIO); }
    Inode *i = it->second; N->ns.erase(it);
    { auto old = N->ns.find(y); if (old != N->ns.end() && old->second != i) N->disk_free += old->second->data.size(); }
    N->ns[y] = i;
    N->journal.push_back(NsOp{2, x, y, i});
    N->opens.push_back(y);
    logf("rename %s -> %s", x.c_str(), y.c_str()); hmix(0x4e4a, 1); fsop(FO_RENAME, false, y, i);
    return 0;
}
int sim_unlink(const char *a) {
    SYS("unlink"); Quiet q; std::string x = norm(a);
    auto it = N->ns.find(x); if (it == N->ns.end()) return err(ENOENT);
    fsop(FO_UNLINK, true, x, it->second);
    if (fault(F_UNLINK_FAIL)) return err(EACCES);
    N->disk_free += it->second->data.size();
    N->journal.push_back(NsOp{1, x, "", it->second}); N->ns.erase(it);
    logf("unlink %s", x.c_str()); fsop(FO_UNLINK, false, x, 0);
    return 0;
}
int sim_remove(const char *a) { return sim_unlink(a); }
int sim_mkdir(const char *a, mode_t m) { (void)a, (void)m; return err(EEXIST); }
int sim_access(const char *a, int m) { (void)m; SYS("access"); Quiet q; std::string x = norm(a); return N->ns.count(x) || isdir(x) ? 0 : err(ENOENT); }
static int dostat(Inode *i, bool dir, struct stat *st) { memset(st, 0, sizeof *st); if (dir) { st->st_mode = S_IFDIR | 0755; return 0; } st->st_mode = S_IFREG | 0644; st->st_size = i->data.size(); st->st_ino = i->id; return 0; }
int sim_stat(const char *a, struct stat *st) { SYS("stat"); Quiet q; std::string x = norm(a); if (isdir(x)) return dostat(0, true, st); auto it = N->ns.find(x); if (it == N->ns.end()) return err(ENOENT); return dostat(it->second, false, st); }
int sim_lstat(const char *a, struct stat *st) { return sim_stat(a, st); }
int sim_fstat(int fd, struct stat *st) { Quiet q; Desc *d = getd(fd); if (!d) return err(EBADF); if (d->type == D_FILE) return dostat(d->ino, false, st); memset(st, 0, sizeof *st); st->st_mode = S_IFSOCK; return 0; }
int sim_fchmod(int fd, mode_t m) { (void)fd, (void)m; return 0; }
struct SimDir { std::vector<std::string> names; size_t i = 0; struct dirent de; };
DIR *sim_opendir(const char *a) {
    SYS("opendir"); Quiet q; std::string x = norm(a); if (!isdir(x)) return errno = ENOENT, (DIR *)0;
    SimDir *s = new SimDir(); s->names.push_back("."); s->names.push_back("..");
    for (auto &p : N->ns) if (dirof(p.first) == x) s->names.push_back(p.first.substr(p.first.rfind('/') + 1));
    return (DIR *)s;
}
struct dirent *sim_readdir(DIR *d) {
    Quiet q; SimDir *s = (SimDir *)d; if (s->i >= s->names.size()) return 0;
    memset(&s->de, 0, sizeof s->de); snprintf(s->de.d_name, sizeof s->de.d_name, "%s", s->names[s->i].c_str());
    s->de.d_type = s->i < 2 ? DT_DIR : DT_REG; s->i++; return &s->de;
}
int sim_closedir(DIR *d) { Quiet q; delete (SimDir *)d; return 0; }

// ---- stdio on special files -----------------------------------------------------
FILE *sim_fopen(const char *p, const char *m) {
    SYS("fopen"); Quiet q; (void)m;
    static __thread char buf[1024];
    if (!strcmp(p, "/dev/urandom")) { rnd(buf, 512); return fmemopen(buf, 512, "rb"); }
    if (!strcmp(p, "/proc/meminfo")) { snprintf(buf, sizeof buf, "MemTotal:       %llu kB\nMemFree:  1000 kB\n", (unsigned long long)(N->memtotal / 1024)); return fmemopen(buf, strlen(buf), "r"); }
    if (!strcmp(p, "/proc/self/statm")) { u64 r = N->rss() / 4096; snprintf(buf, sizeof buf, "%llu %llu 1 1 0 1 0\n", (unsigned long long)(r * 2), (unsigned long long)r); return fmemopen(buf, strlen(buf), "r"); }
    errno = ENOENT; return 0;
}
}

int sut_main(std::vector<std::string> args) {
    char **av = (char **)operator new(sizeof(char *) * (args.size() + 1));
    for (size_t i = 0; i < args.size(); i++) { av[i] = (char *)operator new(args[i].size() + 1); strcpy(av[i], args[i].c_str()); }
    av[args.size()] = 0;
    return pogo_main((int)args.size(), av);
}
