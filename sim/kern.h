// Simulated kernel: sockets, epoll, files, clocks, threads primitives, memory
// ledger. Every libc call of the system under test that leaves the process is
// redirected here at link time (see build.sh).
#pragma once
#include "core.h"

struct Desc;
struct Listener;

// One end of a simulated stream connection.
struct Ep {
    int id = 0; Ep *peer = 0;
    std::string rx; size_t rxoff = 0;     // received, not consumed
    size_t cap = 1 << 16;                 // receive window + send buffer of the sender
    size_t inflight = 0;                  // bytes on the wire towards this end
    bool fin_rx = false, rst_rx = false;  // what arrived
    bool closed = false, wr_shut = false, rd_shut = false; // what this end did
    bool server = false;                  // owned by a descriptor of the server
    bool unixs = false;
    u64 lastdel = 0;                      // FIFO delivery
    u64 ntx = 0, nrx = 0;
    int segmode = 0; u64 lat_min = 20 * USEC, lat_max = 300 * USEC; double p_slow = 0;
    Desc *desc = 0;
    int port = 0;
    bool stalled = false;                 // client end: does not read
    std::function<void()> on_event;       // client end
    bool refused = false;
    u64 drained_at = 0;                   // server end: closed at this time, having read everything up to the end
    size_t avail() const { return rx.size() - rxoff; }
};

struct Inode {
    int id = 0; std::string data; int opens = 0;
    std::string dur;                                     // content known to be on stable storage
    std::vector<std::pair<size_t, std::string>> pend;    // writes since the last fsync
    bool trunc_pend = false;
};
struct NsOp { int kind; std::string a, b; Inode *ino; }; // 0 create 1 unlink 2 rename

enum { D_NONE, D_SOCK, D_LISTEN, D_EPOLL, D_FILE, D_RANDOM, D_UNBOUND, D_NULL };
struct Epoll;
struct Desc {
    int type = D_NONE; int fd = -1; int refs = 1; bool nonblock = false; int flags = 0;
    Ep *ep = 0; Listener *ln = 0; Epoll *epo = 0; Inode *ino = 0; size_t off = 0; bool append = false; bool registered = false;
    std::set<Epoll *> watchers; bool unixs = false;
};
struct Listener { std::string addr; std::deque<Ep *> q; int backlog = 128; Desc *desc = 0; };
struct EpItem { u32 events; u64 data; Desc *d; };
struct Epoll { int id; std::map<int, EpItem> items; };

struct LedgerItem { size_t n; u64 serial; std::vector<void *> bt; };
extern "C" void ledger_dump(u64 from, u64 to);
struct Kern {
    bool ledger_on = false; std::map<void *, LedgerItem> ledger;
    std::map<int, Desc *> fds; int nofile = 1024;
    std::map<std::string, Listener *> listeners;
    int next_id = 1;
    // files
    std::map<std::string, Inode *> ns, dns; std::vector<NsOp> journal;
    i64 disk_free = 1ll << 40;
    u64 fsyncs = 0;
    // process
    void (*sig[65])(int) = {0};
    bool exited = false; int exit_code = 0; bool aborted = false; std::string abort_why;
    u64 exit_time = 0;
    u64 live_bytes = 0, live_count = 0; u64 mallocs = 0;
    u64 moved = 0, sockbytes = 0;        // bytes moved by large memmoves, bytes through the server's sockets
    std::function<u64()> rss; u64 memtotal = 8ull << 30; int nprocs = 4;
    Rng ru;                       // the server's /dev/urandom
    std::map<const void *, Thr *> mtx; 
    u64 wall_base = 1760000000ull * SEC;   // wall clock at boot
    i64 wall_skew = 0;
    u64 nsys = 0;
    u64 accepted = 0, refusals = 0;
    std::vector<std::string> opens;        // paths opened for writing / renamed to (audit)
    size_t sndcap = 1 << 16;
    // file system operations: before (pre) and after they take effect
    std::function<void(int kind, bool pre, const std::string &path, Inode *ino)> on_fsop;
    double p_spurious = 0;
};
extern Kern *N;
enum { FO_OPENR, FO_OPENW, FO_WRITE, FO_READ, FO_FSYNC, FO_RENAME, FO_UNLINK, FO_ERROR, FO_READERR };

void kern_new(u64 seed);
void kern_process_died(bool power);         // parent side, between incarnations
void kern_signal(int sig);                  // deliver to the server process now

// client-side API (world)
Ep *cli_connect(const std::string &addr, std::function<void()> on_event);
void cli_send(Ep *e, const std::string &data);
void cli_shutdown(Ep *e);                   // FIN
void cli_close(Ep *e);                      // close: FIN, or RST when unread data is pending
void cli_reset(Ep *e);
std::string cli_take(Ep *e);                // consume everything received
void cli_resume(Ep *e);

Inode *fs_lookup(const std::string &p);
std::string fs_norm(const std::string &p);
void fs_put(const std::string &p, const std::string &data, bool durable);
int sut_main(std::vector<std::string> args);
extern "C" int pogo_main(int, char **);
extern "C" void *sim_malloc(size_t);
extern "C" void sim_free(void *);
