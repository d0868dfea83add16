// Command line: seeded search over simulated runs on all cores, determinism
// gate, minimisation, replay files, evidence.
#include "world.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <unistd.h>
#include <stdlib.h>
#include <signal.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <unordered_set>

static double wall(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
extern "C" const char *__asan_default_options(void) {
    return "detect_leaks=0:exitcode=77:max_malloc_fill_size=65536:malloc_fill_byte=190:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:"
           "handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=2048:symbolize=1:print_summary=0:abort_on_error=0:allocator_release_to_os_interval_ms=-1";
}

// ------------------------------------------------------------------ one run
struct Share { std::string s; };
RunOut run_one(const RunSpec &spec0) {
    RunOut o;
    arena_reset();
    RunSpec spec = spec0;
    {
        g_use_arena = true;
        RunSpec *sp = new RunSpec(spec);          // arena copy
        world_new(*sp);
        build_scenario();
        world_run();
        g_use_arena = false;
    }
    for (auto &v : K->viol) {
        Violation x; x.cls = std::string(v.cls.c_str()); x.tags = v.tags.c_str(); x.detail = v.detail.c_str(); x.step = v.step; x.time = v.time;
        if (x.cls == "harness") { o.harness_error = true; o.harness_why = x.detail; }
        o.viol.push_back(x);
    }
    o.hash = mix64(K->hash ^ mix64(K->steps) ^ mix64(K->now + 3)); o.sched_hash = K->sched_hash; o.steps = K->steps; o.edges = K->edges; o.switches = K->switches; o.preempts = K->preempts; o.simtime = K->now - 1000 * SEC;
    for (int i = 0; i < F_MAX; i++) o.fired[i] = K->fired[i];
    for (Op *p : W->ops) if (p->sent) o.nops++;
    o.nreplies = W->nreplies; o.states = W->states; o.undecided = W->undecided; o.incarnations = K->incarnation; o.nclients = (int)W->clients.size(); o.nevents = W->nevents; o.shape = W->shape;
    for (auto &p : K->probe) o.probe.push_back({ std::string(p.first.c_str()), p.second });
    if (spec.trace) { o.trace = K->trace_text.c_str(); o.server_out = K->sut_out.c_str(); }
    std::string s = fmt("prop=%s scenario=%s seed=%llu:", spec.prop.c_str(), spec.scen.c_str(), (unsigned long long)spec.seed);
    g_use_arena = true;
    for (auto &a : W->cfg.args()) { g_use_arena = false; s += " " + std::string(a.c_str()); g_use_arena = true; }
    g_use_arena = false;
    s += fmt("; clients=%zu ops=%llu replies=%llu switches=%llu incarnations=%d faults:", W->clients.size(), (unsigned long long)o.nops, (unsigned long long)o.nreplies, (unsigned long long)o.switches, o.incarnations);
    for (int i = 0; i < F_MAX; i++) if (o.fired[i]) s += fmt(" %s=%llu", fault_name[i], (unsigned long long)o.fired[i]);
    if (!W->note.empty()) s += std::string("; ") + W->note.c_str();
    int k = 0; for (Op *p : W->ops) if (p->sent && k++ < 4) s += "; " + std::string(p->txt().c_str());
    o.sample = s;
    K = 0; W = 0; N = 0; g_cur = 0;
    return o;
}

// ------------------------------------------------------------------ property plans
struct Part { const char *scen; int weight; };
struct Plan { const char *prop; std::vector<Part> parts; int quick, thorough; };
static const std::vector<Plan> &plans(void) {
    static std::vector<Plan> v = {
#include "plans.h"
    };
    return v;
}
static const Plan *plan_of(const std::string &p) { for (auto &x : plans()) if (p == x.prop) return &x; return 0; }
static RunSpec spec_for(const Plan *pl, u64 base, u64 idx) {
    RunSpec s; s.prop = pl->prop;
    int tot = 0; for (auto &p : pl->parts) tot += p.weight;
    int x = (int)(idx % tot); for (auto &p : pl->parts) { if (x < p.weight) { s.scen = p.scen; break; } x -= p.weight; }
    s.seed = mix64(base * 1000003 + idx * 2 + 1) >> 16; s.sched = 0;
    return s;
}

// ------------------------------------------------------------------ replay files
static std::string join(const std::set<int> &s) { std::string o; for (int x : s) o += (o.empty() ? "" : ",") + std::to_string(x); return o; }
static std::set<int> unjoin(const std::string &s) { std::set<int> o; size_t i = 0; while (i < s.size()) { o.insert(atoi(s.c_str() + i)); i = s.find(',', i); if (i == std::string::npos) break; i++; } return o; }
static std::string first_line(const std::string &s) { return s.substr(0, s.find('\n')); }
static void write_replay(const std::string &path, const RunSpec &s, const RunOut &o, const Violation &v) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) return;
    fprintf(f, "# pogocache simulation replay: run `sim replay FILE`\nproperty %s\nscenario %s\nseed %llu\nsched %llu\nthin %d\n", s.prop.c_str(), s.scen.c_str(), (unsigned long long)s.seed, (unsigned long long)s.sched, s.thin);
    fprintf(f, "mask_ops %s\nmask_clients %s\nmask_events %s\nmask_faults %s\n", join(s.mask.ops).c_str(), join(s.mask.clients).c_str(), join(s.mask.events).c_str(), join(s.mask.faults).c_str());
    fprintf(f, "class %s\nhash %llx\n", v.cls.c_str(), (unsigned long long)o.hash);
    fprintf(f, "detail %s\n\n# violation\n%s\n\n# run\n%s\n\n# schedule, operations and faults\n%s\n# server output\n%s\n", esc(first_line(v.detail), 400).c_str(), v.detail.c_str(), o.sample.c_str(), o.trace.c_str(), o.server_out.c_str());
    fclose(f);
}
static bool read_replay(const char *path, RunSpec &s, std::string &cls, std::string &hash) {
    FILE *f = fopen(path, "r"); if (!f) return false;
    char *line = 0; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        std::string l(line); while (!l.empty() && (l.back() == '\n')) l.pop_back();
        if (l.empty()) break;
        if (l[0] == '#') continue;
        size_t sp = l.find(' '); std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
        if (k == "property") s.prop = v; else if (k == "scenario") s.scen = v; else if (k == "seed") s.seed = strtoull(v.c_str(), 0, 10); else if (k == "sched") s.sched = strtoull(v.c_str(), 0, 10); else if (k == "thin") s.thin = atoi(v.c_str());
        else if (k == "mask_ops") s.mask.ops = unjoin(v); else if (k == "mask_clients") s.mask.clients = unjoin(v); else if (k == "mask_events") s.mask.events = unjoin(v); else if (k == "mask_faults") s.mask.faults = unjoin(v);
        else if (k == "class") cls = v; else if (k == "hash") hash = v;
    }
    free(line); fclose(f); return true;
}

// ------------------------------------------------------------------ known findings
struct Known { std::string prop, cls, match, text; };
static std::vector<Known> g_known;
static void load_known(const std::string &path, const std::string &prop) {
    FILE *f = fopen(path.c_str(), "r"); if (!f) return;
    char *line = 0; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        std::string l(line); while (!l.empty() && l.back() == '\n') l.pop_back();
        if (l.compare(0, 14, "KNOWN-FINDING:") != 0) continue;
        auto field = [&](const char *k) -> std::string { std::string key = std::string(k) + "=\""; size_t i = l.find(key); if (i == std::string::npos) return ""; i += key.size(); size_t j = l.find('"', i); return l.substr(i, j - i); };
        Known kn; kn.cls = field("class"); kn.match = field("match"); kn.text = field("what");
        std::string props = field("property");
        size_t i = 0; while (i <= props.size()) { size_t j = props.find(',', i); if (j == std::string::npos) j = props.size(); if (props.substr(i, j - i) == prop) { kn.prop = prop; g_known.push_back(kn); break; } i = j + 1; }
    }
    free(line); fclose(f);
}
static const Known *known(const Violation &v) {
    for (auto &k : g_known) if (k.cls == v.cls && !k.match.empty() && v.detail.find(k.match) != std::string::npos) return &k;
    return 0;
}
static const Violation *find_cls(const RunOut &o, const std::string &cls) { for (auto &v : o.viol) if (v.cls == cls && !known(v)) return &v; return 0; }

// ------------------------------------------------------------------ minimise
static RunOut minimise(RunSpec &s, const std::string &cls, double secs, int &tried) {
    double t0 = wall(); tried = 0;
    RunOut best = run_one(s);
    auto attempt = [&](const RunSpec &c) -> bool {
        if (wall() - t0 > secs) return false;
        tried++; RunOut o = run_one(c);
        if (!find_cls(o, cls)) return false;
        s = c; best = o; return true;
    };
    for (int f = 0; f < F_MAX; f++) if (best.fired[f] && !s.mask.faults.count(f)) { RunSpec c = s; c.mask.faults.insert(f); attempt(c); }
    for (int i = 0; i < best.nclients; i++) if (!s.mask.clients.count(i)) { RunSpec c = s; c.mask.clients.insert(i); attempt(c); }
    for (int i = 0; i < best.nevents; i++) if (!s.mask.events.count(i)) { RunSpec c = s; c.mask.events.insert(i); attempt(c); }
    int total = 0; { total = (int)best.nops + 400; }
    for (int round = 0; round < 2; round++)
        for (int chunk = std::max(1, total / 2); chunk >= 1 && wall() - t0 < secs; chunk /= 2)
            for (int a = 1; a <= total && wall() - t0 < secs; a += chunk) {
                RunSpec c = s; bool any = false; for (int i = a; i < a + chunk && i <= total; i++) if (c.mask.ops.insert(i).second) any = true;
                if (any) attempt(c);
            }
    for (int i = 0; i < 4; i++) { RunSpec c = s; c.thin++; if (!attempt(c)) break; }
    RunSpec c = s; c.trace = true; RunOut o = run_one(c); s.trace = false;
    return o;
}

// ------------------------------------------------------------------ pool
struct Msg { char kind; u64 idx; };
static void put(std::string &b, const void *p, size_t n) { b.append((const char *)p, n); }
static void putu(std::string &b, u64 x) { put(b, &x, 8); }
static void puts_(std::string &b, const std::string &s) { putu(b, s.size()); b += s; }
struct Rd { const char *p; size_t n; u64 u() { u64 x; memcpy(&x, p, 8); p += 8; n -= 8; return x; } std::string s() { u64 k = u(); std::string r(p, k); p += k; n -= k; return r; } };
static std::string pack(u64 idx, const RunOut &o, bool twice, bool mismatch, double secs) {
    std::string b; putu(b, idx); putu(b, o.hash); putu(b, o.sched_hash); putu(b, o.shape); putu(b, o.steps); putu(b, o.edges); putu(b, o.switches); putu(b, o.preempts); putu(b, o.simtime); putu(b, o.nops); putu(b, o.nreplies); putu(b, o.states); putu(b, o.undecided); putu(b, o.incarnations);
    putu(b, twice); putu(b, mismatch); putu(b, o.harness_error); putu(b, (u64)(secs * 1e6)); putu(b, o.nclients);
    for (int i = 0; i < F_MAX; i++) putu(b, o.fired[i]);
    putu(b, o.viol.size()); for (auto &v : o.viol) { puts_(b, v.cls); puts_(b, v.tags); puts_(b, v.detail); }
    putu(b, o.probe.size()); for (auto &p : o.probe) { puts_(b, p.first); putu(b, p.second); }
    puts_(b, o.sample); puts_(b, o.harness_why);
    return b;
}
static bool wr(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } c += k; n -= k; } return true; }
struct Shared { volatile u64 next; volatile int stop; };

static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) o += fmt("\\u%04x", c); else o += c; } return o; }

static int check(const std::string &prop, const std::string &tier, u64 seed, const std::string &evfile, const std::string &knownf, const std::string &repdir, u64 runs_override, double cap_override, int jobs, const std::string &onlyscen) {
    const Plan *pl0 = plan_of(prop); if (!pl0) { fprintf(stderr, "no plan for %s\n", prop.c_str()); return 2; }
    Plan plv = *pl0; if (!onlyscen.empty()) { plv.parts = { { onlyscen.c_str(), 1 } }; } const Plan *pl = &plv;
    load_known(knownf, prop);
    u64 total = tier == "thorough" ? pl->thorough : pl->quick; if (runs_override) total = runs_override;
    double cap = tier == "thorough" ? 3000 : 240; if (cap_override > 0) cap = cap_override;
    mkdir(repdir.c_str(), 0755);
    double t0 = wall();
    Shared *sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->next = 0; sh->stop = 0;
    g_cov = (unsigned char *)mmap(0, COV_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids; std::vector<int> fds;
    fflush(0);
    for (int w = 0; w < jobs; w++) {
        int pp[2]; if (pipe(pp)) return 2;
        pid_t p = fork();
        if (p == 0) {
            for (int f : fds) close(f); close(pp[0]); signal(SIGPIPE, SIG_DFL);
            arena_init();
            for (;;) {
                u64 i = __sync_fetch_and_add(&sh->next, 1);
                if (i >= total || sh->stop || wall() - t0 > cap) break;
                RunSpec s = spec_for(pl, seed, i);
                double a = wall(); RunOut o = run_one(s); double secs = wall() - a;
                bool twice = false, mismatch = false;
                if (!o.viol.empty() || i % 40 == 7) {
                    RunOut o2 = run_one(s); twice = true;
                    if (o2.hash != o.hash || o2.viol.size() != o.viol.size()) mismatch = true;
                    for (size_t k = 0; !mismatch && k < o.viol.size(); k++) if (o.viol[k].cls != o2.viol[k].cls) mismatch = true;
                    if (mismatch && !o.viol.empty()) {      // believe only what happens again
                        std::vector<Violation> keep; for (auto &v : o.viol) for (auto &v2 : o2.viol) if (v2.cls == v.cls) keep.push_back(v);
                        (void)keep;
                    }
                }
                std::string b = pack(i, o, twice, mismatch, secs); u64 len = b.size();
                if (!wr(pp[1], &len, 8) || !wr(pp[1], b.data(), len)) break;
            }
            _exit(0);
        }
        close(pp[1]); pids.push_back(p); fds.push_back(pp[0]);
    }
    // collect
    std::vector<std::string> buf(fds.size()); size_t open_ = fds.size();
    u64 evals = 0, steps = 0, edges = 0, switches = 0, preempts = 0, simtime = 0, nops = 0, nreplies = 0, states = 0, undec = 0, incs = 0, twice = 0, mism = 0, herr = 0, fired[F_MAX] = { 0 }, runs_with_faults = 0; double cpu = 0, slow = 0; u64 nontriv = 0;
    std::unordered_set<u64> scheds, shapes, both; std::map<std::string, u64> probes, perscen, knownhits; std::vector<std::string> samples; std::string herr_why; std::vector<u64> mism_idx;
    struct Cand { u64 idx; std::string cls, detail; bool mismatch; }; std::vector<Cand> cands; double first_viol = 0;
    while (open_) {
        std::vector<struct pollfd> pf; std::vector<size_t> ix;
        for (size_t i = 0; i < fds.size(); i++) if (fds[i] >= 0) { pf.push_back({ fds[i], POLLIN, 0 }); ix.push_back(i); }
        if (poll(pf.data(), pf.size(), 1000) < 0 && errno != EINTR) break;
        for (size_t k = 0; k < pf.size(); k++) if (pf[k].revents) {
            char tmp[65536]; ssize_t n = read(pf[k].fd, tmp, sizeof tmp); size_t i = ix[k];
            if (n <= 0) { close(fds[i]); fds[i] = -1; open_--; continue; }
            buf[i].append(tmp, n);
            while (buf[i].size() >= 8) {
                u64 len; memcpy(&len, buf[i].data(), 8); if (buf[i].size() < 8 + len) break;
                Rd r{ buf[i].data() + 8, len };
                u64 idx = r.u(); r.u(); u64 sch = r.u(), shp = r.u(); steps += r.u(); edges += r.u(); u64 sw = r.u(); switches += sw; preempts += r.u(); simtime += r.u(); nops += r.u(); u64 nr = r.u(); nreplies += nr; states += r.u(); undec += r.u(); incs += r.u();
                bool tw = r.u(), mm = r.u(), he = r.u(); double secs = r.u() / 1e6; r.u();
                evals++; cpu += secs; if (secs > slow && secs > 20) { RunSpec s = spec_for(pl, seed, idx); fprintf(stderr, "slow run: sim one %s %s %llu (%.1f s)\n", s.prop.c_str(), s.scen.c_str(), (unsigned long long)s.seed, secs); } slow = std::max(slow, secs); twice += tw; mism += mm; herr += he; if (mm && mism_idx.size() < 5) mism_idx.push_back(idx);
                bool anyf = false; for (int f = 0; f < F_MAX; f++) { u64 x = r.u(); fired[f] += x; if (x) anyf = true; } runs_with_faults += anyf;
                u64 nv = r.u();
                for (u64 q = 0; q < nv; q++) {
                    Violation v; v.cls = r.s(); v.tags = r.s(); v.detail = r.s();
                    if (v.cls == "harness") continue;
                    const Known *kn = known(v);
                    if (kn) { knownhits[kn->text]++; continue; }
                    cands.push_back({ idx, v.cls, v.detail, mm }); if (!first_viol) first_viol = wall();
                }
                u64 np = r.u(); for (u64 q = 0; q < np; q++) { std::string a = r.s(); probes[a] += r.u(); }
                std::string smp = r.s(), hw = r.s(); if (he) herr_why = hw;
                RunSpec s = spec_for(pl, seed, idx); perscen[s.scen]++;
                scheds.insert(sch); shapes.insert(shp); if (nr >= 5 && (sw >= 2)) { if (both.insert(mix64(sch * 3 + shp)).second) nontriv++; }
                if (samples.size() < 4 && nr >= 5 && (evals % 7 == 1 || anyf)) samples.push_back(smp);
                buf[i].erase(0, 8 + len);
            }
        }
        if (first_viol && !getenv("SIM_SURVEY")) sh->stop = 1;
        if (wall() - t0 > cap + 120) break;
    }
    sh->stop = 1;
    for (pid_t p : pids) { int st; if (waitpid(p, &st, WNOHANG) == 0) { double t = wall(); while (waitpid(p, &st, WNOHANG) == 0) { if (wall() - t > 50) { kill(p, SIGKILL); waitpid(p, &st, 0); break; } usleep(5000); } } if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) { herr++; herr_why = "worker died"; } }
    double tsearch = wall() - t0;
    if (getenv("SIM_SURVEY")) {
        std::map<std::string, std::vector<Cand *>> by; for (auto &c : cands) by[c.cls].push_back(&c);
        for (auto &p : by) { Cand *c = p.second[0]; RunSpec s = spec_for(pl, seed, c->idx); size_t mm = 0; for (auto *x : p.second) mm += x->mismatch; printf("%6zu x %-28s (unstable %zu) e.g. sim one %s %s %llu : %s\n", p.second.size(), p.first.c_str(), mm, prop.c_str(), s.scen.c_str(), (unsigned long long)s.seed, c->detail.substr(0, 1500).c_str()); }
    }
    int rc = 0; std::string vline; int nviol = 0; int minruns = 0;
    arena_init();
    // candidates: deterministic ones first, lowest run index first
    std::stable_sort(cands.begin(), cands.end(), [](const Cand &a, const Cand &b) { return a.mismatch != b.mismatch ? a.mismatch < b.mismatch : a.idx < b.idx; });
    bool unconfirmed = false; size_t tries = 0;
    if (!getenv("SIM_SURVEY")) for (auto &c : cands) {
        if (++tries > 6) break;
        RunSpec s = spec_for(pl, seed, c.idx); RunSpec s0 = s;
        RunOut o = minimise(s, c.cls, tier == "thorough" ? 120 : 40, minruns);
        const Violation *v = find_cls(o, c.cls);
        std::string path = repdir + "/" + prop + "-" + std::to_string(s.seed) + ".replay";
        auto confirm = [&](void) -> bool {
            if (!v) return false;
            write_replay(path, s, o, *v);
            pid_t p = fork(); if (p == 0) { int dn = ::open("/dev/null", 2); dup2(dn, 1); execl("/proc/self/exe", "sim", "replay", path.c_str(), (char *)0); _exit(3); }
            int st; waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 1;
        };
        bool ok = confirm();
        if (!ok) { s = s0; s.trace = true; o = run_one(s); s.trace = false; v = find_cls(o, c.cls); ok = confirm(); }
        if (!ok) { unconfirmed = true; fprintf(stderr, "not reproducible: %s seed %llu class %s\n", prop.c_str(), (unsigned long long)s0.seed, c.cls.c_str()); continue; }
        nviol = 1; rc = 1;
        printf("%s: %s\n", c.cls.c_str(), v->detail.c_str());
        printf("seed=%llu scenario=%s operations=%llu (minimised in %d runs) clients masked=%zu events masked=%zu fault kinds masked=%zu\n", (unsigned long long)s.seed, s.scen.c_str(), (unsigned long long)o.nops, minruns, s.mask.clients.size(), s.mask.events.size(), s.mask.faults.size());
        vline = fmt("VIOLATION property=%s replay=%s", prop.c_str(), path.c_str());
        break;
    }
    if (rc == 0 && unconfirmed) { fprintf(stderr, "violations were seen but did not replay\n"); rc = 2; }
    if (rc == 0 && herr > evals / 50) { fprintf(stderr, "harness errors: %llu of %llu runs: %s\n", (unsigned long long)herr, (unsigned long long)evals, herr_why.c_str()); rc = 2; }
    if (rc == 0 && evals < 20) { fprintf(stderr, "too few runs\n"); rc = 2; }
    if (mism) { fprintf(stderr, "note: %llu of %llu doubled runs differed:", (unsigned long long)mism, (unsigned long long)twice); for (u64 i : mism_idx) { RunSpec s = spec_for(pl, seed, i); fprintf(stderr, " %s:%llu", s.scen.c_str(), (unsigned long long)s.seed); } fprintf(stderr, "\n"); if (rc == 0 && mism * 20 > twice + 40) rc = 2; }
    for (auto &k : g_known) printf("KNOWN-FINDING: property=%s %s (met in %llu runs)\n", prop.c_str(), k.text.c_str(), (unsigned long long)knownhits[k.text]);
    if (!vline.empty()) printf("%s\n", vline.c_str());
    // evidence
    u64 cov = 0; for (u32 i = 0; i < COV_MAX; i++) cov += g_cov[i];
    double w = wall() - t0;
    std::string j = "{\n";
    j += fmt("\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"exploration\",\n", prop.c_str(), tier.c_str(), (unsigned long long)(i64)(seed & 0x7fffffffffffffffull));
    j += fmt("\"coverage\":{\n \"evaluations\":%llu,\n \"distinct_nontrivial\":%llu,\n", (unsigned long long)evals, (unsigned long long)nontriv);
    j += " \"rule\":\"one evaluation is one simulated run: one seed decides the server configuration, the clients and their operations, every thread switch, delay, segment boundary, fault and crash point; a run counts as non-trivial when at least 5 replies (or engine calls) came back under at least 2 thread switches, and as distinct by the pair (hash of the switch sequence, hash of the replies in order)\",\n";
    j += " \"samples\":["; for (size_t i = 0; i < samples.size(); i++) j += (i ? ",\n  " : "\n  ") + std::string("\"") + jesc(samples[i]) + "\""; j += "],\n";
    j += fmt(" \"runs_per_hour\":%.0f,\n \"seeds_per_hour\":%.0f,\n \"simulated_seconds\":%.1f,\n \"simulated_over_real\":%.2f,\n", evals / tsearch * 3600, evals / tsearch * 3600, simtime / 1e9, simtime / 1e9 / tsearch);
    j += fmt(" \"distinct_schedules\":%zu,\n \"distinct_outcomes\":%zu,\n \"thread_switches\":%llu,\n \"preemptions_inside_server_code\":%llu,\n \"scheduling_points\":%llu,\n \"instrumented_events\":%llu,\n \"operations_sent\":%llu,\n \"replies_checked\":%llu,\n \"linearizability_states\":%llu,\n \"histories_undecided\":%llu,\n \"server_incarnations\":%llu,\n \"server_edges_reached\":%llu,\n \"server_edges_total\":%u,\n",
        scheds.size(), shapes.size(), (unsigned long long)switches, (unsigned long long)preempts, (unsigned long long)steps, (unsigned long long)edges, (unsigned long long)nops, (unsigned long long)nreplies, (unsigned long long)states, (unsigned long long)undec, (unsigned long long)incs, (unsigned long long)cov, g_cov_n);
    j += " \"faults_injected\":{"; { bool first = true; for (int f = 0; f < F_MAX; f++) if (fired[f]) { j += fmt("%s\"%s\":%llu", first ? "" : ",", fault_name[f], (unsigned long long)fired[f]); first = false; } } j += fmt("},\n \"runs_with_faults\":%llu,\n", (unsigned long long)runs_with_faults);
    j += " \"probes\":{"; { bool first = true; for (auto &p : probes) { j += fmt("%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; } } j += "},\n";
    j += " \"scenarios\":{"; { bool first = true; for (auto &p : perscen) { j += fmt("%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second); first = false; } } j += "},\n";
    j += fmt(" \"determinism_checked\":%llu,\n \"determinism_mismatches\":%llu,\n \"harness_errors\":%llu,\n \"known_finding_hits\":%llu,\n \"real_components\":\"every .c file of /repo/src compiled unmodified, with address sanitizer and preemption points at every branch, load and store\",\n \"stubbed_components\":\"kernel: sockets, epoll, files, clocks, threads, mutexes, signals, /proc, memory usage, entropy; clients\"\n},\n", (unsigned long long)twice, (unsigned long long)mism, (unsigned long long)herr, (unsigned long long)[&] { u64 x = 0; for (auto &k : knownhits) x += k.second; return x; }());
    j += " \"assumptions\":[\"sequentially consistent memory\",\"the simulated kernel behaves like Linux for the calls the server makes\",\"sampling: schedules and faults outside the explored seeds are not covered\"],\n";
    j += fmt(" \"violations\":%d,\n \"wall_s\":%.2f\n}\n", nviol, w);
    FILE *f = fopen(evfile.c_str(), "w"); if (f) { fputs(j.c_str(), f); fclose(f); } else { perror(evfile.c_str()); rc = rc ? rc : 2; }
    fprintf(stderr, "%s %s seed %llu: %llu runs in %.1f s (%.0f/h), slowest %.2f s, ops %llu, switches %llu, undecided %llu, edges %llu/%u, mismatches %llu/%llu%s\n", prop.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)evals, w, evals / tsearch * 3600, slow, (unsigned long long)nops, (unsigned long long)switches, (unsigned long long)undec, (unsigned long long)cov, g_cov_n, (unsigned long long)mism, (unsigned long long)twice, rc ? " VIOLATION" : "");
    return rc;
}

int main(int argc, char **argv) {
    int p = personality(0xffffffff);
    if (!(p & ADDR_NO_RANDOMIZE)) { if (personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    std::string cmd = argc > 1 ? argv[1] : "";
    char tmpl[] = "/tmp/pogosimXXXXXX"; const char *sd = getenv("SIM_SCRATCH");
    if (sd) g_scratch = sd; else { const char *d = mkdtemp(tmpl); g_scratch = d ? d : "/tmp"; }
    int rc = 2;
    if (cmd == "check") {
        std::string prop, tier = "quick", ev, kn, rep = "/tmp/replay", scen; u64 seed = 1, runs = 0; double cap = 0; int jobs = 8;
        for (int i = 2; i + 1 < argc; i += 2) { std::string a = argv[i], v = argv[i + 1]; if (a == "--prop") prop = v; else if (a == "--tier") tier = v; else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (a == "--evidence") ev = v; else if (a == "--known") kn = v; else if (a == "--replays") rep = v; else if (a == "--runs") runs = strtoull(v.c_str(), 0, 10); else if (a == "--cap") cap = atof(v.c_str()); else if (a == "--jobs") jobs = atoi(v.c_str()); else if (a == "--scen") scen = v; }
        if (ev.empty()) ev = g_scratch + "/evidence.json";
        rc = check(prop, tier, seed, ev, kn, rep, runs, cap, jobs, scen);
    } else {
        arena_init(); g_cov = (unsigned char *)mmap(0, COV_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (cmd == "one" && argc > 4) {
            RunSpec s; s.prop = argv[2]; s.scen = argv[3]; s.seed = strtoull(argv[4], 0, 10); s.trace = argc > 5;
            double t = wall(); RunOut o = run_one(s);
            if (s.trace) { fputs(o.trace.c_str(), stdout); printf("---- server output\n%s\n", o.server_out.c_str()); }
            printf("%s\nhash %llx steps %llu edges %llu switches %llu sim %.3f s real %.3f s\n", o.sample.c_str(), (unsigned long long)o.hash, (unsigned long long)o.steps, (unsigned long long)o.edges, (unsigned long long)o.switches, o.simtime / 1e9, wall() - t);
            for (auto &v : o.viol) printf("VIOL %s: %s\n", v.cls.c_str(), v.detail.c_str());
            rc = o.viol.empty() ? 0 : 1;
        } else if (cmd == "replay" && argc > 2) {
            RunSpec s; std::string cls, hash;
            if (!read_replay(argv[2], s, cls, hash)) { perror(argv[2]); rc = 2; }
            else {
                s.trace = argc > 3; RunOut o = run_one(s); rc = 2;
                if (s.trace) fputs(o.trace.c_str(), stdout);
                bool same = fmt("%llx", (unsigned long long)o.hash) == hash;
                for (auto &v : o.viol) { printf("%s: %s\n", v.cls.c_str(), v.detail.c_str()); if (v.cls == cls) rc = same ? 1 : 2; }
                printf("hash %llx recorded %s: %s\n", (unsigned long long)o.hash, hash.c_str(), same ? "identical" : "different");
                if (rc == 1) printf("VIOLATION property=%s replay=%s\n", s.prop.c_str(), argv[2]);
                else if (o.viol.empty()) rc = 0;
            }
        } else if (cmd == "plans") { for (auto &x : plans()) printf("%s\n", x.prop); rc = 0; }
        else fprintf(stderr, "usage: sim check|one|replay\n");
    }
    if (!sd && g_scratch.compare(0, 12, "/tmp/pogosim") == 0) rmdir(g_scratch.c_str());
    fflush(0); _exit(rc);
}
