#include "mc.h"
#include <atomic>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void *, size_t),
    void (*free_hook)(const volatile void *)) __attribute__((weak));
extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:quarantine_size_mb=8:abort_on_error=0:exitcode=86:"
           "allocator_may_return_null=0:detect_stack_use_after_return=0:"
           "max_allocation_size_mb=2048:handle_abort=1:symbolize=1";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
extern "C" void mc_glib_setup(void);

namespace mc {

static const int MAXD = 4000;
static const size_t DESC = 32768;
static const int MAXSC = 128;

struct WState {
    std::atomic<uint64_t> heartbeat;
    int scenario;
    int depth;
    int in_exec;
    uint16_t choices[MAXD];
    uint16_t arity[MAXD];
    char desc[DESC];
};
struct SStat {
    std::atomic<uint64_t> execs, transitions, steps, validated, nontrivial, pruned, known, outcomes, states, maxdepth, capped;
};
struct Shared {
    SStat st[MAXSC];
    std::atomic<uint64_t> saturated;
    std::atomic<int> stop;
    std::atomic<double> first_unknown;  // when the first unlisted violation was seen (0: none)
};
static Shared *SH;
static WState *WS;          // array
static WState *me;
static int W = 1, self = 0;
static std::atomic<uint64_t> *table;
static const uint64_t TSLOTS = 1ull << 26;

static bool g_thorough = false, g_replay = false, g_verbose = false;
static std::string g_scratch, g_wscratch, g_out, g_replaydir, g_prop, g_known;
static double g_deadline = 0;
static std::set<std::string> known_keys;

std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }

// ---- explorer state
static std::vector<std::pair<int, int>> stack_;   // (choice, arity)
static size_t pos_;
static uint64_t prod_;
static bool sharded_;
static int dev_bound_, dev_used_;
static bool nontriv_;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }

static bool my_shard()
{
    uint64_t h = 88172645463325252ull;
    for (size_t i = 0; i < pos_; i++) h = mix(h ^ (uint64_t)(stack_[i].first + 1)) + i;
    return (int)(mix(h) % W) == self;
}

int choose(int n)
{
    if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); _exit(90); }
    if (n == 1) return 0;
    if (pos_ >= (size_t)MAXD) { fprintf(stderr, "mc: too many choices\n"); _exit(90); }
    if (pos_ == stack_.size()) {
        if (g_replay) { fprintf(stderr, "mc: replay vector too short\n"); _exit(91); }
        stack_.push_back({0, n});
    } else if (stack_[pos_].second != n) {
        if (stack_[pos_].second == 0 && stack_[pos_].first < n) stack_[pos_].second = n; // from a replay/resume file
        else { fprintf(stderr, "mc: DIVERGENCE at choice %zu: arity %d was %d\n", pos_, n, stack_[pos_].second); _exit(92); }
    }
    int c = stack_[pos_].first;
    me->choices[pos_] = (uint16_t)c; me->arity[pos_] = (uint16_t)n;
    pos_++;
    me->depth = (int)pos_;
    if (!sharded_ && !g_replay) {
        prod_ *= n;
        if (prod_ >= (uint64_t)W * 64) { sharded_ = true; if (!my_shard()) throw SkipShard(); }
    }
    return c;
}
void set_dev_bound(int k) { dev_bound_ = k; }
int devs_left() { return dev_bound_ - dev_used_; }
int choose_cost(int n, int cost)
{
    if (dev_used_ + cost > dev_bound_) return 0;
    int c = choose(n);
    if (c) dev_used_ += cost;
    return c;
}
int choose_dev(int n) { return choose_cost(n, 1); }
void prune() { throw Prune(); }

void describe(const std::string &t)
{
    size_t n = std::min(t.size(), DESC - 1);
    memcpy(me->desc, t.data(), n); me->desc[n] = 0;
    if (g_verbose) fprintf(stderr, "case: %s\n", t.c_str());
}

uint64_t hash(const std::string &s, uint64_t h)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}

static bool insert(uint64_t h)
{
    if (!h) h = 1;
    uint64_t i = mix(h) & (TSLOTS - 1);
    for (int k = 0; k < 200; k++, i = (i + 1) & (TSLOTS - 1)) {
        uint64_t v = table[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (v == 0) { uint64_t z = 0; if (table[i].compare_exchange_strong(z, h)) return true; if (z == h) return false; }
    }
    SH->saturated++;
    return false;
}
void outcome(uint64_t h) { if (!g_replay && insert(mix(h ^ 0x9e37) + 2 * me->scenario)) SH->st[me->scenario].outcomes++; }
void outcome(const std::string &t) { if (g_verbose) fprintf(stderr, "outcome: %s\n", t.c_str()); outcome(hash(t)); }
void state(const std::string &t) { if (!g_replay && insert(mix(hash(t) ^ 0x51a7e) + 2 * me->scenario + 1)) SH->st[me->scenario].states++; }
void step(int n) { SH->st[me->scenario].steps += n; }
void validated(int n) { SH->st[me->scenario].validated += n; }
void nontrivial() { nontriv_ = true; }
bool thorough() { return g_thorough; }
bool replaying() { return g_replay; }
const char *scratch()
{
    if (g_wscratch.empty()) { g_wscratch = g_scratch + "/w" + std::to_string(getpid()); mkdir(g_wscratch.c_str(), 0777); }
    return g_wscratch.c_str();
}

std::string fmt(const char *f, ...)
{
    char *p = nullptr; va_list ap; va_start(ap, f); int n = vasprintf(&p, f, ap); va_end(ap);
    std::string r(p, n); free(p); return r;
}
std::string quote(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\";
        else if (c < 32 || c >= 127) r += fmt("\\x%02x", c); else r += (char)c;
    }
    return r + "\"";
}
static std::string js(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) r += fmt("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}

std::string one(const std::string &s);
struct Viol { int scenario; std::vector<int> ch; std::string key, msg, desc; std::string kind; };
static int vfd = -1;
static int unknown_viol = 0;
static Viol lastv; static bool have_lastv;
// once something is violated the verdict is known: look 15 s more for further ones, then stop
static bool g_nostop;
static void note_unknown() { if (g_nostop) return; double z = 0; SH->first_unknown.compare_exchange_strong(z, now()); }

std::string one(const std::string &s) { std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\x1f') r += ' '; else if (c == '\x1e') r += ' '; else r += c; } return r; }

static void record(const Viol &v)
{
    lastv = v; have_lastv = true;
    if (g_replay) return;
    std::string l = std::to_string(v.scenario) + "\x1f" + v.kind + "\x1f" + one(v.key) + "\x1f" + one(v.msg) + "\x1f" + one(v.desc) + "\x1f";
    for (int c : v.ch) l += std::to_string(c) + " ";
    l += "\x1e\n";
    if (write(vfd, l.data(), l.size()) < 0) {}
}

void fail(const std::string &key, const char *f, ...)
{
    char *p = nullptr; va_list ap; va_start(ap, f); int n = vasprintf(&p, f, ap); va_end(ap);
    Viol v; v.scenario = me->scenario; v.msg = std::string(p, n); free(p); v.key = key; v.desc = me->desc; v.kind = "assert";
    for (size_t i = 0; i < pos_; i++) v.ch.push_back(stack_[i].first);
    if (known_keys.count(one(scenarios()[me->scenario].name + "/" + key))) SH->st[me->scenario].known++;
    else { unknown_viol++; note_unknown(); }
    record(v);
    throw Fail();
}

// ---- heap accounting
static bool track; static long live_;
static uint64_t exec_bytes_;
static void mhook(const volatile void *, size_t n)
{
    if (track) live_++;
    // an execution works on inputs of a few kilobytes: a gigabyte allocated in one is a runaway loop
    if (me && me->in_exec && (exec_bytes_ += n) > (1ull << 30)) {
        static const char m[] = "ERROR: AddressSanitizer: memory-blowup (1 GiB allocated in one execution)\n";
        if (write(2, m, sizeof m - 1) < 0) {}
        _exit(86);
    }
}
static void fhook(const volatile void *p) { if (track && p) live_--; }
HeapRegion::HeapRegion() { live_ = 0; track = true; }
HeapRegion::~HeapRegion() { track = false; }
void HeapRegion::stop() { track = false; }
long HeapRegion::live() const { return live_; }

static bool advance()
{
    while (!stack_.empty()) {
        auto &t = stack_.back();
        if (t.first + 1 < t.second) { t.first++; return true; }
        stack_.pop_back();
    }
    return false;
}

// run one execution; true if it completed and counts for this shard
static void run_one(int sc)
{
    pos_ = 0; prod_ = 1; sharded_ = (W == 1); dev_used_ = 0; dev_bound_ = 1 << 30; nontriv_ = false;
    me->depth = 0; me->desc[0] = 0; exec_bytes_ = 0; me->in_exec = 1;
    SStat &st = SH->st[sc];
    bool counts = true;
    try { scenarios()[sc].body(); }
    catch (SkipShard &) { counts = false; }
    catch (Prune &) { track = false; if (sharded_ || my_shard()) st.pruned++; counts = false; }
    catch (Fail &) { track = false; }
    me->in_exec = 0;
    if (counts && !sharded_ && !g_replay && !my_shard()) counts = false;
    if (counts) {
        uint64_t ne = ++st.execs; st.transitions += pos_ + 1; if (nontriv_) st.nontrivial++;
        if (!g_replay && me->desc[0] && (ne == 1 || ne == 10 || ne == 100 || ne == 1000 || ne == 10000 || ne == 100000)) {
            std::string l = scenarios()[sc].name + "\x1f" + one(std::string(me->desc).substr(0, 600)) + "\n";
            int fd = open((g_scratch + "/samples").c_str(), O_WRONLY | O_APPEND | O_CREAT, 0666);
            if (fd >= 0) { if (write(fd, l.data(), l.size()) < 0) {} close(fd); }
        }
        uint64_t d = st.maxdepth; while (pos_ > d && !st.maxdepth.compare_exchange_weak(d, pos_)) {}
    }
    stack_.resize(pos_);
    me->heartbeat++;
}

struct Resume { int scenario = 0; std::vector<int> ch; bool has = false; std::vector<int> ar; };

static std::vector<int> active;

static void worker(int idx, const Resume &r)
{
    self = idx; me = &WS[idx];
    std::string vf = g_scratch + "/viol" + std::to_string(idx);
    vfd = open(vf.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0666);
    std::string ef = g_scratch + "/err" + std::to_string(idx);
    int efd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666);
    if (!g_verbose) { dup2(efd, 2); dup2(efd, 1); }
    int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
    mc_glib_setup();
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
    bool started = !r.has;
    for (int sc : active) {
        if (!started && sc < r.scenario) continue;
        me->scenario = sc;
        stack_.clear();
        if (!started && sc == r.scenario) {
            started = true;
            for (size_t i = 0; i < r.ch.size(); i++) stack_.push_back({r.ch[i], r.ar[i]});
            if (!advance()) continue;
        }
        started = true;
        uint64_t n = 0; double lastchk = now();
        do {
            run_one(sc);
            if ((++n & 1023) == 0 || now() - lastchk > 2) {
                lastchk = now();
                off_t sz = lseek(efd, 0, SEEK_END);
                if (sz > (1 << 20)) { if (ftruncate(efd, 0)) {} }
                if (g_deadline && now() > g_deadline) { SH->st[sc].capped++; break; }
                if (SH->first_unknown > 0 && now() - SH->first_unknown > 15) { SH->st[sc].capped++; break; }
            }
            if (unknown_viol >= (g_nostop ? 3000 : 40)) { SH->st[sc].capped++; break; }
        } while (advance());
        unknown_viol = 0;
    }
    if (!g_wscratch.empty()) {
        std::string cmd = "rm -rf '" + g_wscratch + "'"; if (system(cmd.c_str())) {}
    }
    _exit(0);
}

static std::string slurp(const std::string &p)
{ std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

static void crash_info(const std::string &log, std::string &kind, std::string &where)
{
    kind = "crash"; where = "?";
    size_t p = log.rfind("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) {
        size_t b = p + 25, e = log.find_first_of(" \n(", b); kind = log.substr(b, e - b);
        if (kind == "ABRT") {
            size_t a = log.rfind("Assertion `"); if (a != std::string::npos) kind = "assertion";
            else if (log.rfind("CRITICAL") != std::string::npos) kind = "glib-critical";
        }
    } else if ((p = log.rfind("runtime error: ")) != std::string::npos) {
        kind = "ub:" + log.substr(p + 15, log.find('\n', p) - p - 15);
    } else p = 0;
    // first frame inside the library sources
    size_t q = p;
    while ((q = log.find(" in ", q)) != std::string::npos) {
        size_t e = log.find('\n', q); std::string line = log.substr(q + 4, e - q - 4);
        if (line.find("/satyr_src/lib/") != std::string::npos || line.find("/satyr_src/python/") != std::string::npos) {
            where = line.substr(0, line.find_first_of(" (")); break;
        }
        q = e == std::string::npos ? log.size() : e;
    }
}

// run a single choice vector alone in a child.  0 = no violation, 1 = same, fills v
static int replay_alone(const Viol &v, Viol &got, int cpu_limit)
{
    int pfd[2]; if (pipe(pfd)) return -1;
    pid_t p = fork();
    if (p == 0) {
        close(pfd[0]);
        me = &WS[W]; W = 1; self = 0;
        std::string ef = g_scratch + "/replay.err"; int efd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
        if (!g_verbose) { dup2(efd, 2); dup2(efd, 1); }
        int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
        g_replay = true; g_wscratch.clear();
        mc_glib_setup();
        if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
        if (cpu_limit) { signal(SIGVTALRM, SIG_DFL); itimerval it{}; it.it_value.tv_sec = cpu_limit; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
        me->scenario = v.scenario; stack_.clear();
        for (int c : v.ch) stack_.push_back({c, 0});
        have_lastv = false;
        run_one(v.scenario);
        if (have_lastv) { std::string l = lastv.key + "\x1f" + lastv.msg + "\x1f" + lastv.desc; if (write(pfd[1], l.data(), l.size()) < 0) {} }
        if (!g_wscratch.empty()) { std::string cmd = "rm -rf '" + g_wscratch + "'"; if (system(cmd.c_str())) {} }
        _exit(have_lastv ? 1 : 0);
    }
    close(pfd[1]);
    std::string s; char b[4096]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) s.append(b, n);
    close(pfd[0]);
    int stt; waitpid(p, &stt, 0);
    got = v;
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) return 0;
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 1 && !s.empty()) {
        size_t a = s.find('\x1f'), c = s.find('\x1f', a + 1);
        got.key = s.substr(0, a); got.msg = s.substr(a + 1, c - a - 1); got.desc = s.substr(c + 1); got.kind = "assert"; return 1;
    }
    if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGVTALRM) { got.kind = "hang"; got.key = "hang"; got.msg = "does not terminate (CPU limit)"; got.desc = WS[W].desc; return 1; }
    std::string kind, where; crash_info(slurp(g_scratch + "/replay.err"), kind, where);
    got.kind = "crash"; got.desc = WS[W].desc; got.key = kind + "@" + where + "|" + one(got.desc); got.msg = kind + " in " + where;
    return 1;
}

static std::string write_replay(const Viol &v, int n)
{
    mkdir(g_replaydir.c_str(), 0777);
    std::string p = g_replaydir + "/" + g_prop + "-" + std::to_string(n) + ".replay";
    std::ofstream f(p);
    f << "property: " << g_prop << "\nscenario: " << scenarios()[v.scenario].name << "\ntier: " << (g_thorough ? "thorough" : "quick")
      << "\nkey: " << one(v.key) << "\nmessage: " << one(v.msg) << "\ncase: " << one(v.desc) << "\nkind: " << v.kind << "\nchoices:";
    for (int c : v.ch) f << " " << c;
    f << "\n";
    return p;
}

static double cpu_of(pid_t p)
{
    clockid_t c; timespec t; if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return 0; return t.tv_sec + t.tv_nsec * 1e-9;
}

static int do_replay_file(const char *file)
{
    std::ifstream f(file); std::string l; Viol v; v.scenario = -1;
    while (std::getline(f, l)) {
        if (l.rfind("scenario: ", 0) == 0) { for (size_t i = 0; i < scenarios().size(); i++) if (scenarios()[i].name == l.substr(10)) v.scenario = (int)i; }
        else if (l.rfind("tier: ", 0) == 0) g_thorough = l.substr(6) == "thorough";
        else if (l.rfind("choices:", 0) == 0) { std::stringstream s(l.substr(8)); int c; while (s >> c) v.ch.push_back(c); }
    }
    if (v.scenario < 0) { fprintf(stderr, "unknown scenario\n"); return 2; }
    g_verbose = true;
    Viol got; int r = replay_alone(v, got, 60);
    if (r == 0) { printf("replay: no violation\n"); return 0; }
    printf("replay: %s\n  %s\n  case: %s\n", got.key.c_str(), got.msg.c_str(), got.desc.c_str());
    return 1;
}

} // namespace mc

using namespace mc;

int main(int argc, char **argv)
{
    std::string filter, replay; double budget = 0;
    int workers = (int)sysconf(_SC_NPROCESSORS_ONLN); if (workers > 16) workers = 16; if (workers < 1) workers = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--tier") g_thorough = next() == "thorough";
        else if (a == "--workers") workers = atoi(next().c_str());
        else if (a == "--out") g_out = next();
        else if (a == "--scratch") g_scratch = next();
        else if (a == "--replay-dir") g_replaydir = next();
        else if (a == "--property") g_prop = next();
        else if (a == "--known") g_known = next();
        else if (a == "--budget") budget = atof(next().c_str());
        else if (a == "--filter") filter = next();
        else if (a == "--replay") replay = next();
        else if (a == "-v") g_verbose = true;
        else if (a == "--list") { for (auto &s : scenarios()) puts(s.name.c_str()); return 0; }
    }
    g_nostop = getenv("VERIF_NOSTOP") != nullptr;
    if (g_scratch.empty()) { char t[] = "/tmp/mcscratchXXXXXX"; g_scratch = mkdtemp(t); }
    mkdir(g_scratch.c_str(), 0777);
    W = workers;
    SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    WS = (WState *)mmap(nullptr, sizeof(WState) * (W + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    table = (std::atomic<uint64_t> *)mmap(nullptr, TSLOTS * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (!replay.empty()) return do_replay_file(replay.c_str());
    if (!g_known.empty()) { std::ifstream f(g_known); std::string l; while (std::getline(f, l)) if (!l.empty()) known_keys.insert(l); }
    if (budget > 0) g_deadline = now() + budget;
    for (size_t i = 0; i < scenarios().size(); i++) {
        if (!(scenarios()[i].tiers & (g_thorough ? 2 : 1))) continue;
        if (!filter.empty() && scenarios()[i].name.find(filter) == std::string::npos) continue;
        active.push_back((int)i);
    }
    double t0 = now();
    struct Run { pid_t pid; uint64_t hb; double cpu; std::map<int, int> crashes; bool done; };
    std::vector<Run> runs(W);
    std::vector<Viol> viols;
    std::vector<std::string> internal;
    auto spawn = [&](int i, const Resume &r) {
        fflush(stdout);
        pid_t p = fork(); if (p == 0) worker(i, r);
        runs[i].pid = p; runs[i].hb = WS[i].heartbeat; runs[i].cpu = 0; runs[i].done = false;
    };
    for (int i = 0; i < W; i++) spawn(i, Resume());
    int live = W;
    while (live > 0) {
        usleep(20000);
        for (int i = 0; i < W; i++) {
            if (runs[i].done) continue;
            int stt; bool hang = false;
            pid_t q = waitpid(runs[i].pid, &stt, WNOHANG);
            if (q == 0) {
                double c = cpu_of(runs[i].pid);
                if (WS[i].heartbeat != runs[i].hb) { runs[i].hb = WS[i].heartbeat; runs[i].cpu = c; continue; }
                if (c - runs[i].cpu > 10 && WS[i].in_exec) { kill(runs[i].pid, SIGKILL); waitpid(runs[i].pid, &stt, 0); hang = true; }
                else continue;
            }
            if (!hang && WIFEXITED(stt) && WEXITSTATUS(stt) == 0) { runs[i].done = true; live--; continue; }
            int code = WIFEXITED(stt) ? WEXITSTATUS(stt) : 128 + WTERMSIG(stt);
            std::string log = slurp(g_scratch + "/err" + std::to_string(i));
            if (code >= 90 && code <= 92) { internal.push_back("worker error " + std::to_string(code) + ": " + log.substr(log.size() > 400 ? log.size() - 400 : 0)); runs[i].done = true; live--; continue; }
            // a crash (or hang) of the code under test in one execution
            Resume r; r.has = true; r.scenario = WS[i].scenario;
            for (int k = 0; k < WS[i].depth; k++) { r.ch.push_back(WS[i].choices[k]); r.ar.push_back(WS[i].arity[k]); }
            Viol v; v.scenario = r.scenario; v.ch = r.ch; v.desc = WS[i].desc; v.kind = hang ? "hang" : "crash";
            Viol got; int rr = replay_alone(v, got, 40);
            if (rr == 1) { viols.push_back(got); if (!known_keys.count(one(scenarios()[r.scenario].name + "/" + got.key))) note_unknown(); }
            else if (!hang) {
                std::string kind, where; crash_info(log, kind, where);
                v.key = kind + "@" + where + "|" + one(v.desc); v.msg = kind + " in " + where + " (history dependent: not reproduced alone)";
                if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL) internal.push_back("worker killed (memory?)"); else viols.push_back(v);
            }
            SH->st[r.scenario].execs++;
            std::string sname = scenarios()[r.scenario].name;
            if (rr == 1 && known_keys.count(one(sname + "/" + got.key))) SH->st[r.scenario].known++;
            else if (++runs[i].crashes[r.scenario] >= 6) {
                SH->st[r.scenario].capped++;
                r.ch.clear(); r.ar.clear(); // next scenario
                size_t k = 0; while (k < active.size() && active[k] <= r.scenario) k++;
                if (k == active.size()) { runs[i].done = true; live--; continue; }
                r.scenario = active[k]; r.has = true;
                Resume r2; r2.has = true; r2.scenario = active[k] ;
                // resume at the beginning of the next scenario
                r2.ch = {}; r2.ar = {};
                pid_t p = fork();
                if (p == 0) { std::vector<int> rest; for (int a : active) if (a >= active[k]) rest.push_back(a); active = rest; worker(i, Resume()); }
                runs[i].pid = p; runs[i].hb = WS[i].heartbeat; runs[i].cpu = 0;
                continue;
            }
            spawn(i, r);
        }
    }
    // collect assertion violations
    for (int i = 0; i < W; i++) {
        std::string s = slurp(g_scratch + "/viol" + std::to_string(i)); size_t p = 0, e;
        while ((e = s.find('\x1e', p)) != std::string::npos) {
            std::string l = s.substr(p, e - p); p = e + 2;
            std::vector<std::string> f; size_t a = 0, b; while ((b = l.find('\x1f', a)) != std::string::npos) { f.push_back(l.substr(a, b - a)); a = b + 1; } f.push_back(l.substr(a));
            if (f.size() < 6) continue;
            Viol v; v.scenario = atoi(f[0].c_str()); v.kind = f[1]; v.key = f[2]; v.msg = f[3]; v.desc = f[4];
            std::stringstream ss(f[5]); int c; while (ss >> c) v.ch.push_back(c);
            viols.push_back(v);
        }
    }
    std::map<std::string, Viol> uniq;
    for (auto &v : viols) {
        std::string k = one(scenarios()[v.scenario].name + "/" + v.key);
        auto it = uniq.find(k); if (it == uniq.end() || it->second.ch.size() > v.ch.size() || (it->second.ch.size() == v.ch.size() && it->second.ch > v.ch)) uniq[k] = v;
    }
    std::vector<std::pair<std::string, Viol>> order(uniq.begin(), uniq.end());
    std::stable_sort(order.begin(), order.end(), [](auto &a, auto &b) { return a.second.ch.size() < b.second.ch.size(); });
    std::ostringstream o;
    o << "{\"property\":" << js(g_prop) << ",\"workers\":" << W << ",\"wall_s\":" << (now() - t0) << ",\"saturated\":" << (uint64_t)SH->saturated << ",\n\"internal\":[";
    for (size_t i = 0; i < internal.size(); i++) o << (i ? "," : "") << js(internal[i]);
    o << "],\n\"violations\":[";
    int n = 0; bool first = true;
    for (auto &kv : order) {
        bool known = known_keys.count(kv.first);
        if (!known && n >= 25) continue;
        Viol v = kv.second; std::string rp;
        if (!known) {
            Viol got; int r = (v.kind == "assert") ? replay_alone(v, got, 40) : 1;
            if (r != 1 ) v.msg += " [history-dependent: not reproduced by its choice vector alone]";
            rp = write_replay(v, n++);
        }
        o << (first ? "" : ",") << "\n {\"scenario\":" << js(scenarios()[v.scenario].name) << ",\"key\":" << js(kv.first) << ",\"kind\":" << js(v.kind) << ",\"known\":" << (known ? "true" : "false")
          << ",\"message\":" << js(v.msg) << ",\"case\":" << js(v.desc.substr(0, 2000)) << ",\"replay\":" << js(rp) << "}";
        first = false;
    }
    o << "],\n\"samples\":[";
    { std::ifstream f(g_scratch + "/samples"); std::string l; bool fi = true;
      while (std::getline(f, l)) { size_t a = l.find('\x1f'); if (a == std::string::npos) continue;
        o << (fi ? "" : ",") << "\n {\"scenario\":" << js(l.substr(0, a)) << ",\"case\":" << js(l.substr(a + 1)) << "}"; fi = false; } }
    o << "],\n\"scenarios\":[";
    for (size_t k = 0; k < active.size(); k++) {
        auto &s = SH->st[active[k]];
        o << (k ? "," : "") << "\n {\"name\":" << js(scenarios()[active[k]].name) << ",\"executions\":" << s.execs << ",\"transitions\":" << s.transitions << ",\"steps\":" << s.steps
          << ",\"validated\":" << s.validated << ",\"nontrivial\":" << s.nontrivial << ",\"pruned\":" << s.pruned << ",\"known\":" << s.known << ",\"distinct_outcomes\":" << s.outcomes << ",\"states\":" << s.states
          << ",\"max_depth\":" << s.maxdepth << ",\"capped\":" << s.capped << "}";
    }
    o << "]}\n";
    if (!g_out.empty()) { std::ofstream f(g_out); f << o.str(); } else fputs(o.str().c_str(), stdout);
    return 0;
}
