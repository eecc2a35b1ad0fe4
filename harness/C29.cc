// C29: core stack traces are assembled faithfully from GDB output, core dumps and dying processes.
#include "coredump.h"
static int open_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static string show(const vector<uint64_t> &v) { string s; for (auto x : v) s += fmt(" %llx", (ull)x); return s; }
static void judge(struct sr_core_stacktrace *st, char *msg, const vector<Thread> &want, int crash, const string &exe, int sig, bool only, bool tids, const string &what, const string &w)
{
    string m = S(msg); g_free(msg); if (!st) { mc::fail(what + "|" + w, "no stack trace: %s", m.c_str()); return; } if (msg) mc::fail(what + " message|" + w, "a stack trace with an error: %s", m.c_str());
    string d = compare(st, want, crash, tids); if (!d.empty()) mc::fail(what + "|" + w, "%s", d.c_str()); if (S(st->executable) != exe) mc::fail(what + " executable|" + w, "%s, expected %s", S(st->executable).c_str(), exe.c_str()); if (st->signal != sig) mc::fail(what + " signal|" + w, "%d, expected %d", st->signal, sig); if (st->only_crash_thread != only) mc::fail(what + " flag|" + w, "only the crash thread: %d", st->only_crash_thread);
}
static struct sr_core_stacktrace *parse(const string &core, const string &exe, char **msg, const string &w)
{
    long live = 1; for (int i = 0; live > 0 && i < 2; i++) { mc::HeapRegion h; char *m = nullptr; sr_core_stacktrace_free(sr_parse_coredump(core.c_str(), exe.c_str(), &m)); g_free(m); h.stop(); live = h.live(); mc::step(); } // elfutils may keep something the first time
    if (live > 0) mc::fail("leak|" + w, "%ld blocks left", live);
    int before = open_fds(); auto *st = sr_parse_coredump(core.c_str(), exe.c_str(), msg); mc::step(); if (open_fds() != before) mc::fail("descriptors|" + w, "%d open before, %d after", before, open_fds()); return st;
}
static const uint64_t places[] = {LIBA + 0x410, LIBA + 0x440, LIBA + 0x4a0, LIBA + 0x481, EXE + 0x400, EXE + 0x47f, EXE + 0x600, LIBB + 0x401, NOWHERE, LIBA + 0x510, LIBA + 0xfff, LIBB, MAX - 4095};
// ---- core dumps
MC_SCENARIO(core_frames)
{
    World w = world(); int n = 1 + mc::choose(mc::thorough() ? 4 : 3); vector<uint64_t> pcs; for (int i = 0; i < n; i++) pcs.push_back(mc::pick(places)); string d = show(pcs); mc::describe(d); put(path("core"), core_image({{77, 11, pcs}}, w.segs, w.opt)); char *msg = nullptr;
    auto *st = parse(path("core"), w.exe, &msg, d); judge(st, msg, {{unwound(pcs, w.mods), 77}}, 0, w.exe, 11, false, true, "frames", d); sr_core_stacktrace_free(st); mc::validated(); mc::nontrivial(); mc::outcome(d);
}
MC_SCENARIO(core_threads)
{
    World w = world(); int n = 1 + mc::choose(mc::thorough() ? 4 : 3); vector<CoreThread> ts; vector<Thread> want; int sig = 0; string d; static const int sigs[] = {0, 6, 11, 64}; static const vector<uint64_t> stacks[] = {{LIBA + 0x410}, {EXE + 0x440, LIBA + 0x440, EXE + 0x410}, {LIBB + 0x420, NOWHERE, LIBA + 0x510, LIBA + 0x410}};
    for (int i = 0; i < n; i++) { CoreThread t{100 - i * 7, mc::pick(sigs), mc::pick(stacks)}; if (!sig) sig = t.sig; ts.push_back(t); want.push_back({unwound(t.pcs, w.mods), t.tid}); d += fmt("; %d:", t.sig) + show(t.pcs); }
    w.opt.prpsinfo_first = mc::choose(2); d += fmt(" layout %d", w.opt.prpsinfo_first); mc::describe(d); put(path("core"), core_image(ts, w.segs, w.opt)); char *msg = nullptr;
    auto *st = parse(path("core"), w.exe, &msg, d); judge(st, msg, want, 0, w.exe, sig, false, true, "threads", d); sr_core_stacktrace_free(st); mc::validated(); mc::nontrivial(); mc::outcome(d);
}

MC_SCENARIO(core_long)
{
    World w = world(); static const int lens[] = {254, 255, 256, 257, 258, 300, 513}; static const uint64_t cycle[] = {LIBA + 0x410, EXE + 0x441, LIBB + 0x420}; int n = mc::pick(lens), two = mc::choose(3), stop = mc::choose(3); vector<uint64_t> pcs, other; for (int i = 0; i < n; i++) pcs.push_back(cycle[i % 3] + i % 7); if (stop == 1) pcs.push_back(LIBA + 0x510); if (stop == 2) { pcs.insert(pcs.begin() + 255, LIBA + 0x510); } for (int i = 0; i < 256 + (two == 2); i++) other.push_back(LIBA + 0x410 + i % 7);
    string d = fmt("%d frames %d %d", n, two, stop); mc::describe(d); vector<CoreThread> ts = {{7, 6, pcs}}; vector<Thread> want = {{unwound(pcs, w.mods), 7}}; if (two) { ts.push_back({8, 0, other}); want.push_back({unwound(other, w.mods), 8}); } put(path("core"), core_image(ts, w.segs, w.opt)); char *msg = nullptr; auto *st = parse(path("core"), w.exe, &msg, d); judge(st, msg, want, 0, w.exe, 6, false, true, "long", d); sr_core_stacktrace_free(st); mc::validated(); mc::nontrivial(); mc::outcome(d);
}
// modules on disk and gone, with and without a build ID
MC_SCENARIO(core_modules)
{
    World w = world(); static const string ids[] = {"0123456789abcdefghij", "", "xyz", string("\0\xff\x7f", 3), string(32, 'q')}; string id = mc::pick(ids); static const uint64_t bases[] = {0x10000, 0x3000000, 0x7f0000001000ull, 0x7effffff0000ull}; uint64_t base = mc::pick(bases); int disk = mc::choose(4);  string p = path("libm.so"), im = module_image(ET_DYN, 0, id, lib_syms), other = module_image(ET_DYN, 0, "other build id", {{"wrong", "wrong", 0x400, 0x100}}); if (id.empty() && disk == 2) mc::prune();
    if (disk == 0) put(p, im); else if (disk == 1) unlink(p.c_str()); else if (disk == 2) put(p, other); else put(p, "not an ELF file"); w.mods = {w.mods[0], {base, p, id, lib_syms, disk == 0}}; w.segs = {w.segs[0], {base, im.substr(0, SIZE)}}; w.opt.names = {{base, p}}; vector<uint64_t> pcs = {base + 0x410, base + 0x440, base + 0x4a0, base + 0x600, EXE + 0x410}; string d = fmt("id %s at %llx disk %d", hex(id).c_str(), (ull)base, disk); mc::describe(d); put(path("core"), core_image({{7, 6, pcs}}, w.segs, w.opt)); char *msg = nullptr; auto *st = parse(path("core"), w.exe, &msg, d); judge(st, msg, {{unwound(pcs, w.mods), 7}}, 0, w.exe, 6, false, true, "modules", d); sr_core_stacktrace_free(st); mc::validated(); mc::nontrivial(); mc::outcome(d);
}

// the signal is the first one recorded by a thread's status note
MC_SCENARIO(core_signals)
{
    World w = world(); static const int sigs[] = {0, 1, 6, 11, 31, 64, 32767}; int n = 1 + mc::choose(3), sig = 0; vector<CoreThread> ts; vector<Thread> want; string d; for (int i = 0; i < n; i++) { int s = mc::pick(sigs); if (!sig) sig = s; ts.push_back({10 + i, s, {LIBA + 0x410}}); want.push_back({unwound(ts[i].pcs, w.mods), 10 + i}); d += fmt(" %d", s); } mc::describe(d); put(path("core"), core_image(ts, w.segs, w.opt)); char *msg = nullptr; auto *st = parse(path("core"), w.exe, &msg, d); judge(st, msg, want, 0, w.exe, sig, false, true, "signals", d); sr_core_stacktrace_free(st); mc::validated(); mc::nontrivial(); mc::outcome(d);
}
// notes of others and dumps that do not name their files
MC_SCENARIO(core_layouts)
{
    World w = world(); static const char *const owners[] = {"", "C", "COR", "CORF", "core", "CORE2", "GNU"}; struct elf_prstatus ps; memset(&ps, 0, sizeof ps); ps.pr_pid = 5; ps.pr_cursig = 9; string foreign((char *)&ps, sizeof ps), d = "foreign"; int n = mc::choose(3); for (int i = 0; i < n; i++) { int k = mc::choose(7 + 3); if (k < 7) w.opt.first.push_back(note(owners[k], NT_PRSTATUS, foreign)); else if (k == 7) w.opt.first.push_back(note("CORE", NT_PRSTATUS, foreign.substr(0, sizeof ps - 8))); else if (k == 8) w.opt.first.push_back(note("CORE", NT_AUXV, string(32, 0))); else w.opt.first.push_back(note("CORE", NT_FPREGSET, foreign)); d += fmt(" %d", k); }
    w.opt.file_note = !mc::choose(2); if (!w.opt.file_note) for (auto &m : w.mods) if (m.base != EXE) { m.file = "[dso]"; m.symbols = false; } int sig = mc::choose(2) * 11; vector<uint64_t> pcs = {LIBA + 0x410, EXE + 0x440, EXE + 0x410}; d += fmt(" files %d signal %d", w.opt.file_note, sig); mc::describe(d); put(path("core"), core_image({{77, sig, pcs}, {78, 6, {EXE + 0x441}}}, w.segs, w.opt)); char *msg = nullptr; vector<Thread> want = {{unwound(pcs, w.mods), 77}, {unwound({EXE + 0x441}, w.mods), 78}};
    auto *st = parse(path("core"), w.exe, &msg, d); judge(st, msg, want, 0, w.exe, sig ? sig : 6, false, true, "layouts", d); sr_core_stacktrace_free(st); mc::validated(); mc::nontrivial(); mc::outcome(d);
}
// ---- GDB output with a core dump
struct Item { int kind; uint64_t pc; }; // 0 a frame, 1 a signal handler marker, 2 a frame without an address
static string gdb_frames(const vector<Item> &v, int thread) { string s; for (size_t i = 0; i < v.size(); i++) { if (v[i].kind == 1) s += fmt("#%zu  <signal handler called>\nNo symbol table info available.\n", i); else if (v[i].kind == 2) s += fmt("#%zu  t%d_%zu () at file.c:12\nNo locals.\n", i, thread, i); else s += fmt("#%zu  0x%016llx in t%d_%zu () from /lib/x.so\nNo symbol table info available.\n", i, (ull)v[i].pc, thread, i); } return s; }
static vector<Frame> from_gdb(const vector<Item> &v, const vector<Mod> &mods)
{
    vector<Frame> r; for (size_t i = 0; i < v.size(); i++) if (v[i].kind != 1) { bool ret = i && v[i - 1].kind != 1; if (v[i].kind == 2) { Frame f; f.address = MAX; r.push_back(f); } else r.push_back(expected(v[i].pc, ret, mods)); } if (r.size() > LIMIT) r.erase(r.begin(), r.end() - LIMIT); return r;
}
static string gdb_text(const vector<vector<Item>> &ts, int crash, int &marked)
{
    string t = crash < 0 ? "some header\n" : fmt("Core was generated by `x'.\n#0  0x0000000000000001 in t%d_0 () from /lib/x.so\n", crash); marked = -1; int n = ts.size(); if (n == 1) marked = 0; for (int i = 0; i < n; i++) { t += fmt("\nThread %d (Thread 0x7f%04d (LWP %d)):\n", n - i, i, 100 + i) + gdb_frames(ts[i], i); if (crash == i && n > 1 && ts[i][0].kind != 1) marked = i; } return t;
}
static void run_gdb(const World &w, const vector<vector<Item>> &ts, int crash, int sig, const string &d)
{
    int marked; string t = gdb_text(ts, crash, marked); vector<Thread> want; for (auto &x : ts) want.push_back({from_gdb(x, w.mods), -1}); put(path("core"), core_image({{7, sig, {LIBA + 0x410}}}, w.segs, w.opt)); Exact e(t); char *msg = nullptr; int before = open_fds(); auto *st = sr_core_stacktrace_from_gdb(e.p, path("core").c_str(), w.exe.c_str(), &msg); mc::step(); if (open_fds() != before) mc::fail("descriptors|" + d, "%d open before, %d after", before, open_fds());
    judge(st, msg, want, marked, w.mods[0].file, sig, false, false, "gdb", d); sr_core_stacktrace_free(st); mc::validated(); mc::nontrivial(); mc::outcome(d);
}
MC_SCENARIO(gdb_core)
{
    World w = world(); int n = 1 + mc::choose(2); vector<vector<Item>> ts; string d; static const uint64_t pcs[] = {LIBA + 0x410, LIBA + 0x440, EXE + 0x47f, LIBB + 0x401, NOWHERE, LIBA + 0x510}; for (int i = 0; i < n; i++) { vector<Item> v; int k = 1 + mc::choose(n == 1 ? mc::thorough() ? 5 : 4 : mc::thorough() ? 3 : 2); for (int j = 0; j < k; j++) { int c = mc::choose(8); v.push_back(c < 6 ? Item{0, pcs[c]} : Item{c - 5, 0}); d += fmt(" %d", c); } ts.push_back(v); d += ";"; } int crash = mc::choose(n + 1) - 1; d += fmt(" crash %d", crash); mc::describe(d); run_gdb(w, ts, crash, 6, d);
}
MC_SCENARIO(gdb_long)
{
    World w = world(); static const int lens[] = {254, 255, 256, 257, 258, 300, 520}; int n = mc::pick(lens); vector<int> at; int m = mc::choose(mc::thorough() ? 4 : 3); static const int where[] = {0, 1, 2, 44, 45, 254, 255, 256, 257, 258, 1000}; for (int i = 0; i < m; i++) at.push_back(mc::pick(where)); string d = fmt("%d frames, markers", n); vector<Item> v; for (int i = 0; i < n; i++) { for (int a : at) if (a == i) v.push_back({1, 0}); v.push_back({0, i % 3 ? LIBA + 0x400 + i % 4 * 0x20 : EXE + 0x440}); } for (int a : at) { d += fmt(" %d", a); if (a >= n) v.push_back({1, 0}); } mc::describe(d); run_gdb(w, {v}, 0, 11, d);
}
// ---- GDB output with the list of modules
MC_SCENARIO(gdb_unstrip)
{
    static const uint64_t pcs[] = {0x401000, 0x401fff, 0x402000, 0, MAX - 1}; struct U { uint64_t start, len; const char *id, *file; }; static const U us[] = {{0x401000, 0x1000, "0123456789abcdef", "/bin/x"}, {0x400000, 0x2000, "ffee", "/lib/y.so"}, {0x402000, 1, "-", "/lib/z.so"}, {MAX - 1, 1, "aa", "[vdso]"}, {0, 1, "bb", "."}};
    int mods = 1 + mc::choose(mc::thorough() ? 3 : 2); string un, d; vector<U> list; for (int i = 0; i < mods; i++) { int c = mc::choose(5); list.push_back(us[c]); un += fmt("0x%llx+0x%llx %s%s %s - m%d\n", (ull)us[c].start, (ull)us[c].len, us[c].id, c % 2 ? "" : "@0x4", us[c].file, i); d += fmt(" %d", c); } d += ":";
    int n = 1 + mc::choose(2); vector<vector<Item>> ts; for (int i = 0; i < n; i++) { vector<Item> v; int k = 1 + mc::choose(n == 1 ? 3 : 2); for (int j = 0; j < k; j++) { int c = mc::choose(7); v.push_back(c < 5 ? Item{0, pcs[c]} : Item{c - 4, 0}); d += fmt(" %d", c); } ts.push_back(v); d += ";"; } int crash = mc::choose(n + 1) - 1, anon = mc::choose(2); d += fmt(" crash %d %d", crash, anon); mc::describe(d);
    int marked; string t = gdb_text(ts, crash, marked); if (anon) { size_t p; while ((p = t.find(" in t0_1 ")) != string::npos) t.replace(p, 9, " in ?? "); } vector<Thread> want; for (int i = 0; i < n; i++) { Thread th; for (size_t j = 0; j < ts[i].size(); j++) { auto &it = ts[i][j]; if (it.kind == 1) continue; Frame f; f.address = it.kind == 2 ? MAX : it.pc; f.function = anon && i == 0 && j == 1 && it.kind == 0 ? "" : fmt("t%d_%zu", i, j); for (auto &u : list) if (!f.module && f.address >= u.start && f.address - u.start < u.len) { f.module = true; f.build_id = *u.id == '-' ? "" : u.id; f.file = u.file; f.offset = f.address - u.start; } th.frames.push_back(f); } want.push_back(th); }
    Exact e(t), ue(un); mc::HeapRegion h; auto *st = sr_core_stacktrace_create(e.p, ue.p, "/usr/bin/x y"); mc::step(); if (!st) { mc::fail("unstrip|" + d, "no stack trace"); return; }
    // what stands for a signal handler marker is not judged
    for (auto *x = st->threads; x; x = x->next) for (auto **f = &x->frames; *f;) { if ((*f)->address == MAX && !(*f)->function_name) { auto *dead = *f; *f = dead->next; dead->next = nullptr; sr_core_frame_free(dead); } else f = &(*f)->next; }
    judge(st, nullptr, want, marked, "/usr/bin/x y", 0, false, false, "unstrip", d); sr_core_stacktrace_free(st); long live = h.live(); h.stop(); static bool warm; if (live && warm) mc::fail("leak|" + d, "%ld blocks left", live); warm = true; mc::validated(); mc::nontrivial(); mc::outcome(d);
}
// ---- a dying process
struct Hook { pid_t pid = -1; };
static Hook hook; static void too_long(int) { if (hook.pid > 0) kill(hook.pid, SIGKILL); }
static void rel(Bytes &b, uint64_t target) { b.u8(0xe8); b.u32((uint32_t)(target - (b.s.size() + 4))); }
// the four ways to ask for the stack trace of a dying process; two of them answer with JSON
static struct sr_core_stacktrace *from_hook(int api, pid_t pid, const char *exe, int sig, char **msg, const string &d)
{
    if (api == 0) return sr_core_stacktrace_from_core_hook(pid, exe, sig, msg);
    if (api == 1) { auto *state = sr_core_stacktrace_from_core_hook_prepare(pid, msg); return state ? sr_core_stacktrace_from_core_hook_generate(pid, exe, sig, state, msg) : nullptr; }
    char *t; if (api == 2) t = sr_abrt_get_core_stacktrace_from_core_hook(pid, exe, sig, msg); else { auto *state = sr_abrt_get_core_stacktrace_from_core_hook_prepare(pid, msg); t = state ? sr_abrt_get_core_stacktrace_from_core_hook_generate(pid, exe, sig, state, msg) : nullptr; }
    if (!t) return nullptr; string j = take(t); if (j.empty() || j.back() != '\n') mc::fail("hook JSON|" + d, "%s", j.c_str()); char *e = nullptr; auto *st = sr_core_stacktrace_from_json_text(j.c_str(), &e); if (!st) mc::fail("hook JSON|" + d, "%s: %s", S(e).c_str(), j.c_str()); g_free(e);
    string again = st ? take(sr_core_stacktrace_to_json(st)) + "\n" : j; if (again != j) mc::fail("hook JSON|" + d, "%s is read as %s", j.c_str(), again.c_str()); return st;
}
// where processes cannot be traced at all there is nothing to explore
static bool traceable() { static int can = -1; if (can < 0) { pid_t p = fork(); if (p == 0) { pause(); _exit(0); } can = ptrace(PTRACE_SEIZE, p, 0, 0) == 0; kill(p, SIGKILL); waitpid(p, nullptr, __WALL); } return can; }
MC_SCENARIO(dying_process)
{
    if (!traceable()) mc::prune();
    static const int quick[] = {0, 1, 2, 3, 252, 253, 254, 255, 256, 400}; int depth = mc::thorough() ? mc::choose(300) : mc::pick(quick), rec = mc::choose(3); if (rec && depth == 0) mc::prune(); if (!rec && depth > 20) mc::prune(); static const int sigs[] = {-1, 0, 6, 11, 64}; int sig = mc::pick(sigs), named = mc::choose(2), sp = mc::choose(2); if (mc::thorough() && depth > 5 && (sig != 11 || !named)) mc::prune(); int api = mc::choose(depth == 2 || depth == 255 ? 4 : 1); if (api && (sig == 0 || sig == 6)) mc::prune(); string d = fmt("depth %d kind %d signal %d named %d split %d call %d", depth, rec, sig, named, sp, api); mc::describe(d);
    // the code: _start calls f0 ... which call the function that writes until nobody reads, then exits
    Bytes c; vector<Sym> syms; auto at = [&] { return TEXT + c.s.size(); }; vector<uint64_t> up; std::unique_ptr<vector<string>> keep(new vector<string>); keep->reserve(64); size_t begin = at(); c.s += string("\x31\xed", 2); c.u8(0xb9); c.u32(depth); size_t fix = c.s.size(); c.s += string(5, '\x90'); c.u8(0xf4); syms.push_back({"__libc_start_main", "__libc_start_main", begin, at() - begin}); up.push_back(at() - 1);
    auto patch = [&](size_t pos, size_t target) { uint32_t r = target - (pos + 5); c.s[pos] = '\xe8'; for (int i = 0; i < 4; i++) c.s[pos + 1 + i] = (char)(r >> 8 * i); };
    if (!rec) for (int i = 0; i < depth; i++) { patch(fix, c.s.size()); begin = at(); c.s += string("\x55\x48\x89\xe5", 4); fix = c.s.size(); c.s += string(5, '\x90'); up.push_back(at()); if (!sp || i % 2) c.s += string("\x5d\xc3", 2); keep->push_back(fmt("f%d", i)); syms.push_back({keep->back().c_str(), keep->back().c_str(), begin, at() - begin}); }
    else { patch(fix, c.s.size()); begin = at(); c.s += string("\x55\x48\x89\xe5\xff\xc9\x74\x05", 8); size_t self = c.s.size(); c.s += string(5, '\x90'); patch(self, begin - TEXT); uint64_t inner = at(); fix = c.s.size(); c.s += string(5, '\x90'); uint64_t outer = at(); c.s += string("\x5d\xc3", 2); for (int i = 1; i < depth; i++) up.push_back(inner); up.push_back(outer); syms.push_back({rec == 2 ? "_ZN1a3barEi" : "again", rec == 2 ? "a::bar(int)" : "again", begin, at() - begin}); }
    patch(fix, c.s.size()); begin = at(); c.s += string("\x55\x48\x89\xe5", 4); size_t loop = c.s.size(); c.s += string("\xbf\1\0\0\0\x48\x89\xe6\xba\x08\0\0\0\xb8\1\0\0\0\x0f\x05\x48\x85\xc0\x79", 24); c.u8((int)loop - (int)(c.s.size() + 1)); c.s += string("\x31\xff\xb8\x3c\0\0\0\x0f\x05", 9); up.push_back(at()); c.u8(0xf4); syms.push_back({"leaf", "leaf", begin, at() - begin});
    string prog = path("hook"), id = "hook build id"; put(prog, module_image(ET_EXEC, EXE, id, syms, c.s), 0700); char *real = realpath(prog.c_str(), nullptr); vector<Mod> mods = {{EXE, S(real), id, syms}}; free(real); vector<uint64_t> chain; for (size_t i = up.size(); i-- > 0;) chain.push_back(EXE + up[i]);
    int fd[2]; if (pipe2(fd, O_CLOEXEC)) mc::prune(); pid_t pid = fork(); if (pid == 0) { sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGPIPE); sigprocmask(SIG_BLOCK, &ss, nullptr); dup2(fd[1], 1); char *const av[] = {(char *)"hook", nullptr}; execve(prog.c_str(), av, av + 1); _exit(99); } hook.pid = pid; signal(SIGALRM, too_long); alarm(20); close(fd[1]); dup2(fd[0], 0); close(fd[0]); struct pollfd pf = {0, POLLIN, 0}; poll(&pf, 1, 10000); int before = open_fds();
    char *msg = nullptr; auto *st = from_hook(api, pid, named ? "/usr/bin/given" : nullptr, sig, &msg, d); mc::step(); int after = open_fds(); kill(pid, SIGKILL); int status; ptrace(PTRACE_DETACH, pid, 0, 0); waitpid(pid, &status, __WALL); alarm(0); hook.pid = -1; int nul = open("/dev/null", O_RDONLY); if (nul != 0) { dup2(nul, 0); close(nul); }
    if (after != before - 1) mc::fail("hook descriptors|" + d, "%d open before, %d after", before, after); judge(st, msg, {{unwound(chain, mods), api > 1 ? 0 : pid}}, 0, named ? "/usr/bin/given" : "(null)", sig > 0 ? sig : 0, true, api < 2, "hook", d); sr_core_stacktrace_free(st); mc::validated(); mc::nontrivial(); mc::outcome(d);
}
MC_SCENARIO(no_process)
{
    int named = mc::choose(2), api = mc::choose(4); pid_t pid = fork(); if (pid == 0) _exit(0); int status; waitpid(pid, &status, 0); mc::describe("reaped process"); char *msg = nullptr; auto *st = from_hook(api, pid, named ? "/x" : nullptr, 6, &msg, "reaped"); mc::step(); if (st || !msg || !*msg) mc::fail("no process", "%s", st ? "a stack trace" : "no message"); g_free(msg); sr_core_stacktrace_free(st); if (fcntl(0, F_GETFD) < 0) open("/dev/null", O_RDONLY); mc::validated(); mc::nontrivial(); mc::outcome(fmt("%d %d", named, api));
}
// a process that is traced by somebody already, or no standard input to close
MC_SCENARIO(untraceable)
{
    if (!traceable()) mc::prune(); int how = mc::choose(2), api = mc::choose(4), want_msg = mc::choose(2); string d = fmt("%s, call %d, message %d", how ? "no stdin" : "already traced", api, want_msg); mc::describe(d); pid_t pid = fork(); if (pid == 0) { if (!how) { ptrace(PTRACE_TRACEME, 0, 0, 0); raise(SIGSTOP); } pause(); _exit(0); } int status; if (!how) waitpid(pid, &status, WUNTRACED); hook.pid = pid; signal(SIGALRM, too_long); alarm(20); if (how) close(0);
    int before = open_fds(); char *msg = nullptr; auto *st = from_hook(api, pid, "/x", 6, want_msg ? &msg : nullptr, d); int after = open_fds(); mc::step(); alarm(0); kill(pid, SIGKILL); ptrace(PTRACE_DETACH, pid, 0, 0); waitpid(pid, &status, __WALL); hook.pid = -1; if (fcntl(0, F_GETFD) < 0) { int nul = open("/dev/null", O_RDONLY); if (nul) { dup2(nul, 0); close(nul); } }
    if (st || (want_msg && (!msg || !*msg))) mc::fail("untraceable|" + d, "%s", st ? "a stack trace" : "no message"); if (after != before) mc::fail("descriptors|" + d, "%d open before, %d after", before, after); g_free(msg); sr_core_stacktrace_free(st); mc::validated(); mc::nontrivial(); mc::outcome(d);
}
// ---- what is no GDB output or list of modules
MC_SCENARIO(gdb_foreign)
{
    static const char *const bad[] = {"", "text\n", "Thread 1", "Thread 1 (LWP 1):\n", "#0 ", "#0  0x", "#0  0x1 in f (", "Core was generated by `x'.\n", "#x  0x1 in f ()\n", "Thread 2 (LWP 5):\n#0  0x1 in f () from /l\n\nThread x"}; static const char *const un[] = {"0x401000+0x1000 ab@0x4 /bin/x - m\n", "", "text\n", "0x401000 0x1000 ab /bin/x - m\n", "\n\n"};
    const char *good = "Thread 1 (LWP 1):\n#0  0x401000 in f () from /l\n"; World w = world(); int api = mc::choose(3); bool g = mc::flip(); const char *t = g ? good : mc::pick(bad); const char *u = api == 0 ? mc::pick(un) : ""; bool core = api == 0 || mc::flip(); string d = fmt("api %d core %d ", api, core) + quote(t) + " " + quote(u); mc::describe(d); struct sr_location loc; sr_location_init(&loc); const char *c = t; auto *parsed = sr_gdb_stacktrace_parse(&c, &loc); string why = take(sr_location_to_string(&loc)); bool ok = parsed; sr_gdb_stacktrace_free(parsed); ok = ok && core && (api || !strncmp(u, "0x401000+", 9));
    string dir = path("dir"), out = dir + "/core_backtrace", cf = dir + "/coredump"; mkdir(dir.c_str(), 0700); unlink(out.c_str()); put(cf, core ? core_image({{7, 6, {LIBA + 0x410}}}, w.segs, w.opt) : "text"); put(dir + "/executable", w.exe); Exact e(t), ue(u); char *msg = nullptr; int before = open_fds(); bool got = false; long live = 0;
    for (int i = 0; i < 2; i++) { g_free(msg); msg = nullptr; mc::HeapRegion h; struct sr_core_stacktrace *st = nullptr; if (api == 0) got = (st = sr_core_stacktrace_create(e.p, ue.p, "/x")); else if (api == 1) got = (st = sr_core_stacktrace_from_gdb(e.p, cf.c_str(), w.exe.c_str(), &msg)); else got = sr_abrt_create_core_stacktrace_from_gdb(dir.c_str(), e.p, false, &msg); sr_core_stacktrace_free(st); string m = S(msg); g_free(msg); msg = g_strdup(m == "(null)" ? nullptr : m.c_str()); { string().swap(m); } h.stop(); live = h.live() - (msg != nullptr); mc::step(); }
    if (got != ok) mc::fail("foreign|" + d, "%s", got ? "a stack trace" : "no stack trace"); if (api && !got && (!msg || !*msg)) mc::fail("message|" + d, "rejected without a message"); if (api && !got && core && S(msg) != why) mc::fail("message|" + d, "%s, expected %s", S(msg).c_str(), why.c_str()); if (got && msg) mc::fail("message|" + d, "accepted with %s", msg); if (open_fds() != before) mc::fail("descriptors|" + d, "%d open before, %d after", before, open_fds()); if (!got && live > 0) mc::fail("leak|" + d, "%ld blocks left", live); if (api == 2 && got != !access(out.c_str(), F_OK)) mc::fail("file|" + d, "core_backtrace %s", got ? "is not there" : "was written"); g_free(msg); mc::validated(); mc::nontrivial(); mc::outcome(d);
}
// ---- what is not a core dump
static void refused(const string &core, const string &exe, int how, const string &d, bool must)
{
    mc::describe(d); int before = open_fds(); bool no0 = how == 2; if (no0) { close(0); before--; } char *msg = nullptr; auto *st = sr_parse_coredump(core.c_str(), exe.c_str(), how == 1 ? nullptr : &msg); mc::step(); int after = open_fds(); string m = S(msg); if (no0) { int nul = open("/dev/null", O_RDONLY); if (nul) { dup2(nul, 0); close(nul); } } if (after != before) mc::fail("descriptors|" + d, "%d open before, %d after", before, after); if (st && must) mc::fail("accepted|" + d, "a stack trace"); if (how != 1 && !st && (!msg || !*msg)) mc::fail("no message|" + d, "rejected without a message"); if (st && msg) mc::fail("message|" + d, "accepted with %s", m.c_str()); g_free(msg); sr_core_stacktrace_free(st); mc::validated(); mc::nontrivial(); mc::outcome(d + fmt("%d", st != nullptr));
}
MC_SCENARIO(core_truncated)
{
    World w = world(); static string core; if (core.empty()) core = core_image({{77, 11, {LIBA + 0x410, EXE + 0x410}}, {78, 0, {LIBB + 0x410}}}, w.segs, w.opt); int head = 0x900, tail = (core.size() - head) / 0x200, k = mc::choose(mc::thorough() ? head + tail : head / 8 + tail); size_t cut = mc::thorough() ? k < head ? k : head + (k - head) * 0x200 : k < head / 8 ? k * 8 : head + (k - head / 8) * 0x200; put(path("core"), core.substr(0, cut)); refused(path("core"), w.exe, mc::choose(3), fmt("cut to %zu", cut), cut < 64);
}
MC_SCENARIO(core_foreign)
{
    World w = world(); int k = mc::choose(7); string p = path("core"); static const char *f[] = {"", "text\n", "\x7f" "ELF", "!<arch>\n"}; if (k < 4) put(p, f[k]); else if (k == 4) put(p, module_image(ET_EXEC, EXE, "abcdef", exe_syms)); else if (k == 5) unlink(p.c_str()); else p = mc::scratch(); refused(p, mc::choose(2) ? w.exe : path("nowhere"), mc::choose(3), fmt("foreign %d", k), true);
}
// ---- problem directories
MC_SCENARIO(directory)
{
    World w = world(); int gdb = mc::choose(2), lack = mc::choose(4); string dir = path("dir"); mkdir(dir.c_str(), 0700); unlink((dir + "/core_backtrace").c_str()); static const vector<vector<uint64_t>> stacks = {{LIBA + 0x410}, {LIBA + 0x410, LIBA + 0x440, NOWHERE, EXE + 0x401}}; auto &pcs = mc::pick(stacks); string d = fmt("gdb %d lack %d", gdb, lack) + show(pcs); mc::describe(d); string core = dir + "/coredump", exe = dir + "/executable"; put(core, core_image({{7, 6, pcs}}, w.segs, w.opt)); put(exe, w.exe); if (lack == 1) unlink(core.c_str()); if (lack == 2) unlink(exe.c_str()); if (lack == 3) put(core, "text");
    vector<Item> v; for (auto p : pcs) v.push_back({0, p}); int marked; string t = gdb_text({v}, 0, marked); char *msg = nullptr; bool ok = gdb ? sr_abrt_create_core_stacktrace_from_gdb(dir.c_str(), t.c_str(), false, &msg) : sr_abrt_create_core_stacktrace(dir.c_str(), false, &msg); mc::step(); string m = S(msg); g_free(msg); if (ok != !lack) mc::fail("directory result|" + d, "%d: %s", ok, m.c_str()); if (!ok && m == "(null)") mc::fail("directory message|" + d, "no message"); string got; { FILE *f = fopen((dir + "/core_backtrace").c_str(), "r"); if (f) { int c; while ((c = getc(f)) != EOF) got += (char)c; fclose(f); } }
    string want; if (!lack) { char *e = nullptr; auto *st = gdb ? sr_core_stacktrace_from_gdb(t.c_str(), core.c_str(), w.exe.c_str(), &e) : sr_parse_coredump(core.c_str(), w.exe.c_str(), &e); if (st) want = take(sr_core_stacktrace_to_json(st)) + "\n"; g_free(e); sr_core_stacktrace_free(st); } if (got != want) mc::fail("directory file|" + d, "core_backtrace is %s, expected %s", quote(got).c_str(), quote(want).c_str()); mc::validated(); mc::nontrivial(); mc::outcome(d);
}
