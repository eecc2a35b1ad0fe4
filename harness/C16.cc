// C16: normalisation removes exactly the known noise, in any trace.
#include "norm.h"
#include "sizes.h"
static Frames frames_of(const Kind &k, void *f) { Frames v; for (; f; f = k.next(f)) v.push_back(k.content(f)); return v; }
static string dump(const Kind &k, const Frames &f) { string s; for (auto &c : f) { s += "("; for (size_t i = 0; i < k.f.size(); i++) s += (i ? "," : "") + (k.f[i].k == Field::STR ? (c[i].null ? string("-") : c[i].s) : fmt("%llx", (unsigned long long)c[i].n)); s += ")"; } return s; }
static void check(const Kind &k, const Frames &fr, const string &what)
{
    struct sr_thread *t = make_thread(k, fr); sr_thread_normalize(t); mc::step(); Frames got = frames_of(k, sr_thread_frames(t)); int n = sr_thread_frame_count(t); sr_thread_free(t); Frames want = ref_normalize(k, fr); mc::validated();
    if (got != want) mc::fail("frames|" + k.name + "|" + what, "%s became %s, expected %s", dump(k, fr).c_str(), dump(k, got).c_str(), dump(k, want).c_str());
    if (n != (int)want.size()) mc::fail("count|" + k.name + "|" + what, "%d frames counted, %zu expected", n, want.size());
    mc::nontrivial(); mc::outcome(k.name + dump(k, fr));
}
static Content frame(const Kind &k, const Val &fn, const Val &file, uint64_t addr = 0x400)
{
    Content c = base_frame(k); for (size_t i = 0; i < k.f.size(); i++) { if (!strcmp(k.f[i].name, "function_name")) c[i] = fn; if (!strcmp(k.f[i].name, "source_file") || (k.type == SR_REPORT_CORE && !strcmp(k.f[i].name, "file_name"))) c[i] = file; if (!strcmp(k.f[i].name, "address")) c[i] = N(addr); } return c;
}
static const Val null_val = V((const char *)nullptr);
// every rule with every file it names, near misses included, at every place of a thread
MC_SCENARIO(rules)
{
    enum sr_report_type ts[] = {SR_REPORT_GDB, SR_REPORT_CORE}; const Kind &k = frame_kind(mc::pick(ts));
    static vector<Call> all; static std::set<string> files; static vector<string> allfiles;
    if (all.empty()) {
        for (auto *v : {&gdb_exit_rules(), &core_exit_rules(), &above_rules(), &removable_calls()}) for (auto &r : *v) all.push_back(r);
        for (auto f : arch_functions) all.push_back({f, {}});
        static vector<string> names; for (auto f : arch_functions) for (auto s : arch_suffixes) names.push_back(string("__") + f + s); for (auto f : arch_functions) names.push_back(string("__") + f + "_avx2");
        static vector<string> pre; for (auto p : {"IA__gdk", "IA__g_", "IA__gtk", "__GI_", "__GI___GI_", "IA__g", "_GI_", "IA__gtk__GI_", "__GI_IA__g_"}) for (auto b : {"", "abort", "x", "raise", "free"}) pre.push_back(string(p) + b);
        for (auto &n : names) all.push_back({n.c_str(), {"/sysdeps/", "/sysdeps", "libc.so"}}); for (auto &n : pre) all.push_back({n.c_str(), {}});
        for (auto &r : all) for (auto f : r.second) files.insert(f); for (auto f : arch_functions) files.insert(f); allfiles.assign(files.begin(), files.end());
    }
    const Call &r = all[mc::choose((int)all.size())]; vector<Val> fs = {null_val, V(""), V("other.c"), V("libcc"), V("malloc"), V("/usr/src/sysdeps/x86/foo.S"), V("../sysdeps"), V("/lib64/libc.so.6"), V("strlen.S"), V("memcpy-ssse3.S")};
    for (auto f : r.second) { fs.push_back(V(f)); fs.push_back(V(string("/a/") + f + ".1")); string s = f; if (!s.empty()) { fs.push_back(V(s.substr(1))); fs.push_back(V(s.substr(0, s.size() - 1))); } }
    if (mc::thorough()) for (auto &f : allfiles) fs.push_back(V(f));
    Val file = mc::pick(fs); string fn = r.first; switch (mc::choose(4)) { case 1: fn += "x"; break; case 2: if (!fn.empty()) fn.pop_back(); break; case 3: fn = "x" + fn; break; }
    Content x = frame(k, V(fn), file), f = frame(k, V("f"), V("f.c")), g = frame(k, V("g"), V("g.c")), h = frame(k, V("h"), null_val);
    vector<Frames> places = {{x}, {x, f}, {f, x}, {f, x, g}, {x, x, f}, {f, g, x, h}, {x, f, x, g}};
    for (auto &p : places) check(k, p, fmt("%s in %s, %zu", quote(fn).c_str(), file.null ? "NULL" : quote(file.s).c_str(), &p - &places[0]));
}
// all sequences over frames that rules treat differently
MC_SCENARIO(sequences)
{
    enum sr_report_type ts[] = {SR_REPORT_GDB, SR_REPORT_CORE}; const Kind &k = frame_kind(mc::pick(ts)); bool gdb = k.type == SR_REPORT_GDB; Val unk = gdb ? V("??") : null_val;
    Frames al = {frame(k, V("f"), V("f.c")), frame(k, V("g"), V("/home/me/g.c")), frame(k, V("abort"), V("libc.so")), frame(k, V("__GI_abort"), V("libc.so.6")), frame(k, V("__assert_fail"), V("assert.c")), frame(k, V("g_log"), V("gmessages.c")), frame(k, unk, null_val, 0), frame(k, unk, V("x.c"), 0x10), frame(k, V("__memcpy_ssse3"), V("libc.so.6")), frame(k, V("IA__g_log"), V("libglib")), frame(k, V("main"), V("main.c"), 0), gdb ? frame(k, null_val, null_val) : frame(k, V("memcpy"), V("/home/you"))};
    int len = mc::choose((mc::thorough() ? 5 : 4) + 1); Frames fr; string w; for (int i = 0; i < len; i++) { int c = mc::choose((int)al.size()); fr.push_back(al[c]); w += char('A' + c); }
    mc::describe(k.name + " " + w); check(k, fr, w);
}
MC_SCENARIO(long_sequences)
{
    enum sr_report_type ts[] = {SR_REPORT_GDB, SR_REPORT_CORE}; const Kind &k = frame_kind(mc::pick(ts)); Val unk = k.type == SR_REPORT_GDB ? V("??") : null_val;
    Frames al = {frame(k, V("f"), V("f.c")), frame(k, V("kill"), V("syscall-template.S")), frame(k, V("_start"), V("start.S")), frame(k, unk, null_val, 0)};
    int len = 5 + mc::choose(mc::thorough() ? 5 : 4); Frames fr; string w; for (int i = 0; i < len; i++) { int c = mc::choose(4); fr.push_back(al[c]); w += char('A' + c); }
    mc::describe(k.name + " " + w); check(k, fr, w);
}
// kernel oopses: suffixes and reporting functions
MC_SCENARIO(koops)
{
    const Kind &k = frame_kind(SR_REPORT_KERNELOOPS); static const char *bad[] = {"do_softirq", "do_vfs_ioctl", "dump_stack", "flush_kthread_worker", "gs_change", "irq_exit", "kernel_thread_helper", "kthread", "process_one_work", "system_call_fastpath", "warn_slowpath_common", "warn_slowpath_fmt", "warn_slowpath_fmt_taint", "warn_slowpath_null", "worker_thread", "f", "", "zzz", "aaa", "warn_slowpath"};
    string fn = mc::pick(bad); static const char *suf[] = {"", ".part.3", ".", ".isra.0.cold", "x", "_"}; fn += mc::pick(suf); if (mc::choose(2)) fn = "_" + fn; Val mod = mc::choose(3) ? V(mc::choose(2) ? "" : "m") : null_val; int at = mc::choose(4);
    Content x = frame(k, V(fn), null_val); x[k.idx("module_name")] = mod; Content f = frame(k, V("f.b"), null_val), g = frame(k, null_val, null_val), d = frame(k, V("dump_stack"), null_val); for (auto *c : {&f, &g, &d}) (*c)[k.idx("module_name")] = null_val;
    vector<Frames> places = {{x}, {x, f}, {f, x, g}, {d, x, d}}; mc::describe(fn); check(k, places[at], quote(fn) + (mod.null ? " -" : " " + quote(mod.s)) + fmt(" %d", at));
}
MC_SCENARIO(koops_sequences)
{
    const Kind &k = frame_kind(SR_REPORT_KERNELOOPS); int len = mc::choose((mc::thorough() ? 7 : 5) + 1); Frames fr; string w;
    for (int i = 0; i < len; i++) { int c = mc::choose(5); const Val fn[] = {V("f"), V("kthread"), null_val, V("irq_exit.x"), V("kthread")}; Content x = frame(k, fn[c], null_val); x[k.idx("module_name")] = c == 4 ? V("m") : null_val; x[k.idx("address")] = N(i); fr.push_back(x); w += char('A' + c); }
    mc::describe(w); check(k, fr, w);
}
// kinds without rules stay as they are
MC_SCENARIO(others)
{
    enum sr_report_type ts[] = {SR_REPORT_PYTHON, SR_REPORT_JAVA, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT}; const Kind &k = frame_kind(mc::pick(ts)); const char *names[] = {"abort", "raise", "f", "kthread", "??", "__GI_x"}; int len = mc::choose(4); Frames fr; string w;
    for (int i = 0; i < len; i++) { int c = mc::choose(6); Content x = base_frame(k); for (size_t j = 0; j < k.f.size(); j++) if (k.f[j].k == Field::STR) x[j] = strstr(k.f[j].name, "name") && !strstr(k.f[j].name, "file") ? V(names[c]) : V("libc.so"); fr.push_back(x); w += char('A' + c); }
    mc::describe(k.name + w); check(k, fr, w);
}
// a whole GDB stack trace: every thread, the crash frame, and the crash thread stays known
MC_SCENARIO(stack_traces)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); Frames al = {frame(k, V("f"), V("f.c")), frame(k, V("abort"), V("abort.c")), frame(k, V("g_log"), V("gmessages.c")), frame(k, V("__GI_x"), V("x.c"))};
    TraceData d; d.type = SR_REPORT_GDB; int nt = mc::choose(4); for (int i = 0; i < nt; i++) { ThreadData td; td.number = i + 1; td.tid = 10 + i; int len = mc::choose(3); for (int j = 0; j < len; j++) td.frames.push_back(al[mc::choose(4)]); d.threads.push_back(td); }
    int ct = mc::choose(4); d.crash_tid = ct == 0 ? UINT32_MAX : ct == 1 ? 10 : ct == 2 ? 11 : 99; int cf = mc::choose(5); string what = dump(d) + fmt(" crash %d", cf); mc::describe(what);
    auto *s = (struct sr_gdb_stacktrace *)build(d); if (cf) s->crash = (struct sr_gdb_frame *)k.build(al[cf - 1]);
    struct sr_gdb_thread *ctd = sr_gdb_stacktrace_find_crash_thread(s); uint64_t want_tid = d.crash_tid == UINT32_MAX && ctd ? ctd->tid : d.crash_tid;
    sr_normalize_gdb_stacktrace(s); mc::step(); mc::validated(); TraceData got = extract((struct sr_stacktrace *)s), want = d; want.crash_tid = want_tid; for (auto &t : want.threads) t.frames = ref_normalize(k, t.frames);
    if (::dump(got) != ::dump(want)) mc::fail("trace|" + what, "became %s, expected %s", ::dump(got).c_str(), ::dump(want).c_str());
    if (cf) { Content c = al[cf - 1]; c[k.idx("function_name")] = ref_prefix(c[k.idx("function_name")]); Content g = k.content(s->crash); if (g != c) mc::fail("crash frame|" + what, "crash frame became %s", k.text(g).c_str()); }
    if (ct == 0 && ctd && sr_gdb_stacktrace_find_crash_thread(s) != ctd) mc::fail("crash thread|" + what, "the crash thread is another one after normalisation"); // found by id from now on
    sr_gdb_stacktrace_free(s); mc::nontrivial(); mc::outcome(what);
}
// pairing of unknown functions
MC_SCENARIO(pairing)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); auto mk = [&](const char *fn, const char *lib) { Content c = base_frame(k); c[k.idx("function_name")] = V(fn); c[k.idx("library_name")] = V(lib); return c; };
    Frames al = {mk("f", nullptr), mk("g", nullptr), mk("??", nullptr), mk("??", "l"), mk("f", "m"), mk("f", "n"), mk("??", "m")}; int max = mc::thorough() && mc::flip() ? 4 : 3; static std::map<int, vector<vector<int>>> wcache; auto &w = wcache[max]; if (w.empty()) w = words(max == 4 ? 5 : 7, max);
    auto &a = w[mc::choose((int)w.size())]; mc::describe(word(a)); uint64_t h = 0;
    for (auto &b : w) {
        Frames x, y; for (int i : a) x.push_back(al[i]); for (int i : b) y.push_back(al[i]); auto *t = (struct sr_gdb_thread *)make_thread(k, x), *u = (struct sr_gdb_thread *)make_thread(k, y); sr_normalize_gdb_paired_unknown_function_names(t, u); mc::step(); mc::validated();
        Frames gx = frames_of(k, t->frames), gy = frames_of(k, u->frames); sr_gdb_thread_free(t); sr_gdb_thread_free(u); ref_pair_unknown(k, x, y);
        if (gx != x || gy != y) mc::fail("pair|" + word(a) + "|" + word(b), "became %s and %s, expected %s and %s", dump(k, gx).c_str(), dump(k, gy).c_str(), dump(k, x).c_str(), dump(k, y).c_str());
        h = h * 31 + mc::hash(dump(k, gx) + dump(k, gy));
    }
    mc::nontrivial(); mc::outcome(word(a) + fmt("%llx", (unsigned long long)h));
}
// the optimised thread: normalised, without main and nameless frames, cut to the innermost frames; the original stays
MC_SCENARIO(optimized)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); Frames al = {frame(k, V("f"), V("f.c")), frame(k, V("main"), V("main.c")), frame(k, null_val, null_val), frame(k, V("abort"), V("abort.c")), frame(k, V("g"), null_val), frame(k, V("??"), null_val, 0)};
    int len = mc::choose((mc::thorough() ? 6 : 5) + 1), max = mc::choose(5); Frames fr; string w; for (int i = 0; i < len; i++) { int c = mc::choose((int)al.size()); fr.push_back(al[c]); w += char('A' + c); } mc::describe(w + fmt(" %d", max));
    int fn = k.idx("function_name"); auto named = [&](const Frames &f) { Frames r; for (auto &c : f) if (c[fn].null || c[fn].s != "main") r.push_back(c); return r; };
    auto *t = (struct sr_gdb_thread *)make_thread(k, fr); auto *o = sr_gdb_thread_get_optimized(t, nullptr, max); Frames got = frames_of(k, o->frames), kept = frames_of(k, t->frames), want; for (auto &c : named(ref_normalize(k, fr))) if (!c[fn].null) want.push_back(c); if (max && (int)want.size() > max) want.resize(max); sr_gdb_thread_free(o); mc::step(); mc::validated();
    if (got != want) mc::fail("optimized|" + w + fmt("|%d", max), "%s expected %s", dump(k, got).c_str(), dump(k, want).c_str());
    if (kept != fr) mc::fail("original|" + w, "the original became %s", dump(k, kept).c_str());
    sr_gdb_normalize_optimize_thread(t); mc::step(); kept = frames_of(k, t->frames); if (kept != named(fr)) mc::fail("main|" + w, "%s expected %s", dump(k, kept).c_str(), dump(k, named(fr)).c_str());
    sr_gdb_thread_free(t); mc::nontrivial(); mc::outcome(w + fmt("%d", max));
}
// threads and names of sizes near limits
MC_SCENARIO(sizes)
{
    enum sr_report_type ts[] = {SR_REPORT_GDB, SR_REPORT_CORE, SR_REPORT_KERNELOOPS}; const Kind &k = frame_kind(mc::pick(ts)); bool oops = k.type == SR_REPORT_KERNELOOPS; Val unk = k.type == SR_REPORT_GDB ? V("??") : null_val;
    auto mk = [&](const Val &fn, const Val &file, uint64_t addr = 0x400) { Content c = frame(k, fn, file, addr); if (oops) c[k.idx("module_name")] = null_val; return c; };
    vector<Content> noise = oops ? vector<Content>{mk(V("kthread"), null_val), mk(V("dump_stack.part"), null_val)} : vector<Content>{mk(V("abort"), V("libc.so")), mk(V("__memcpy_ssse3"), V("libc.so.6")), mk(V("IA__g_log"), V("libglib")), mk(unk, null_val, 0), mk(V("free"), V("malloc.c"))};
    int dim = mc::choose(2), n = dim ? length_near_limits() : count_near_limits(); Content x = mc::pick(noise); Frames fr; string what;
    if (!dim) { int where = mc::choose(6); for (int i = 0; i < n; i++) { bool nz = where == 0 ? i == 0 : where == 1 ? i == n - 1 : where == 2 ? i == n / 2 : where == 3 ? i % 2 : where == 4 ? i < n - 1 : i % 3 != 0; fr.push_back(nz ? x : mk(V(fmt("f%d", i)), V("f.c"))); } what = fmt("%d frames, noise %s at %d", n, k.text(x).c_str(), where); }
    else { int how = mc::choose(7); string l = long_text(n, 0); Val fn = V("f"), file = V("f.c"); switch (how) { case 0: fn = V(l); break; case 1: fn = V("IA__g_" + l); break; case 2: fn = V("__GI_" + l); break; case 3: file = V("/" + l + "/libc.so.6"); fn = V("abort"); break; case 4: file = V(l); fn = V("abort"); break; case 5: fn = V(l + ".part.1"); break; default: fn = V("__memcpy_" + l); file = V(l + "/sysdeps/x"); } fr = {mk(V("g"), null_val), mk(fn, file), x, mk(V("h"), null_val)}; what = fmt("%d characters, %d, noise %s", n, how, k.text(x).c_str()); }
    mc::describe(k.name + what); check(k, fr, what);
}
// many unknown functions paired at once
MC_SCENARIO(many_pairs)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); auto mk = [&](const string &fn) { Content c = base_frame(k); c[k.idx("function_name")] = V(fn); c[k.idx("library_name")] = null_val; return c; }; int n = count_near_limits(true), per = 2 + mc::choose(3), shift = mc::choose(4), kind = mc::choose(2); string what = fmt("%d frames, an unknown one in %d, shifted by %d, %s", n, per, shift, kind ? "all alike" : "all different"); mc::describe(what);
    Frames x, y; for (int i = 0; i < n; i++) x.push_back(mk(i % per == 1 ? "??" : kind ? "f" : fmt("f%d", i))); y = x; for (int i = 0; i < shift; i++) y.insert(y.begin(), mk(fmt("s%d", i))); if (shift == 3) y.pop_back();
    auto *t = (struct sr_gdb_thread *)make_thread(k, x), *u = (struct sr_gdb_thread *)make_thread(k, y); sr_normalize_gdb_paired_unknown_function_names(t, u); mc::step(); mc::validated(); Frames gx = frames_of(k, t->frames), gy = frames_of(k, u->frames); sr_gdb_thread_free(t); sr_gdb_thread_free(u); ref_pair_unknown(k, x, y);
    if (gx != x || gy != y) for (int i = 0; i < (int)std::min(gx.size(), x.size()); i++) if (gx[i] != x[i]) mc::fail("pair|" + what, "frame %d of the first became %s, expected %s", i, k.text(gx[i]).c_str(), k.text(x[i]).c_str());
    if (gx != x || gy != y) mc::fail("pair|" + what, "the threads became %zu and %zu frames", gx.size(), gy.size());
    mc::nontrivial(); mc::outcome(what);
}
