// C19: crash thread, quality, frame limits, thread removal and the optimised thread follow their definitions.
#include "norm.h"
#include "sizes.h"
#include <cmath>
static const Val nul = V((const char *)nullptr);
static Content gframe(const Val &fn, const Val &file, uint64_t addr = 0x400, bool sig = false, const Val &lib = nul)
{
    static const Kind &k = frame_kind(SR_REPORT_GDB); Content c; for (auto &f : k.f) c.push_back(f.k == Field::STR ? nul : N(0)); c[k.idx("function_name")] = fn; c[k.idx("source_file")] = file; c[k.idx("address")] = N(addr); c[k.idx("signal_handler_called")] = N(sig); c[k.idx("library_name")] = lib; return c;
}
static Frames frames_of(const Kind &k, void *f) { Frames v; for (; f; f = k.next(f)) v.push_back(k.content(f)); return v; }
static Frames choose_frames(const Frames &al, int max, string *w = nullptr) { Frames r; int n = mc::choose(max + 1); for (int i = 0; i < n; i++) { int c = mc::choose((int)al.size()); r.push_back(al[c]); if (w) *w += char('A' + c); } if (w) *w += '|'; return r; }
// order of two threads by their frames alone: the first differing frame decides, a thread that ends first comes first
static int frames_order(const Kind &k, const Frames &a, const Frames &b)
{
    for (size_t i = 0;; i++) { if (i == a.size() || i == b.size()) return a.size() == b.size() ? 0 : i == a.size() ? -1 : 1; void *x = k.build(a[i]), *y = k.build(b[i]); int c = k.cmp(x, y); k.del(x); k.del(y); if (c) return c; }
}
static int ref_gdb_crash(const TraceData &d, const Val *crash)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); int fn = k.idx("function_name"), src = k.idx("source_file");
    if (d.threads.empty()) return -1;
    if (d.threads.size() == 1) return 0;
    if (d.crash_tid != UINT32_MAX) for (size_t i = 0; i < d.threads.size(); i++) if (d.threads[i].tid == d.crash_tid) return (int)i;
    if (!crash || crash->null) return -1;
    vector<int> top, aborting;
    for (size_t i = 0; i < d.threads.size(); i++) { auto &f = d.threads[i].frames; if (f.empty() || f[0][fn].null || f[0][fn].s != crash->s) continue; top.push_back((int)i); for (auto &c : f) if (called(gdb_exit_rules(), c[fn], c[src], false)) { aborting.push_back((int)i); break; } }
    if (top.empty()) return -1;
    if (top.size() == 1) return top[0];
    if (aborting.size() == 1) return aborting[0];
    int best = top[0]; for (int i : top) if (frames_order(k, d.threads[i].frames, d.threads[best].frames) < 0) best = i;
    return best;
}
static string tdump(struct sr_gdb_stacktrace *s) { string t = dump(extract((struct sr_stacktrace *)s)); if (s->crash) t += frame_kind(SR_REPORT_GDB).text(frame_kind(SR_REPORT_GDB).content(s->crash)); return t; }
MC_SCENARIO(gdb_crash_thread)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); static const Frames al = {gframe(V("f"), V("f.c")), gframe(V("abort"), V("abort.c")), gframe(V("g"), nul), gframe(nul, nul), gframe(V("abort"), V("x.c"))};
    static const Val crashes[] = {V("f"), V("abort"), V("??"), nul, V("g"), V("")}; int nt = mc::choose(4), maxf = nt == 3 ? (mc::thorough() ? 2 : 1) : mc::thorough() ? 3 : 2;
    TraceData d; d.type = SR_REPORT_GDB; string what; for (int i = 0; i < nt; i++) { ThreadData t; t.number = 7 - i; t.frames = choose_frames(al, maxf, &what); d.threads.push_back(t); }
    int tids = mc::choose(3); for (int i = 0; i < nt; i++) d.threads[i].tid = tids == 0 ? UINT32_MAX : tids == 1 ? 10 + i : 10 + i / 2; // unknown, distinct, shared
    int ct = mc::choose(5); d.crash_tid = ct == 0 ? UINT32_MAX : ct == 4 ? 99 : 9 + ct; int cf = mc::choose(7); what += fmt(" tids%d crash_tid%d crash%d", tids, ct, cf); mc::describe(what);
    auto *s = (struct sr_gdb_stacktrace *)build(d); if (cf) { Content c = gframe(crashes[cf - 1], V("other.c")); s->crash = (struct sr_gdb_frame *)k.build(c); } sr_gdb_stacktrace_set_crash_tid(s, (uint32_t)d.crash_tid);
    string before = tdump(s); int want = ref_gdb_crash(d, cf ? &crashes[cf - 1] : nullptr); auto *t = sr_gdb_stacktrace_find_crash_thread(s); auto *g = sr_stacktrace_find_crash_thread((struct sr_stacktrace *)s); mc::step(2); mc::validated();
    int got = -1, i = 0; for (auto *x = s->threads; x; x = x->next, i++) if (x == t) got = i; if (t && got < 0) mc::fail("outside|" + what, "the crash thread is not a thread of the trace");
    if (got != want) mc::fail("thread|" + what, "thread %d was found, %d expected in %s", got, want, before.c_str()); if ((void *)t != (void *)g) mc::fail("generic|" + what, "the generic operation finds another thread");
    auto *f = sr_gdb_stacktrace_get_crash_frame(s); mc::step(); Frames n; if (want >= 0) n = ref_normalize(k, d.threads[want].frames);
    if (!f != n.empty()) mc::fail("frame|" + what, f ? "a crash frame was made up" : "the crash frame is missing"); if (f) { if (k.content(f) != n[0]) mc::fail("frame|" + what, "the crash frame is %s, expected %s", k.text(k.content(f)).c_str(), k.text(n[0]).c_str()); if (f->next) mc::fail("frame next|" + what, "the crash frame has a successor"); sr_gdb_frame_free(f); }
    if (sr_gdb_stacktrace_get_thread_count(s) != nt) mc::fail("count|" + what, "%d threads counted", sr_gdb_stacktrace_get_thread_count(s)); if (tdump(s) != before) mc::fail("changed|" + what, "looking for the crash thread changed the trace: %s", tdump(s).c_str());
    if (nt) { int keep = mc::choose(nt); auto *x = s->threads; for (int q = 0; q < keep; q++) x = x->next; sr_gdb_stacktrace_remove_threads_except_one(s, x); mc::step(); TraceData e = d; e.threads = {d.threads[keep]}; TraceData r = extract((struct sr_stacktrace *)s); if (dump(r) != dump(e)) mc::fail("except one|" + what + fmt(" %d", keep), "left %s, expected %s", dump(r).c_str(), dump(e).c_str()); if (sr_gdb_stacktrace_find_crash_thread(s) != x) mc::fail("only|" + what, "the only thread is not the crash thread"); }
    sr_gdb_stacktrace_free(s); mc::nontrivial(); mc::outcome(what);
}
// every rule for exit frames decides between two threads with the same top frame
MC_SCENARIO(gdb_abort_rules)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); auto &rules = gdb_exit_rules(); static vector<string> files; if (files.empty()) { std::set<string> s; for (auto *v : {&rules, &core_exit_rules()}) for (auto &r : *v) for (auto f : r.second) { s.insert(f); s.insert(string("/x/") + f + ".6"); s.insert(string(f).substr(1)); } s.insert(""); s.insert("main.c"); files.assign(s.begin(), s.end()); }
    auto &r = rules[mc::choose((int)rules.size())]; string fn = r.first; switch (mc::choose(4)) { case 1: fn += "x"; break; case 2: fn.erase(0, 1); break; case 3: fn = "_" + fn; break; } int fi = mc::choose((int)files.size() + 1); Val file = fi ? V(files[fi - 1]) : nul; int at = mc::choose(3), which = mc::choose(2); string what = fn + " in " + (fi ? quote(file.s) : "NULL") + fmt(" at %d in %d", at, which); mc::describe(what);
    TraceData d; d.type = SR_REPORT_GDB; for (int i = 0; i < 2; i++) { ThreadData t; t.number = i; t.frames = {gframe(V("f"), V("f.c")), gframe(V("g"), V("g.c")), gframe(V("h"), nul)}; if (i == which) t.frames.insert(t.frames.begin() + 1 + at, gframe(V(fn), file)); d.threads.push_back(t); }
    Val crash = V("f"); auto *s = (struct sr_gdb_stacktrace *)build(d); s->crash = (struct sr_gdb_frame *)k.build(d.threads[0].frames[0]); int want = ref_gdb_crash(d, &crash); auto *t = sr_gdb_stacktrace_find_crash_thread(s); int got = !t ? -1 : t == s->threads ? 0 : 1; mc::step(); mc::validated();
    if (got != want) mc::fail("thread|" + what, "thread %d was found, %d expected", got, want);
    int n = 0; for (auto *x = s->threads; x; x = x->next, n++) { auto *e = sr_glibc_thread_find_exit_frame(x); mc::step(); bool w = n == which && called(rules, V(fn), file, false); if (!e == w) mc::fail("exit frame|" + what, "exit frame %s in thread %d", e ? "made up" : "missed", n); if (e && S(e->function_name) != fn) mc::fail("exit frame|" + what, "the exit frame is %s", S(e->function_name).c_str()); }
    sr_gdb_stacktrace_free(s); mc::nontrivial(); mc::outcome(what);
}
static int ref_core_crash(const TraceData &d)
{
    const Kind &k = frame_kind(SR_REPORT_CORE); if (d.crash >= 0) return d.crash; if (d.threads.empty()) return -1; if (d.threads.size() == 1) return 0;
    for (size_t i = 0; i < d.threads.size(); i++) for (auto &c : d.threads[i].frames) if (called(core_exit_rules(), c[k.idx("function_name")], c[k.idx("file_name")], true)) return (int)i;
    return -1;
}
MC_SCENARIO(core_crash_thread)
{
    const Kind &k = frame_kind(SR_REPORT_CORE); auto mk = [&](const Val &fn, const Val &file) { Content c = base_frame(k); c[k.idx("function_name")] = fn; c[k.idx("file_name")] = file; return c; };
    static const Frames al = {mk(V("f"), V("libc.so")), mk(V("abort"), V("libc.so.6")), mk(V("abort"), V("x.so")), mk(nul, V("libc.so")), mk(V("kill"), nul)};
    TraceData d; d.type = SR_REPORT_CORE; int nt = mc::choose(5), maxf = nt > 2 ? 1 + (mc::thorough() && nt == 3) : 2 + mc::thorough(); string what; for (int i = 0; i < nt; i++) { ThreadData t; t.tid = i; t.frames = choose_frames(al, maxf, &what); d.threads.push_back(t); } d.crash = mc::choose(nt + 1) - 1; d.only_crash = mc::choose(2); what += fmt(" crash%d only%d", d.crash, d.only_crash); mc::describe(what);
    auto *s = (struct sr_core_stacktrace *)build(d); string before = dump(extract((struct sr_stacktrace *)s)); int want = ref_core_crash(d), i = 0, got = -1; auto *t = sr_core_stacktrace_find_crash_thread(s); auto *g = sr_stacktrace_find_crash_thread((struct sr_stacktrace *)s); mc::step(2); mc::validated();
    for (auto *x = s->threads; x; x = x->next, i++) if (x == t) got = i; if ((t && got < 0) || got != want) mc::fail("thread|" + what, "thread %d was found, %d expected", got, want); if ((void *)t != (void *)g) mc::fail("generic|" + what, "the generic operation finds another thread");
    if (dump(extract((struct sr_stacktrace *)s)) != before || sr_core_stacktrace_get_thread_count(s) != nt) mc::fail("changed|" + what, "the trace changed or is miscounted");
    // a copy and the JSON form keep the marked thread
    auto *c = sr_core_stacktrace_dup(s); if (dump(extract((struct sr_stacktrace *)c)) != before) mc::fail("copy|" + what, "the copy is %s", dump(extract((struct sr_stacktrace *)c)).c_str()); sr_core_stacktrace_free(c); mc::step();
    i = 0; for (auto *x = s->threads; x; x = x->next, i++) { void *e = sr_core_thread_find_exit_frame(x), *w = nullptr; for (auto *f = x->frames; f; f = f->next) { bool is = called(core_exit_rules(), V(f->function_name), V(f->file_name), true); if (is) w = f; if (sr_core_thread_is_exit_frame(f) != is) mc::fail("is exit|" + what, "%s in %s", S(f->function_name).c_str(), S(f->file_name).c_str()); } if (e != w) mc::fail("exit frame|" + what, "wrong exit frame in thread %d", i); mc::step(); }
    sr_core_stacktrace_free(s); mc::nontrivial(); mc::outcome(what);
}
MC_SCENARIO(core_abort_rules)
{
    const Kind &k = frame_kind(SR_REPORT_CORE); auto &rules = core_exit_rules(); static const char *files[] = {nullptr, "", "libc.so", "/lib64/libc.so.6", "libc-2.17.so", "libpthread.so.0", "libc", "ibc.so", "main"};
    string fn = rules[mc::choose((int)rules.size())].first; switch (mc::choose(4)) { case 1: fn += "x"; break; case 2: fn.erase(0, 1); break; case 3: fn = "_" + fn; break; } Val file = V(mc::pick(files)); string what = fn + " in " + (file.null ? "NULL" : quote(file.s)); mc::describe(what);
    Content c = base_frame(k); c[k.idx("function_name")] = V(fn); c[k.idx("file_name")] = file; auto *f = (struct sr_core_frame *)k.build(c); bool want = called(rules, V(fn), file, true), got = sr_core_thread_is_exit_frame(f); sr_core_frame_free(f); mc::step(); mc::validated();
    if (got != want) mc::fail("exit|" + what, "counted as exit frame: %d, expected %d", got, want); mc::nontrivial(); mc::outcome(what);
}
MC_SCENARIO(other_crash_threads)
{
    enum sr_report_type ts[] = {SR_REPORT_JAVA, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT}; TraceData d; d.type = mc::pick(ts); const Kind &k = frame_kind(d.type); int nt = d.type == SR_REPORT_JAVA ? mc::choose(4) : 1; auto &al = frame_alphabet(k);
    for (int i = 0; i < nt; i++) { ThreadData t; t.named = d.type == SR_REPORT_JAVA; t.name = t.named ? fmt("t%d", i) : ""; t.frames = choose_frames(al, 2); d.threads.push_back(t); } if (d.type == SR_REPORT_KERNELOOPS) d.taint.assign(NTAINT, false); string what = dump(d); mc::describe(what);
    auto *s = build(d); auto *t = sr_stacktrace_find_crash_thread(s), *w = sr_stacktrace_threads(s); mc::step(); mc::validated(); if (t != w || (d.type == SR_REPORT_JAVA && (void *)sr_java_find_crash_thread((struct sr_java_stacktrace *)s) != (void *)w)) mc::fail("thread|" + what, "not the first thread"); if (nt == 0 && t) mc::fail("none|" + what, "a thread of an empty trace");
    if (dump(extract(s)) != what) mc::fail("changed|" + what, "the trace changed"); sr_stacktrace_free(s); mc::nontrivial(); mc::outcome(what);
}
// ---- quality
static bool good(const Kind &k, const Content &c) { if (k.type == SR_REPORT_JAVA) return c[k.idx("is_native")].n || !c[k.idx("file_name")].null; auto &f = c[k.idx("function_name")], &s = c[k.idx("source_file")]; return c[k.idx("signal_handler_called")].n || (!f.null && f.s != "??" && !s.null && !s.s.empty()); }
static double ratio(const Kind &k, const vector<Frames> &v, double none) { int a = 0, g = 0; for (auto &f : v) for (auto &c : f) { a++; g += good(k, c); } return a ? g / (double)a : none; }
static void same(double got, double want, const string &key) { if (!(std::fabs(got - want) < 1e-5)) mc::fail(key, "%f, expected %f", got, want); }
static const Frames &quality_alphabet() { static const Frames v = {gframe(V("f"), V("f.c")), gframe(V("??"), nul), gframe(V("g"), nul), gframe(V("??"), V("f.c")), gframe(V("g"), V("")), gframe(nul, V("f.c"), 0x400, true), gframe(nul, V("f.c")), gframe(V(""), V("f.c")), gframe(V("???"), V("/f.c")), gframe(V("abort"), V("abort.c")), gframe(V("??"), nul, 0)}; return v; }
MC_SCENARIO(thread_quality)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); string w; Frames f = choose_frames(quality_alphabet(), mc::thorough() ? 5 : 4, &w); mc::describe(w); auto *t = (struct sr_gdb_thread *)make_thread(k, f); int ok = 1000, all = 5000, g = 0; for (auto &c : f) g += good(k, c); sr_gdb_thread_quality_counts(t, &ok, &all); mc::step(2); mc::validated();
    if (ok != 1000 + g || all != 5000 + (int)f.size()) mc::fail("counts|" + w, "%d of %d frames, expected %d of %zu", ok - 1000, all - 5000, g, f.size()); same(sr_gdb_thread_quality(t), ratio(k, {f}, 1), "quality|" + w); if (frames_of(k, t->frames) != f) mc::fail("changed|" + w, "the thread changed"); sr_gdb_thread_free(t); mc::nontrivial(); mc::outcome(w);
}
MC_SCENARIO(java_thread_quality)
{
    const Kind &k = frame_kind(SR_REPORT_JAVA); Frames al; for (int i = 0; i < 12; i++) { Content c = base_frame(k); c[k.idx("is_native")] = N(i & 1); c[k.idx("file_name")] = i & 2 ? V("") : nul; if (i % 3 == 1) c[k.idx("file_name")] = V("F"); c[k.idx("is_exception")] = N(i / 6); c[k.idx("name")] = i % 4 == 3 ? nul : V("n"); al.push_back(c); }
    string w; Frames f = choose_frames(al, mc::thorough() ? 5 : 4, &w); mc::describe(w); auto *t = (struct sr_java_thread *)make_thread(k, f); int ok = 3, all = 4, g = 0; for (auto &c : f) g += good(k, c); sr_java_thread_quality_counts(t, &ok, &all); mc::step(2); mc::validated();
    if (ok != 3 + g || all != 4 + (int)f.size()) mc::fail("counts|" + w, "%d of %d frames, expected %d of %zu", ok - 3, all - 4, g, f.size()); same(sr_java_thread_quality(t), ratio(k, {f}, 1), "quality|" + w); if (frames_of(k, t->frames) != f) mc::fail("changed|" + w, "the thread changed"); sr_java_thread_free(t); mc::nontrivial(); mc::outcome(w);
}
static void trace_quality(const TraceData &d, const Val *crash, const string &what)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); auto *s = (struct sr_gdb_stacktrace *)build(d); if (crash) s->crash = (struct sr_gdb_frame *)k.build(gframe(*crash, V("f.c"))); string before = tdump(s); vector<Frames> all, norm; for (auto &t : d.threads) { all.push_back(t.frames); norm.push_back(ref_normalize(k, t.frames)); }
    double q = ratio(k, all, 0); float got = sr_gdb_stacktrace_quality_simple(s); mc::step(2); mc::validated(); same(got, q, "simple|" + what); int c = ref_gdb_crash(d, crash); double want = ratio(k, norm, 0);
    if (c >= 0) { Frames five = norm[c]; if (five.size() > 5) five.resize(5); want = 0.25 * want + 0.35 * ratio(k, {norm[c]}, 1) + 0.4 * ratio(k, {five}, 1); } got = sr_gdb_stacktrace_quality_complex(s); same(got, want, "complex|" + what); if (got < 0 || got > 1.00001) mc::fail("range|" + what, "quality %f", got);
    if (tdump(s) != before) mc::fail("changed|" + what, "asking for the quality changed the trace"); sr_gdb_stacktrace_free(s); mc::nontrivial(); mc::outcome(what);
}
MC_SCENARIO(stacktrace_quality)
{
    TraceData d; d.type = SR_REPORT_GDB; int nt = mc::choose(4); string w; for (int i = 0; i < nt; i++) { ThreadData t; t.number = i; t.tid = i; t.frames = choose_frames(quality_alphabet(), nt == 1 ? 4 : nt == 2 ? (mc::thorough() ? 2 : 1 + (i == 0)) : 1, &w); d.threads.push_back(t); }
    int ct = mc::choose(3); d.crash_tid = ct ? ct - 1 : UINT32_MAX; int cf = mc::choose(3); Val f = cf == 1 ? V("f") : V("abort"); w += fmt(" %d %d", ct, cf); mc::describe(w); trace_quality(d, cf ? &f : nullptr, w);
}
// around the limit of five frames
MC_SCENARIO(deep_quality)
{
    static const Frames al = {gframe(V("f"), V("f.c")), gframe(V("g"), V("g.c")), gframe(V("??"), nul), gframe(V("main"), nul)}; TraceData d; d.type = SR_REPORT_GDB; d.crash_tid = 1; ThreadData other, t; other.number = other.tid = 0; t.number = t.tid = 1; string w; int n = 3 + mc::choose(mc::thorough() ? 6 : 5); for (int i = 0; i < n; i++) { int c = mc::choose(4); t.frames.push_back(al[c]); w += char('A' + c); } int o = mc::choose(3); for (int i = 0; i < o; i++) other.frames.push_back(al[2 * i]); d.threads = {other, t}; if (mc::choose(2)) std::swap(d.threads[0], d.threads[1]); w += fmt(" %d", o); mc::describe(w); trace_quality(d, nullptr, w);
}
// ---- frame limits
MC_SCENARIO(frame_limits)
{
    bool java = mc::choose(2); const Kind &k = frame_kind(java ? SR_REPORT_JAVA : SR_REPORT_GDB); auto &al = frame_alphabet(k); string w = k.name; Frames f; int len = mc::choose(7); for (int i = 0; i < len; i++) { Content c = al[i % al.size()]; c[k.idx(java ? "file_line" : "number")] = N(i); f.push_back(c); } int n = mc::choose(9); if (n == 8) n = INT32_MAX; w += fmt(" %d of %d", n, len); mc::describe(w);
    auto *t = make_thread(k, f); auto *x = make_thread(k, {al[0]}); sr_thread_set_next(t, x); if (java) sr_java_thread_remove_frames_below_n((struct sr_java_thread *)t, n); else sr_gdb_thread_remove_frames_below_n((struct sr_gdb_thread *)t, n); mc::step(); mc::validated(); Frames want = f; if ((int)want.size() > n) want.resize(n); Frames got = frames_of(k, sr_thread_frames(t)), gx = frames_of(k, sr_thread_frames(x));
    if (got != want || sr_thread_frame_count(t) != (int)want.size()) mc::fail("limit|" + w, "%zu frames left or other ones", got.size()); if (gx != Frames{al[0]} || sr_thread_next(t) != x) mc::fail("others|" + w, "another thread was touched"); sr_thread_free(t); sr_thread_free(x); mc::nontrivial(); mc::outcome(w);
}
MC_SCENARIO(depth_limits)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); TraceData d; d.type = SR_REPORT_GDB; int nt = mc::choose(4); string w; for (int i = 0; i < nt; i++) { ThreadData t; t.number = i; int len = mc::choose(5); w += fmt("%d ", len); for (int j = 0; j < len; j++) { Content c = gframe(V(fmt("f%d", i)), nul, j); t.frames.push_back(c); } d.threads.push_back(t); } int n = 1 + mc::choose(6); w += fmt("to %d", n); mc::describe(w);
    auto *s = (struct sr_gdb_stacktrace *)build(d); s->crash = (struct sr_gdb_frame *)k.build(gframe(V("c"), nul)); sr_gdb_stacktrace_limit_frame_depth(s, n); mc::step(); mc::validated(); for (auto &t : d.threads) if ((int)t.frames.size() > n) t.frames.resize(n); string got = dump(extract((struct sr_stacktrace *)s)); if (got != dump(d)) mc::fail("depth|" + w, "%s, expected %s", got.c_str(), dump(d).c_str()); if (!s->crash || S(s->crash->function_name) != "c") mc::fail("crash|" + w, "the crash frame is gone"); sr_gdb_stacktrace_free(s); mc::nontrivial(); mc::outcome(w);
}
// ---- the optimised thread: library names, normalisation, no main and no nameless frames, at most so many frames
struct Lib { uint64_t from, to; const char *name; };
static Val ref_lib(const vector<Lib> &libs, uint64_t addr, const Val &old)
{
    if (addr == UINT64_MAX) return old;
    for (auto &l : libs) if (addr >= l.from && addr <= l.to) { string s = l.name; size_t p = s.rfind('/'); if (p != string::npos) s = s.substr(p + 1); p = s.find(".so"); if (p != string::npos) s = s.substr(0, p + 3); return V(s); }
    return old;
}
static struct sr_gdb_sharedlib *build_libs(const vector<Lib> &v) { struct sr_gdb_sharedlib *h = nullptr, **t = &h; for (auto &l : v) { *t = sr_gdb_sharedlib_new(); (*t)->from = l.from; (*t)->to = l.to; (*t)->soname = g_strdup(l.name); t = &(*t)->next; } return h; }
MC_SCENARIO(optimized)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); static const char *names[] = {"/usr/lib64/libfoo.so.1.2", "libbar.so", "/a.so/b", "x.so.y.so.3", "", "/", "/lib/", "dir/libz"}; vector<Lib> libs; int nl = mc::choose(3); string w; for (int i = 0; i < nl; i++) { int r = mc::choose(3), n = mc::choose(nl == 2 && !mc::thorough() ? 4 : 8); libs.push_back({(uint64_t)(r == 2 ? 0 : 0x100 * (r + 1)), (uint64_t)(r == 2 ? UINT64_MAX : 0x100 * (r + 1) + 0xff), names[n]}); w += fmt("%d%d ", r, n); }
    static const uint64_t addrs[] = {0xff, 0x100, 0x1ff, 0x200, 0x2ff, 0x300, 0, UINT64_MAX}; Frames f; const Val fns[] = {V("f"), V("main"), nul, V("abort")}; int len = 1 + mc::choose(nl == 2 ? 1 : 2), max = mc::choose(3);
    for (int i = 0; i < len; i++) { int a = mc::choose(nl == 2 ? 6 : 8), n = mc::choose(i ? 2 : 4), o = mc::choose(2); f.push_back(gframe(fns[n], V(n == 3 ? "abort.c" : "f.c"), addrs[a], false, o ? V("old") : nul)); w += fmt("%d%d%d ", a, n, o); } f.push_back(gframe(V("z"), nul, 0x180)); w += fmt("max %d", max); mc::describe(w);
    TraceData d; d.type = SR_REPORT_GDB; ThreadData td; td.number = 3; td.tid = 8; td.frames = f; d.threads = {td}; auto *s = (struct sr_gdb_stacktrace *)build(d); s->libs = build_libs(libs); string before = tdump(s); Frames named = f; for (auto &c : named) c[k.idx("library_name")] = ref_lib(libs, c[k.idx("address")].n, c[k.idx("library_name")]);
    Frames want; for (auto &c : ref_normalize(k, named)) if (!c[k.idx("function_name")].null && c[k.idx("function_name")].s != "main") want.push_back(c); if (max && (int)want.size() > max) want.resize(max); auto *o = sr_gdb_thread_get_optimized(s->threads, s->libs, max); mc::step(3); mc::validated(); Frames got = frames_of(k, o->frames);
    if (got != want) { string a, b; for (auto &c : got) a += k.text(c); for (auto &c : want) b += k.text(c); mc::fail("optimized|" + w, "%s expected %s", a.c_str(), b.c_str()); } if (o->number != 3 || o->next) mc::fail("thread|" + w, "thread %u", o->number); sr_gdb_thread_free(o); if (tdump(s) != before) mc::fail("original|" + w, "the original changed");
    auto *c1 = sr_gdb_thread_dup(s->threads, false); sr_gdb_thread_set_libnames(c1, s->libs); if (frames_of(k, c1->frames) != named) mc::fail("libnames|" + w, "the thread's library names differ"); sr_gdb_thread_free(c1); sr_gdb_stacktrace_set_libnames(s); if (frames_of(k, s->threads->frames) != named) mc::fail("trace libnames|" + w, "the trace's library names differ");
    sr_gdb_stacktrace_free(s); mc::nontrivial(); mc::outcome(w);
}
// ---- traces of sizes near limits
static int place(int n) { int c = mc::choose(4); return c == 0 ? n - 1 : c == 1 ? 0 : c == 2 ? n / 2 : n > 1 ? n - 2 : 0; }
MC_SCENARIO(many_gdb)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); bool deep = mc::choose(2); int n = count_near_limits(true), at = place(n), how = mc::choose(5); string what = fmt("%d %s, %d, how %d", n, deep ? "frames" : "threads", at, how); mc::describe(what); TraceData d; d.type = SR_REPORT_GDB; d.crash_tid = UINT32_MAX; Val crash = V("f");
    auto fr = [&](int i) { return Frames{gframe(V(fmt("f%d", i)), V("f.c")), gframe(V("g"), i % 3 ? V("g.c") : nul)}; };
    if (!deep) { for (int i = 0; i < n; i++) { ThreadData t; t.number = n - i; t.tid = i + 1000; t.frames = fr(i); d.threads.push_back(t); } if (how == 0) d.crash_tid = 1000 + at; if (how >= 1) d.threads[at].frames[0] = gframe(V("f"), V("x.c")); if (how >= 2) d.threads[0].frames[0] = d.threads[n / 3].frames[0] = gframe(V("f"), V("y.c")); if (how == 3) d.threads[at].frames.push_back(gframe(V("abort"), V("abort.c"))); if (how == 4) for (auto &t : d.threads) t.frames[0] = gframe(V("f"), V("z.c")); }
    else { for (int j = 0; j < 2; j++) { ThreadData t; t.number = j; t.tid = j; t.frames.push_back(gframe(V("f"), V("f.c"))); for (int i = 1; i < n; i++) t.frames.push_back(gframe(V(i % 5 == 4 ? string("??") : fmt("f%d", i)), i % 3 ? V("f.c") : nul)); d.threads.push_back(t); } if (how == 0) d.crash_tid = 1; if (how == 1) d.threads[1].frames[at] = gframe(V("abort"), V("abort.c")); if (how == 2) d.threads[0].frames[at] = gframe(V("raise"), V("pt-raise.c")); if (how == 3) d.threads[0].frames[at] = gframe(V("zz"), V("z.c")); if (how == 4) d.threads[1].frames.resize(at); }
    int want = ref_gdb_crash(d, &crash), got = -1, i = 0; auto *s = (struct sr_gdb_stacktrace *)build(d); s->crash = (struct sr_gdb_frame *)k.build(gframe(crash, V("o.c"))); auto *t = sr_gdb_stacktrace_find_crash_thread(s); for (auto *x = s->threads; x; x = x->next, i++) if (x == t) got = i; if (sr_gdb_stacktrace_get_thread_count(s) != (int)d.threads.size()) mc::fail("count|" + what, "%d threads", sr_gdb_stacktrace_get_thread_count(s)); mc::step(2);
    if (got != want) mc::fail("thread|" + what, "thread %d was found, %d expected", got, want);
    i = 0; for (auto *x = s->threads; x; x = x->next, i++) { auto *e = sr_glibc_thread_find_exit_frame(x); string w; for (auto &c : d.threads[i].frames) if (called(gdb_exit_rules(), c[k.idx("function_name")], c[k.idx("source_file")], false)) w = c[k.idx("function_name")].s; if ((e ? S(e->function_name) : "") != w) mc::fail("exit frame|" + what, "exit frame of thread %d: %s expected %s", i, e ? S(e->function_name).c_str() : "none", w.c_str()); }
    auto *f = sr_gdb_stacktrace_get_crash_frame(s); Frames nf; if (want >= 0) nf = ref_normalize(k, d.threads[want].frames); if (!f != nf.empty() || (f && k.content(f) != nf[0])) mc::fail("frame|" + what, "the crash frame is %s", f ? k.text(k.content(f)).c_str() : "missing"); sr_gdb_frame_free(f);
    int limit = at + 1; auto *o = sr_gdb_stacktrace_dup(s); sr_gdb_stacktrace_limit_frame_depth(o, limit); TraceData cut = d; for (auto &x : cut.threads) if ((int)x.frames.size() > limit) x.frames.resize(limit); if (dump(extract((struct sr_stacktrace *)o)) != dump(cut)) mc::fail("limit|" + what, "cutting to %d frames gives another trace", limit); sr_gdb_stacktrace_free(o);
    { auto *x = s->threads; for (int q = 0; q < at && x->next; q++) x = x->next; int idx = std::min<int>(at, d.threads.size() - 1); string copy = dump(extract((struct sr_stacktrace *)s)); if (copy != dump(d)) mc::fail("changed|" + what, "the trace changed"); auto *r = sr_gdb_thread_get_optimized(x, nullptr, limit); Frames gotf = frames_of(k, r->frames), wantf; for (auto &c : ref_normalize(k, d.threads[idx].frames)) if (!c[k.idx("function_name")].null && c[k.idx("function_name")].s != "main") wantf.push_back(c); if ((int)wantf.size() > limit) wantf.resize(limit); sr_gdb_thread_free(r); if (gotf != wantf) mc::fail("optimized|" + what, "%zu frames in the optimised thread, expected %zu", gotf.size(), wantf.size());
      sr_gdb_stacktrace_remove_threads_except_one(s, x); TraceData e = d; e.threads = {d.threads[idx]}; if (dump(extract((struct sr_stacktrace *)s)) != dump(e)) mc::fail("except one|" + what, "another thread is left"); }
    mc::step(4); sr_gdb_stacktrace_free(s); trace_quality(d, &crash, what); mc::validated();
}
MC_SCENARIO(many_core)
{
    const Kind &k = frame_kind(SR_REPORT_CORE); auto mk = [&](const Val &fn, const Val &file) { Content c = base_frame(k); c[k.idx("function_name")] = fn; c[k.idx("file_name")] = file; return c; }; bool deep = mc::choose(2); int n = count_near_limits(true), at = place(n), how = mc::choose(4); string what = fmt("%d %s, %d, how %d", n, deep ? "frames" : "threads", at, how); mc::describe(what); TraceData d; d.type = SR_REPORT_CORE; d.crash = -1; d.executable = nul;
    int nt = deep ? 2 : n; for (int i = 0; i < nt; i++) { ThreadData t; t.tid = i; int nf = deep ? n : 2; for (int j = 0; j < nf; j++) t.frames.push_back(mk(V(fmt("f%d", j)), V("/bin/x"))); d.threads.push_back(t); } auto &t = d.threads[deep ? 1 : at]; if (how == 0) d.crash = deep ? 1 : at; if (how == 1) t.frames[deep ? at : 1] = mk(V("abort"), V("/lib/libc.so.6")); if (how == 2) { t.frames[deep ? at : 0] = mk(V("raise"), V("libc.so")); d.threads[nt - 1].frames[0] = mk(V("abort"), V("libc.so")); }
    int want = ref_core_crash(d), got = -1, i = 0; auto *s = (struct sr_core_stacktrace *)build(d); auto *c = sr_core_stacktrace_find_crash_thread(s); for (auto *x = s->threads; x; x = x->next, i++) if (x == c) got = i; mc::step(); mc::validated(); if (got != want || sr_core_stacktrace_get_thread_count(s) != nt) mc::fail("thread|" + what, "thread %d of %d was found, %d expected", got, sr_core_stacktrace_get_thread_count(s), want);
    sr_core_stacktrace_free(s); mc::nontrivial(); mc::outcome(what);
}
MC_SCENARIO(many_frames)
{
    bool java = mc::choose(2); const Kind &k = frame_kind(java ? SR_REPORT_JAVA : SR_REPORT_GDB); int len = count_near_limits(), c = mc::choose(6), n = c == 0 ? len - 1 : c == 1 ? len : c == 2 ? len + 1 : c == 3 ? len / 2 : c == 4 ? 1 : 255; string w = k.name + fmt(" %d of %d", n, len); mc::describe(w); Frames f; for (int i = 0; i < len; i++) f.push_back(numbered_frame(k, i)); int ok = 0, all = 0, g = 0; for (auto &x : f) g += good(k, x);
    auto *t = make_thread(k, f); if (java) sr_java_thread_quality_counts((struct sr_java_thread *)t, &ok, &all); else sr_gdb_thread_quality_counts((struct sr_gdb_thread *)t, &ok, &all); if (ok != g || all != len) mc::fail("counts|" + w, "%d of %d frames, expected %d", ok, all, g); if (java) sr_java_thread_remove_frames_below_n((struct sr_java_thread *)t, n); else sr_gdb_thread_remove_frames_below_n((struct sr_gdb_thread *)t, n); if ((int)f.size() > n) f.resize(n); mc::step(2); mc::validated(); if (frames_of(k, sr_thread_frames(t)) != f || sr_thread_frame_count(t) != (int)f.size()) mc::fail("limit|" + w, "%d frames left", sr_thread_frame_count(t)); sr_thread_free(t); mc::nontrivial(); mc::outcome(w);
}
// library names by address among many libraries, long names
MC_SCENARIO(many_libraries)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); bool lng = mc::choose(2); int n = lng ? length_near_limits() : count_near_limits(true), at = lng ? 0 : place(n); string l = lng ? long_text(n, 0) : ""; vector<string> names; vector<Lib> libs; int form = lng ? mc::choose(4) : 0; if (lng) names = {form == 0 ? "/lib/" + l + ".so.1" : form == 1 ? "/" + l + "/x.so.2" : form == 2 ? "lib.so." + l : l}; else for (int i = 0; i < n; i++) names.push_back(fmt("/lib/lib%d.so.1", i)); for (size_t i = 0; i < names.size(); i++) libs.push_back({0x1000 * (uint64_t)(i + 1), 0x1000 * (uint64_t)(i + 2) - 1, names[i].c_str()}); string w = fmt("%d libraries or characters, %d, %d", n, at, form); mc::describe(w);
    Frames f; for (uint64_t a : {libs[at].from, libs[at].to, libs[at].from - 1, libs[at].to + 1}) f.push_back(gframe(V("f"), nul, a)); TraceData d; d.type = SR_REPORT_GDB; d.threads.resize(1); d.threads[0].frames = f; auto *s = (struct sr_gdb_stacktrace *)build(d); s->libs = build_libs(libs); for (auto &c : f) c[k.idx("library_name")] = ref_lib(libs, c[k.idx("address")].n, nul);
    sr_gdb_stacktrace_set_libnames(s); mc::step(); mc::validated(); if (frames_of(k, s->threads->frames) != f) mc::fail("libnames|" + w, "the library names differ"); if (sr_gdb_sharedlib_count(s->libs) != (int)libs.size()) mc::fail("count|" + w, "%d libraries", sr_gdb_sharedlib_count(s->libs)); sr_gdb_stacktrace_free(s); mc::nontrivial(); mc::outcome(w);
}
