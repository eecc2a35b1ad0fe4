// C30: reasons and short texts say what the stack trace contains.
#include "norm.h"
#include "sizes.h"
static string unk(const Val &v) { return v.null ? "<unknown>" : v.s; }
static Val take_val(char *p) { Val v = V(p); g_free(p); return v; }
static string show(const Val &v) { return v.null ? "NULL" : quote(v.s); }
static string ref_frame(const Kind &k, const Content &c)
{
    auto g = [&](const char *n) -> const Val & { return c[k.idx(n)]; }; auto u = [&](const char *n) { return (unsigned long long)g(n).n; }; string t;
    auto special = [&](const char *flag, const string &s) { return u(flag) ? "<" + s + ">" : s; };
    string fn; for (size_t i = 0; i < k.f.size(); i++) if (!strcmp(k.f[i].name, "function_name")) fn = c[i].null ? "??" : c[i].s;
    switch (k.type) {
    case SR_REPORT_CORE: if (!g("file_name").null) { string f = g("file_name").s; size_t p = f.rfind('/'); t = "[" + (p == string::npos ? f : f.substr(p + 1)) + "]"; } return t + (g("function_name").null ? " " + unk(g("build_id")) + fmt("+%llu", u("build_id_offset")) : " " + fn);
    case SR_REPORT_PYTHON: if (!g("file_name").null) t = "[" + special("special_file", g("file_name").s) + (u("file_line") ? fmt(":%llu", u("file_line")) : "") + "]"; return t + " " + special("special_function", fn);
    case SR_REPORT_KERNELOOPS: if (!g("special_stack").null) t = "[" + g("special_stack").s + "] "; return t + (u("reliable") ? "" : "? ") + fn + (g("module_name").null ? "" : " in " + g("module_name").s);
    case SR_REPORT_JAVA:
        if (u("is_exception")) return (g("name").null ? "" : g("name").s) + (g("message").null ? "" : ": " + g("message").s);
        t = "\tat " + (g("name").null ? "" : g("name").s) + "(" + (u("is_native") ? "Native Method" : g("file_name").null ? "Unknown Source" : g("file_name").s) + (u("file_line") ? fmt(":%llu", u("file_line")) : "") + ")";
        if (g("class_path").null) return t + " [unknown]"; else { string cp = g("class_path").s; size_t colon = cp.find(':'), slash = cp.find('/'); return t + " [" + (slash != string::npos && (colon == string::npos || slash < colon) ? "file:" : "") + cp + "]"; }
    case SR_REPORT_RUBY: for (unsigned long long i = 0; i < u("rescue_level"); i++) t += "rescue in "; if (u("block_level") == 1) t += "block in "; if (u("block_level") > 1) t += fmt("block (%llu levels) in ", u("block_level")); t += special("special_function", fn); return t + (g("file_name").null ? "" : " in " + g("file_name").s + (u("file_line") ? fmt(":%llu", u("file_line")) : ""));
    case SR_REPORT_JAVASCRIPT: t = unk(g("file_name")) + fmt(":%llu:%llu", u("file_line"), u("line_column")); return "at " + (g("function_name").null ? t : g("function_name").s + " (" + t + ")");
    case SR_REPORT_GDB: default: return " " + string(g("function_type").null ? "" : " " + g("function_type").s) + (g("function_name").null ? "" : " " + g("function_name").s) + (u("signal_handler_called") ? " <signal handler called>" : "");
    }
}
static string ref_gdb_verbose(const Kind &k, const Content &c)
{
    auto g = [&](const char *n) -> const Val & { return c[k.idx(n)]; }; string t = fmt(" #%llu", (unsigned long long)g("number").n);
    if (!g("function_type").null) t += " " + g("function_type").s; if (!g("function_name").null) t += " " + g("function_name").s;
    if (!g("source_file").null) { if (!g("function_name").null) t += " at"; t += " " + g("source_file").s; if (g("source_line").n != UINT32_MAX) t += fmt(":%llu", (unsigned long long)g("source_line").n); }
    return t + (g("signal_handler_called").n ? " <signal handler called>" : "");
}
static string ref_gdb_thread(const Kind &k, uint64_t number, const Frames &fr, bool verbose)
{
    string t = verbose ? fmt("Thread no. %llu (%zu frames)\n", (unsigned long long)number, fr.size()) : string("Thread\n"); for (auto &f : fr) t += (verbose ? ref_gdb_verbose(k, f) : ref_frame(k, f)) + "\n"; return t;
}
static Val ref_reason(const TraceData &d)
{
    const Kind &k = frame_kind(d.type); auto g = [&](const Content &c, const char *n) -> const Val & { return c[k.idx(n)]; };
    switch (d.type) {
    case SR_REPORT_CORE: return V("Program " + unk(d.executable) + fmt(" was terminated by signal %llu", (unsigned long long)d.signal));
    case SR_REPORT_PYTHON: case SR_REPORT_RUBY: case SR_REPORT_JAVASCRIPT: {
        auto &fr = d.threads[0].frames; string file = "<unknown>"; unsigned long long line = 0, col = 0;
        if (!fr.empty()) { const Content &c = d.type == SR_REPORT_PYTHON ? fr.back() : fr.front(); file = unk(g(c, "file_name")); line = g(c, "file_line").n; if (d.type == SR_REPORT_JAVASCRIPT) col = g(c, "line_column").n; }
        if (d.type == SR_REPORT_JAVASCRIPT) return V((d.exception.null ? "Error" : d.exception.s) + " at " + file + fmt(":%llu:%llu", line, col));
        return V((d.exception.null ? "Unknown error" : d.exception.s) + " in " + file + fmt(":%llu", line)); }
    case SR_REPORT_JAVA: {
        string exc = "<unknown>", file = "<unknown>"; unsigned long long line = 0; if (!d.threads.empty()) { auto &fr = d.threads[0].frames; for (size_t i = fr.size(); i-- > 0;) if (g(fr[i], "is_exception").n && !g(fr[i], "name").null) exc = g(fr[i], "name").s; if (!fr.empty() && !g(fr.back(), "file_name").null) { file = g(fr.back(), "file_name").s; line = g(fr.back(), "file_line").n; } }
        return V("Exception " + exc + " occurred in " + file + fmt(":%llu", line)); }
    case SR_REPORT_KERNELOOPS: {
        Frames n = ref_normalize(k, d.threads[0].frames); string func = n.empty() ? "<unknown>" : unk(g(n[0], "function_name")), t;
        if (d.reason.null) t = "Kernel oops in " + func; else if (d.reason.s.find("general protection fault: ") != string::npos) t = "general protection fault in " + func; else if (d.reason.s.find("kernel paging request at") != string::npos) t = "kernel paging request at " + func; else t = d.reason.s;
        if (!n.empty() && !g(n[0], "module_name").null) t += " [" + g(n[0], "module_name").s + "]"; return V(t); }
    default: return V((const char *)nullptr);
    }
}
// crash: index of the thread the short text is about, -1 none
static Val ref_short(const TraceData &d, int crash, int max)
{
    if (crash < 0) return V((const char *)nullptr); const Kind &k = frame_kind(d.type); string t; const ThreadData &th = d.threads[crash];
    if (d.type == SR_REPORT_GDB) { Frames fr; int fn = k.idx("function_name"); for (auto &c : ref_normalize(k, th.frames)) if (!c[fn].null && c[fn].s != "main") fr.push_back(c); if (max > 0 && (int)fr.size() > max) fr.resize(max); return V(ref_gdb_thread(k, th.number, fr, true)); }
    int n = 0; for (auto &f : th.frames) { if (max && n >= max) break; t += fmt("#%d ", ++n) + ref_frame(k, f) + "\n"; } return V(t);
}
static void check(const TraceData &d, int crash, const string &what, const vector<int> &sizes = {0, 1, 2, 3, 10})
{
    struct sr_stacktrace *s = build(d); string before = dump(extract(s));
    Val r = take_val(sr_stacktrace_get_reason(s)), want = ref_reason(d); mc::step(); mc::validated();
    if (r != want) mc::fail("reason|" + what, "the reason is %s, expected %s", show(r).c_str(), show(want).c_str());
    for (int max : sizes) { Val g = take_val(sr_stacktrace_to_short_text(s, max)), w = ref_short(d, crash, max); mc::step(); if (g != w) mc::fail(fmt("short|%d|", max) + what, "the short text (%d frames) is %s, expected %s", max, show(g).c_str(), show(w).c_str()); }
    string after = dump(extract(s)); sr_stacktrace_free(s);
    if (after != before) mc::fail("changed|" + what, "describing the trace changed it to %s", after.c_str());
    mc::nontrivial(); mc::outcome(what);
}
static TraceData base(enum sr_report_type ty)
{
    TraceData d; d.type = ty; ThreadData td; td.number = 3; td.named = ty == SR_REPORT_JAVA; td.name = "main"; d.threads.push_back(td);
    if (ty == SR_REPORT_CORE) { d.executable = V("/usr/bin/x"); d.signal = 11; }
    if (ty == SR_REPORT_PYTHON || ty == SR_REPORT_RUBY || ty == SR_REPORT_JAVASCRIPT) d.exception = V("E");
    return d;
}
static vector<Val> some(const Field &f) { if (f.k == Field::STR) return {V("x"), V((const char *)nullptr), V(""), V("/a/b.c"), V("jar:file:/x"), V("%s%d"), V("a:b/c")}; auto v = nums(f.k); if (!strcmp(f.name, "rescue_level") || !strcmp(f.name, "block_level")) v = {N(0), N(1), N(2), N(5)}; return v; }
// one frame, its text and the text of the trace
MC_SCENARIO(fields)
{
    enum sr_report_type ty = mc::pick(all_types); const Kind &k = frame_kind(ty); Content a = base_frame(k); mc::set_dev_bound(mc::thorough() ? 4 : 3);
    for (size_t i = 0; i < k.f.size(); i++) { auto vs = some(k.f[i]); int c = mc::choose_dev((int)vs.size() + 1); if (c) a[i] = vs[c - 1]; }
    string what = k.text(a); mc::describe(what); TraceData d = base(ty);
    void *o = k.build(a); GString *g = g_string_new("before "); sr_frame_append_to_str((struct sr_frame *)o, g); string got = g->str; g_string_free(g, TRUE); mc::step(); mc::validated();
    if (got != "before " + ref_frame(k, a)) mc::fail("frame|" + what, "the text is %s, expected %s", quote(got).c_str(), quote("before " + ref_frame(k, a)).c_str());
    if (ty == SR_REPORT_GDB) { g = g_string_new(""); sr_gdb_frame_append_to_str((struct sr_gdb_frame *)o, g, true); got = g->str; g_string_free(g, TRUE); if (got != ref_gdb_verbose(k, a)) mc::fail("verbose|" + what, "the text is %s, expected %s", quote(got).c_str(), quote(ref_gdb_verbose(k, a)).c_str()); }
    k.del(o); bool last = mc::choose(2); d.threads[0].frames = {base_frame(k)}; d.threads[0].frames.insert(last ? d.threads[0].frames.end() : d.threads[0].frames.begin(), a); check(d, 0, what + (last ? " last" : " first"));
}
// what the trace itself contributes
MC_SCENARIO(header)
{
    enum sr_report_type ty = mc::pick(all_types); const Kind &k = frame_kind(ty); TraceData d = base(ty); int nf = mc::choose(4); static const char *rs[] = {"general protection fault: 0000 [#1]", "BUG: unable to handle kernel paging request at 00001", "general protection fault:", "WARNING: at foo.c", "", "kernel paging request", "%s"};
    for (int i = 0; i < nf; i++) d.threads[0].frames.push_back(mc::pick(frame_alphabet(k)));
    switch (ty) {
    case SR_REPORT_CORE: d.executable = mc::pick(strs()); d.signal = mc::pick(nums(Field::U16)).n; break;
    case SR_REPORT_GDB: d.threads[0].number = mc::pick(nums(Field::U32)).n; break;
    case SR_REPORT_JAVA: for (auto &f : d.threads[0].frames) if (mc::choose(2)) f[k.idx("is_exception")] = N(1); break;
    case SR_REPORT_KERNELOOPS: { int r = mc::choose(8); if (r) d.reason = V(rs[r - 1]); int m = mc::choose(3); if (nf && m) d.threads[0].frames[0][k.idx("function_name")] = V(m == 1 ? "dump_stack" : "f.part.1"); if (nf && mc::choose(2)) d.threads[0].frames[0][k.idx("module_name")] = V((const char *)nullptr); break; }
    default: d.exception = mc::pick(strs());
    }
    string what = dump(d); mc::describe(what); check(d, 0, what);
}
// several threads: the crash thread is the one described
MC_SCENARIO(threads)
{
    enum sr_report_type ts[] = {SR_REPORT_CORE, SR_REPORT_GDB, SR_REPORT_JAVA}; enum sr_report_type ty = mc::pick(ts); const Kind &k = frame_kind(ty); TraceData d = base(ty); auto &al = frame_alphabet(k); int nt = mc::choose(4); ThreadData proto = d.threads[0]; d.threads.clear();
    for (int i = 0; i < nt; i++) { ThreadData t = proto; t.number = i + 1; t.tid = 50 + i; t.name = fmt("t%d", i); int n = mc::choose(3); for (int j = 0; j < n; j++) t.frames.push_back(al[mc::choose(2)]); d.threads.push_back(t); }
    int c = mc::choose(nt + 1) - 1; int crash = -1; if (ty == SR_REPORT_JAVA) crash = nt ? 0 : -1; else if (ty == SR_REPORT_CORE) { d.crash = c; crash = c >= 0 ? c : nt == 1 ? 0 : -1; } else { d.crash_tid = c >= 0 ? 50 + c : UINT32_MAX; crash = nt == 1 ? 0 : c; }
    string what = dump(d); mc::describe(what); check(d, crash, what);
    // the full text of a GDB trace and the list of functions of a thread
    if (ty == SR_REPORT_GDB) {
        auto *s = (struct sr_gdb_stacktrace *)build(d); if (mc::choose(2)) s->crash = (struct sr_gdb_frame *)k.build(al[0]);
        for (int v = 0; v < 2; v++) { string w; if (v) w += fmt("Thread count: %d\n", nt); if (v && s->crash) w += "Crash frame: " + ref_gdb_verbose(k, al[0]) + "\n"; for (auto &t : d.threads) w += ref_gdb_thread(k, t.number, t.frames, v); string g = take(sr_gdb_stacktrace_to_text(s, v)); mc::step(); if (g != w) mc::fail(fmt("text|%d|", v) + what, "the text is %s, expected %s", quote(g).c_str(), quote(w).c_str()); }
        int i = 0; for (auto *t = s->threads; t; t = t->next, i++) { string w; for (auto &f : d.threads[i].frames) if (!f[k.idx("function_name")].null) w += f[k.idx("function_name")].s + (f[k.idx("library_name")].null ? "" : " " + f[k.idx("library_name")].s) + "\n"; string g = take(sr_gdb_thread_format_funs(t)); mc::step(); if (g != w) mc::fail("funs|" + what, "the functions are %s, expected %s", quote(g).c_str(), quote(w).c_str()); }
        sr_stacktrace_free((struct sr_stacktrace *)s);
    }
    if (ty == SR_REPORT_JAVA && nt) {
        auto *s = (struct sr_java_stacktrace *)build(d); string w; for (auto &f : d.threads[0].frames) if (!f[k.idx("name")].null) w += f[k.idx("name")].s + "\n"; string g = take(sr_java_thread_format_funs(s->threads)); mc::step(); sr_stacktrace_free((struct sr_stacktrace *)s);
        if (g != w) mc::fail("funs|" + what, "the functions are %s, expected %s", quote(g).c_str(), quote(w).c_str());
    }
}
// the text of a Java thread: the exception thrown last comes first, then its causes
MC_SCENARIO(java_thread)
{
    const Kind &k = frame_kind(SR_REPORT_JAVA); int n = mc::choose((mc::thorough() ? 7 : 6)); Frames fr; vector<string> groups; for (int i = 0; i < n; i++) { int e = mc::choose(4); Content c = base_frame(k); c[k.idx("name")] = V(fmt("n%d", i)); if (e == 1) c[k.idx("is_exception")] = N(1); if (e == 2) { c[k.idx("is_exception")] = N(1); c[k.idx("message")] = V((const char *)nullptr); } if (e == 3) c[k.idx("is_native")] = N(1); fr.push_back(c); }
    bool named = mc::choose(2); string t, cur, what = fmt("%d ", named); for (auto &f : fr) what += k.text(f) + " "; mc::describe(what);
    for (auto &f : fr) { if (f[k.idx("is_exception")].n && !cur.empty()) { groups.push_back(cur); cur.clear(); } cur += ref_frame(k, f) + "\n"; } string w = "Exception in thread \"" + string(named ? "T" : "") + "\" " + cur; for (size_t i = groups.size(); i-- > 0;) w += "Caused by: " + groups[i] + "\t...\n";
    auto *th = (struct sr_java_thread *)make_thread(k, fr); g_free(th->name); th->name = named ? g_strdup("T") : nullptr; GString *g = g_string_new(""); sr_java_thread_append_to_str(th, g); string got = g->str; g_string_free(g, TRUE); sr_java_thread_free(th); mc::step(); mc::validated();
    if (got != w) mc::fail("java thread|" + what, "the text is %s, expected %s", quote(got).c_str(), quote(w).c_str()); mc::nontrivial(); mc::outcome(what);
}
// many frames, threads and modules, long strings, and limits around their number
MC_SCENARIO(sizes)
{
    string what; TraceData d = long_trace(mc::pick(all_types), what, false); int crash = threaded(d.type) ? d.type == SR_REPORT_CORE ? d.crash : d.type == SR_REPORT_JAVA ? 0 : d.threads.size() == 1 ? 0 : -1 : 0, n = d.threads[crash < 0 ? 0 : crash].frames.size(); check(d, crash, what, {0, 1, n - 1, n, n + 1, 255, 256, INT_MAX});
}
