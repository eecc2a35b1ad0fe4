// C18: backtrace hashes identify the whole stack trace.
#include "hash.h"
#include "sizes.h"
static string sort_flags(string t)
{
    size_t p = t.find("\nFlags: "); if (p == string::npos) return t; p += 8; size_t e = t.find('\n', p); if (e == string::npos) return t;
    std::set<string> w; string cur; for (char c : t.substr(p, e - p)) { if (c == ',' || c == ' ') { if (!cur.empty()) w.insert(cur); cur.clear(); } else cur += c; } if (!cur.empty()) w.insert(cur);
    string f; for (auto &x : w) f += (f.empty() ? "" : ", ") + x; return t.substr(0, p) + f + t.substr(e);
}
static void check(const TraceData &d, const vector<Lib> &libs, const string &what)
{
    struct sr_stacktrace *s = build(d);
    if (d.type == SR_REPORT_GDB) { auto *g = (struct sr_gdb_stacktrace *)s; struct sr_gdb_sharedlib **tail = &g->libs; for (auto &l : libs) { struct sr_gdb_sharedlib *x = sr_gdb_sharedlib_new(); x->from = l.from; x->to = l.to; x->soname = gs(l.name); *tail = x; tail = &x->next; } }
    string before = dump(extract(s)), want = ref_bt_text(d, libs), text = take(sr_stacktrace_get_bthash(s, SR_BTHASH_NOHASH)); mc::step(); mc::validated();
    string w2 = d.type == SR_REPORT_KERNELOOPS ? sort_flags(text) : text;
    if (w2 != want) mc::fail("text|" + what, "the hashed text is %s, expected %s", quote(text).c_str(), quote(want).c_str());
    for (int i = 0; i < 2; i++) { string h = take(sr_stacktrace_get_bthash(s, SR_BTHASH_NORMAL)); mc::step(); if (h != ref_sha1(text)) mc::fail("digest|" + what, "the hash %s is not the SHA-1 of the text %s", h.c_str(), quote(text).c_str()); }
    if (dump(extract(s)) != before) mc::fail("changed|" + what, "hashing changed the stack trace");
    // written to JSON and read back it hashes the same (GDB traces have no JSON form)
    if (d.type != SR_REPORT_GDB) {
        char *j = sr_stacktrace_to_json(s), *err = nullptr; struct sr_stacktrace *r = sr_stacktrace_from_json_text(d.type, j, &err); mc::step(2);
        if (!r) mc::fail("json|" + what, "the trace cannot be read back: %s", S(err).c_str());
        else { string t2 = take(sr_stacktrace_get_bthash(r, SR_BTHASH_NOHASH)), wj = text; TraceData c = d; for (auto &t : c.threads) for (auto &f : t.frames) f = frame_kind(d.type).canonical(f); if (ref_bt_text(c, libs) != want) wj = ref_bt_text(c, libs); if (t2 != wj) mc::fail("json|" + what, "read back, the hashed text is %s, it was %s", quote(t2).c_str(), quote(text).c_str()); sr_stacktrace_free(r); }
        g_free(j); g_free(err);
    }
    sr_stacktrace_free(s); mc::nontrivial(); mc::outcome(what);
}
static TraceData base(enum sr_report_type ty)
{
    TraceData d; d.type = ty; ThreadData td; td.number = 1; td.named = ty == SR_REPORT_JAVA; td.name = "main"; d.threads.push_back(td);
    if (ty == SR_REPORT_CORE) { d.executable = V("/usr/bin/x"); d.signal = 11; }
    if (ty == SR_REPORT_PYTHON || ty == SR_REPORT_RUBY || ty == SR_REPORT_JAVASCRIPT) d.exception = V("E");
    if (ty == SR_REPORT_JAVASCRIPT) sr_js_platform_init(d.platform, SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8);
    if (ty == SR_REPORT_KERNELOOPS) { d.version = V("5.0"); d.taint.assign(NTAINT, false); d.has_modules = true; d.modules = {"ext4", "nf"}; }
    return d;
}
// which fields of a frame enter the hash
MC_SCENARIO(fields)
{
    enum sr_report_type ty = mc::pick(all_types); const Kind &k = frame_kind(ty); Content a = base_frame(k); mc::set_dev_bound(mc::thorough() ? 3 : 2);
    for (size_t i = 0; i < k.f.size(); i++) { auto &vs = values(k.f[i]); int c = mc::choose_dev((int)vs.size() + 1); if (c) a[i] = vs[c - 1]; if (ty == SR_REPORT_KERNELOOPS && !strcmp(k.f[i].name, "from_address") && 0) {} }
    string what = k.text(a); mc::describe(what); TraceData d = base(ty); d.threads[0].frames = {a, base_frame(k)}; check(d, {}, what);
}
// which fields of the trace enter the hash
MC_SCENARIO(header)
{
    enum sr_report_type ty = mc::pick(all_types); const Kind &k = frame_kind(ty); TraceData d = base(ty); vector<Lib> libs; d.threads[0].frames = {base_frame(k)};
    switch (ty) {
    case SR_REPORT_CORE: d.executable = mc::pick(strs()); d.signal = mc::pick(nums(Field::U16)).n; d.only_crash = mc::choose(2); d.crash = mc::choose(2) - 1; d.threads[0].tid = mc::choose(2) * 77; break;
    case SR_REPORT_GDB: { int n = mc::choose(3); for (int i = 0; i < n; i++) libs.push_back(Lib{mc::pick(nums(Field::U64)).n, i ? 9 : mc::pick(nums(Field::U64)).n, i ? V("libx.so") : mc::pick(strs())}); d.threads[0].number = mc::pick(nums(Field::U32)).n; d.threads[0].tid = mc::choose(2) * 77; d.crash_tid = mc::choose(2) ? 1 : UINT32_MAX; break; }
    case SR_REPORT_JAVA: { Val v = mc::pick(strs()); d.threads[0].named = !v.null; d.threads[0].name = v.s; break; }
    case SR_REPORT_KERNELOOPS: { d.version = mc::pick(strs()); int m = mc::choose(5); d.has_modules = m > 0; d.modules.clear(); if (m > 1) for (int i = 1; i < m; i++) d.modules.push_back(fmt("mod%d", i)); int a = mc::choose(NTAINT + 1), b = mc::choose(NTAINT + 1); if (a < NTAINT) d.taint[a] = true; if (b < NTAINT) d.taint[b] = true; if (mc::choose(2)) d.reason = V("why"); break; }
    default: d.exception = mc::pick(strs());
    }
    string what = dump(d); for (auto &l : libs) what += fmt(" lib %llx-%llx ", (unsigned long long)l.from, (unsigned long long)l.to) + ref_str(l.name); mc::describe(what); check(d, libs, what);
}
// all shapes: threads x frames
MC_SCENARIO(shapes)
{
    enum sr_report_type ty = mc::pick(all_types); const Kind &k = frame_kind(ty); TraceData d = base(ty); auto &al = frame_alphabet(k); int nt = threaded(ty) ? mc::choose(4) : 1; int na = std::min<int>(mc::thorough() ? 3 : 2, (int)al.size());
    ThreadData proto = d.threads[0]; d.threads.clear(); int budget = mc::thorough() ? 6 : 5;
    for (int i = 0; i < nt; i++) { ThreadData td = proto; td.number = i + 1; td.name = fmt("t%d", i); int len = mc::choose(std::min(threaded(ty) ? 3 : budget, budget) + 1); budget -= len; for (int j = 0; j < len; j++) td.frames.push_back(al[mc::choose(na)]); d.threads.push_back(td); }
    string what = dump(d); mc::describe(what); check(d, {}, what);
}
MC_SCENARIO(sizes)
{
    string what; TraceData d = long_trace(mc::pick(all_types), what, false); check(d, {}, what);
}
