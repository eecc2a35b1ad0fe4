// C11: copies are independent and list operations preserve every element.
#include "objects.h"
#include "sizes.h"

static struct sr_stacktrace *dup_trace(struct sr_stacktrace *s)
{
    switch (s->type) {
    case SR_REPORT_CORE: return (struct sr_stacktrace *)sr_core_stacktrace_dup((struct sr_core_stacktrace *)s);
    case SR_REPORT_GDB: return (struct sr_stacktrace *)sr_gdb_stacktrace_dup((struct sr_gdb_stacktrace *)s);
    case SR_REPORT_JAVA: return (struct sr_stacktrace *)sr_java_stacktrace_dup((struct sr_java_stacktrace *)s);
    case SR_REPORT_PYTHON: return (struct sr_stacktrace *)sr_python_stacktrace_dup((struct sr_python_stacktrace *)s);
    case SR_REPORT_RUBY: return (struct sr_stacktrace *)sr_ruby_stacktrace_dup((struct sr_ruby_stacktrace *)s);
    case SR_REPORT_JAVASCRIPT: return (struct sr_stacktrace *)sr_js_stacktrace_dup((struct sr_js_stacktrace *)s);
    case SR_REPORT_KERNELOOPS: return (struct sr_stacktrace *)sr_koops_stacktrace_dup((struct sr_koops_stacktrace *)s);
    default: abort();
    }
}
static vector<Content> contents(const Kind &k, void *f) { vector<Content> v; for (; f; f = k.next(f)) v.push_back(k.content(f)); return v; }
static string texts(const Kind &k, const vector<Content> &v) { string t; for (auto &c : v) t += k.text(c) + "; "; return t; }
static void free_chain(const Kind &k, void *f) { while (f) { void *n = k.next(f); k.del(f); f = n; } }
static Content choose_content(const Kind &k) { Content c; for (auto &f : k.f) { auto &v = values(f); c.push_back(v[mc::choose_dev((int)v.size())]); } return c; }

// --- a frame and its siblings: the copy equals the original, shares nothing with it
MC_SCENARIO(frames)
{
    mc::set_dev_bound(mc::thorough() ? 3 : 2);
    const Kind &k = mc::pick(frame_kinds()); int len = 1 + mc::choose(3), at = mc::choose(len); bool siblings = mc::flip(); int order = mc::choose(3);
    vector<Content> v(len); Content varied = choose_content(k);
    for (int i = 0; i < len; i++) if (i == at) v[i] = varied; else for (auto &f : k.f) v[i].push_back(values(f)[std::min<size_t>(2, values(f).size() - 1)]);
    string what = fmt("dup siblings=%d #%d/%d then %s: ", siblings, at, len, order == 0 ? "free the original" : order == 1 ? "change and free the copy" : "change the original") + k.text(varied); mc::describe(what);
    void *x = chain(k, v); void *y = k.dup(x, siblings); mc::step();
    auto bad = [&](const char *key, const string &m) { mc::fail(string(key) + "|" + k.name + what, "%s", m.c_str()); };
    vector<Content> want = siblings ? v : vector<Content>{v[0]};
    if (contents(k, x) != v) bad("original changed", "duplicating changed the original to " + texts(k, contents(k, x)));
    if (contents(k, y) != want) bad("copy", "the copy is " + texts(k, contents(k, y)));
    void *a = x; void *b = y;
    for (; b; a = k.next(a), b = k.next(b)) if (a == b) bad("shared", "the copy shares an element"); else if (k.cmp(a, b) != 0) bad("not equal", "the copy does not compare equal");
    if (k.to_json) { string j = take(k.to_json(x)), j2 = take(k.to_json(y)); if (j != j2) bad("json", "copy serialises as " + j2); }
    auto change = [&](void *f) { for (; f; f = k.next(f)) for (size_t i = 0; i < k.f.size(); i++) k.set(f, (int)i, k.f[i].k == Field::STR ? V("changed") : N(1 + k.get(f, (int)i).n)); };
    if (order == 0) { free_chain(k, x); x = nullptr; if (contents(k, y) != want) bad("copy after free", "freeing the original changed the copy to " + texts(k, contents(k, y))); }
    if (order == 1) { change(y); free_chain(k, y); y = nullptr; if (contents(k, x) != v) bad("original after change", "changing the copy changed the original to " + texts(k, contents(k, x))); }
    if (order == 2) { change(x); if (contents(k, y) != want) bad("copy after change", "changing the original changed the copy to " + texts(k, contents(k, y))); }
    free_chain(k, x); free_chain(k, y);
    mc::validated(); mc::nontrivial(); mc::outcome(what + k.name);
}
// --- whole traces
static TraceData small_trace(enum sr_report_type t)
{
    TraceData d; d.type = t; const Kind &k = frame_kind(t);
    int nt = threaded(t) ? mc::choose(4) : 1, marker = 0;
    for (int i = 0; i < nt; i++) {
        ThreadData td; td.named = t == SR_REPORT_JAVA && mc::flip(); td.name = td.named ? fmt("t%d", i) : ""; if (t == SR_REPORT_CORE || t == SR_REPORT_GDB) td.tid = 100 + i; if (t == SR_REPORT_GDB) td.number = i + 1;
        int nf = mc::choose(nt > 2 ? 2 : 3);
        for (int q = 0; q < nf; q++) { Content c; marker++; for (auto &f : k.f) c.push_back(f.k == Field::STR ? V(fmt("%s%d", f.name, marker)) : f.k == Field::BOOL ? N(marker & 1) : N(marker)); td.frames.push_back(c); }
        d.threads.push_back(td);
    }
    auto opt = [&](const char *s) { return mc::flip() ? V(s) : V((const char *)nullptr); };
    if (t == SR_REPORT_PYTHON || t == SR_REPORT_RUBY || t == SR_REPORT_JAVASCRIPT) d.exception = opt("Error");
    if (t == SR_REPORT_JAVASCRIPT) d.platform = mc::flip() ? _sr_js_platform_assemble(SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8) : 0;
    if (t == SR_REPORT_CORE) { d.executable = opt("/bin/x"); d.signal = 11; d.only_crash = mc::flip(); d.crash = mc::choose(nt + 1) - 1; }
    if (t == SR_REPORT_GDB) d.crash_tid = mc::flip() ? 101 : UINT32_MAX;
    if (t == SR_REPORT_KERNELOOPS) { d.version = opt("5.1"); d.raw = opt("raw"); d.reason = opt("BUG"); d.has_modules = mc::flip(); if (d.has_modules) for (int i = mc::choose(3); i--;) d.modules.push_back(fmt("m%d", i)); d.taint.assign(NTAINT, false); int tf = mc::choose(NTAINT + 1); if (tf < NTAINT) d.taint[tf] = true; }
    return d;
}
struct GdbExtra { int libs = 0; bool crash = false; };
static string gdb_extra(struct sr_gdb_stacktrace *s)
{
    string t = "crash:"; if (s->crash) t += frame_kind(SR_REPORT_GDB).text(frame_kind(SR_REPORT_GDB).content(s->crash)) + (s->crash->next ? "+" : "");
    for (auto *l = s->libs; l; l = l->next) t += fmt(" lib %llx-%llx %d %s", (unsigned long long)l->from, (unsigned long long)l->to, l->symbols, S(l->soname).c_str());
    return t;
}
static void copy_trace(const TraceData &d, enum sr_report_type t, const string &name)
{
    int libs = 0, crash = 0; if (t == SR_REPORT_GDB) { libs = mc::choose(3); crash = mc::choose(3); }
    string what = (name.empty() ? dump(d) : name) + fmt(" libs=%d crash=%d", libs, crash); mc::describe(what);
    struct sr_stacktrace *x = build(d); string extra;
    if (t == SR_REPORT_GDB) {
        auto *g = (struct sr_gdb_stacktrace *)x; struct sr_gdb_sharedlib **tail = &g->libs;
        for (int i = 0; i < libs; i++) { auto *l = sr_gdb_sharedlib_new(); l->from = 100 * i; l->to = 100 * i + 50; l->symbols = i; l->soname = i ? g_strdup("libx.so") : nullptr; *tail = l; tail = &l->next; }
        if (crash) { g->crash = sr_gdb_frame_new(); g->crash->function_name = g_strdup("crashed"); g->crash->number = 3; if (crash == 2) { if (!g->threads || !g->threads->frames) mc::prune(); g->crash->next = g->threads->frames; } } // 2: still linked to the frames of its thread
        extra = gdb_extra(g);
    }
    auto bad = [&](const char *key, const string &m) { mc::fail(string(key) + "|" + what, "%s", m.c_str()); };
    string before = dump(extract(x)); string j = t == SR_REPORT_GDB ? "" : take(sr_stacktrace_to_json(x));
    struct sr_stacktrace *y = dup_trace(x); mc::step();
    if (dump(extract(x)) != before) bad("original changed", dump(extract(x)));
    if (dump(extract(y)) != before) bad("copy", "the copy is " + dump(extract(y)));
    if (t == SR_REPORT_CORE) { // the crash thread of the copy is its own
        auto *cx = (struct sr_core_stacktrace *)x, *cy = (struct sr_core_stacktrace *)y;
        if (cx->crash_thread && cx->crash_thread == cy->crash_thread) bad("crash thread", "the copy points to the crash thread of the original");
    }
    if (t == SR_REPORT_JAVA && sr_java_stacktrace_cmp((struct sr_java_stacktrace *)x, (struct sr_java_stacktrace *)y) != 0) bad("not equal", "java copies differ");
    for (struct sr_thread *a = sr_stacktrace_threads(x), *b = sr_stacktrace_threads(y); a && b; a = sr_thread_next(a), b = sr_thread_next(b)) if (sr_thread_cmp(a, b) != 0) bad("not equal", "copied threads differ");
    bool first = mc::flip();
    struct sr_stacktrace *keep = first ? y : x; sr_stacktrace_free(first ? x : y);
    if (dump(extract(keep)) != before) bad("dependent", "freeing one changed the other to " + dump(extract(keep)));
    if (t == SR_REPORT_GDB && gdb_extra((struct sr_gdb_stacktrace *)keep) != (keep == y && crash == 2 ? extra.substr(0, extra.find("+")) + extra.substr(extra.find("+") + 1) : extra)) bad("gdb extra", gdb_extra((struct sr_gdb_stacktrace *)keep)); // the crash frame is copied alone
    if (t != SR_REPORT_GDB) { string j2 = take(sr_stacktrace_to_json(keep)); if (j2 != j) bad("json", j2); }
    take(sr_stacktrace_get_bthash(keep, SR_BTHASH_NORMAL));
    sr_stacktrace_free(keep); mc::validated(); mc::nontrivial(); mc::outcome(what);
}
MC_SCENARIO(traces)
{
    enum sr_report_type t = mc::pick(all_types); TraceData d = small_trace(t); copy_trace(d, t, "");
}
// many frames, threads and modules, and long strings
MC_SCENARIO(sizes)
{
    enum sr_report_type t = mc::pick(all_types); string what; TraceData d = long_trace(t, what); copy_trace(d, t, what);
}
// --- histories of list operations on the frames of a thread, against a plain sequence
static bool specific_remove(struct sr_thread *t, struct sr_frame *f)
{
    if (t->type == SR_REPORT_GDB) return sr_gdb_thread_remove_frame((struct sr_gdb_thread *)t, (struct sr_gdb_frame *)f);
    if (t->type == SR_REPORT_JAVA) return sr_java_thread_remove_frame((struct sr_java_thread *)t, (struct sr_java_frame *)f);
    if (t->type == SR_REPORT_KERNELOOPS) return sr_koops_stacktrace_remove_frame((struct sr_koops_stacktrace *)t, (struct sr_koops_frame *)f);
    return sr_thread_remove_frame(t, f);
}
static bool specific_remove_above(struct sr_thread *t, struct sr_frame *f)
{
    if (t->type == SR_REPORT_GDB) return sr_gdb_thread_remove_frames_above((struct sr_gdb_thread *)t, (struct sr_gdb_frame *)f);
    if (t->type == SR_REPORT_JAVA) return sr_java_thread_remove_frames_above((struct sr_java_thread *)t, (struct sr_java_frame *)f);
    return sr_thread_remove_frames_above(t, f);
}
static struct sr_thread *empty_thread(enum sr_report_type t)
{
    switch (t) { // gdb, java and core threads are separate objects, the others are their stack traces
    case SR_REPORT_CORE: return (struct sr_thread *)sr_core_thread_new();
    case SR_REPORT_GDB: return (struct sr_thread *)sr_gdb_thread_new();
    case SR_REPORT_JAVA: return (struct sr_thread *)sr_java_thread_new();
    case SR_REPORT_PYTHON: return (struct sr_thread *)sr_python_stacktrace_new();
    case SR_REPORT_RUBY: return (struct sr_thread *)sr_ruby_stacktrace_new();
    case SR_REPORT_JAVASCRIPT: return (struct sr_thread *)sr_js_stacktrace_new();
    case SR_REPORT_KERNELOOPS: return (struct sr_thread *)sr_koops_stacktrace_new();
    default: abort();
    }
}
MC_SCENARIO(frame_histories)
{
    enum sr_report_type t = mc::pick(all_types); const Kind &k = frame_kind(t); int depth = mc::thorough() ? 5 : 4, id = 0; string log;
    struct sr_thread *th = empty_thread(t); vector<std::pair<void *, int>> model; // the frames and their marks
    int name = k.idx(t == SR_REPORT_JAVA ? "name" : "function_name");
    auto make = [&] { Content c; id++; for (auto &f : k.f) c.push_back(f.k == Field::STR ? V(fmt("f%d", id)) : N(f.k == Field::BOOL ? 0 : 7)); return std::make_pair(k.build(c), id); };
    auto bad = [&](const char *key, const string &m) { mc::fail(string(key) + "|" + k.name + log, "%s", m.c_str()); };
    for (int s = 0; s < depth; s++) {
        // enumerate the operations that apply here; 0 ends the history
        struct Op { int kind, arg; }; vector<Op> ops{{0, 0}};
        if (model.size() < 4) { ops.push_back({1, 1}); ops.push_back({1, 2}); ops.push_back({2, 0}); }
        for (size_t i = 0; i < model.size(); i++) { ops.push_back({3, (int)i}); ops.push_back({4, (int)i}); if (t == SR_REPORT_GDB || t == SR_REPORT_JAVA || t == SR_REPORT_KERNELOOPS) { ops.push_back({5, (int)i}); if (t != SR_REPORT_KERNELOOPS) ops.push_back({6, (int)i}); } }
        ops.push_back({7, 0}); ops.push_back({8, 0});
        if (t == SR_REPORT_GDB || t == SR_REPORT_JAVA) for (size_t n = 0; n <= model.size() + 1; n++) ops.push_back({9, (int)n});
        Op o = ops[mc::choose((int)ops.size())]; if (o.kind == 0) break;
        log += fmt(" %d:%d", o.kind, o.arg); mc::describe(k.name + log); mc::step();
        switch (o.kind) {
        case 1: { // append one frame, or a list of two
            void *list = nullptr; vector<std::pair<void *, int>> add; for (int i = 0; i < o.arg; i++) { auto f = make(); add.push_back(f); list = k.append(list, f.first); }
            void *r = k.append(sr_thread_frames(th), list); if (r != (model.empty() ? list : model[0].first)) bad("append", "append did not return the head of the list");
            sr_thread_set_frames(th, (struct sr_frame *)r); for (auto &f : add) model.push_back(f); break; }
        case 2: { auto f = make(); sr_frame_set_next((struct sr_frame *)f.first, sr_thread_frames(th)); sr_thread_set_frames(th, (struct sr_frame *)f.first); model.insert(model.begin(), f); break; }
        case 3: case 5: { struct sr_frame *f = (struct sr_frame *)model[o.arg].first; if (!(o.kind == 3 ? sr_thread_remove_frame(th, f) : specific_remove(th, f))) bad("remove", "a frame of the thread was not removed"); model.erase(model.begin() + o.arg); break; }
        case 4: case 6: { struct sr_frame *f = (struct sr_frame *)model[o.arg].first; if (!(o.kind == 4 ? sr_thread_remove_frames_above(th, f) : specific_remove_above(th, f))) bad("remove above", "reported that the frame is not there"); model.erase(model.begin(), model.begin() + o.arg); break; }
        case 7: { // a frame that is not in the thread
            auto f = make(); bool r = sr_thread_remove_frame(th, (struct sr_frame *)f.first), q = sr_thread_remove_frames_above(th, (struct sr_frame *)f.first), r2 = specific_remove(th, (struct sr_frame *)f.first), q2 = specific_remove_above(th, (struct sr_frame *)f.first);
            k.del(f.first); if (r || q || r2 || q2) bad("foreign", "removed a frame that is not in the thread"); break; }
        case 8: { // replace the thread by its copy
            struct sr_thread *c = sr_thread_dup(th); sr_thread_free(th); th = c; size_t i = 0;
            for (struct sr_frame *f = sr_thread_frames(th); f && i < model.size(); f = sr_frame_next(f), i++) model[i].first = f; break; }
        case 9: if (t == SR_REPORT_GDB) sr_gdb_thread_remove_frames_below_n((struct sr_gdb_thread *)th, o.arg); else sr_java_thread_remove_frames_below_n((struct sr_java_thread *)th, o.arg);
            if ((size_t)o.arg < model.size()) model.resize(o.arg); break;
        }
        string seq; size_t i = 0; bool same = true;
        for (struct sr_frame *f = sr_thread_frames(th); f; f = sr_frame_next(f), i++) {
            if (i >= model.size() || f != model[i].first || k.get(f, name).s != fmt("f%d", model[i].second)) same = false;
            seq += k.get(f, name).s + " "; if (i > 20) break;
        }
        if (!same || i != model.size()) bad("sequence", "the frames are " + seq);
        if (sr_thread_frame_count(th) != (int)model.size()) bad("count", fmt("frame count is %d", sr_thread_frame_count(th)));
        mc::state(k.name + seq);
    }
    sr_thread_free(th); mc::validated(); if (!log.empty()) mc::nontrivial(); mc::outcome(k.name + log);
}
// --- histories on the threads of a stack trace
MC_SCENARIO(thread_histories)
{
    static const enum sr_report_type tt[] = {SR_REPORT_CORE, SR_REPORT_GDB, SR_REPORT_JAVA}; enum sr_report_type t = mc::pick(tt); const Kind &k = frame_kind(t);
    int depth = mc::thorough() ? 6 : 5, id = 0; string log; TraceData empty; empty.type = t; struct sr_stacktrace *s = build(empty); vector<std::pair<struct sr_thread *, int>> model;
    auto make = [&] { struct sr_thread *x = empty_thread(t); id++; Content c; for (auto &f : k.f) c.push_back(f.k == Field::STR ? V(fmt("t%d", id)) : N(0)); sr_thread_set_frames(x, (struct sr_frame *)k.build(c)); return std::make_pair(x, id); };
    auto append = [&](struct sr_thread *a, struct sr_thread *b) -> struct sr_thread * { return t == SR_REPORT_CORE ? (struct sr_thread *)sr_core_thread_append((struct sr_core_thread *)a, (struct sr_core_thread *)b) : t == SR_REPORT_GDB ? (struct sr_thread *)sr_gdb_thread_append((struct sr_gdb_thread *)a, (struct sr_gdb_thread *)b) : (struct sr_thread *)sr_java_thread_append((struct sr_java_thread *)a, (struct sr_java_thread *)b); };
    auto dup = [&](struct sr_thread *a, bool sib) -> struct sr_thread * { return t == SR_REPORT_CORE ? (struct sr_thread *)sr_core_thread_dup((struct sr_core_thread *)a, sib) : t == SR_REPORT_GDB ? (struct sr_thread *)sr_gdb_thread_dup((struct sr_gdb_thread *)a, sib) : (struct sr_thread *)sr_java_thread_dup((struct sr_java_thread *)a, sib); };
    auto bad = [&](const char *key, const string &m) { mc::fail(string(key) + "|" + k.name + log, "%s", m.c_str()); };
    auto mark = [&](struct sr_thread *x) { struct sr_frame *f = sr_thread_frames(x); return f ? k.get(f, k.idx(t == SR_REPORT_JAVA ? "name" : "function_name")).s : string("-"); };
    for (int st = 0; st < depth; st++) {
        struct Op { int kind, arg; }; vector<Op> ops{{0, 0}};
        if (model.size() < 4) { ops.push_back({1, 1}); ops.push_back({1, 2}); ops.push_back({2, 0}); }
        for (size_t i = 0; i < model.size(); i++) { if (t == SR_REPORT_GDB) ops.push_back({3, (int)i}); ops.push_back({4, (int)i}); }
        if (!model.empty()) ops.push_back({5, 0}); ops.push_back({6, 0});
        Op o = ops[mc::choose((int)ops.size())]; if (o.kind == 0) break;
        log += fmt(" %d:%d", o.kind, o.arg); mc::describe(k.name + log); mc::step();
        switch (o.kind) {
        case 1: { struct sr_thread *list = nullptr; vector<std::pair<struct sr_thread *, int>> add; for (int i = 0; i < o.arg; i++) { auto x = make(); add.push_back(x); list = append(list, x.first); } sr_stacktrace_set_threads(s, append(sr_stacktrace_threads(s), list)); for (auto &x : add) model.push_back(x); break; }
        case 2: { auto x = make(); sr_thread_set_next(x.first, sr_stacktrace_threads(s)); sr_stacktrace_set_threads(s, x.first); model.insert(model.begin(), x); break; }
        case 3: { sr_gdb_stacktrace_remove_threads_except_one((struct sr_gdb_stacktrace *)s, (struct sr_gdb_thread *)model[o.arg].first); auto x = model[o.arg]; model = {x}; break; }
        case 4: { // a copy without siblings goes to the end
            if (model.size() >= 5) break; struct sr_thread *c = dup(model[o.arg].first, false); if (sr_thread_next(c)) bad("dup", "a copy without siblings has a successor"); if (mark(c) != mark(model[o.arg].first) || sr_thread_cmp(c, model[o.arg].first) != 0) bad("dup", "the copy differs"); sr_stacktrace_set_threads(s, append(sr_stacktrace_threads(s), c)); model.push_back({c, model[o.arg].second}); break; }
        case 5: { struct sr_thread *c = dup(model[0].first, true); for (auto &m : model) sr_thread_free(m.first); sr_stacktrace_set_threads(s, c); size_t i = 0; for (struct sr_thread *x = c; x && i < model.size(); x = sr_thread_next(x), i++) model[i].first = x; break; }
        case 6: { struct sr_stacktrace *c = dup_trace(s); sr_stacktrace_free(s); s = c; size_t i = 0; for (struct sr_thread *x = sr_stacktrace_threads(s); x && i < model.size(); x = sr_thread_next(x), i++) model[i].first = x; break; }
        }
        string seq; size_t i = 0; bool same = true;
        for (struct sr_thread *x = sr_stacktrace_threads(s); x; x = sr_thread_next(x), i++) { if (i >= model.size() || x != model[i].first || mark(x) != fmt("t%d", model[i].second)) same = false; seq += mark(x) + " "; if (i > 20) break; }
        if (!same || i != model.size()) bad("sequence", "the threads are " + seq);
        int n = t == SR_REPORT_CORE ? sr_core_stacktrace_get_thread_count((struct sr_core_stacktrace *)s) : t == SR_REPORT_GDB ? sr_gdb_stacktrace_get_thread_count((struct sr_gdb_stacktrace *)s) : (int)i;
        if (n != (int)model.size()) bad("count", fmt("thread count is %d", n));
        mc::state(k.name + seq);
    }
    sr_stacktrace_free(s); mc::validated(); if (!log.empty()) mc::nontrivial(); mc::outcome(k.name + log);
}
// --- package, consistency and library lists
MC_SCENARIO(other_lists)
{
    int which = mc::choose(3); int n = mc::choose(4), m = mc::choose(3), mode = mc::choose(3); string log = fmt("list %d sizes %d %d mode %d", which, n, m, mode); mc::describe(log);
    auto bad = [&](const string &s) { mc::fail("list|" + log, "%s", s.c_str()); };
    vector<string> want, got; for (int i = 0; i < n + m; i++) want.push_back(fmt("e%d", i));
    if (which == 0) {
        auto mk = [&](int from, int c) { struct sr_rpm_package *l = nullptr; for (int i = 0; i < c; i++) { auto *p = sr_rpm_package_new(); p->name = g_strdup(fmt("e%d", from + i).c_str()); p->consistency = sr_rpm_consistency_new(); p->consistency->path = g_strdup("/x"); l = sr_rpm_package_append(l, p); } return l; };
        struct sr_rpm_package *l = sr_rpm_package_append(mk(0, n), mk(n, m)); mc::step();
        if (sr_rpm_package_count(l) != n + m) bad("count is wrong"); for (auto *p = l; p; p = p->next) got.push_back(S(p->name));
        if (mode == 1 && l) { auto *nx = l->next; sr_rpm_package_free(l, false); l = nx; if (sr_rpm_package_count(l) != n + m - 1) bad("freeing one package changed the others"); }
        sr_rpm_package_free(l, true);
    } else if (which == 1) {
        auto mk = [&](int from, int c) { struct sr_rpm_consistency *l = nullptr; for (int i = 0; i < c; i++) { auto *p = sr_rpm_consistency_new(); p->path = g_strdup(fmt("e%d", from + i).c_str()); l = sr_rpm_consistency_append(l, p); } return l; };
        struct sr_rpm_consistency *l = sr_rpm_consistency_append(mk(0, n), mk(n, m)); mc::step(); for (auto *p = l; p; p = p->next) got.push_back(S(p->path));
        if (mode == 1 && l) { auto *nx = l->next; sr_rpm_consistency_free(l, false); l = nx; for (auto *p = l; p; p = p->next) if (S(p->path).size() < 2) bad("freeing one entry changed the others"); }
        sr_rpm_consistency_free(l, true);
    } else {
        auto mk = [&](int from, int c) { struct sr_gdb_sharedlib *l = nullptr; for (int i = 0; i < c; i++) { auto *p = sr_gdb_sharedlib_new(); p->soname = g_strdup(fmt("e%d", from + i).c_str()); p->from = from + i; p->to = 1000; p->symbols = i % 3; l = sr_gdb_sharedlib_append(l, p); } return l; };
        auto fr = [](struct sr_gdb_sharedlib *l) { while (l) { auto *x = l->next; sr_gdb_sharedlib_free(l); l = x; } };
        struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_append(mk(0, n), mk(n, m)); mc::step();
        if (l && mode) { auto *c = sr_gdb_sharedlib_dup(l, mode == 1); if (mode == 2) { if (c->next) bad("a copy without siblings has a successor"); want.resize(1); } for (auto *a = l, *b = c; b; a = a->next, b = b->next) if (a == b || a->soname == b->soname || a->from != b->from || a->to != b->to || a->symbols != b->symbols) bad("the copy differs or is shared"); fr(l); l = c; }
        for (auto *p = l; p; p = p->next) got.push_back(S(p->soname)); if (sr_gdb_sharedlib_count(l) != (int)got.size()) bad("count is wrong"); fr(l);
    }
    string g; for (auto &x : got) g += x + " "; if (got != want) bad("the list is " + g);
    mc::validated(); mc::nontrivial(); mc::outcome(log);
}
