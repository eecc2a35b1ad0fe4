// C27: generic operations agree with the type-specific ones for every type.
#include "norm.h"
#include "parsers.h"
#include "sizes.h"
#include <array>
typedef struct sr_stacktrace ST;
struct Ops { enum sr_report_type t; const char *name, *lang; std::function<ST *(const char *, string &)> parse; std::function<char *(ST *)> to_json; std::function<ST *(json_object *, char **)> from_json; std::function<char *(ST *)> reason; std::function<void(ST *)> del; };
#define OPS(T, N, L, LANG) Ops{T, N, LANG, [](const char *in, string &msg) { struct sr_location l; sr_location_init(&l); const char *c = in; auto *s = sr_##L##_stacktrace_parse(&c, &l); if (!s) msg = take(sr_location_to_string(&l)); return (ST *)s; }, \
    [](ST *s) { return sr_##L##_stacktrace_to_json((struct sr_##L##_stacktrace *)s); }, [](json_object *j, char **e) { return (ST *)sr_##L##_stacktrace_from_json(j, e); }, [](ST *s) { return sr_##L##_stacktrace_get_reason((struct sr_##L##_stacktrace *)s); }, [](ST *s) { sr_##L##_stacktrace_free((struct sr_##L##_stacktrace *)s); }}
static vector<Ops> &all_ops()
{
    static vector<Ops> v = {OPS(SR_REPORT_PYTHON, "python", python, "python"), OPS(SR_REPORT_KERNELOOPS, "kerneloops", koops, "koops"), OPS(SR_REPORT_JAVA, "java", java, "java"), OPS(SR_REPORT_RUBY, "ruby", ruby, "ruby"), OPS(SR_REPORT_JAVASCRIPT, "javascript", js, "js"),
        Ops{SR_REPORT_GDB, "gdb", "gdb", [](const char *in, string &msg) { struct sr_location l; sr_location_init(&l); const char *c = in; auto *s = sr_gdb_stacktrace_parse(&c, &l); if (!s) msg = take(sr_location_to_string(&l)); return (ST *)s; }, nullptr, nullptr, nullptr, [](ST *s) { sr_gdb_stacktrace_free((struct sr_gdb_stacktrace *)s); }},
        Ops{SR_REPORT_CORE, "core", "", [](const char *in, string &msg) { char *e = nullptr; auto *s = sr_core_stacktrace_from_json_text(in, &e); if (!s) msg = S(e); g_free(e); return (ST *)s; }, [](ST *s) { return sr_core_stacktrace_to_json((struct sr_core_stacktrace *)s); }, [](json_object *j, char **e) { return (ST *)sr_core_stacktrace_from_json(j, e); }, [](ST *s) { return sr_core_stacktrace_get_reason((struct sr_core_stacktrace *)s); }, [](ST *s) { sr_core_stacktrace_free((struct sr_core_stacktrace *)s); }}};
    return v;
}
static const Ops &ops(enum sr_report_type t) { for (auto &o : all_ops()) if (o.t == t) return o; abort(); }
MC_SCENARIO(type_names)
{
    int t = mc::choose(14) - 3; string n = take(sr_report_type_to_string((enum sr_report_type)t)); mc::step(); mc::validated(); mc::describe(n);
    static const std::map<int, string> want = {{SR_REPORT_INVALID, "invalid"}, {SR_REPORT_CORE, "core"}, {SR_REPORT_PYTHON, "python"}, {SR_REPORT_KERNELOOPS, "kerneloops"}, {SR_REPORT_JAVA, "java"}, {SR_REPORT_GDB, "gdb"}, {SR_REPORT_RUBY, "ruby"}, {SR_REPORT_JAVASCRIPT, "javascript"}};
    auto it = want.find(t); string w = it == want.end() ? "invalid" : it->second; if (n != w) mc::fail(fmt("name|%d", t), "type %d is called %s", t, n.c_str());
    int back = sr_report_type_from_string(w.c_str()); if (back != (it == want.end() ? (int)SR_REPORT_INVALID : t)) mc::fail(fmt("type|%d", t), "%s is read as type %d", w.c_str(), back);
    for (auto &m : {w + "x", w.substr(1), string("X") + w, w + " ", string(""), string("Core"), string("koops"), string("js")}) { bool known = false; for (auto &p : want) known |= p.second == m; int g = sr_report_type_from_string(m.c_str()); if (!known && g != SR_REPORT_INVALID) mc::fail("unknown|" + m, "%s is read as type %d", m.c_str(), g); }
    if (sr_report_type_from_string(nullptr) != SR_REPORT_INVALID) mc::fail("null", "no name is read as a type"); mc::nontrivial(); mc::outcome(fmt("%d", t));
}
static void compare_parse(const Ops &o, const string &text)
{
    Exact e(text); char *err = nullptr; string msg, gm; ST *a = sr_stacktrace_parse(o.t, e.p, &err), *b = o.parse(e.p, msg); gm = S(err); g_free(err); mc::step(2); mc::validated(); string what = string(o.name) + " " + quote(text);
    if (!a != !b) mc::fail("parse|" + what, "the generic parser %s, the typed one %s", a ? "succeeds" : "fails", b ? "succeeds" : "fails");
    if (a) { if (a->type != o.t || b->type != o.t) mc::fail("type|" + what, "the type is %d", a->type); string x = dump(extract(a)), y = dump(extract(b)); if (x != y) mc::fail("content|" + what, "generic: %s\ntyped: %s", x.c_str(), y.c_str()); sr_stacktrace_free(a); o.del(b); if (gm != "(null)") mc::fail("message|" + what, "a message was set on success: %s", gm.c_str()); }
    else if (gm != msg) mc::fail("message|" + what, "generic message %s, typed %s", gm.c_str(), msg.c_str());
    mc::nontrivial(); mc::outcome(what);
}
MC_SCENARIO(parse)
{
    auto &v = all_ops(); const Ops &o = v[mc::choose((int)v.size())]; if (o.t == SR_REPORT_CORE) { static const char *docs[] = {"", "{", "{}", "[]", "3", "null", "{\"signal\":1}", "{\"signal\":1,\"executable\":\"/x\",\"stacktrace\":[{\"crash_thread\":true,\"frames\":[{\"address\":1,\"build_id\":\"a\",\"build_id_offset\":2}]},{\"frames\":[]}]}", "{\"signal\":-1}", "{\"stacktrace\":{}}"}; compare_parse(o, mc::pick(docs)); return; }
    auto &l = langs().at(o.lang); compare_parse(o, edited_text(l, 1));
}
MC_SCENARIO(parse_tokens)
{
    auto &v = all_ops(); const Ops &o = v[mc::choose((int)v.size() - 1)]; auto &l = langs().at(o.lang); auto it = contexts.find(o.lang); string pre = it == contexts.end() ? string() : it->second[mc::choose((int)it->second.size())]; compare_parse(o, seq_text(l, mc::thorough() ? 3 : 2, pre));
}
// ---- traces
static TraceData shape(enum sr_report_type ty, int maxthreads, int maxframes)
{
    const Kind &k = frame_kind(ty); TraceData d; d.type = ty; int nt = threaded(ty) ? mc::choose(maxthreads + 1) : 1; auto &al = frame_alphabet(k);
    if (ty == SR_REPORT_CORE) { d.executable = V("/x"); d.signal = 6; } if (!threaded(ty)) d.exception = ty == SR_REPORT_KERNELOOPS ? V((const char *)nullptr) : V("E"); if (ty == SR_REPORT_JAVASCRIPT) sr_js_platform_init(d.platform, SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8);
    if (ty == SR_REPORT_KERNELOOPS) d.taint.assign(NTAINT, false);
    for (int i = 0; i < nt; i++) { ThreadData t; t.number = ty == SR_REPORT_GDB ? i + 1 : 0; t.named = ty == SR_REPORT_JAVA; t.name = t.named ? fmt("t%d", i) : ""; int n = mc::choose(maxframes + 1); for (int j = 0; j < n; j++) { Content c = al[mc::choose(2)]; for (size_t q = 0; q < k.f.size(); q++) if (!strcmp(k.f[q].name, "address")) c[q] = N(16 * i + j); t.frames.push_back(c); } d.threads.push_back(t); }
    return d;
}
MC_SCENARIO(json)
{
    enum sr_report_type ty = mc::pick(all_types); const Ops &o = ops(ty); TraceData d = shape(ty, 2, 3); string what = dump(d); mc::describe(what); ST *s = build(d); char *g = sr_stacktrace_to_json(s), *r = sr_stacktrace_get_reason(s), *t = nullptr, *q = nullptr; mc::step(2);
    if (ty == SR_REPORT_GDB) { if (g || r) mc::fail("gdb|" + what, "a GDB trace gives %s and %s", S(g).c_str(), S(r).c_str()); char *e = nullptr; json_object *j = json_tokener_parse("{}"); ST *x = sr_stacktrace_from_json(ty, j, &e); if (x || !e) mc::fail("gdb read|" + what, "reading a GDB trace from JSON gives a trace or no message"); g_free(e); json_object_put(j); sr_stacktrace_free(s); return; }
    t = o.to_json(s); q = o.reason(s); if (S(g) != S(t)) mc::fail("to_json|" + what, "generic %s, typed %s", S(g).c_str(), S(t).c_str()); if (S(r) != S(q)) mc::fail("reason|" + what, "generic %s, typed %s", S(r).c_str(), S(q).c_str());
    char *e1 = nullptr, *e2 = nullptr, *e3 = nullptr; json_object *j = json_tokener_parse(g); ST *x = sr_stacktrace_from_json(ty, j, &e1), *y = o.from_json(j, &e2), *z = sr_stacktrace_from_json_text(ty, g, &e3); json_object_put(j); mc::step(3); mc::validated();
    if (!x || !y || !z || e1 || e2 || e3) mc::fail("from_json|" + what, "own JSON rejected: %s %s %s", S(e1).c_str(), S(e2).c_str(), S(e3).c_str());
    if (dump(extract(x)) != dump(extract(y)) || dump(extract(x)) != dump(extract(z)) || x->type != ty) mc::fail("content|" + what, "generic %s typed %s", dump(extract(x)).c_str(), dump(extract(y)).c_str());
    g_free(g); g_free(t); g_free(r); g_free(q); sr_stacktrace_free(x); o.del(y); sr_stacktrace_free(z); sr_stacktrace_free(s); mc::nontrivial(); mc::outcome(what);
}
MC_SCENARIO(json_errors)
{
    enum sr_report_type ty = mc::pick(all_types); const Ops &o = ops(ty); static const char *docs[] = {"", " ", "{", "nul", "{]", "[1,", "{}", "[]", "3", "\"x\"", "null", "true", "{\"stacktrace\":3}", "{\"threads\":3}", "{\"frames\":3}", "{\"stacktrace\":[3]}", "{\"threads\":[3]}", "{\"frames\":[3]}", "{\"signal\":\"x\"}", "{\"exception_name\":3}", "{\"taint_flags\":3}", "{\"exception\":{\"name\":3}}"};
    string text = mc::pick(docs), what = string(o.name) + " " + text; bool want_msg = mc::choose(2); mc::describe(what); char *e1 = nullptr, *e2 = nullptr; ST *a = sr_stacktrace_from_json_text(ty, text.c_str(), want_msg ? &e1 : nullptr); json_object *j = json_tokener_parse(text.c_str()); mc::step(); mc::validated();
    if (!a && want_msg && !e1) mc::fail("silent|" + what, "failed without a message"); if (a && e1) mc::fail("both|" + what, "succeeded with a message");
    if (j && o.from_json) { ST *b = o.from_json(j, &e2); if (!a != !b) mc::fail("differ|" + what, "generic %s, typed %s", a ? "succeeds" : "fails", b ? "succeeds" : "fails"); if (want_msg && S(e1) != S(e2)) mc::fail("message|" + what, "generic message %s, typed %s", S(e1).c_str(), S(e2).c_str()); if (a && dump(extract(a)) != dump(extract(b))) mc::fail("content|" + what, "contents differ"); sr_stacktrace_free(b); }
    if (!j && a) mc::fail("accepted|" + what, "text that is not JSON was accepted");
    sr_stacktrace_free(a); json_object_put(j); g_free(e1); g_free(e2); mc::nontrivial(); mc::outcome(what);
}
// ---- histories of generic operations against plain sequences (and against the typed operation where there is one)
static vector<struct sr_thread *> threads(ST *s) { vector<struct sr_thread *> v; for (auto *t = sr_stacktrace_threads(s); t; t = sr_thread_next(t)) v.push_back(t); return v; }
static vector<struct sr_frame *> frames(struct sr_thread *t) { vector<struct sr_frame *> v; for (auto *f = sr_thread_frames(t); f; f = sr_frame_next(f)) v.push_back(f); return v; }
static void agree(ST *s, const TraceData &m, const string &what)
{
    const Kind &k = frame_kind(m.type); auto th = threads(s); mc::step();
    if (dump(extract(s)) != dump(m)) mc::fail("content|" + what, "the trace is %s, expected %s", dump(extract(s)).c_str(), dump(m).c_str());
    if (th.size() != m.threads.size()) mc::fail("threads|" + what, "%zu threads seen, expected %zu", th.size(), m.threads.size());
    for (size_t i = 0; i < th.size(); i++) {
        if (th[i]->type != m.type) mc::fail("thread type|" + what, "thread %zu has type %d", i, th[i]->type);
        auto fr = frames(th[i]); if (fr.size() != m.threads[i].frames.size() || sr_thread_frame_count(th[i]) != (int)fr.size()) mc::fail("frames|" + what, "thread %zu has %zu frames (%d counted)", i, fr.size(), sr_thread_frame_count(th[i]));
        for (size_t j = 0; j < fr.size(); j++) if (fr[j]->type != m.type || k.content(fr[j]) != m.threads[i].frames[j]) mc::fail("frame|" + what, "frame %zu of thread %zu is %s", j, i, k.text(k.content(fr[j])).c_str());
    }
}
MC_SCENARIO(histories)
{
    enum sr_report_type ty = mc::pick(all_types); const Kind &k = frame_kind(ty); bool th = threaded(ty); TraceData m = shape(ty, 2, th ? 2 : 3); ST *s = build(m), *typed = build(m); string what = dump(m); int depth = (th ? 2 : 3) + mc::thorough();
    if (!threaded(ty) && ((void *)sr_stacktrace_threads(s) != (void *)s || (void *)sr_stacktrace_find_crash_thread(s) != (void *)s || sr_thread_next((struct sr_thread *)s))) mc::fail("single|" + what, "a trace with a single thread is not its own thread");
    agree(s, m, what);
    for (int step = 0; step < depth; step++) {
        vector<std::array<int, 3>> o{{-1, 0, 0}}; for (int i = 0; i < (int)m.threads.size(); i++) { int n = (int)m.threads[i].frames.size(); for (int j = 0; j < n; j++) { o.push_back({0, i, j}); if (j) o.push_back({1, i, j}); } o.push_back({2, i, 0}); if (n > 1) { o.push_back({3, i, 0}); o.push_back({4, i, 0}); } o.push_back({5, i, 0}); if (n) o.push_back({6, i, 0}); if (m.threads.size() > 1) { o.push_back({7, i, 0}); o.push_back({8, i, 0}); } if (threaded(ty) && m.threads.size() < 3) o.push_back({9, i, 0}); }
        auto c = o[mc::choose((int)o.size())]; if (c[0] < 0) break; what += fmt(" op%d(%d,%d)", c[0], c[1], c[2]); mc::describe(what); auto th = threads(s), tt = threads(typed); auto *t = th[c[1]], *u = tt[c[1]]; auto &mf = m.threads[c[1]].frames; auto fr = frames(t), fu = frames(u);
        auto typed_remove = [&](int j, bool above) -> int { // -1: the type has no such operation of its own
            if (ty == SR_REPORT_GDB) return above ? sr_gdb_thread_remove_frames_above((struct sr_gdb_thread *)u, (struct sr_gdb_frame *)fu[j]) : sr_gdb_thread_remove_frame((struct sr_gdb_thread *)u, (struct sr_gdb_frame *)fu[j]);
            if (ty == SR_REPORT_JAVA) return above ? sr_java_thread_remove_frames_above((struct sr_java_thread *)u, (struct sr_java_frame *)fu[j]) : sr_java_thread_remove_frame((struct sr_java_thread *)u, (struct sr_java_frame *)fu[j]);
            if (ty == SR_REPORT_KERNELOOPS && !above) return sr_koops_stacktrace_remove_frame((struct sr_koops_stacktrace *)u, (struct sr_koops_frame *)fu[j]);
            return -1; };
        bool two = true;
        switch (c[0]) {
        case 0: { bool r = sr_thread_remove_frame(t, fr[c[2]]); int q = typed_remove(c[2], false); if (!r || !q) mc::fail("remove|" + what, "a frame of the thread was not found"); if (q < 0) sr_thread_remove_frame(u, fu[c[2]]); mf.erase(mf.begin() + c[2]); break; }
        case 1: { bool r = sr_thread_remove_frames_above(t, fr[c[2]]); int q = typed_remove(c[2], true); if (!r || !q) mc::fail("remove above|" + what, "a frame of the thread was not found"); if (q < 0) sr_thread_remove_frames_above(u, fu[c[2]]); mf.erase(mf.begin(), mf.begin() + c[2]); break; }
        case 2: { void *f = k.build(base_frame(k)); bool r = sr_thread_remove_frame(t, (struct sr_frame *)f), q = sr_thread_remove_frames_above(t, (struct sr_frame *)f); sr_frame_free((struct sr_frame *)f); if (r || q) mc::fail("foreign|" + what, "a frame of no thread was found"); two = false; break; }
        case 3: for (auto *x : {t, u}) { auto f = frames(x); sr_thread_set_frames(x, f[1]); sr_frame_set_next(f[0], nullptr); sr_frame_set_next(f.back(), f[0]); } std::rotate(mf.begin(), mf.begin() + 1, mf.end()); break; // first to the end
        case 4: for (auto *x : {t, u}) { auto f = frames(x); struct sr_frame *rest = sr_frame_next(f[1]); sr_thread_set_frames(x, f[1]); sr_frame_set_next(f[1], f[0]); sr_frame_set_next(f[0], rest); } std::swap(mf[0], mf[1]); break;
        case 5: sr_thread_normalize(t); if (ty == SR_REPORT_GDB) sr_normalize_gdb_thread((struct sr_gdb_thread *)u); else if (ty == SR_REPORT_CORE) sr_normalize_core_thread((struct sr_core_thread *)u); else if (ty == SR_REPORT_KERNELOOPS) sr_normalize_koops_stacktrace((struct sr_koops_stacktrace *)u); mf = ref_normalize(k, mf); break;
        case 6: for (auto *x : {t, u}) { auto f = frames(x); sr_thread_set_frames(x, nullptr); for (auto *y : f) { sr_frame_set_next(y, nullptr); sr_frame_free(y); } } mf.clear(); break;
        case 7: for (auto *x : {s, typed}) { auto v = threads(x); sr_stacktrace_set_threads(x, v[1]); sr_thread_set_next(v[0], nullptr); sr_thread_set_next(v.back(), v[0]); } std::rotate(m.threads.begin(), m.threads.begin() + 1, m.threads.end()); break;
        case 8: for (auto *x : {s, typed}) { auto v = threads(x); if (c[1]) sr_thread_set_next(v[c[1] - 1], sr_thread_next(v[c[1]])); else sr_stacktrace_set_threads(x, sr_thread_next(v[0])); sr_thread_set_next(v[c[1]], nullptr); sr_thread_free(v[c[1]]); } m.threads.erase(m.threads.begin() + c[1]); break;
        case 9: for (auto *x : {s, typed}) { auto v = threads(x); struct sr_thread *d = sr_thread_dup(v[c[1]]); if (sr_thread_next(d)) mc::fail("dup next|" + what, "a duplicate thread has a successor"); if (sr_thread_cmp(d, v[c[1]])) mc::fail("dup cmp|" + what, "a duplicate thread differs"); sr_thread_set_next(v.back(), d); } m.threads.push_back(m.threads[c[1]]); break;
        }
        agree(s, m, what); if (two && dump(extract(s)) != dump(extract(typed))) mc::fail("typed|" + what, "typed operations give %s", dump(extract(typed)).c_str());
    }
    sr_stacktrace_free(s); ops(ty).del(typed); mc::validated(); mc::nontrivial(); mc::outcome(what);
}
// frames and threads of different types are never equal, consistently in both directions; of one type they compare as their type does
MC_SCENARIO(compare)
{
    enum sr_report_type a = mc::pick(all_types), b = mc::pick(all_types); const Kind &x = frame_kind(a), &y = frame_kind(b); auto &p = frame_alphabet(x), &q = frame_alphabet(y); string what = x.name + " " + y.name; mc::describe(what); auto sg = [](int v) { return (v > 0) - (v < 0); };
    for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < q.size(); j++) {
        void *f = x.build(p[i]), *g = y.build(q[j]); int c1 = sr_frame_cmp((struct sr_frame *)f, (struct sr_frame *)g), c2 = sr_frame_cmp((struct sr_frame *)g, (struct sr_frame *)f), d1 = sr_frame_cmp_distance((struct sr_frame *)f, (struct sr_frame *)g), d2 = sr_frame_cmp_distance((struct sr_frame *)g, (struct sr_frame *)f); mc::step(4);
        struct sr_thread *t = make_thread(x, {p[i]}), *u = make_thread(y, {q[j]}); int e1 = sr_thread_cmp(t, u), e2 = sr_thread_cmp(u, t); mc::step(2); mc::validated(); string w = what + fmt(" %zu %zu", i, j);
        if (a != b) { if (!c1 || !d1 || !e1) mc::fail("equal|" + w, "objects of different types are equal (%d %d %d)", c1, d1, e1); if (sg(c1) != -sg(c2) || sg(e1) != -sg(e2)) mc::fail("antisymmetry|" + w, "%d and %d, %d and %d", c1, c2, e1, e2); }
        else { int k1 = a == SR_REPORT_GDB ? sr_gdb_frame_cmp((struct sr_gdb_frame *)f, (struct sr_gdb_frame *)g, false) : x.cmp(f, g); if (sg(k1) != sg(c1) || !x.cmp_distance(f, g) != !d1) mc::fail("typed|" + w, "generic comparison %d, typed %d", c1, k1); }
        (void)d2; x.del(f); y.del(g); sr_thread_free(t); sr_thread_free(u);
    }
    sr_frame_free(nullptr); sr_thread_free(nullptr); sr_stacktrace_free(nullptr); mc::nontrivial(); mc::outcome(what);
}
// traces of sizes near limits
MC_SCENARIO(sizes)
{
    string what; enum sr_report_type ty = mc::pick(all_types); TraceData m = long_trace(ty, what); const Kind &k = frame_kind(ty); const Ops &o = ops(ty); ST *s = build(m); agree(s, m, what); char *g = sr_stacktrace_to_json(s), *r = sr_stacktrace_get_reason(s);
    if (o.to_json) { string t = take(o.to_json(s)), q = take(o.reason(s)); mc::step(4); if (S(g) != t || S(r) != q) mc::fail("json|" + what, "generic and typed texts differ"); char *e = nullptr; ST *x = sr_stacktrace_from_json_text(ty, g, &e); if (!x || e) mc::fail("from_json|" + what, "own JSON rejected: %s", S(e).c_str()); json_object *j = json_tokener_parse(g); ST *y = o.from_json(j, &e); json_object_put(j); if (!y || dump(extract(x)) != dump(extract(y))) mc::fail("from_json|" + what, "generic and typed readers differ"); sr_stacktrace_free(x); o.del(y); } g_free(g); g_free(r);
    auto th = threads(s); { struct sr_thread *d = sr_thread_dup(th.back()); if (sr_thread_next(d) || sr_thread_cmp(d, th.back()) || sr_thread_frame_count(d) != (int)m.threads.back().frames.size()) mc::fail("dup|" + what, "a duplicate thread differs"); sr_thread_free(d); }
    auto &mf = m.threads.back().frames; auto fr = frames(th.back()); int n = (int)fr.size(), op = mc::choose(4); if (n > 1) { bool ok = true; if (op == 0) { ok = sr_thread_remove_frame(th.back(), fr[n - 1]); mf.pop_back(); } if (op == 1) { ok = sr_thread_remove_frame(th.back(), fr[n / 2]); mf.erase(mf.begin() + n / 2); } if (op == 2) { ok = sr_thread_remove_frames_above(th.back(), fr[n - 1]); mf.erase(mf.begin(), mf.end() - 1); } if (op == 3) { ok = sr_thread_remove_frames_above(th.back(), fr[n / 2]); mf.erase(mf.begin(), mf.begin() + n / 2); } if (!ok) mc::fail("remove|" + what, "a frame of the thread was not found"); agree(s, m, what + fmt(" op%d", op)); }
    (void)k; sr_stacktrace_free(s); mc::validated(); mc::nontrivial(); mc::outcome(what + fmt(" op%d", op));
}
