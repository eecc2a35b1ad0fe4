// C09: JSON output is valid and reading it back loses nothing.
#include "objects.h"
#include "sizes.h"
#include "jsonv.h"

static void check_valid(const string &kind, const string &what, const string &j)
{
    JNode n; string e = json_error(j, n);
    if (!e.empty()) mc::fail(kind + " invalid JSON|" + what, "invalid JSON (%s): %s", e.c_str(), quote(j).c_str());
    if (n.t != JNode::OBJ && n.t != JNode::ARR) mc::fail(kind + " not an object|" + what, "JSON text is not an object: %s", quote(j).c_str());
}
struct J { json_object *o; explicit J(const string &t) { o = json_tokener_parse(t.c_str()); } ~J() { json_object_put(o); } };

static void round_trip(const Kind &k, const Content &c)
{
    string what = k.text(c); mc::describe(what);
    void *x = k.build(c); string j = take(k.to_json(x));
    Content after = k.content(x); k.del(x); mc::step();
    if (after != c) mc::fail(k.name + " changed by to_json|" + what, "writing JSON changed the object to %s", k.text(after).c_str());
    check_valid(k.name, what, j);
    J js(j); char *err = nullptr; void *y = k.from_json(js.o, &err); string errs = take(err); mc::step();
    if (!y) mc::fail(k.name + " rejected|" + what, "own JSON rejected: %s: %s", errs.c_str(), quote(j).c_str());
    Content got = k.content(y); string j2 = take(k.to_json(y)); k.del(y);
    if (errs != "(null)") mc::fail(k.name + " message on success|" + what, "a message was set although reading succeeded: %s", errs.c_str());
    if (got != k.canonical(c)) {
        string f; for (size_t i = 0; i < got.size(); i++) if (got[i] != k.canonical(c)[i]) f += string(" ") + k.f[i].name;
        mc::fail(k.name + " fields" + f + "|" + what, "read back as %s", k.text(got).c_str());
    }
    if (j2 != j) mc::fail(k.name + " text|" + what, "second JSON text differs: %s", quote(j2).c_str());
    mc::validated(); mc::nontrivial(); mc::outcome(j);
}
static vector<const Kind *> jkinds() { vector<const Kind *> v; for (auto &k : frame_kinds()) if (k.to_json) v.push_back(&k); for (auto &k : other_kinds()) v.push_back(&k); return v; }

static Content choose_content(const Kind &k)
{
    Content c;
    for (auto &f : k.f) { auto &v = values(f); c.push_back(v[mc::choose_dev((int)v.size())]); }
    return c;
}
// all combinations of up to 3 (4) fields away from a typical object, and from an all-absent object
MC_SCENARIO(objects)
{
    mc::set_dev_bound(mc::thorough() ? 3 : 2);
    auto ks = jkinds(); const Kind &k = *mc::pick(ks);
    bool sparse = mc::flip();
    Content c;
    for (auto &f : k.f) { auto v = values(f); if (sparse) std::swap(v[0], v[1]); c.push_back(v[mc::choose_dev((int)v.size())]); }
    round_trip(k, c);
}
// every field absent/empty/typical/extreme independently
MC_SCENARIO(product)
{
    auto ks = jkinds(); const Kind &k = *mc::pick(ks); Content c;
    for (auto &f : k.f) {
        int big = mc::thorough() || k.f.size() <= 7;
        if (f.k == Field::STR) { static const Val v[] = {V((const char *)nullptr), V("x\"\x02"), V("")}; c.push_back(v[mc::choose(big ? 3 : 2)]); }
        else if (f.k == Field::BOOL || f.k == Field::ENUM) c.push_back(N(mc::choose(2)));
        else { uint64_t m = f.k == Field::U64 ? UINT64_MAX : UINT32_MAX; uint64_t w[] = {0, m - 1, m}; c.push_back(N(w[mc::choose(big ? 3 : 2)])); }
    }
    round_trip(k, c);
}
// every byte and every pair of awkward bytes in every string field
MC_SCENARIO(escapes)
{
    auto ks = jkinds(); const Kind &k = *mc::pick(ks); Content c; vector<int> sf;
    for (size_t i = 0; i < k.f.size(); i++) { c.push_back(values(k.f[i])[0]); if (k.f[i].k == Field::STR) sf.push_back((int)i); }
    int i = mc::pick(sf);
    static const string al = string("\"\\/bnrtfu0\n\r\t\b\f\x01\x1f\x7f x{}[],:");
    if (mc::flip()) c[i] = V(string(1, (char)(1 + mc::choose(127))));
    else { int n = 2 + mc::choose(mc::thorough() ? 2 : 1); string s; for (int q = 0; q < n; q++) s += al[mc::choose((int)al.size())]; c[i] = V(s); }
    round_trip(k, c);
}

static Content typical(const Kind &k, int which)
{
    Content c; auto pick = [&](const Field &f, int w) { auto &v = values(f); return v[(w) % v.size()]; };
    for (size_t i = 0; i < k.f.size(); i++) c.push_back(pick(k.f[i], which == 0 ? 0 : which == 1 ? 1 : which + (int)i * 3));
    return c;
}
static void trace_round_trip(const TraceData &in, const string &name = "")
{
    TraceData d = in; string whole = dump(d), what = name.empty() ? whole : name; mc::describe(what);
    struct sr_stacktrace *x = build(d); string j = take(sr_stacktrace_to_json(x)); string same = dump(extract(x)); sr_stacktrace_free(x); mc::step();
    string kind = fmt("trace%d", d.type);
    if (same != whole) { TraceData e = d; if (e.taint.empty()) e.taint.assign(d.type == SR_REPORT_KERNELOOPS ? NTAINT : 0, false); if (same != dump(e)) mc::fail(kind + " changed by to_json|" + what, "changed to %s", same.c_str()); }
    check_valid(kind, what, j);
    char *err = nullptr; struct sr_stacktrace *y = sr_stacktrace_from_json_text(d.type, j.c_str(), &err); string errs = take(err); mc::step();
    if (!y) mc::fail(kind + " rejected|" + what, "own JSON rejected: %s: %s", errs.c_str(), quote(j).c_str());
    TraceData g = extract(y); string j2 = take(sr_stacktrace_to_json(y)); sr_stacktrace_free(y);
    if (errs != "(null)") mc::fail(kind + " message on success|" + what, "a message was set although reading succeeded: %s", errs.c_str());
    const Kind &k = frame_kind(d.type);
    for (auto &t : d.threads) { for (auto &f : t.frames) f = k.canonical(f); t.tid = 0; } // the thread id is not part of the format
    for (auto &t : g.threads) t.tid = 0;
    if (d.type == SR_REPORT_KERNELOOPS) { d.reason = V((const char *)nullptr); if (d.taint.empty()) d.taint.assign(NTAINT, false); } // the reason is not part of the format
    if (d.type == SR_REPORT_CORE && d.crash < 0 && !d.threads.empty()) d.crash = 0; // documented: the first thread is taken when unknown
    if (dump(g) != dump(d)) mc::fail(kind + " content|" + what, "read back as %s, JSON %s", dump(g).c_str(), quote(j).c_str());
    if (j2 != j) mc::fail(kind + " text|" + what, "second JSON text differs: %s", quote(j2).c_str());
    mc::validated(); mc::nontrivial(); mc::outcome(j);
}
MC_SCENARIO(traces)
{
    mc::set_dev_bound(mc::thorough() ? 3 : 2);
    static const enum sr_report_type types[] = {SR_REPORT_CORE, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_JAVA, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT};
    TraceData d; d.type = mc::pick(types); const Kind &k = frame_kind(d.type);
    auto sv = [&] { auto &v = strs(); return v[mc::choose_dev((int)v.size())]; };
    int nt = threaded(d.type) ? mc::choose(4) : 1;
    for (int t = 0; t < nt; t++) {
        ThreadData td; int nf = mc::choose(mc::thorough() ? 4 : 3);
        for (int i = 0; i < nf; i++) td.frames.push_back(typical(k, mc::choose_dev(6)));
        if (d.type == SR_REPORT_JAVA) { Val v = sv(); td.named = !v.null; td.name = v.s; }
        d.threads.push_back(td);
    }
    switch (d.type) {
    case SR_REPORT_CORE: d.signal = nums(Field::U16)[mc::choose_dev(5)].n; d.executable = sv(); d.only_crash = mc::choose_dev(2); d.crash = mc::choose(nt + 1) - 1; break;
    case SR_REPORT_PYTHON: case SR_REPORT_RUBY: d.exception = sv(); break;
    case SR_REPORT_JAVASCRIPT: { d.exception = sv(); static const sr_js_platform_t p[] = {_sr_js_platform_assemble(SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8), 0, _sr_js_platform_assemble(0, SR_JS_ENGINE_V8), _sr_js_platform_assemble(SR_JS_RUNTIME_NODEJS, 0)}; d.platform = p[mc::choose_dev(4)]; break; }
    case SR_REPORT_KERNELOOPS: d.version = sv(); d.raw = sv(); d.reason = sv();
        d.has_modules = mc::choose_dev(2); if (d.has_modules) { int n = mc::choose(4); for (int i = 0; i < n; i++) { Val v = sv(); if (v.null) mc::prune(); d.modules.push_back(v.s); } } break;
    default: break;
    }
    trace_round_trip(d);
}
// every combination of kernel taint flags, and module lists around the sizes where the reader grows its array
MC_SCENARIO(taint)
{
    TraceData d; d.type = SR_REPORT_KERNELOOPS; d.threads.resize(1); d.version = V("5.0");
    if (mc::thorough()) for (int i = 0; i < NTAINT; i++) d.taint.push_back(mc::flip());
    else { mc::set_dev_bound(3); bool inv = mc::flip(); for (int i = 0; i < NTAINT; i++) d.taint.push_back(mc::choose_dev(2) != inv); }
    trace_round_trip(d);
}
MC_SCENARIO(modules)
{
    TraceData d; d.type = SR_REPORT_KERNELOOPS; d.threads.resize(1); d.has_modules = true;
    int n = mc::choose(mc::thorough() ? 1100 : 300);
    for (int i = 0; i < n; i++) d.modules.push_back(fmt("m%d", i));
    trace_round_trip(d);
}
// package lists
MC_SCENARIO(packages)
{
    mc::set_dev_bound(mc::thorough() ? 3 : 2);
    const Kind &k = other_kinds()[0]; int n = mc::choose(4); vector<Content> v; string what;
    for (int i = 0; i < n; i++) { v.push_back(choose_content(k)); what += k.text(v.back()) + " "; }
    mc::describe(what);
    struct sr_rpm_package *p = (struct sr_rpm_package *)chain(k, v);
    string j = take(sr_rpm_package_to_json(p, true)); sr_rpm_package_free(p, true); mc::step();
    check_valid("packages", what, j);
    J js(j); char *err = nullptr; struct sr_rpm_package *q = nullptr; int rc = sr_rpm_package_from_json(&q, js.o, true, &err); string errs = take(err); mc::step();
    if (rc != 0) mc::fail("packages rejected|" + what, "own JSON rejected: %s", errs.c_str());
    vector<Content> g; for (struct sr_rpm_package *i = q; i; i = i->next) g.push_back(k.content(i));
    string j2 = take(sr_rpm_package_to_json(q, true)); sr_rpm_package_free(q, true);
    if (g != v) mc::fail("packages content|" + what, "%zu packages read back from %s", g.size(), quote(j).c_str());
    if (j2 != j) mc::fail("packages text|" + what, "second JSON text differs: %s", quote(j2).c_str());
    mc::validated(); mc::nontrivial(); mc::outcome(j);
}
// many frames, threads and modules, and long strings
MC_SCENARIO(sizes)
{
    enum sr_report_type t = mc::pick(all_types); if (t == SR_REPORT_GDB) mc::prune(); string what; TraceData d = long_trace(t, what); trace_round_trip(d, what);
}
