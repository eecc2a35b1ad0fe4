// C20: reports survive being written and read back, and the document says what the report contains.
#include "objects.h"
#include "jsonv.h"
#include "sizes.h"
static void free_report(struct sr_report *r)
{
    struct sr_report *d = sr_report_new(); char *n = d->reporter_name, *v = d->reporter_version; sr_report_free(d);
    if (r->reporter_name != n) g_free(r->reporter_name); // by convention these two belong to the caller once read
    if (r->reporter_version != v) g_free(r->reporter_version);
    sr_report_free(r);
}
static const char *const type_names[] = {"invalid", "core", "python", "kerneloops", "java", "gdb", "ruby", "javascript"};
static const enum sr_report_type types[] = {SR_REPORT_INVALID, SR_REPORT_CORE, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_JAVA, SR_REPORT_GDB, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT};

struct R {
    uint64_t version = 2; int type = 1; Val name = V("satyr"), ver = V("0.1"); bool root = false, local = true; Val component = V("comp"); uint64_t serial = 1;
    bool has_os = true; Content os; vector<Content> pk; vector<std::pair<string, string>> auth; bool has_trace = true; TraceData tr;
};
static string text(const R &r)
{
    string t = fmt("report v%llu %s reporter %s/%s root=%d local=%d comp=%s serial=%llu", (unsigned long long)r.version, type_names[r.type], quote(r.name.s).c_str(), quote(r.ver.s).c_str(), r.root, r.local, r.component.null ? "NULL" : quote(r.component.s).c_str(), (unsigned long long)r.serial);
    if (r.has_os) t += "\n os " + other_kinds()[1].text(r.os); for (auto &p : r.pk) t += "\n " + other_kinds()[0].text(p);
    for (auto &a : r.auth) t += "\n auth " + quote(a.first) + "=" + quote(a.second);
    if (r.has_trace) t += "\n " + dump(r.tr);
    return t;
}
static struct sr_report *build(const R &r)
{
    struct sr_report *x = sr_report_new();
    x->report_version = r.version; x->report_type = types[r.type]; x->reporter_name = g_strdup(r.name.s.c_str()); x->reporter_version = g_strdup(r.ver.s.c_str());
    x->user_root = r.root; x->user_local = r.local; x->component_name = gs(r.component); x->serial = r.serial;
    if (r.has_os) x->operating_system = (struct sr_operating_system *)other_kinds()[1].build(r.os);
    x->rpm_packages = (struct sr_rpm_package *)chain(other_kinds()[0], r.pk);
    for (size_t i = r.auth.size(); i--;) sr_report_add_auth(x, r.auth[i].first.c_str(), r.auth[i].second.c_str());
    if (r.has_trace) x->stacktrace = build(r.tr);
    return x;
}
static TraceData canonical(TraceData d)
{
    const Kind &k = frame_kind(d.type);
    for (auto &t : d.threads) { for (auto &f : t.frames) f = k.canonical(f); t.tid = 0; }
    if (d.type == SR_REPORT_KERNELOOPS) { d.reason = V((const char *)nullptr); if (d.taint.empty()) d.taint.assign(NTAINT, false); }
    if (d.type == SR_REPORT_CORE && d.crash < 0 && !d.threads.empty()) d.crash = 0;
    return d;
}
static void check(const R &r)
{
    string what = text(r); mc::describe(what);
    bool typed = r.type != 0 && types[r.type] != SR_REPORT_GDB;
    struct sr_report *x = build(r); string reason = "";
    if (typed && r.has_trace) reason = take(sr_stacktrace_get_reason(x->stacktrace));
    string j = take(sr_report_to_json(x)); free_report(x); mc::step();
    JNode n; string e = json_error(j, n);
    auto bad = [&](const char *k, const string &m) { mc::fail(string(k) + "|" + what, "%s in %s", m.c_str(), quote(j).c_str()); };
    if (!e.empty()) bad("invalid JSON", e);
    auto S1 = [&](const JNode *p, const char *k, const Val &v, const char *where) { const JNode *m = p ? p->get(k) : nullptr; if (v.null ? m != nullptr : (!m || m->t != JNode::STR || m->s != v.s)) bad("document", fmt("%s.%s is wrong or missing", where, k)); };
    auto N1 = [&](const JNode *p, const char *k, uint64_t v, const char *where) { const JNode *m = p ? p->get(k) : nullptr; if (!m || m->t != JNode::NUM || m->s != fmt("%llu", (unsigned long long)v)) bad("document", fmt("%s.%s is wrong or missing", where, k)); };
    auto B1 = [&](const JNode *p, const char *k, bool v, const char *where) { const JNode *m = p ? p->get(k) : nullptr; if (!m || m->t != JNode::BOOL || m->b != v) bad("document", fmt("%s.%s is wrong or missing", where, k)); };
    N1(&n, "ureport_version", r.version, ""); S1(n.get("reporter"), "name", r.name, "reporter"); S1(n.get("reporter"), "version", r.ver, "reporter");
    const JNode *p = n.get("problem"); S1(p, "type", V(typed ? type_names[r.type] : "invalid"), "problem"); S1(p, "component", r.component, "problem"); N1(p, "serial", r.serial, "problem");
    bool has_user = types[r.type] != SR_REPORT_KERNELOOPS;
    if (has_user) { B1(p->get("user"), "root", r.root, "user"); B1(p->get("user"), "local", r.local, "user"); }
    if (typed && r.has_trace) S1(&n, "reason", V(reason), "");
    else if (!n.get("reason")) bad("document", "no reason");
    if (r.has_os != (n.get("os") != nullptr)) bad("document", "operating system");
    if (!n.get("packages") || n.get("packages")->a.size() != r.pk.size()) bad("document", "packages");
    if (!r.auth.empty()) { const JNode *a = n.get("auth"); if (!a || a->o.size() != r.auth.size()) bad("document", "auth"); for (size_t i = 0; i < r.auth.size(); i++) if (a->o[i].first != r.auth[i].first || a->o[i].second.s != r.auth[i].second) bad("document", "auth entry"); }
    char *err = nullptr; struct sr_report *y = sr_report_from_json_text(j.c_str(), &err); string errs = take(err); mc::step();
    if (!y) bad("rejected", errs);
    R g; g.version = y->report_version; g.name = V(y->reporter_name); g.ver = V(y->reporter_version); g.root = y->user_root; g.local = y->user_local; g.component = V(y->component_name); g.serial = y->serial;
    for (int i = 0; i < 8; i++) if (types[i] == y->report_type) g.type = i;
    g.has_os = y->operating_system; if (g.has_os) g.os = other_kinds()[1].content(y->operating_system);
    for (struct sr_rpm_package *i = y->rpm_packages; i; i = i->next) g.pk.push_back(other_kinds()[0].content(i));
    for (struct sr_report_custom_entry *i = y->auth_entries; i; i = i->next) g.auth.push_back({i->key, i->value});
    g.has_trace = y->stacktrace; if (g.has_trace) { g.tr = extract(y->stacktrace); for (auto &t : g.tr.threads) t.tid = 0; } // thread ids are not part of the format
    string j2 = take(sr_report_to_json(y)); free_report(y);
    if (errs != "(null)") bad("message on success", errs);
    R w = r; if (!typed) { w.type = 0; w.has_trace = false; } else if (!w.has_trace) { w.has_trace = true; w.tr = TraceData(); w.tr.type = types[r.type]; if (!threaded(w.tr.type)) w.tr.threads.resize(1); }
    if (w.has_trace) w.tr = canonical(w.tr);
    if (!has_user) { w.root = false; w.local = true; }
    if (typed && !r.has_trace && g.has_trace == false) { w.has_trace = false; }
    if (text(g) != text(w)) bad("content", "read back as " + text(g));
    if (r.has_trace && r.tr.reason.null && j2 != j) bad("text", "second JSON text differs: " + quote(j2));
    mc::validated(); mc::nontrivial(); mc::outcome(j);
}
static TraceData trace(enum sr_report_type t, int which)
{
    TraceData d; d.type = t; const Kind &k = frame_kind(t);
    d.threads.resize(threaded(t) ? which == 1 ? 0 : which : 1);
    for (auto &th : d.threads) { th.named = which == 3; th.name = "t \"x"; for (int i = 0; i < which - 1; i++) { Content c; for (size_t q = 0; q < k.f.size(); q++) { auto &v = values(k.f[q]); c.push_back(v[(i * 5 + (int)q * (which == 3 ? 3 : 0)) % v.size()]); } th.frames.push_back(c); } }
    if (which > 1) { d.exception = V("Err\"or"); d.executable = V("/usr/bin/a b"); d.signal = 11; d.version = V("5.1-x"); d.raw = V("line\nline"); d.has_modules = true; d.modules = {"m(P)", "n"}; d.platform = t == SR_REPORT_JAVASCRIPT ? _sr_js_platform_assemble(SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8) : 0; }
    if (which == 3) { d.only_crash = true; d.crash = 1; if (t == SR_REPORT_KERNELOOPS) { d.taint.assign(NTAINT, true); d.reason = V("BUG: x"); } }
    if (t != SR_REPORT_CORE) { d.crash = -1; d.only_crash = false; d.signal = 0; d.executable = V((const char *)nullptr); }
    if (t != SR_REPORT_KERNELOOPS) { d.version = d.raw = V((const char *)nullptr); d.has_modules = false; d.modules.clear(); }
    if (t == SR_REPORT_CORE || t == SR_REPORT_JAVA || t == SR_REPORT_KERNELOOPS || t == SR_REPORT_GDB) d.exception = V((const char *)nullptr);
    if (t != SR_REPORT_JAVA) for (auto &th : d.threads) { th.named = false; th.name = ""; }
    return d;
}
MC_SCENARIO(reports)
{
    mc::set_dev_bound(mc::thorough() ? 3 : 2);
    R r; r.type = mc::choose(8);
    auto sv = [&](bool null_ok) { auto &v = strs(); Val x = v[mc::choose_dev((int)v.size())]; if (x.null && !null_ok) mc::prune(); return x; };
    auto nv = [&] { auto &v = nums(Field::U32); return v[mc::choose_dev((int)v.size())].n; };
    r.version = nv(); r.name = sv(false); r.ver = sv(false); r.root = mc::choose_dev(2); r.local = !mc::choose_dev(2); r.component = sv(true); r.serial = nv();
    const Kind &pk = other_kinds()[0], &ok = other_kinds()[1];
    r.has_os = !mc::choose_dev(2); if (r.has_os) for (auto &f : ok.f) { auto &v = values(f); r.os.push_back(v[mc::choose_dev((int)v.size())]); }
    int np = mc::choose_dev(4); // 1 package by default
    np = np == 0 ? 1 : np == 1 ? 0 : np;
    for (int i = 0; i < np; i++) { Content c; for (auto &f : pk.f) { auto &v = values(f); c.push_back(v[mc::choose_dev((int)v.size())]); } r.pk.push_back(c); }
    int na = mc::choose_dev(4);
    for (int i = 0; i < na; i++) { Val v = sv(false); r.auth.push_back({fmt("k%d", i) + (mc::choose_dev(2) ? "\"\n\x01" : ""), v.s}); }
    int tr = mc::choose_dev(4); // a small trace, none, an empty one, a larger one
    if (tr == 1 || r.type == 0) r.has_trace = false; else r.tr = trace(types[r.type], tr == 0 ? 2 : tr == 2 ? 1 : 3);
    check(r);
}
// every combination of optional parts at once
MC_SCENARIO(parts)
{
    R r; r.type = mc::choose(8); r.root = mc::flip(); r.local = mc::flip(); if (mc::flip()) r.component = V((const char *)nullptr);
    r.has_os = mc::flip(); const Kind &pk = other_kinds()[0], &ok = other_kinds()[1];
    if (r.has_os) { bool nul = mc::flip(); for (auto &f : ok.f) r.os.push_back(values(f)[nul ? 1 : 0]); }
    int np = mc::choose(3); for (int i = 0; i < np; i++) { bool nul = mc::flip(); Content c; for (auto &f : pk.f) c.push_back(values(f)[nul ? 1 : 0]); r.pk.push_back(c); }
    int na = mc::choose(3); for (int i = 0; i < na; i++) r.auth.push_back({fmt("k%d", i), "v"});
    int tr = mc::choose(4); if (tr == 0 || r.type == 0) r.has_trace = false; else r.tr = trace(types[r.type], tr);
    check(r);
}
// sizes near limits
MC_SCENARIO(sizes)
{
    R r; r.type = 1 + mc::choose(7); if (types[r.type] == SR_REPORT_GDB) mc::prune(); const Kind &pk = other_kinds()[0], &ok = other_kinds()[1]; for (auto &f : ok.f) r.os.push_back(values(f)[0]); Content p0; for (auto &f : pk.f) p0.push_back(values(f)[0]); r.tr = trace(types[r.type], 2);
    int dim = mc::choose(5); if (dim > 1 && dim != 4 && r.type > 2) mc::prune();
    if (dim == 0) { string what; r.tr = long_trace(types[r.type], what); }
    else if (dim == 1) { int n = count_near_limits(true); for (int i = 0; i < n; i++) { Content c = p0; c[0] = V(fmt("p%d", i)); r.pk.push_back(c); } }
    else if (dim == 2) { int n = count_near_limits(); for (int i = 0; i < n; i++) r.auth.push_back({fmt("key%d", i), fmt("v%d", i % 7)}); }
    else if (dim == 3) { int n = length_near_limits(), sp = mc::choose(3); Val v = V(long_text(n, sp)); int nos = (int)ok.f.size(), npk = (int)pk.f.size(), c = mc::choose(5 + nos + npk); if (c == 0) r.name = v; else if (c == 1) r.ver = v; else if (c == 2) r.component = v; else if (c == 3) r.auth.push_back({v.s, "v"}); else if (c == 4) r.auth.push_back({"k", v.s}); else if (c < 5 + nos) { if (ok.f[c - 5].k != Field::STR) mc::prune(); r.os[c - 5] = v; } else { if (pk.f[c - 5 - nos].k != Field::STR) mc::prune(); p0[c - 5 - nos] = v; r.pk = {p0, p0}; } }
    else { static const uint64_t v[] = {9, 10, 99, 100, 65535, 65536, 999999999, 1000000000, 2147483647, 2147483648u, 4294967294u, 4294967295u}; int c = mc::choose(2); (c ? r.version : r.serial) = v[mc::choose(12)]; }
    check(r);
}
