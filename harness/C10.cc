// C10: malformed JSON is rejected cleanly.
// Every single (thorough: double) structural mutation of complete documents of every kind, and every truncation
// and awkward byte substitution of their texts, is given to the real readers.
#include "objects.h"
#include "jsonv.h"

struct Reader {
    string name; string seed;
    std::function<bool(json_object *, char **, string *)> read;      // true: an object was returned; its JSON
    std::function<bool(const char *, char **)> read_text;            // may be empty
};
static vector<Content> frs(const Kind &k, int n)
{
    vector<Content> v;
    for (int q = 0; q < n; q++) { Content c; for (auto &f : k.f) c.push_back(f.k == Field::STR ? V(fmt("%s%d", f.name, q)) : f.k == Field::BOOL || f.k == Field::ENUM ? N(1) : N(100 + q)); v.push_back(c); }
    return v;
}
static TraceData full(enum sr_report_type t)
{
    TraceData d; d.type = t; d.exception = V("Exc"); d.signal = 11; d.executable = V("/bin/x"); d.only_crash = true; d.crash = 0;
    d.version = V("5.1"); d.raw = V("raw"); d.has_modules = true; d.modules = {"m1", "m2"}; d.taint.assign(NTAINT, false); d.taint[1] = d.taint[4] = true;
    d.platform = _sr_js_platform_assemble(SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8);
    for (int i = 0; i < (threaded(t) ? 2 : 1); i++) { ThreadData th; th.named = true; th.name = fmt("t%d", i); th.frames = frs(frame_kind(t), 2); d.threads.push_back(th); }
    return d;
}
static void free_report(struct sr_report *r)
{
    struct sr_report *d = sr_report_new(); char *n = d->reporter_name, *v = d->reporter_version; sr_report_free(d);
    if (r->reporter_name != n) g_free(r->reporter_name); // by convention these two belong to the caller once read
    if (r->reporter_version != v) g_free(r->reporter_version);
    sr_report_free(r);
}
static const vector<Reader> &readers()
{
    static vector<Reader> v;
    if (!v.empty()) return v;
    for (auto &k : frame_kinds()) if (k.to_json) {
        void *o = k.build(frs(k, 1)[0]); string s = take(k.to_json(o)); k.del(o);
        const Kind *kp = &k; auto read = [kp](json_object *j, char **e, string *t) { void *o = kp->from_json(j, e); if (o) { *t = take(kp->to_json(o)); kp->del(o); } return o != nullptr; };
        v.push_back({k.name, s, read, nullptr}); string other = s; for (const char *n : {"file", "function"}) { string sp = string("\"special_") + n + "\"", pl = string("\"") + n + "_name\""; size_t i = other.find(sp), l = other.find(pl); if (i != string::npos) other.replace(i, sp.size(), pl); else if (l != string::npos && (k.name == string("python_frame") || (k.name == string("ruby_frame") && *n == 'f' && n[1] == 'u'))) other.replace(l, pl.size(), sp); } if (other != s) v.push_back({string(k.name) + " other names", other, read, nullptr});
    }
    for (auto &k : other_kinds()) {
        void *o = k.build(frs(k, 1)[0]); string s = take(k.to_json(o)); const Kind *kp = &k; k.del(o);
        v.push_back({k.name, s, [kp](json_object *j, char **e, string *t) { void *o = kp->from_json(j, e); if (o) { *t = take(kp->to_json(o)); kp->del(o); } return o != nullptr; }, nullptr});
    }
    {
        const Kind &k = other_kinds()[0]; struct sr_rpm_package *p = (struct sr_rpm_package *)chain(k, frs(k, 2)); string s = take(sr_rpm_package_to_json(p, true)); sr_rpm_package_free(p, true);
        v.push_back({"packages", s, [](json_object *j, char **e, string *t) { struct sr_rpm_package *q = nullptr; int rc = sr_rpm_package_from_json(&q, j, true, e); if (rc < 0 && q) { sr_rpm_package_free(q, true); mc::fail("packages|result on failure", "a list was handed out although reading failed"); } if (rc == 0) { *t = take(sr_rpm_package_to_json(q, true)); sr_rpm_package_free(q, true); } return rc == 0; }, nullptr});
    }
    { // threads
        struct sr_core_stacktrace *c = (struct sr_core_stacktrace *)build(full(SR_REPORT_CORE)); string s = take(sr_core_thread_to_json(c->threads, false)); sr_core_stacktrace_free(c);
        v.push_back({"core_thread", s, [](json_object *j, char **e, string *t) { struct sr_core_thread *o = sr_core_thread_from_json(j, e); if (o) { *t = take(sr_core_thread_to_json(o, false)); sr_core_thread_free(o); } return o != nullptr; }, nullptr});
        struct sr_java_stacktrace *ja = (struct sr_java_stacktrace *)build(full(SR_REPORT_JAVA)); s = take(sr_java_thread_to_json(ja->threads)); sr_java_stacktrace_free(ja);
        v.push_back({"java_thread", s, [](json_object *j, char **e, string *t) { struct sr_java_thread *o = sr_java_thread_from_json(j, e); if (o) { *t = take(sr_java_thread_to_json(o)); sr_java_thread_free(o); } return o != nullptr; }, nullptr});
        v.push_back({"js_platform", take(sr_js_platform_to_json(_sr_js_platform_assemble(SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8))), [](json_object *j, char **e, string *t) { sr_js_platform_t p = sr_js_platform_from_json(j, e); if (p) *t = take(sr_js_platform_to_json(p)); return p != 0; }, nullptr});
    }
    for (enum sr_report_type ty : all_types) {
        if (ty == SR_REPORT_GDB) { v.push_back({"trace_gdb", "{\"threads\": [{\"frames\": []}]}", [](json_object *j, char **e, string *t) { struct sr_stacktrace *s = sr_stacktrace_from_json(SR_REPORT_GDB, j, e); *t = ""; sr_stacktrace_free(s); return s != nullptr; }, nullptr}); continue; }
        struct sr_stacktrace *s = build(full(ty)); string j = take(sr_stacktrace_to_json(s)); sr_stacktrace_free(s);
        v.push_back({fmt("trace%d", ty), j, [ty](json_object *j, char **e, string *t) { struct sr_stacktrace *s = sr_stacktrace_from_json(ty, j, e); if (s) { *t = take(sr_stacktrace_to_json(s)); sr_stacktrace_free(s); } return s != nullptr; },
            [ty](const char *t, char **e) { struct sr_stacktrace *s = sr_stacktrace_from_json_text(ty, t, e); if (s) { g_free(sr_stacktrace_to_json(s)); sr_stacktrace_free(s); } return s != nullptr; }});
        if (ty == SR_REPORT_CORE) v.push_back({"core_text", j, v.back().read, [](const char *t, char **e) { auto *s = sr_core_stacktrace_from_json_text(t, e); if (s) { g_free(sr_core_stacktrace_to_json(s)); sr_core_stacktrace_free(s); } return s != nullptr; }});
        // the report around it
        struct sr_report *r = sr_report_new(); r->report_type = ty; r->stacktrace = build(full(ty)); r->component_name = g_strdup("comp"); r->serial = 3; r->user_root = true;
        const Kind &pk = other_kinds()[0], &ok = other_kinds()[1];
        r->rpm_packages = (struct sr_rpm_package *)pk.build(frs(pk, 1)[0]); r->operating_system = (struct sr_operating_system *)ok.build(frs(ok, 1)[0]);
        sr_report_add_auth(r, "k1", "v1"); sr_report_add_auth(r, "k2", "v2");
        j = take(sr_report_to_json(r)); sr_report_free(r);
        v.push_back({fmt("report%d", ty), j, [](json_object *j, char **e, string *t) { struct sr_report *r = sr_report_from_json(j, e); if (r) { *t = take(sr_report_to_json(r)); free_report(r); } return r != nullptr; },
            [](const char *t, char **e) { struct sr_report *r = sr_report_from_json_text(t, e); if (r) { g_free(sr_report_to_json(r)); free_report(r); } return r != nullptr; }});
    }
    return v;
}

// ---- structural mutations
static string ser(const JNode &n)
{
    string t;
    switch (n.t) {
    case JNode::NUL: return "null"; case JNode::BOOL: return n.b ? "true" : "false"; case JNode::NUM: return n.s;
    case JNode::STR: t = "\""; for (char c : n.s) { if (c == '"' || c == '\\') t += '\\'; t += c; } return t + "\"";
    case JNode::ARR: t = "["; for (size_t i = 0; i < n.a.size(); i++) t += (i ? "," : "") + ser(n.a[i]); return t + "]";
    case JNode::OBJ: t = "{"; for (size_t i = 0; i < n.o.size(); i++) t += string(i ? "," : "") + "\"" + n.o[i].first + "\":" + ser(n.o[i].second); return t + "}";
    }
    return t;
}
struct Place { vector<int> path; string name; };  // name: dotted path with array indices dropped
static void places(const JNode &n, Place p, vector<Place> &out)
{
    out.push_back(p);
    for (size_t i = 0; i < n.a.size(); i++) { Place q = p; q.path.push_back((int)i); q.name += "[]"; places(n.a[i], q, out); }
    for (size_t i = 0; i < n.o.size(); i++) { Place q = p; q.path.push_back((int)i); q.name += "." + n.o[i].first; places(n.o[i].second, q, out); }
}
static JNode *at(JNode &n, const vector<int> &p, size_t len) { JNode *c = &n; for (size_t i = 0; i < len; i++) c = c->t == JNode::ARR ? &c->a[p[i]] : &c->o[p[i]].second; return c; }
static JNode lit(const char *t) { JNode n; string s = t; JParse p(s); if (s.find('.') != string::npos || s.find('e') == 1) { n.t = JNode::NUM; n.s = s; } else p.value(n); return n; }
static const char *const repl[] = {"null", "true", "false", "0", "7", "-1", "18446744073709551615", "1.5", "1e400", "\"\"", "\"x\"", "\"0\"", "[]", "[null]", "[[]]", "[{}]", "{}", "{\"x\":1}", "{\"frames\":1}", "[\"x\"]", "[7]"};
enum { NREPL = sizeof repl / sizeof *repl };
static bool ends(const string &s, const char *e) { size_t n = strlen(e); return s.size() >= n && !s.compare(s.size() - n, n, e); }
static bool is_double(const JNode &n) { return n.t == JNode::NUM && n.s.find_first_of(".e") != string::npos; }
// members a reader deliberately does not read, or reads leniently
static bool lenient(const Reader &r, const string &n)
{
    bool rep = r.name.compare(0, 6, "report") == 0;
    if (rep && (n == ".reason" || n.compare(0, 6, ".auth.") == 0)) return true;
    string os = rep ? ".os" : "";
    if ((rep || r.name == "operating_system") && (n == os + ".desktop" || n == os + ".variant")) return true;
    return false;
}
static JNode without(JNode n, const vector<int> &path)
{
    JNode *p = at(n, path, path.size() - 1);
    if (p->t == JNode::ARR) p->a.erase(p->a.begin() + path.back()); else p->o.erase(p->o.begin() + path.back());
    return n;
}
static string canon(const JNode &n) // member order does not matter
{
    if (n.t == JNode::OBJ) { vector<string> m; for (auto &p : n.o) m.push_back("\"" + p.first + "\":" + canon(p.second)); std::sort(m.begin(), m.end()); string t = "{"; for (auto &x : m) t += x + ","; return t + "}"; }
    if (n.t == JNode::ARR) { string t = "["; for (auto &x : n.a) t += canon(x) + ","; return t + "]"; }
    return ser(n);
}
static void drop_named(JNode &n, const vector<string> &path, size_t i)
{
    if (i == path.size()) return;
    for (size_t q = 0; q < n.o.size(); q++) if (n.o[q].first == path[i]) { if (i + 1 == path.size()) { n.o.erase(n.o.begin() + q); return; } drop_named(n.o[q].second, path, i + 1); return; }
    if (n.t == JNode::ARR) { int k = atoi(path[i].c_str()); if (k < (int)n.a.size()) drop_named(n.a[k], path, i + 1); }
}
static vector<string> names_of(const JNode &root, const vector<int> &p) { vector<string> v; const JNode *c = &root; for (int i : p) { if (c->t == JNode::ARR) { v.push_back(fmt("%d", i)); c = &c->a[i]; } else { v.push_back(c->o[i].first); c = &c->o[i].second; } } return v; }

static bool run(const Reader &r, const string &text, bool want_message, string *out, const string &key)
{
    mc::describe(r.name + (want_message ? " " : " (no message wanted) ") + quote(text));
    json_object *j = json_tokener_parse(text.c_str());
    if (!j && text != "null") mc::prune(); // not a document for json-c (covered by the text scenarios)
    mc::HeapRegion h; char *err = nullptr; bool ok; long live;
    string errs;
    ok = r.read(j, want_message ? &err : nullptr, out); mc::step();
    { string tmp; tmp.swap(*out); h.stop(); live = h.live(); *out = tmp; }
    if (err) { live -= 1; errs = err; g_free(err); }
    json_object_put(j);
    if (out->capacity() > 15 && live > 0) live -= 1; // the text we keep ourselves
    if (live > 0) mc::fail(r.name + " leak|" + key, "%ld heap blocks stay allocated", live);
    if (want_message) {
        if (ok && !errs.empty()) mc::fail(r.name + " both|" + key, "an object and the message '%s' were returned", errs.c_str());
        if (!ok && errs.empty()) mc::fail(r.name + " no message|" + key, "reading failed without a message");
    }
    mc::validated();
    return ok;
}
static void mutate(const Reader &r, JNode &doc, const JNode &seed, string &key, int depth_limit, bool &must_fail, bool &neutral, vector<int> &where, int &what, string &place)
{
    vector<Place> pl; places(doc, Place(), pl);
    const Place &p = pl[mc::choose((int)pl.size())];
    where = p.path; place = p.name; JNode *n = at(doc, p.path, p.path.size());
    what = mc::choose(NREPL + 2);
    if (what < NREPL) {
        JNode v = lit(repl[what]);
        bool differs = v.t != n->t || is_double(v);
        key += p.name + "=" + repl[what];
        if (differs && !lenient(r, p.name)) must_fail = true;
        *n = v;
    } else if (what == NREPL) {
        if (p.path.empty()) mc::prune();
        key += "-" + p.name; doc = without(doc, p.path);
    } else {
        if (n->t != JNode::OBJ) mc::prune();
        if (ends(p.name, ".auth")) mc::prune(); // there every member counts
        key += p.name + "+zzz"; n->o.push_back({"zzz", lit("[{\"a\":1}]")}); neutral = true;
    }
    key += " ";
}
MC_SCENARIO(structure)
{
    const Reader &r = mc::pick(readers());
    JNode seed, doc; string e = json_error(r.seed, seed); if (!e.empty()) mc::fail(r.name + " seed", "seed is not JSON: %s", e.c_str());
    doc = seed; string key; bool must_fail = false, neutral = false; vector<int> w; int what; string place;
    bool msg = mc::choose(2) == 0;
    if (mc::choose(2) == 1) { // the document itself
        string t; bool ok = run(r, ser(doc), msg, &t, "seed");
        if (r.name == "trace_gdb") { mc::outcome(r.name + "gdb"); return; }
        JNode n; json_error(t, n);
        if (!ok || canon(n) != canon(seed)) mc::fail(r.name + " seed|", "the complete document is not read back: %s", t.c_str());
        return;
    }
    mutate(r, doc, seed, key, 0, must_fail, neutral, w, what, place);
    string t; bool ok = run(r, ser(doc), msg, &t, key);
    mc::nontrivial(); mc::outcome(key + (ok ? "+" : "-") + r.name);
    if (ok && must_fail) mc::fail(r.name + " accepted|" + key, "a member of the wrong type was accepted");
    if (r.name == "trace_gdb" || !ok) {
        if (!ok && neutral && r.name != "trace_gdb") mc::fail(r.name + " extra|" + key, "an unknown member made the document unreadable");
        return;
    }
    JNode got; json_error(t, got);
    vector<string> nm = names_of(what == NREPL ? seed : seed, w);
    bool rep = r.name.compare(0, 6, "report") == 0;
    bool same_kind_value = what < NREPL && (!strcmp(repl[what], "7") || !strcmp(repl[what], "\"x\"")) && !must_fail;
    string leaf = nm.empty() ? "" : nm.back();
    JNode exp = seed;
    if (neutral) ;
    else if (what == NREPL) {
        bool arr = at(exp, w, w.size() - 1)->t == JNode::ARR;
        if (arr) exp = without(exp, w); else { exp = without(exp, w); drop_named(got, nm, 0); }
        if (leaf == "fingerprint") { vector<string> h = nm; h.back() = "fingerprint_hashed"; drop_named(exp, h, 0); drop_named(got, h, 0); }
        if (rep && (leaf == "type" || leaf == "problem")) return; // another kind of report
    } else if (same_kind_value && !lenient(r, place) && leaf != "type" && leaf != "zzz") {
        if (nm.size() > 1 && nm[nm.size() - 2] == "taint_flags") return;
        exp = doc;
    } else return;
    if (rep) { drop_named(exp, {"reason"}, 0); drop_named(got, {"reason"}, 0); }
    // without its crash thread, a core stack trace takes the first one
    for (const char *i : {"0", "1"}) for (JNode *n : {&exp, &got}) { drop_named(*n, {"stacktrace", i, "crash_thread"}, 0); drop_named(*n, {"problem", "stacktrace", i, "crash_thread"}, 0); }
    if (canon(exp) != canon(got)) mc::fail(r.name + " content|" + key, "read back as %s", canon(got).c_str());
}
MC_SCENARIO_T(two_mutations, 2)
{
    const Reader &r = mc::pick(readers());
    JNode seed, doc; json_error(r.seed, seed); doc = seed; string key; bool must_fail = false, neutral = false; vector<int> w; int what; string place;
    mutate(r, doc, seed, key, 0, must_fail, neutral, w, what, place);
    bool mf = must_fail; must_fail = false;
    mutate(r, doc, seed, key, 0, must_fail, neutral, w, what, place);
    (void)mf;
    string t; bool ok = run(r, ser(doc), true, &t, key);
    mc::nontrivial(); mc::outcome(key + (ok ? "+" : "-") + r.name);
}
// every truncation and every awkward byte at every position of the texts
MC_SCENARIO(texts)
{
    vector<const Reader *> v; for (auto &r : readers()) if (r.read_text) v.push_back(&r);
    const Reader &r = *mc::pick(v); string t = r.seed;
    if (!mc::thorough()) { string u; bool q = false, sp = false; for (size_t i = 0; i < t.size(); i++) { if (t[i] == '"' && t[i - 1] != '\\') q = !q; if (!q && isspace((unsigned char)t[i])) { if (sp) continue; sp = true; u += ' '; continue; } sp = false; u += t[i]; } t = u; }
    static const char al[] = {'{', '}', '[', ']', '"', ',', ':', '\\', '0', 'n', '-', '\n'};
    size_t pos = mc::choose((int)t.size()); int what = mc::choose((int)sizeof al + 2);
    if (what == 0) t.resize(pos); else if (what == 1) t.erase(pos, 1); else { if (t[pos] == al[what - 2]) mc::prune(); t[pos] = al[what - 2]; }
    mc::describe(r.name + " " + quote(t));
    Exact e(t); if (what < 3) { mc::HeapRegion h; bool quiet = r.read_text(e.p, nullptr); h.stop(); if (h.live() > 0) mc::fail(r.name + " text leak|" + fmt("%zu/%d no message wanted", pos, what), "%ld heap blocks stay allocated", (long)h.live()); char *m = nullptr; if (r.read_text(e.p, &m) != quiet) mc::fail(r.name + " text|" + fmt("%zu/%d", pos, what), "accepted only %s", quiet ? "without a message" : "with a message"); g_free(m); }
    mc::HeapRegion h; char *err = nullptr; bool ok = r.read_text(e.p, &err); h.stop(); long live = h.live() - (err != nullptr); bool msg = err; g_free(err); mc::step();
    if (live > 0) mc::fail(r.name + " text leak|" + fmt("%zu/%d", pos, what), "%ld heap blocks stay allocated", live);
    if (ok && msg) mc::fail(r.name + " text both|" + fmt("%zu/%d", pos, what), "an object and a message were returned");
    if (!ok && !msg) mc::fail(r.name + " text no message|" + fmt("%zu/%d", pos, what), "reading failed without a message");
    mc::validated(); mc::nontrivial(); mc::outcome(fmt("%s%zu/%d/%d", r.name.c_str(), pos, what, ok));
}
// long lists with one bad element, early or late
MC_SCENARIO(late)
{
    const Reader &r = mc::pick(readers()); if (r.name == "trace_gdb") mc::prune(); JNode seed; json_error(r.seed, seed); vector<Place> pl, arrays; places(seed, Place(), pl); for (auto &p : pl) { JNode *n = at(seed, p.path, p.path.size()); if (n->t == JNode::ARR && !n->a.empty()) arrays.push_back(p); } if (arrays.empty()) mc::prune();
    const Place &p = arrays[mc::choose((int)arrays.size())]; static const int ns[] = {17, 256, 257, 8, 64, 255, 1025}; int n = ns[mc::choose(mc::thorough() ? 7 : 3)], where = mc::choose(3), pos = where == 0 ? 0 : where == 1 ? n / 2 : n - 1; JNode doc = seed, *a = at(doc, p.path, p.path.size()); JNode el = a->a[0]; a->a.assign(n, el); string key = p.name + fmt(" of %d, %d", n, where);
    JNode &bad = a->a[pos]; vector<string> mem{""}; for (auto &m : el.o) mem.push_back(m.first); int mi = mc::choose((int)mem.size() + 1); bool valid = mi == (int)mem.size(); if (!valid) { JNode *x = &bad; if (mi) x = &bad.o[mi - 1].second; static const char *vals[] = {"[]", "{}", "null", "true", "7", "\"x\""}; const char *v = mc::pick(vals); JNode l = lit(v); if (l.t == x->t) mc::prune(); *x = l; key += (mi ? "." + mem[mi] : string()) + "=" + v; }
    string t; bool ok = run(r, ser(doc), true, &t, key); mc::nontrivial(); mc::outcome(key + (ok ? "+" : "-") + r.name);
    if (valid && !ok) mc::fail(r.name + " rejected|" + key, "a long document was rejected"); if (!valid && ok && !lenient(r, p.name)) mc::fail(r.name + " accepted|" + key, "a member of the wrong type was accepted"); if (valid && el.t == JNode::OBJ) { JNode got; json_error(t, got); const JNode *g = at(got, {}, 0); for (auto &nm : names_of(seed, p.path)) { if (g->t == JNode::ARR) g = atoi(nm.c_str()) < (int)g->a.size() ? &g->a[atoi(nm.c_str())] : nullptr; else g = g->get(nm.c_str()); if (!g) break; } if (!g || g->a.size() != (size_t)n) mc::fail(r.name + " length|" + key, "%zu elements were read", g ? g->a.size() : 0); }
}
