// C08: JavaScript (V8) stack traces are parsed into exactly the frames they show.
#include "lang.h"
struct F { string fn, as, file; uint32_t line, col; string lead, mid, trail; };
static const vector<string> files = {"net.js", "/home/user/x.js", "internal/x.js", "a:b.js", "file:///a b.js", "(b[c]d):e.js", "[stdin]-wrapper", "node:internal/x", "http://h:80/x.js", "x) (y.js", "C:\\a.js", "evalmachine.<anonymous>", "eval at f (x.js:1:2), <anonymous>", "/home/u", "at x.js", "x)", "1", "\xc3\xa9.js", "a [as b].js", "/home/u/v/w.js"};
static const vector<string> fns = {"Foo.bar", "", "Object.<anonymous>", "new Foo", "async foo", "Object.get x", "Module._extensions..js", "new <anonymous>", "async Promise.all x", "Foo.bar(baz)", "at", "as", "f[0]", "\xc3\xa9", "a:1:2", "process._tickCallback"};
static const vector<string> ass = {"", "g", "oncomplete", "a b", "exports.x"};
static const vector<uint32_t> nums_ = {7, 0, 1, 4294967295u, 2147483648u, 100};
static const vector<string> leads = {"    at ", "at ", "at    ", "        at  ", " at "}, mids = {" ", "    "}, trails = {"", " ", "   "};
static F choose_frame() { F f; f.fn = alt(fns); f.as = alt(ass); f.file = alt(files); f.line = alt(nums_); f.col = alt(nums_); f.lead = alt(leads); f.mid = alt(mids); f.trail = alt(trails); return f; }
static void valid(const F &f)
{
    if (f.fn.empty() && f.as != "") mc::prune();                           // an alias needs a name
    if (f.fn.empty() && f.mid != " ") mc::prune();
}
static string text(const F &f) { string loc = f.file + fmt(":%u:%u", f.line, f.col); return f.lead + (f.fn.empty() ? loc : f.fn + (f.as.empty() ? "" : f.mid + "[as " + f.as + "]") + f.mid + "(" + loc + ")") + f.trail; }
static Content expect(const F &f)
{
    static const Kind &k = frame_kind(SR_REPORT_JAVASCRIPT); Content c = empty_frame(k); if (!f.fn.empty()) c[k.idx("function_name")] = V(f.fn); c[k.idx("file_name")] = V(ref_anon(f.file)); c[k.idx("file_line")] = N(f.line); c[k.idx("line_column")] = N(f.col); return c;
}
static const vector<string> names = {"ReferenceError", "E", "a.b", "\xc3\x89", "A B", "Error [ERR_X]", "at x", "null"};
static const vector<string> msgs = {"x is not defined", "", "a: b", "at f (x.js:1:2)", "\xc3\xa9", "a\nb", "a\n\n", "a\nattic\n  b c:1:2", "{\n  x: 1\n}", " ", "a\n    atx (y:1:2)"};
static void run(const vector<F> &fr, const string &name, const string &msg, bool newline)
{
    TraceData d; d.type = SR_REPORT_JAVASCRIPT; d.exception = V(name); sr_js_platform_t p = sr_js_platform_new(); sr_js_platform_init(p, (enum sr_js_runtime)0, SR_JS_ENGINE_V8); d.platform = p;
    ThreadData t; string s = name + ": " + msg + "\n"; for (size_t i = 0; i < fr.size(); i++) { valid(fr[i]); s += text(fr[i]) + (i + 1 < fr.size() || newline ? "\n" : ""); t.frames.push_back(expect(fr[i])); }
    d.threads.push_back(t); compare_parse(s, d, sr_js_stacktrace_parse, sr_js_stacktrace_free, fmt("%zu frames", fr.size()));
    // the engine-specific parser and the parser of one frame agree
    Exact e(s); const char *c = e.p; struct sr_location loc; sr_location_init(&loc); auto *v = sr_js_stacktrace_parse_v8(&c, &loc); mc::step(); if (!v) mc::fail("v8|" + quote(s), "the V8 parser fails: %s", loc.message); v->platform = p; d.platform = p; if (dump(extract((struct sr_stacktrace *)v)) != dump(d)) mc::fail("v8 differs|" + quote(s), "the V8 parser gives %s", dump(extract((struct sr_stacktrace *)v)).c_str()); sr_js_stacktrace_free(v);
    // ... and so do the parsers of the platform, which is then known
    sr_js_platform_t node = sr_js_platform_new(); sr_js_platform_init(node, SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8); c = e.p; sr_location_init(&loc); v = sr_js_platform_parse_stacktrace(node, &c, &loc); mc::step(); if (!v) mc::fail("platform|" + quote(s), "the parser of the platform fails: %s", loc.message); d.platform = node; if (dump(extract((struct sr_stacktrace *)v)) != dump(d)) mc::fail("platform differs|" + quote(s), "the parser of the platform gives %s", dump(extract((struct sr_stacktrace *)v)).c_str()); sr_js_stacktrace_free(v);
    const Kind &k = frame_kind(SR_REPORT_JAVASCRIPT); for (auto &f : fr) { string ft = text(f); Exact fe(ft); c = fe.p; sr_location_init(&loc); auto *x = sr_js_frame_parse(&c, &loc); mc::step(); if (!x) mc::fail("frame|" + quote(ft), "the frame parser fails: %s", loc.message); Content g = k.content(x); if (g != expect(f)) mc::fail("frame differs|" + quote(ft), "the frame is %s", k.text(g).c_str()); sr_js_frame_free(x);
        c = fe.p; sr_location_init(&loc); x = sr_js_platform_parse_frame(node, &c, &loc); mc::step(); if (!x) mc::fail("platform frame|" + quote(ft), "the platform's frame parser fails: %s", loc.message); g = k.content(x); if (g != expect(f)) mc::fail("platform frame differs|" + quote(ft), "the frame is %s", k.text(g).c_str()); sr_js_frame_free(x); }
}
// platforms and their names: only known pairs can be parsed
MC_SCENARIO(platforms)
{
    static const unsigned rt[] = {0, 1, 2, 3, 0xffe, 0xfff, 0x1000, 0xfffffff}; unsigned r = rt[mc::choose(8)], e = mc::choose(16); bool known = r == 1 && e == 1; sr_js_platform_t p = sr_js_platform_new(); sr_js_platform_init(p, (enum sr_js_runtime)r, (enum sr_js_engine)e); string what = fmt("%x %x", r, e); mc::describe(what); mc::validated();
    const char *rn = sr_js_runtime_to_string((enum sr_js_runtime)sr_js_platform_runtime(p)), *en = sr_js_engine_to_string((enum sr_js_engine)sr_js_platform_engine(p)); mc::step(2); if (S(rn) != (r == 1 ? "Node.js" : "(null)") || S(en) != (e == 1 ? "V8" : "(null)")) mc::fail("name|" + what, "%s %s", S(rn).c_str(), S(en).c_str());
    if (rn && sr_js_runtime_from_string(rn) != (int)r) mc::fail("runtime|" + what, "%s is read as %d", rn, sr_js_runtime_from_string(rn)); if (en && sr_js_engine_from_string(en) != (int)e) mc::fail("engine|" + what, "%s is read as %d", en, sr_js_engine_from_string(en)); if (sr_js_platform_dup(p) != p) mc::fail("dup|" + what, "a copy differs");
    Exact t("E: m\n    at f (x.js:1:2)\n"), u("at f (x.js:1:2)"); const char *c = t.p, *b = u.p; struct sr_location loc; sr_location_init(&loc); auto *s = sr_js_platform_parse_stacktrace(p, &c, &loc); sr_location_init(&loc); auto *f = sr_js_platform_parse_frame(p, &b, &loc); mc::step(2);
    if (!s != !known || !f != !known) mc::fail("parse|" + what, "stack trace %s, frame %s", s ? "parsed" : "rejected", f ? "parsed" : "rejected"); if (s && s->platform != p) mc::fail("platform|" + what, "the trace is of platform %x", s->platform); if (!known && (c != t.p || b != u.p)) mc::fail("cursor|" + what, "the input was consumed");
    if (s) sr_js_stacktrace_free(s); if (f) sr_js_frame_free(f);
    static const char *const names[] = {"Node.js", "V8", "", "node.js", "Node.js ", "v8", "V", "<unknown>", "V88"}; for (auto n : names) for (auto ver : {(const char *)nullptr, "v6.9.1", ""}) { char *m = nullptr; sr_js_platform_t q = sr_js_platform_from_string(n, ver, &m); bool ok = !strcmp(n, "Node.js"); mc::step(); if (ok ? q != _sr_js_platform_assemble(SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8) || m : q || !m) mc::fail(string("from string|") + n, "%x, message %s", q, S(m).c_str()); g_free(m); if (sr_js_platform_from_string(n, ver, nullptr) != q) mc::fail(string("no message|") + n, "the result depends on the message"); }
    mc::nontrivial(); mc::outcome(what);
}
MC_SCENARIO(frames)
{
    int n = 1 + mc::choose(mc::thorough() ? 4 : 3); mc::set_dev_bound(mc::thorough() ? (n > 2 ? 3 : 4) : n > 1 ? 2 : 4); vector<F> fr; for (int i = 0; i < n; i++) fr.push_back(choose_frame()); string name = alt(names), msg = alt(msgs); run(fr, name, msg, !maybe());
}
// named, unnamed, aliased, spaced lines in every order
MC_SCENARIO(patterns)
{
    static const vector<F> al = {{"f", "", "x.js", 1, 2, "    at ", " ", ""}, {"", "", "x.js", 3, 4, "    at ", " ", ""}, {"A.b", "c", "y.js", 5, 6, "    at ", " ", ""}, {"new F", "", "z z.js", 7, 8, "at ", " ", " "}, {"async f", "", "a:b", 0, 9, "    at ", "  ", ""}, {"", "", "(x) y", 1, 1, "at ", " ", " "}};
    int n = 1 + mc::choose(mc::thorough() ? 6 : 5); vector<F> fr; for (int i = 0; i < n; i++) fr.push_back(mc::pick(al)); run(fr, "E", "m", mc::flip());
}
MC_SCENARIO(one_frame)
{
    F f{mc::pick(fns), mc::pick(ass), mc::pick(files), nums_[mc::choose(mc::thorough() ? 6 : 2)], nums_[mc::choose(mc::thorough() ? 6 : 2)], leads[mc::choose(mc::thorough() ? 5 : 2)], mc::pick(mids), trails[mc::choose(2)]}; run({f}, "E", "m", mc::flip());
}
MC_SCENARIO(ends)
{
    string name = mc::pick(names), msg = mc::pick(msgs), m2 = mc::pick(msgs); if (m2.find("at f (") == 0 && msg.find_last_of('\n') != string::npos && msg.find_last_not_of(" \n") < msg.find_last_of('\n')) mc::prune(); // a line of the message that looks like a frame
    bool nl = mc::flip(); int n = 1 + mc::choose(2); run(vector<F>(n, F{"f", "", "x.js", 1, 2, "    at ", " ", ""}), name, msg + m2, nl);
}
MC_SCENARIO(many)
{
    int n = 1 + mc::choose(mc::thorough() ? 400 : 150), kind = mc::choose(3); vector<F> fr; for (int i = 0; i < n; i++) fr.push_back(F{kind == 0 ? "" : fmt("f%d", i), kind == 2 ? "z" : "", fmt("x%d.js", i), (uint32_t)i, (uint32_t)(n - i), "    at ", " ", ""}); run(fr, "E", "m", true);
}
MC_SCENARIO(numbers)
{
    uint64_t p = 1; int d = mc::choose(10); while (d--) p *= 10; int64_t v = (int64_t)p * (1 + mc::choose(9)) + mc::choose(3) - 1; if (v < 0 || v > UINT32_MAX) mc::prune(); bool c = mc::flip(); run({F{mc::flip() ? "f" : "", "", "x.js", c ? 1u : (uint32_t)v, c ? (uint32_t)v : 1u, "    at ", " ", ""}}, "E", "m", true);
}
// every short text in each place of a trace
MC_SCENARIO(words)
{
    int N = mc::thorough() ? 5 : 4; F f{"f", "", "x.js", 1, 2, "    at ", " ", ""}, g{"", "", "y.js", 3, 4, "    at ", " ", ""}; string name = "E", msg = "m"; int where = mc::choose(5); bool pos = mc::flip(); auto lead = [](const string &s) { if (s[0] == ' ' || s.back() == ' ') mc::prune(); };
    if (where == 0) { f.file = word({"a", ":", "/", " ", "(", ")", "1", ".", "/home/"}, 1, N); lead(f.file); if (mc::flip()) f.fn = ""; }
    if (where == 1) { f.fn = word({"a", ".", "<", ">", " ", "=", "new ", ":", "as "}, 1, N); lead(f.fn); }
    if (where == 2) { f.as = word({"a", ".", "<", " ", "[", "=", ":"}, 1, N); lead(f.as); }
    if (where == 3) { name = word({"a", ".", " ", "[", "]", "(", "_", "1"}, 1, N); lead(name); }
    if (where == 4) msg = word({"a", ":", "\n", " ", "x", "(", ")", "1"}, 0, N);
    run(pos ? vector<F>{g, f} : vector<F>{f, g}, name, msg, mc::flip());
}
MC_SCENARIO(lengths)
{
    F f{"f", "", "x.js", 1, 2, "    at ", " ", ""}, g{"", "", "y.js", 3, 4, "    at ", " ", ""}; string name = "E", msg = "m", w(size_near_limits(), 'a'); switch (mc::choose(6)) { case 0: f.file = w; break; case 1: f.fn = w; break; case 2: f.as = w; break; case 3: name = w; break; case 4: msg = w; break; case 5: f.lead = string(w.size(), ' ') + "at "; break; } run(mc::flip() ? vector<F>{g, f} : vector<F>{f, g}, name, msg, true);
}
