// C06: Java stack traces are parsed into exactly the exceptions and frames they show.
#include "lang.h"
struct F { string name, file; int64_t line; string src, path; Val cp; bool native; }; // src: what stands in the parentheses
struct X { string name; Val msg; vector<F> fr; int elided, supp; bool indent; };
static const vector<string> fnames = {"com.x.Foo.bar", "Foo$1.<init>", "java.base/java.lang.Thread.run", "at.at.at", "app//x.Main.main", "f", "Foo.lambda$main$0", "Caused by", "Statement.cat", "\xc3\xa9.\xc3\xa8", "Foo.<clinit>", "..."};
struct Src { const char *text; const char *file; int64_t line; bool native; };
static const vector<Src> srcs = {{"Foo.java:36", "Foo.java", 36, false}, {"Foo.java", "Foo.java", 0, false}, {"Native Method", nullptr, 0, true}, {"Unknown Source", nullptr, 0, false}, {"Foo.java:0", "Foo.java", 0, false}, {"Foo.java:4294967295", "Foo.java", 4294967295u, false}, {"/home/u/Foo.java:1", "/home/anonymized/Foo.java", 1, false}, {"a b.scala:7", "a b.scala", 7, false}, {"Native.java:2", "Native.java", 2, false}, {"<generated>", "<generated>", 0, false}};
struct Path { const char *text, *path; };
static const vector<Path> paths = {{"", nullptr}, {" [file:/usr/lib/java/Foo.class]", "/usr/lib/java/Foo.class"}, {" [jar:file:/usr/lib/foo.jar!/x/Foo.class]", "/usr/lib/foo.jar"}, {" [http://host/Foo.class]", "http://host/Foo.class"}, {" [jar:http://host/foo.jar!/Foo.class]", "http://host/foo.jar"}, {" [file:/home/u/Foo.class]", "/home/anonymized/Foo.class"}, {" [jar:file:/home/u/x y.jar!/Foo.class]", "/home/anonymized/x y.jar"}, {" [http://host:80/Foo.class]", "http://host:80/Foo.class"}, {" [file:a.class]", "a.class"}, {" [jar:file:/a[1].jar!/F.class]", "/a[1].jar"}, {" ", nullptr}};
static const vector<Val> msgs = {V("foo"), nul, V(""), V("a: b"), V("Caused by: x"), V("at x.y(Z.java:1)"), V("\"q\" (z)"), V("\xc3\xa9"), V("Suppressed: x"), V("... 3 more"), V("foo ")};
static const vector<string> xnames = {"java.lang.Exception", "E", "x.Y$Z", "at", "Suppressed", "\xc3\x89"};
static const vector<string> supps = {"", "\tSuppressed: S: m\n\t\tat S.f(S.java:1)\n", "\tSuppressed: S\n\t\tat S.f(S.java:1)\n\t\t... 2 more\n", "\tSuppressed: S: m\n\t\tat S.f(S.java:1)\n\tCaused by: SC: m\n\t\tat S.g(S.java:2)\n\t\t... 1 more\n", "\tSuppressed: S: m\n\t\tat S.f(S.java:1)\n\tSuppressed: T: m\n\t\tat T.f(T.java:1)\n\t\t... 2 more\n", "\tSuppressed: S: m\n\t\tat S.f(S.java:1)\n\t\tSuppressed: T: m\n\t\t\tat T.f(T.java:1)\n\t\t\t... 3 more\n", "\tSuppressed: S: m\n", "\tSuppressed: S: m\n\t\tat S.f(Native Method) [jar:file:/x.jar!/S.class]\n", "    Suppressed: S: m\n        at S.f(S.java:1)\n        ... 2 more\n", "\t Suppressed: S: m\n \t at S.f(S.java:1)\n \tCaused by: SC: m\n \t\tat S.g(S.java:2)\n", " Suppressed: S\n\n  at S.f(S.java:1)\n"};
static F mk(const string &n, const Src &s, const Path &p) { return F{n, s.file ? s.file : "", s.line, s.text, p.text, s.file ? V(s.file) : nul, s.native}; }
static Content expect(const F &f, const Path *p) { static const Kind &k = frame_kind(SR_REPORT_JAVA); Content c = empty_frame(k); c[k.idx("name")] = V(f.name); c[k.idx("file_name")] = f.cp; c[k.idx("file_line")] = N(f.line); c[k.idx("is_native")] = N(f.native); c[k.idx("class_path")] = V(p ? p->path : nullptr); return c; }
static const Path *path_of(const string &t) { for (auto &p : paths) if (t == p.text) return &p; return nullptr; }
static F choose_frame() { const string &n = alt(fnames); const Src &s = alt(srcs); return mk(n, s, alt(paths)); }
static X choose_x(int maxframes) { X x; x.name = alt(xnames); x.msg = alt(msgs); int n = mc::choose(maxframes + 1); for (int i = 0; i < n; i++) x.fr.push_back(choose_frame()); x.elided = mc::choose_dev(4); x.supp = mc::choose_dev((int)supps.size()); x.indent = !x.supp && maybe(); return x; }
struct Opt { Val thread = nul; string end = "\n", lead = ""; };
static void run(const vector<X> &xs, const Opt &o)
{
    static const Kind &k = frame_kind(SR_REPORT_JAVA); TraceData d; d.type = SR_REPORT_JAVA; ThreadData t; t.named = !o.thread.null; if (t.named) t.name = o.thread.s;
    string s = t.named ? "Exception in thread \"" + t.name + "\" " : o.lead; vector<Content> all;
    for (size_t i = 0; i < xs.size(); i++) {
        const X &x = xs[i]; s += string(i ? xs[i - 1].indent ? "\tCaused by: " : "Caused by: " : "") + x.name + (x.msg.null ? "" : ": " + x.msg.s) + "\n"; Content e = empty_frame(k); e[k.idx("is_exception")] = N(1); e[k.idx("name")] = V(x.name); e[k.idx("message")] = x.msg.null || x.msg.s.empty() ? nul : x.msg; vector<Content> here = {e};
        for (auto &f : x.fr) { s += "\tat " + f.name + "(" + f.src + ")" + f.path + "\n"; here.push_back(expect(f, path_of(f.path))); }
        if (x.elided) s += fmt(x.elided == 3 ? "\t... %d common frames omitted\n" : "\t... %d more\n", x.elided == 2 ? 123 : 1); s += supps[x.supp]; all.insert(all.begin(), here.begin(), here.end());
    }
    if (o.end[0] == ' ' && xs.back().fr.empty() && !xs.back().elided && !xs.back().supp) mc::prune(); // white space that belongs to the message
    s.pop_back(); s += o.end; t.frames = all; d.threads.push_back(t); compare_parse(s, d, sr_java_stacktrace_parse, sr_java_stacktrace_free, fmt("%zu exceptions", xs.size()));
}
static const vector<string> ends_ = {"\n", "", "\n\n", "\n  \n", " \n", "\n\t"}, threads = {"main", "", "pool-1 thread'2", "x: y", "\xc3\xa9", "Caused by: z"};
static Opt choose_opt() { Opt o; o.end = alt(ends_); int t = mc::choose_dev((int)threads.size() + 1); if (t) o.thread = V(threads[t - 1]); return o; }
MC_SCENARIO(traces)
{
    mc::set_dev_bound(mc::thorough() ? 3 : 2); int n = 1 + mc::choose(mc::thorough() ? 4 : 3); vector<X> xs; for (int i = 0; i < n; i++) xs.push_back(choose_x(n == 1 ? 3 : n == 2 ? 2 : 1)); run(xs, choose_opt());
}
// one exception with up to two frames, deeper in departures
MC_SCENARIO(one_exception)
{
    mc::set_dev_bound(mc::thorough() ? 5 : 3); X x = choose_x(1); run({x}, choose_opt());
}
// elided notes, suppressed sections and causes in every combination
MC_SCENARIO(patterns)
{
    int n = 1 + mc::choose(mc::thorough() ? 4 : 3); vector<X> xs; for (int i = 0; i < n; i++) { X x; x.name = fmt("E%d", i); x.msg = i % 2 ? nul : V("m"); int c = mc::choose(3); for (int q = 0; q < c; q++) x.fr.push_back(mk(fmt("A%d.f%d", i, q), srcs[q], paths[q])); x.elided = mc::choose(2); x.supp = mc::choose(mc::thorough() && n > 3 ? 4 : (int)supps.size()); x.indent = !x.supp && i % 2; xs.push_back(x); }
    Opt o; if (mc::flip()) o.thread = V("main"); run(xs, o);
}
// full product for one frame line
MC_SCENARIO(one_frame)
{
    const string &n = mc::pick(fnames); F f = mk(n, mc::pick(srcs), mc::pick(paths)); int at = mc::choose(3); F g = mk("G.g", srcs[0], paths[0]); X x{"E", V("m"), at == 0 ? vector<F>{f} : at == 1 ? vector<F>{f, g} : vector<F>{g, f}, 0, 0, false}; Opt o; o.end = mc::pick(ends_); run({x}, o);
}
// headers: thread, name, message
MC_SCENARIO(heads)
{
    X x{mc::pick(xnames), mc::pick(msgs), {}, 0, 0, false}; int n = mc::choose(3); for (int i = 0; i < n; i++) x.fr.push_back(mk("G.g", srcs[i], paths[0])); Opt o; int t = mc::choose((int)threads.size() + 1); if (t) o.thread = V(threads[t - 1]); else o.lead = vector<string>{"", " ", "\n\t"}[mc::choose(3)]; o.end = mc::pick(ends_); run({x}, o);
}
MC_SCENARIO(causes)
{
    vector<X> v; for (int i = 0; i < 2; i++) { X x{mc::pick(xnames), mc::pick(msgs), {}, 0, 0, false}; int n = mc::choose(mc::thorough() ? 3 : 2); for (int q = 0; q < n; q++) x.fr.push_back(mk("G.g", srcs[q], paths[0])); x.elided = i; v.push_back(x); } Opt o; o.end = ends_[mc::choose(mc::thorough() ? 6 : 3)]; run(v, o);
}
MC_SCENARIO(many)
{
    int n = 1 + mc::choose(mc::thorough() ? 300 : 100), kind = mc::choose(2); vector<X> xs; if (kind) { X x{"E", V("m"), {}, 0, 0, false}; for (int i = 0; i < n; i++) x.fr.push_back(mk(fmt("A.f%d", i), srcs[i % srcs.size()], paths[i % paths.size()])); xs.push_back(x); } else for (int i = 0; i < n; i++) xs.push_back(X{fmt("E%d", i), V("m"), {mk(fmt("A.f%d", i), srcs[0], paths[0])}, i > 0, i % 5 == 4, false}); run(xs, Opt());
}
MC_SCENARIO(numbers)
{
    uint64_t p = 1; int d = mc::choose(10); while (d--) p *= 10; int64_t v = (int64_t)p * (1 + mc::choose(9)) + mc::choose(3) - 1; if (v < 0 || v > UINT32_MAX) mc::prune(); F f = mk("A.b", srcs[0], paths[mc::choose(3)]); f.src = fmt("Foo.java:%u", (unsigned)v); f.line = v; run({X{"E", V("m"), {f, mk("G.g", srcs[0], paths[0])}, 0, 0, false}}, Opt());
}
// every short text in each place of a trace
MC_SCENARIO(words)
{
    int N = mc::thorough() ? 5 : 4; F f = mk("A.b", srcs[0], paths[0]); X x{"E", V("m"), {}, 0, 0, false}; Opt o; int where = mc::choose(6), pos = mc::choose(2); auto lead = [](const string &s) { if (s.empty() || s[0] == ' ' || s[0] == '\t') mc::prune(); };
    if (where == 0) { f.name = word({"a", ".", "$", "<", ">", "/", ":", " ", "["}, 1, N); lead(f.name); }
    if (where == 1) { f.file = word({"a", ".", "/", "/home/", "<", ">", " ", "-"}, 1, N); f.src = f.file + ":36"; f.cp = V(ref_anon(f.file)); }
    if (where == 2) { x.msg = V(word({":", "\"", " ", "\t", "a", "(", ".", "at "}, 1, N)); lead(x.msg.s); }
    if (where == 3) { x.name = word({"a", ".", "$", "<", "1", "(", "\"", "-"}, 1, N); if (mc::flip()) x.msg = nul; }
    if (where == 4) o.thread = V(word({"a", " ", ":", "'", "\t", "<", "-", "."}, 0, N));
    if (where == 5) { x.fr.push_back(f); x.elided = mc::choose(4); x.supp = mc::choose((int)supps.size()); f = mk(f.name, mc::pick(srcs), mc::pick(paths)); }
    F g = mk("G.g", srcs[0], paths[0]); if (pos) x.fr.push_back(g); x.fr.push_back(f); vector<X> xs = {x}; if (mc::flip()) xs.push_back(X{"D", nul, {g}, 1, 0, false}); run(xs, o);
}
MC_SCENARIO(lengths)
{
    F f = mk("A.b", srcs[0], paths[0]), g = mk("G.g", srcs[0], paths[0]); X x{"E", V("m"), {g}, 0, 0, false}; Opt o; int where = mc::choose(5); string w(size_near_limits(), 'a'); if (where == 0) f.name = w; if (where == 1) { f.file = w; f.src = w + ":36"; f.cp = V(w); } if (where == 2) x.msg = V(w); if (where == 3) x.name = w; if (where == 4) o.thread = V(w); x.fr.push_back(f); vector<X> xs = {x}; if (mc::flip()) xs.push_back(X{"D", nul, {g}, 1, 0, false}); run(xs, o);
}
