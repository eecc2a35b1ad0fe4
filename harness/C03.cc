// C03: a GDB backtrace is parsed into exactly the threads, frames and libraries it shows.
// The harness generates a structure, renders it the way GDB prints it, parses the text and
// compares the result with the structure, field by field.
#include "common.h"

struct Fr {
    uint32_t number = 0; uint64_t addr = UINT64_MAX; bool vtable = false;
    string type, name, args = "()", loc, file; uint32_t line = UINT32_MAX; bool sig = false; string sep = " ", locsep = " ";
    bool has_type() const { return !type.empty(); }
};
static string render(const Fr &f)
{
    string s = fmt("#%u", f.number) + (f.number < 10 ? "  " : " ");
    if (f.sig) return s + "<signal handler called>";
    if (f.addr != UINT64_MAX) s += fmt("0x%016llx in ", (unsigned long long)f.addr) + (f.vtable ? "vtable for " : "");
    s += (f.has_type() ? f.type + " " : "") + f.name + f.sep + f.args;
    if (!f.loc.empty()) s += f.locsep + f.loc;
    return s;
}
static void check_frame(const struct sr_gdb_frame *g, const Fr &f, const string &text, const string &where)
{
    auto bad = [&](const string &what, const string &got, const string &want) {
        mc::fail("frame " + what + "|" + text, "%s: %s is %s, the text shows %s", where.c_str(), what.c_str(), quote(got).c_str(), quote(want).c_str());
    };
    if (!g) bad("existence", "missing", "a frame");
    string want = f.sig ? "(null)" : f.name, wt = f.has_type() ? f.type : "(null)";
    if (f.name == "??" ) wt = "(null)";
    if (S(g->function_name) != want) bad("function name", S(g->function_name), want);
    if (S(g->function_type) != wt) bad("function type", S(g->function_type), wt);
    if (g->number != f.number) bad("number", fmt("%u", g->number), fmt("%u", f.number));
    if (g->signal_handler_called != f.sig) bad("signal handler mark", fmt("%d", g->signal_handler_called), fmt("%d", f.sig));
    if (g->address != f.addr) bad("address", fmt("%llx", (unsigned long long)g->address), fmt("%llx", (unsigned long long)f.addr));
    string wf = f.file.empty() ? "(null)" : f.file;
    if (S(g->source_file) != wf) bad("source file", S(g->source_file), wf);
    if (g->source_line != f.line) bad("source line", fmt("%u", g->source_line), fmt("%u", f.line));
}

static const vector<string> &ops()
{
    static vector<string> v = {">>=", ">>", ">=", ">", "<<=", "<<", "<=", "<", "->*", "->", "-", "==", "=", "&&", "&=", "&", "||", "|=", "|", "++", "+=", "+", "--", "-=", "/=", "/", "*=", "*", "%=", "%", "!=", "!", "~", "()", "[]", ",", "^=", "^", " new[]", " new", " delete[]", " delete"};
    return v;
}
// every function name of a small grammar
static const vector<string> &names()
{
    static vector<string> v;
    if (!v.empty()) return v;
    vector<string> ids = {"f", "main", "_start", ".ppc", "*x", "~C", "o", "Op9", "__libc_x", "9lives"};
    for (auto &i : ids) v.push_back(i);
    for (auto &o : ops()) { v.push_back("operator" + o); v.push_back("C::operator" + o); }
    for (const char *s : {"n::f", "(anonymous namespace)::f", "n::(anonymous namespace)::C::f", "C<int>::f", "C<int, char>::~C", "f@plt", "f@@GLIBC_2.2.5", "f.isra.0", "f.part.1.constprop.2", "f[abi:cxx11]",
             "f<int>", "f<int>(int)", "f<char const*>", "f<a::b<c> >", "f<a<b>>", "f<void (*)(int)>", "f<(anonymous namespace)::T>", "C<&n::g>::f", "f<operator< >", "C::operator()<int>", "n::{lambda", "f(int, char)",
             "std::vector<int, std::allocator<int> >::push_back", "std::basic_string<char, std::char_traits<char>, std::allocator<char> >::~basic_string", "C<2u>::f", "f<-1>", "f<int [with T = a[2]]>", "C<x [with U = b]>::g", "f<g() [with T = a; U = b[2]]>", "C<(n)[1] [with X = {1, #(\\<}]>::f", "a:b", "f=g", "n::f const", "C<int>::f const", "(anonymous namespace)::C::f const", "operator== const", "boost::operator<< <char>"})
        if (string(s).find('{') == string::npos) v.push_back(s);
    return v;
}
static const vector<string> args = {"()", "(x=1)", "(this=0x1, s=0x2 \"abc\")", "(s=\"a)b\")", "(s=\"(\")", "(s=\"a\\\"b)\")", "(s=\"\\\\\")", "(f=0x1 <g(int)>)", "(f=@0x1: {a = {b = 1}})", "(x=<optimized out>)", "(a=..., b=...)", "(x=1, \n    y=2)",
    "(s=\"at b.c:3\")", "(c=40 '(')", "(((a)))", "(x=(y=(z)))", "(a=[1], b={2, {3}})", "(s=\"\\\\\\\"(\")", "(x=\"a\", y=\")\", z=\"(\")", "(a=<error reading variable: Cannot access memory at address 0x0>)", "(s=\"#0\")", "(c=41 ')', d=34 '\"')", "(c=39 '\\'', d=40 '(')", "(s='x', t=')')", "(s=\"Thread 1\")"};
struct Loc { const char *text; const char *file; uint32_t line; };
static const vector<Loc> locs = {{"", "", UINT32_MAX}, {"at a.c:3", "a.c", 3}, {"at /usr/src/x-1.2/a_b+c.cpp:4294967294", "/usr/src/x-1.2/a_b+c.cpp", 4294967294u}, {"at ../a.c:1", "../a.c", 1}, {"from /lib64/libc.so.6", "", UINT32_MAX}, {"from /usr/lib/libx.so", "", UINT32_MAX}, {"from /usr/bin/prog", "/usr/bin/prog", UINT32_MAX}, {"at a.c", "a.c", UINT32_MAX}, {"from /opt/plugin.so", "/opt/plugin.so", UINT32_MAX}, {"at C:\\\\x\\\\y.c:7", nullptr, 0}, {"at x.so:5", "x.so", 5}, {"at /lib/a.c:6", "/lib/a.c", 6}, {"at   b.c:2", "b.c", 2}, {"at a.c:0", "a.c", 0}};
static const uint64_t addrs[] = {UINT64_MAX, 0x1, 0xffffffffff600000ull, 0x00007f90879e4c0full, 0};

static void parse_one(const Fr &f, const string &extra)
{
    string t = render(f) + extra;
    mc::describe(quote(t));
    Exact e(t); const char *cur = e.p; struct sr_location loc; sr_location_init(&loc);
    struct sr_gdb_frame *g = sr_gdb_frame_parse(&cur, &loc);
    mc::step();
    std::unique_ptr<struct sr_gdb_frame, void (*)(struct sr_gdb_frame *)> hold(g, [](struct sr_gdb_frame *p) { sr_gdb_frame_free(p); });
    if (!g) mc::fail("frame rejected|" + t, "a frame as GDB prints it is rejected: %s", loc.message);
    check_frame(g, f, t, "frame");
    size_t next = string::npos; // the cursor must stand at the next frame/thread or at the end
    for (const char *m : {"\n#", "\nThread"}) { size_t p = t.find(m, render(f).size()); if (p != string::npos) next = std::min(next, p + 1); }
    if (next == string::npos) next = t.size();
    if ((size_t)(cur - e.p) != next) mc::fail("cursor|" + t, "cursor at %ld, next item starts at %zu", (long)(cur - e.p), next);
    mc::validated(); mc::nontrivial();
    mc::outcome(t);
}
static void set_loc(Fr &f, const Loc &l) { f.loc = l.text; f.file = l.file ? l.file : ""; f.line = l.line; }

// every function name with every address form, argument list kind and place
MC_SCENARIO(names_by_place)
{
    Fr f; f.name = mc::pick(names());
    f.addr = addrs[mc::choose(2)]; 
    static const char *const types[] = {"", "void", "int*", "char const*", "std::vector<int, char>", "unsigned", "n::T<a>::U&", "int const"};
    f.type = types[mc::choose(8)];
    // a type can only precede a name that does not start with a bracketed part; names with " const" carry it last
    if (f.has_type() && (f.name[0] == '(' )) mc::prune();
    if (f.type == "char const*") mc::prune(); // a type with an inner space is not a single printed token: outside the grammar
    set_loc(f, locs[mc::choose(5)]);
    f.args = args[mc::choose(6)];
    if (f.addr == UINT64_MAX && f.loc.empty()) { /* inlined frame without a location is still accepted */ }
    parse_one(f, "");
}
// every argument list with every location and address
MC_SCENARIO(args_by_place)
{
    Fr f; static const char *const n[] = {"f", "??", "C<int>::f const", "operator()", "(anonymous namespace)::f"};
    f.name = n[mc::choose(5)];
    f.args = mc::pick(args);
    f.addr = addrs[mc::choose(5)];
    static const uint32_t nums[] = {0, 12, 4294967295u};
    f.number = nums[mc::choose(mc::thorough() ? 3 : 1)];
    const Loc &l = mc::pick(locs); if (!l.file) mc::prune();
    set_loc(f, l);
    static const char *const seps[] = {" ", "\n    ", "  "};
    f.sep = seps[mc::choose(2)]; f.locsep = f.loc.empty() ? " " : seps[mc::choose(3)];
    if (f.addr != UINT64_MAX && f.addr != 0 && mc::flip()) f.vtable = true;
    static const char *const ends[] = {"", "\n", "\n        x = 1\n        s = \"a\\nb\"\n", "\nNo locals.\n#7  g () at z.c:1\n", "\n\nThread 1 (LWP 2):\n"};
    parse_one(f, ends[mc::choose(5)]);
}

// ---- whole backtraces
struct Lib { uint64_t from, to; int syms; string so; };
static Fr small(int k)
{
    Fr f;
    switch (k) {
    case 0: f.name = "f"; f.addr = 0x1; f.loc = "at a.c:3"; f.file = "a.c"; f.line = 3; f.args = "(x=1)"; break;
    case 1: f.name = "??"; f.addr = 0x2; f.loc = "from /lib/libq.so.1"; break;
    case 2: f.sig = true; break;
    case 3: f.name = "C<a, b>::operator()"; f.type = ""; f.addr = 0xffffffffff600400ull; f.args = "(this=0x0, s=\"x)\\\"\")"; break;
    case 4: f.name = "inl"; f.loc = "at b/c.h:12"; f.file = "b/c.h"; f.line = 12; break;
    case 5: f.name = "g"; f.addr = 0x5; f.args = "(s=\"a\",\n    t=2)"; f.locsep = "\n    "; f.loc = "at d.c:1"; f.file = "d.c"; f.line = 1; break;
    }
    return f;
}
static const char *const noise[] = {"", "No locals.\n", "        x = 3\n        y = {a = 1, #2}\n", "No symbol table info available.\n", "        s = \"Thread 7\"\n\n", "        From = 1\n"};

MC_SCENARIO(backtraces)
{
    mc::set_dev_bound(mc::thorough() ? 3 : 2);
    string t; bool crash = true;
    static const char *const pre[] = {"", "Core was generated by `prog -x'.\nProgram terminated with signal 11, Segmentation fault.\n", "[New Thread 12]\nwarning: From x\n[Thread debugging using libthread_db enabled]\n"};
    t = pre[mc::choose_dev(3)];
    if (t.empty()) t = "\n";
    int hdr = mc::choose_dev(3); // crash frame + threads / threads only / crash frame + frames without a thread header
    Fr cf;
    if (hdr != 1) { cf = small(mc::choose_dev(6)); t += render(cf) + "\n" + noise[mc::choose_dev(2)]; } else crash = false;
    struct Th { uint32_t num, tid; vector<Fr> fr; };
    vector<Th> ths;
    int nt = hdr == 2 ? 1 : 1 + mc::choose(3);
    for (int i = 0; i < nt; i++) {
        Th th; th.num = nt - i; th.tid = 100 + i;
        if (hdr == 2) { th.num = 0; th.tid = UINT32_MAX; }
        else {
            int form = mc::choose_dev(5);
            if (form == 4) { th.num = 4294967295u; th.tid = 4294967294u; }
            if (i || !crash || mc::choose_dev(2) == 0) { if (t[t.size() - 1] != '\n') t += "\n"; t += "\n"; }
            t += fmt("Thread %u ", th.num);
            switch (form) {
            case 0: case 4: t += fmt("(Thread 0x7f12ab (LWP %u)):\n", th.tid); break;
            case 1: t += fmt("(LWP %u):\n", th.tid); break;
            case 2: t += "(Thread 2476):\n"; th.tid = UINT32_MAX; break;
            case 3: t += fmt("(Thread 12 (LWP %u)):\n", th.tid); break;
            }
        }
        int nf = 1 + mc::choose(3);
        for (int j = 0; j < nf; j++) {
            Fr f = small(mc::choose_dev(6)); f.number = j == 2 ? 2 + mc::choose_dev(2) * 98 : j;
            th.fr.push_back(f);
            t += render(f) + "\n" + noise[mc::choose_dev(6)];
        }
        ths.push_back(th);
    }
    vector<Lib> libs;
    int nl = mc::choose_dev(5);
    if (nl) {
        t += mc::choose_dev(2) ? "From  To  Syms Read  Shared Object Library\n" : "From                To                  Syms Read   Shared Object Library\n";
        static const Lib L[] = {{0x10, 0x20, SYMS_OK, "/lib64/ld.so"}, {0x00007f0000000000ull, 0x00007fffffffffffull, SYMS_NOT_FOUND, "/usr/lib/x y.so.1"}, {UINT64_MAX, UINT64_MAX, SYMS_WRONG, "/lib/missing.so"}};
        for (int i = 0; i < nl - 1; i++) {
            Lib l = L[mc::choose_dev(3) ? (i + mc::choose(2)) % 3 : i % 3];
            if (l.from == UINT64_MAX) t += "                                        "; else t += fmt("0x%016llx  0x%016llx  ", (unsigned long long)l.from, (unsigned long long)l.to);
            t += string(l.syms == SYMS_OK ? "Yes    " : l.syms == SYMS_NOT_FOUND ? "Yes (*)" : "No     ") + "     " + l.so + "\n";
            libs.push_back(l);
        }
        if (mc::choose_dev(2)) t += "(*): Shared library is missing debugging information.\n";
    }
    mc::describe(quote(t));
    char *err = nullptr; Exact e(t);
    struct sr_stacktrace *st = sr_stacktrace_parse(SR_REPORT_GDB, e.p, &err);
    mc::step();
    string errs = take(err);
    if (!st) mc::fail("backtrace rejected|" + t, "a backtrace as GDB prints it is rejected: %s", errs.c_str());
    std::unique_ptr<struct sr_stacktrace, void (*)(struct sr_stacktrace *)> hold(st, sr_stacktrace_free);
    struct sr_gdb_stacktrace *g = (struct sr_gdb_stacktrace *)st;
    if (crash) check_frame(g->crash, cf, t, "crash frame");
    else if (g->crash) mc::fail("phantom crash frame|" + t, "a crash frame appeared although the text has none");
    struct sr_gdb_thread *th = g->threads;
    for (size_t i = 0; i < ths.size(); i++, th = th->next) {
        if (!th) mc::fail("threads|" + t, "%zu threads parsed, the text shows %zu", i, ths.size());
        if (th->number != ths[i].num || th->tid != ths[i].tid) mc::fail("thread id|" + t, "thread %zu has number %u tid %u, the text shows %u %u", i, th->number, th->tid, ths[i].num, ths[i].tid);
        struct sr_gdb_frame *fr = th->frames;
        for (size_t j = 0; j < ths[i].fr.size(); j++, fr = fr->next) {
            if (!fr) mc::fail("frames|" + t, "thread %zu: %zu frames parsed, the text shows %zu", i, j, ths[i].fr.size());
            check_frame(fr, ths[i].fr[j], t, fmt("thread %zu frame %zu", i, j));
        }
        if (fr) mc::fail("frames|" + t, "thread %zu: more frames parsed than the text shows", i);
    }
    if (th) mc::fail("threads|" + t, "more threads parsed than the text shows");
    struct sr_gdb_sharedlib *l = g->libs;
    for (size_t i = 0; i < libs.size(); i++, l = l->next) {
        if (!l) mc::fail("libs|" + t, "%zu libraries parsed, the text shows %zu", i, libs.size());
        if (l->from != libs[i].from || l->to != libs[i].to || l->symbols != libs[i].syms || S(l->soname) != libs[i].so)
            mc::fail("lib|" + t, "library %zu is %llx-%llx %d %s", i, (unsigned long long)l->from, (unsigned long long)l->to, l->symbols, S(l->soname).c_str());
    }
    if (l) mc::fail("libs|" + t, "more libraries parsed than the text shows");
    mc::validated(); mc::nontrivial(); mc::outcome(t);
}

// function/library text of optimised threads: formatting and reading back are inverse
MC_SCENARIO(function_list)
{
    static const char *const fn[] = {"f", "a::b<c, d>(int) const", "operator()", "x y"};
    static const char *const lib[] = {"", "libc.so", "l"};
    int n = mc::choose(5); string t; vector<std::pair<string, string>> w;
    for (int i = 0; i < n; i++) { string f = fn[mc::choose(4)], l = lib[mc::choose(3)]; if (l.empty() && f.find(' ') != string::npos) l = "q"; w.push_back({f, l}); t += f + (l.empty() ? "" : " " + l) + "\n"; }
    mc::describe(quote(t));
    Exact e(t);
    struct sr_gdb_thread *th = sr_gdb_thread_parse_funs(e.p);
    string back = take(sr_gdb_thread_format_funs(th));
    struct sr_gdb_frame *f = th->frames; string err;
    for (int i = 0; i < n && err.empty(); i++, f = f ? f->next : f)
        if (!f || S(f->function_name) != w[i].first || S(f->library_name) != (w[i].second.empty() ? "(null)" : w[i].second) || (int)f->number != i) err = fmt("entry %d", i);
    if (err.empty() && f) err = "count";
    sr_gdb_thread_free(th); mc::step(2);
    if (!err.empty()) mc::fail("funs|" + t, "function list misread: %s", err.c_str());
    if (back != t) mc::fail("funs text|" + t, "written back as %s", quote(back).c_str());
    mc::validated(); mc::outcome(t); mc::nontrivial();
}
// every short text in each place of a frame
#include "lang.h"
MC_SCENARIO(words)
{
    int N = mc::thorough() ? 5 : 4; Fr f = small(mc::flip() ? 0 : 1); f.name = "f"; int where = mc::choose(4); auto ident = [](const string &s) { if (s.find_first_of("a_") == string::npos) mc::prune(); };
    if (where == 0) f.args = "(s=\"" + word({"a", "(", ")", "\\\"", "\\\\", "#", " at x.c:1", "'", "<"}, 0, N) + "\", t=1)";
    if (where == 1) { string t = word({"a", "<b>", "(c)", "*", ", ", "::", "()", " ", "[2]"}, 1, N); if (t[0] == ' ' || t[0] == ',' || t.back() == ' ') mc::prune(); f.name = mc::flip() ? "f<" + t + ">" : "C<" + t + ">::f"; }
    if (where == 2) { string p = word({"a", ".", "/", "-", "_", "+", "1", "lib"}, 1, N); if (f.loc[0] == 'a') { f.loc = "at " + p + ":3"; f.file = p; } else { p = "/" + p + (mc::flip() ? ".so.1" : ".so"); f.loc = "from " + p; f.file = p.find("/lib") == string::npos ? p : ""; } }
    if (where == 3) { f.name = word({"a", "_", ".", "::", "~", "@", "0", "Z9"}, 1, N); ident(f.name); if (f.name[0] == '@' || f.name[0] == ':') mc::prune(); }
    static const char *const ends[] = {"\n", "\n        x = 1\n#7  g () at z.c:1\n"}; parse_one(f, ends[mc::choose(2)]);
}
MC_SCENARIO(lengths)
{
    Fr f = small(0); string w(size_near_limits(), 'a'), extra = "\n"; switch (mc::choose(7)) { case 0: f.name = w; break; case 1: f.name = "C<" + w + ">::f"; break; case 2: f.args = "(s=\"" + w + "\")"; break; case 3: f.loc = "at " + w + ":3"; f.file = w; break; case 4: f.type = w; break; case 5: f.sep = string(w.size(), ' '); break; case 6: extra = "\n        x = \"" + w + "\"\n#1  g () at z.c:1\n"; break; } parse_one(f, extra);
}
// numbers of threads, frames and libraries
MC_SCENARIO(many)
{
    int n = 1 + mc::choose(mc::thorough() ? 600 : 300), kind = mc::choose(3); string t = "\n"; if (kind == 0) t += "Thread 1 (LWP 7):\n"; for (int i = 0; i < n; i++) { if (kind == 1) t += fmt("\nThread %d (LWP %d):\n#0  0x0000000000000001 in f%d () at a.c:%d\n", n - i, i, i, i + 1); else if (kind == 0) { t += fmt("#%d%s0x%016x in f%d (x=%d) at a%d.c:%d\n", i, i < 10 ? "  " : " ", i + 1, i, i, i, i + 1); if (i % 3 == 1) t += "        y = 2\n"; } }
    if (kind == 2) { t += "Thread 1 (LWP 7):\n#0  0x0000000000000001 in f0 () at a.c:1\nFrom                To                  Syms Read   Shared Object Library\n"; for (int i = 0; i < n; i++) t += fmt("0x%016x  0x%016x  Yes         /lib/l%d.so\n", i, i + 1, i); } mc::describe(quote(t));
    Exact e(t); char *err = nullptr; struct sr_stacktrace *st = sr_stacktrace_parse(SR_REPORT_GDB, e.p, &err); mc::step(); string errs = take(err); if (!st) mc::fail("rejected|" + t, "the backtrace is rejected: %s", errs.c_str()); auto *g = (struct sr_gdb_stacktrace *)st; int c = 0; string bad;
    if (kind == 0) { for (auto *x = g->threads->frames; x; x = x->next, c++) if ((int)x->number != c || S(x->function_name) != fmt("f%d", c) || S(x->source_file) != fmt("a%d.c", c) || (int)x->source_line != c + 1 || (int)x->address != c + 1) bad = fmt("frame %d", c); }
    else if (kind == 1) { for (auto *x = g->threads; x; x = x->next, c++) if ((int)x->number != n - c || (int)x->tid != c || !x->frames || S(x->frames->function_name) != fmt("f%d", c) || x->frames->next) bad = fmt("thread %d", c); }
    else for (auto *x = g->libs; x; x = x->next, c++) if ((int)x->from != c || S(x->soname) != fmt("/lib/l%d.so", c)) bad = fmt("library %d", c);
    sr_stacktrace_free(st); if (c != n || !bad.empty()) mc::fail("many|" + t, "%d parsed, the text shows %d; wrong: %s", c, n, bad.c_str()); mc::validated(); mc::nontrivial(); mc::outcome(t);
}
