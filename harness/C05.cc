// C05: Python tracebacks are parsed into exactly the frames they show.
#include "lang.h"
struct F { string file, fn, src, note; uint32_t line; bool has_fn, has_src; };
static const vector<string> files = {"/usr/lib/python3/x.py", "<string>", "/home/user/x.py", "x.py", "<frozen importlib._bootstrap>", "x, line 3, in f.py", "<", "<a", "b>", "<>", "/home/u", "/home/<u>/a b.py", "\xc3\xa9.py", "  File .py"};
static const vector<string> fns = {"f", "<module>", "<lambda>", "<", ">", "<x", "y>", "<>", "a b", "g:h", "f, in g", "\xc3\xa9", "__init__", "\"", "syntax", "None"};
static const vector<string> srcs = {"pass", "x = y: z", "File \"x\", line 1, in f", "^", "~a", "raise E(\"a\")", "Traceback (most recent call last):", "# [Previous line repeated 3 more times]", "\xc3\xa9 = 1", "x = '\\n'", "a ", "^ ~", "KeyError: 1"};
static const vector<string> notes = {"", "    ^\n", "    ~~~~^^^\n", "        ^\n", "     ^^^^ ^\n", "  [Previous line repeated 996 more times]\n", "        y)\n", "    ~~~~~^\n        y)\n        ^^\n", "    ^\n  [Previous line repeated 1 more time]\n"};
static const vector<uint32_t> lines = {7, 0, 1, 4294967295u, 2147483648u, 100};
static F choose_frame()
{
    F f; f.file = alt(files); f.line = alt(lines); f.has_fn = !maybe(); if (f.has_fn) f.fn = alt(fns); f.has_src = !maybe(); if (f.has_src) { f.src = alt(srcs); f.note = alt(notes); } return f;
}
static string text(const F &f) { return "  File \"" + f.file + fmt("\", line %u", f.line) + (f.has_fn ? ", in " + f.fn : "") + "\n" + (f.has_src ? "    " + f.src + "\n" : "") + f.note; }
static Val strip(const string &s, bool &special) { special = !s.empty() && s[0] == '<' && s.back() == '>'; return V(special ? s.substr(1, s.size() - 2) : s); }
static Content expect(const F &f)
{
    static const Kind &k = frame_kind(SR_REPORT_PYTHON); Content c = empty_frame(k); bool sp;
    c[k.idx("file_name")] = strip(f.file, sp); c[k.idx("file_name")].s = ref_anon(c[k.idx("file_name")].s); c[k.idx("special_file")] = N(sp); c[k.idx("file_line")] = N(f.line);
    if (f.has_fn) { c[k.idx("function_name")] = strip(f.fn, sp); c[k.idx("special_function")] = N(sp); } else { c[k.idx("function_name")] = V("syntax"); c[k.idx("special_function")] = N(1); }
    if (f.has_src) c[k.idx("line_contents")] = V(f.src);
    return c;
}
static const vector<string> heads = {"", "\n", "x.py:1:f:KeyError: 1\n\n", "a \"b\"\nc:\n", "  File \"no\", line 1, in no\n"};
static const vector<string> names = {"KeyError", "a.b.C", "E", "\xc3\x89rror", "A B", "x-y", "None", "SyntaxError"};
static const vector<string> tails = {": msg\n", "\n", ": a\nb: c\n", ": \n", ":\n", ": msg", "", ": msg\n\nLocal variables in innermost frame:\nx: 1\n", "\n\n\n", ": (1, 'x')\n  File \"a\", line 1, in b\n", ": Traceback (most recent call last):\n"};
static void run(const vector<F> &fr, const string &head, const string &name, const string &tail, bool header = true)
{
    TraceData d; d.type = SR_REPORT_PYTHON; d.exception = V(name); ThreadData t; string s = head + (header ? "Traceback (most recent call last):\n" : "");
    for (auto &f : fr) { s += text(f); t.frames.insert(t.frames.begin(), expect(f)); }
    d.threads.push_back(t); compare_parse(s + name + tail, d, sr_python_stacktrace_parse, sr_python_stacktrace_free, fmt("%zu frames", fr.size()));
}
// every combination of the optional parts in up to N frames, within the deviation bound
MC_SCENARIO(frames)
{
    int n = 1 + mc::choose(mc::thorough() ? 4 : 3); mc::set_dev_bound(mc::thorough() ? (n > 2 ? 3 : 4) : n > 2 ? 2 : 3); vector<F> fr; for (int i = 0; i < n; i++) fr.push_back(choose_frame());
    string head = alt(heads), name = alt(names), tail = alt(tails); run(fr, head, name, tail);
}
// the presence of the optional parts: every pattern over longer traces
MC_SCENARIO(patterns)
{
    struct P { const char *fn, *src, *note; }; static const vector<P> al = {{"f", "x()", ""}, {"f", nullptr, ""}, {"<module>", "x()", "    ^\n"}, {nullptr, "x(", "     ^\n"}, {nullptr, nullptr, ""}, {"f", "f()", "    ~~^\n  [Previous line repeated 3 more times]\n"}, {"g", "g(", "        1)\n"}};
    int n = 1 + mc::choose(mc::thorough() ? 6 : 4); vector<F> fr; for (int i = 0; i < n; i++) { const P &p = mc::pick(al); fr.push_back(F{i % 2 ? "<stdin>" : "x.py", p.fn ? p.fn : "", p.src ? p.src : "", p.note, (uint32_t)i + 1, p.fn != nullptr, p.src != nullptr}); }
    run(fr, mc::flip() ? "\n" : "", "E", mc::flip() ? ": m\n" : "\n");
}
// full product of every alternative of one frame
MC_SCENARIO(one_frame)
{
    F f; f.file = mc::pick(files); f.line = lines[mc::choose(mc::thorough() ? (int)lines.size() : 2)]; int fn = mc::choose((int)fns.size() + 1); f.has_fn = fn > 0; if (fn) f.fn = fns[fn - 1]; int src = mc::choose((int)srcs.size() + 1); f.has_src = src > 0; if (src) { f.src = srcs[src - 1]; f.note = mc::pick(notes); }
    run({f}, "", "E", ": m\n");
}
// header, exception name and what follows: full product
MC_SCENARIO(ends)
{
    string head = mc::pick(heads), name = mc::pick(names), tail = mc::pick(tails); F f{"x.py", "f", "", "", 3, true, false}; switch (mc::choose(4)) { case 1: f.has_src = true; f.src = "y"; break; case 2: f.has_src = true; f.src = "y"; f.note = "    ^\n"; break; case 3: f.has_fn = false; f.has_src = true; f.src = "y("; f.note = "     ^\n"; break; } int n = 1 + mc::choose(2); run(vector<F>(n, f), head, name, tail);
}
// the syntax error form without a traceback header
MC_SCENARIO(syntax_error)
{
    string file = mc::pick(files); uint32_t line = mc::pick(lines); F f{file, "", mc::pick(srcs), "", line, false, true}; f.note = vector<string>{"    ^\n", "          ^\n", ""}[mc::choose(3)];
    string head = mc::flip() ? "x.py: " : ""; string name = mc::pick(names), tail = mc::pick(tails); if (tail.find("Traceback (most") != string::npos || f.src.find("Traceback (most") != string::npos) mc::prune();
    run({f}, head + "invalid syntax (" + file + fmt(", line %u)\n\n", line), name, tail, false);
}
// number of frames
MC_SCENARIO(many)
{
    int n = 1 + mc::choose(mc::thorough() ? 400 : 120), kind = mc::choose(3); vector<F> fr; for (int i = 0; i < n; i++) fr.push_back(F{fmt("f%d.py", i), fmt("g%d", i), fmt("s%d", i), kind == 2 ? "    ^\n" : "", (uint32_t)i, true, kind > 0}); run(fr, "", "E", ": m\n");
}
// line numbers of every length
MC_SCENARIO(numbers)
{
    uint64_t p = 1; int d = mc::choose(10); while (d--) p *= 10; int64_t v = (int64_t)p * (1 + mc::choose(9)) + mc::choose(3) - 1; if (v < 0 || v > UINT32_MAX) mc::prune(); run({F{"x.py", "f", "s", "", (uint32_t)v, true, true}}, "", "E", ": m\n");
}
// every short text in each place of a trace
MC_SCENARIO(words)
{
    int N = mc::thorough() ? 5 : 4; F f{"x.py", "f", "s", "", 3, true, true}; string name = "E", tail = ": m\n"; int where = mc::choose(4), pos = mc::choose(2);
    if (where == 0) f.file = word({"<", ">", "a", " ", ",", "/", "/home/", "."}, 1, N);
    if (where == 1) f.fn = word({"<", ">", "a", " ", ",", ":", "\"", "."}, 1, N);
    if (where == 2) { f.src = word({"^", "~", "a", " ", ":", "\"", "#", "  File "}, 1, N); if (f.src[0] == ' ') mc::prune(); f.note = mc::flip() ? "    ^\n" : ""; }
    if (where == 3) { name = word({"a", ".", "<", ">", "_", "1", " ", "-"}, 1, N); if (name[0] == ' ') mc::prune(); tail = mc::flip() ? ": m\n" : "\n"; }
    F g{"y.py", "g", "t", "", 4, true, true}; run(pos ? vector<F>{g, f} : vector<F>{f, g}, "", name, tail);
}
MC_SCENARIO(lengths)
{
    F f{"x.py", "f", "s", "", 3, true, true}, g{"y.py", "g", "t", "", 4, true, true}; int where = mc::choose(7); string w(size_near_limits(), "a<"[mc::choose(2)]), name = "E", tail = ": m\n", head; if (where == 0) f.file = w; if (where == 1) f.fn = w; if (where == 2) f.src = w; if (where == 3) name = w; if (where == 4) tail = ": " + w + "\n"; if (where == 5) head = w + "\n"; if (where == 6) f.note = "    " + string(w.size(), '^') + "\n"; run(mc::flip() ? vector<F>{g, f} : vector<F>{f, g}, head, name, tail);
}
