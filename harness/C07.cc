// C07: Ruby backtraces are parsed into exactly the frames they show.
#include "lang.h"
struct F { string file, fn; uint32_t line, rescue, block; };
static const vector<string> files = {"/usr/share/ruby/x.rb", "(eval)", "/home/user/x.rb", "-e", "a:b.rb", "<internal:kernel>", "x.rb:3:in ", "/home/u", "12", "a b'c.rb", ":", "\xc3\xa9.rb", "C:/x.rb", "from x.rb", "/home/u/v:1"};
static const vector<string> fns = {"func", "<main>", "<top (required)>", "<class:Foo>", "<<", "<=>", ">", ">=", "<", "<=", "[]=", "a?", "b!", "c=", "block", "rescue", "blocks in f", "rescue infoo", "block (x) in f", "<a", "a>", "singleton class", "!~", "`", "+@", "x in y", "<module:A::B>", "each_with_index", "\xc3\xa9", "method_missing", "<>", "=>"};
static const vector<uint32_t> lines = {13, 0, 1, 4294967295u, 2147483648u, 100};
static F choose_frame() { F f; f.file = alt(files); f.line = alt(lines); f.fn = alt(fns); f.rescue = vector<uint32_t>{0, 1, 2, 3}[mc::choose_dev(4)]; f.block = vector<uint32_t>{0, 1, 2, 3, 10, 4294967295u}[mc::choose_dev(6)]; if (f.fn == "block (x) in f") f.fn = "blk"; return f; }
static string text(const F &f)
{
    string s = f.file + fmt(":%u:in `", f.line); for (uint32_t i = 0; i < f.rescue; i++) s += "rescue in "; if (f.block == 1) s += "block in "; else if (f.block) s += fmt("block (%u levels) in ", f.block); return s + f.fn + "'";
}
static Content expect(const F &f)
{
    static const Kind &k = frame_kind(SR_REPORT_RUBY); Content c = empty_frame(k); bool sp = f.fn.size() > 2 && f.fn[0] == '<' && isalpha((unsigned char)f.fn[1]) && f.fn.back() == '>';
    c[k.idx("file_name")] = V(ref_anon(f.file)); c[k.idx("file_line")] = N(f.line); c[k.idx("special_function")] = N(sp); c[k.idx("function_name")] = V(sp ? f.fn.substr(1, f.fn.size() - 2) : f.fn); c[k.idx("block_level")] = N(f.block); c[k.idx("rescue_level")] = N(f.rescue); return c;
}
static const vector<string> msgs = {"message ", "", "a\nb\nc ", "x: y (z) ", "tab\there ", "\tfrom tab ", "\n\tfrom nowhere ", "(A) ", "( ", ") ", "undefined method `x' for nil:NilClass ", "in `f': msg ", "\n", "\xc3\xa9 ", ")\n ", "line\n\tindented\n "};
static const vector<string> names = {"NoMethodError", "Wrap::MyException", "E", "#<Class:0x0000>", "\xc3\x89", "a b", "NameError: x"};
static void run(const vector<F> &fr, const string &msg, const string &name, bool newline)
{
    TraceData d; d.type = SR_REPORT_RUBY; d.exception = V(name); ThreadData t; string s; if (msg.find(")\n\tfrom ") != string::npos) mc::prune();
    for (size_t i = 0; i < fr.size(); i++) { s += (i ? "\tfrom " : "") + text(fr[i]) + (i ? i + 1 < fr.size() || newline ? "\n" : "" : ": " + msg + "(" + name + ")\n"); t.frames.push_back(expect(fr[i])); }
    d.threads.push_back(t); compare_parse(s, d, sr_ruby_stacktrace_parse, sr_ruby_stacktrace_free, fmt("%zu frames", fr.size()));
}
MC_SCENARIO(frames)
{
    int n = 1 + mc::choose(mc::thorough() ? 4 : 3); mc::set_dev_bound(mc::thorough() ? (n > 2 ? 3 : 4) : n > 2 ? 2 : 3); vector<F> fr; for (int i = 0; i < n; i++) fr.push_back(choose_frame()); string msg = alt(msgs), name = alt(names); run(fr, msg, name, !maybe());
}
// the qualifiers of every frame: every pattern over longer traces
MC_SCENARIO(levels)
{
    int n = 1 + mc::choose(mc::thorough() ? 5 : 4); vector<F> fr; for (int i = 0; i < n; i++) { int c = mc::choose(mc::thorough() ? 9 : 7); fr.push_back(F{"x.rb", c == 6 ? "<main>" : c == 7 ? "<<" : "f", (uint32_t)i + 1, (uint32_t)(c == 6 ? 1 : c % 3), (uint32_t)(c == 6 ? 2 : c / 3)}); } run(fr, "m ", "E", mc::flip());
}
// full product of the alternatives of one frame, first or later in the trace
MC_SCENARIO(one_frame)
{
    F f; f.file = mc::pick(files); f.fn = mc::pick(fns); f.line = lines[mc::choose(mc::thorough() ? (int)lines.size() : 2)]; f.rescue = mc::choose(4); f.block = vector<uint32_t>{0, 1, 2, 3, 10, 4294967295u}[mc::choose(6)]; int at = mc::choose(3); if (f.fn == "block (x) in f") f.fn = "blk";
    F o{"o.rb", "g", 2, 0, 0}; run(at == 0 ? vector<F>{f, o} : at == 1 ? vector<F>{o, f} : vector<F>{o, f, o}, "m ", "E", true);
}
MC_SCENARIO(ends)
{
    string msg = mc::pick(msgs), msg2 = mc::pick(msgs), name = mc::pick(names); int n = 1 + mc::choose(3); bool nl = mc::flip(); vector<F> fr; for (int i = 0; i < n; i++) fr.push_back(F{"x.rb", "f", (uint32_t)i, 0, (uint32_t)i}); run(fr, msg + msg2, name, nl);
}
MC_SCENARIO(many)
{
    int n = 1 + mc::choose(mc::thorough() ? 400 : 150); bool nl = mc::flip(); vector<F> fr; for (int i = 0; i < n; i++) fr.push_back(F{fmt("f%d.rb", i), fmt("g%d", i), (uint32_t)i, (uint32_t)i % 3, (uint32_t)i}); run(fr, "m ", "E", nl);
}
MC_SCENARIO(deep)
{
    uint32_t r = mc::choose(mc::thorough() ? 200 : 60), b = mc::choose(mc::thorough() ? 120 : 40); run({F{"x.rb", "f", 1, r, b}, F{"x.rb", "g", 2, b, r}}, "m ", "E", true);
}
MC_SCENARIO(numbers)
{
    uint64_t p = 1; int d = mc::choose(10); while (d--) p *= 10; int64_t v = (int64_t)p * (1 + mc::choose(9)) + mc::choose(3) - 1; if (v < 0 || v > UINT32_MAX) mc::prune(); bool blk = mc::flip(); run({F{"x.rb", "f", blk ? 1u : (uint32_t)v, 0, blk ? (uint32_t)v : 1u}}, "m ", "E", true);
}
// every short text in each place of a backtrace
MC_SCENARIO(words)
{
    int N = mc::thorough() ? 5 : 4; F f{"x.rb", "f", 3, 0, 0}, g{"y.rb", "g", 4, 0, 1}; string msg = "m ", name = "E"; int where = mc::choose(4); bool pos = mc::flip();
    if (where == 0) { f.file = word({"a", ":", "/", " ", "(", "'", "1", ".", "/home/"}, 1, N); if (f.file[0] == ' ') mc::prune(); }
    if (where == 1) f.fn = word({"a", "<", ">", "=", ":", " ", "(", "?", "B"}, 1, N);
    if (where == 2) msg = word({"a", "(", ")", "\n", " ", "\t", ":", "`"}, 0, N) + " ";
    if (where == 3) { name = word({"A", ":", "b", "#", "<", ">", "0", "_"}, 1, N); }
    run(pos ? vector<F>{g, f} : vector<F>{f, g}, msg, name, mc::flip());
}
MC_SCENARIO(lengths)
{
    F f{"x.rb", "f", 3, 0, 0}, g{"y.rb", "g", 4, 0, 1}; string msg = "m ", name = "E", w(size_near_limits(), 'a'); int where = mc::choose(5); if (where == 0) f.file = w; if (where == 1) f.fn = w; if (where == 2) msg = w + " "; if (where == 3) name = w; if (where == 4) f.fn = "<" + w + ">"; run(mc::flip() ? vector<F>{g, f} : vector<F>{f, g}, msg, name, true);
}
