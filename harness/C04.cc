// C04: kernel oopses are parsed into exactly the call chain they show.
#include "lang.h"
enum { X86, NOADDR, ARM, ARMRED, PPC, S390, HEX, S390HEX, ARMHEX, NNOT };
struct L { // one line
    enum K { FRAME, MARK, NOISE, RIP, EIP } k = FRAME; int n = X86; uint64_t a = 0, b = 0; string f, m, g, gm; uint64_t o = 0, l = 0, p = 0, q = 0; bool unreliable = false; string indent = " ", trail, pre, text; int width = 16; bool nostamp = false;
};
static const vector<string> fns = {"foo", "wdev_priv.part.8", "__do_x.isra.5.constprop.3", "_raw", "x", "from", "sys-call@plt", "0foo", "\xc3\xa9", "Tainted:", "foo[bar]", "EO", "at:"}, mods = {"", "ext4", "mac80211", "snd-hda_intel", "ext4(O)", "x", "0x1"};
static const vector<uint64_t> addrs = {0xffffffff81170b40ull, 0xc0015123, 0, 1, UINT64_MAX, 0x7fffffffffffffffull, 0xdeadbeef}, offs = {0x1c, 0, 1, UINT64_MAX, 0x1000, 0xffffffffull, 0x100000000ull}, lens = {0x2b0, 0, 1, UINT64_MAX, 0xffffffffull, 0x100000000ull};
static const vector<string> indents = {" ", "", "       ", "\t", "  \t "}, trails = {"", " ", "  \t"}, stamps = {"", "[   42.863016] ", "[16164.389384] ", "[0.000000] ", "[    1.2]", "[   42.863016]  "};
static string ad(const L &x, uint64_t v, bool angle = true) { return string(angle ? "[<" : "[") + fmt(x.width == 16 ? "%016llx" : x.width == 8 ? "%08llx" : "%llx", (unsigned long long)v) + (angle ? ">]" : "]"); }
static string fo(const string &f, uint64_t o, uint64_t l, const string &m) { return f + fmt("+0x%llx/0x%llx", (unsigned long long)o, (unsigned long long)l) + (m.empty() ? "" : " [" + m + "]"); }
static string text(const L &x)
{
    string q = x.unreliable ? "? " : ""; string s = x.pre;
    switch (x.k) { case L::NOISE: case L::MARK: return x.pre + x.text; case L::RIP: return "RIP: 0010:" + ad(x, x.a) + "  " + ad(x, x.a) + " " + q + fo(x.f, x.o, x.l, x.m) + x.trail; case L::EIP: return "EIP: " + ad(x, x.a) + " " + q + fo(x.f, x.o, x.l, x.m) + " SS:ESP 0068:f180dbf8"; default: break; }
    switch (x.n) {
    case X86: s += x.indent + ad(x, x.a) + " " + q + fo(x.f, x.o, x.l, x.m); break;
    case NOADDR: s += x.indent + q + fo(x.f, x.o, x.l, x.m); break;
    case ARM: s += x.indent + ad(x, x.a) + " (" + fo(x.f, x.o, x.l, x.m) + ") from " + ad(x, x.b) + " (" + fo(x.g, x.p, x.q, x.gm) + ")"; break;
    case ARMRED: s += x.indent + ad(x, x.a) + " " + q + "(" + x.f + ") from " + ad(x, x.b) + " (" + fo(x.g, x.p, x.q, x.gm) + ")"; break;
    case PPC: s += x.indent + ad(x, 0xc000000010f930b0ull + x.o, false) + " " + ad(x, x.a, false) + " ." + fo(x.f, x.o, x.l, x.m) + (x.unreliable ? " (unreliable)" : ""); break;
    case S390: s += x.indent + "(" + ad(x, x.a) + " " + q + fo(x.f, x.o, x.l, x.m) + ")"; break;
    case HEX: s += x.indent + ad(x, x.a) + " " + q + fmt("0x%llx", (unsigned long long)x.a); break;
    case S390HEX: s += x.indent + "(" + ad(x, x.a) + " " + q + fmt("0x%llx", (unsigned long long)x.a) + ")"; break;
    case ARMHEX: s += x.indent + ad(x, x.a) + " (" + fmt("0x%llx", (unsigned long long)x.a) + ") from " + ad(x, x.b) + " (" + fo(x.g, x.p, x.q, x.gm) + ")"; break;
    }
    return s + x.trail;
}
static Content expect(const L &x, const Val &stack)
{
    static const Kind &k = frame_kind(SR_REPORT_KERNELOOPS); Content c = empty_frame(k); bool ip = x.k == L::RIP || x.k == L::EIP; int n = ip ? (int)X86 : x.n; auto set = [&](const char *f, const Val &v) { c[k.idx(f)] = v; };
    set("reliable", N(!x.unreliable)); if (n != NOADDR) set("address", N(x.a)); if (!ip) set("special_stack", stack);
    bool hex = n == HEX || n == S390HEX || n == ARMHEX, from = n == ARM || n == ARMRED || n == ARMHEX;
    if (!hex) { set("function_name", V(x.f)); if (n != ARMRED) { set("function_offset", N(x.o)); set("function_length", N(x.l)); if (!x.m.empty()) set("module_name", V(x.m)); } }
    if (from) { set("from_address", N(x.b)); set("from_function_name", V(x.g)); set("from_function_offset", N(x.p)); set("from_function_length", N(x.q)); if (!x.gm.empty()) set("from_module_name", V(x.gm)); }
    return c;
}
// what a marker does to the alternate stack
struct Mark { const char *text; bool ends; const char *starts; };
static const vector<Mark> marks = {{"", false, nullptr}, {" <IRQ> ", false, "IRQ"}, {" <EOI> ", true, nullptr}, {" <<EOE>> ", true, nullptr}, {" <<EOE>>  <IRQ> ", true, "IRQ"}, {"<NMI>", false, "NMI"}, {" <#DF> ", false, "#DF"}, {" <EOI>", true, nullptr}};
struct Oops { string reason = "BUG: unable to handle kernel NULL pointer dereference at 0000000000000010", stamp, tail = "\n"; vector<L> lines; vector<int> mark; bool has_modules = false; vector<string> modules; string modtext; string taint; };
static string letters("POFRSMBUDAWCIELK");   // in the order of taint_off
static void run(const Oops &x, const string &what)
{
    static const Kind &k = frame_kind(SR_REPORT_KERNELOOPS); TraceData d; d.type = SR_REPORT_KERNELOOPS; d.taint.assign(NTAINT, false); ThreadData t; string s = x.stamp + x.reason; d.reason = V(s); s += "\n";
    if (x.has_modules) { s += x.stamp + x.modtext; d.has_modules = true; d.modules = x.modules; }
    if (!x.taint.empty()) { s += x.stamp + x.taint + "\n"; size_t p = x.taint.find("Tainted: "); if (p != string::npos) for (p += 9; x.taint[p] == ' ' || isupper((unsigned char)x.taint[p]); p++) { size_t q = letters.find(x.taint[p]); if (q != string::npos) d.taint[q] = true; } }
    Val stack = nul; bool ip = false; vector<Content> fr;
    for (size_t i = 0; i < x.lines.size(); i++) {
        const L &l = x.lines[i]; const Mark &m = marks[x.mark.empty() ? 0 : x.mark[i]]; if (m.ends) stack = nul; if (m.starts) stack = V(m.starts);
        s += (l.nostamp ? "" : x.stamp) + m.text + text(l) + "\n";
        if (l.k == L::FRAME) fr.push_back(expect(l, stack)); else if ((l.k == L::RIP || l.k == L::EIP) && !ip) { fr.insert(fr.begin(), expect(l, nul)); ip = true; }
    }
    s.pop_back(); s += x.tail; t.frames = fr; d.threads.push_back(t); d.raw = V(s); (void)k; compare_parse(s, d, sr_koops_stacktrace_parse, sr_koops_stacktrace_free, what);
}
static L frame(int n, bool unreliable = false, const string &f = "foo", const string &m = "") { L x; x.n = n; x.a = 0xffffffff81170b40ull; x.b = 0xc0015123; x.f = f; x.m = m; x.g = "bar"; x.o = 0x1c; x.l = 0x2b0; x.p = 0x94; x.q = 0x1f4; x.unreliable = unreliable; return x; }
static L noise(const string &t) { L x; x.k = L::NOISE; x.text = t; return x; }
static bool may_be_unreliable(int n) { return n != ARM && n != ARMHEX; }
static const vector<string> noises = {"Call Trace:", "", "Code: 48 8b 45 <f0> 00", "---[ end trace 4e37b1eb61ae9844 ]---", "CR2: 0000000000000010", "RSP: 0018:ffff88  EFLAGS: 00010246", " ffff88003a0c5d98 0000000000000082 ffff88003a0c5fd8", "WARNING: at mm/page_alloc.c:2204 foo+0x1/0x2()", "RIP  [<ffffffff81171b02>] find_get_entry+0x42/0xc0", "EIP is at foo+0x3/0x5 [wl]", "EIP: 0060:[<f8e40765>] EFLAGS: 00210246 CPU: 1", " #0:  (&p->lock){-.-.}, at: [<c00b275c>] try_to_wake_up+0x2c/0x388", "softirqs last disabled at (654757): [<ffffffff81>] foo+0x1/0x2", "IP: [<ffffffff81>] foo+0x1/0x2", " r7:df912310 r6:df912140", "NIP [c000000008068dfc] .eeh_dev_check_failure+0x27c/0x390", "pc : [<c0015>]    lr : [<c0016>]    psr: 60000013", "foo+0x1 bar", "[<ffffffff81>] foo", "RIP: 0033:0x7fd1f18192fb", "Not tainted 3.4"};
static L choose_frame()
{
    L x = frame(mc::choose_dev(NNOT)); x.a = alt(addrs); x.f = alt(fns); x.o = alt(offs); x.l = alt(lens); x.m = alt(mods); x.unreliable = may_be_unreliable(x.n) && maybe(); x.indent = alt(indents); x.trail = alt(trails); x.width = vector<int>{16, 8, 0}[mc::choose_dev(3)];
    if (x.n == ARM || x.n == ARMRED || x.n == ARMHEX) { x.b = alt(addrs); static const vector<string> g = {"bar", "foo.part.8", "x"}; x.g = alt(g); x.p = alt(offs); x.q = alt(lens); x.gm = alt(mods); }
    return x;
}
static bool fits(const L &x) { return !(x.n == NOADDR && x.f == "0x1"); }
MC_SCENARIO(frames)
{
    int n = 1 + mc::choose(mc::thorough() ? 4 : 3); mc::set_dev_bound(mc::thorough() ? (n > 2 ? 3 : 4) : n > 2 ? 2 : 3); Oops x; x.stamp = alt(stamps); for (int i = 0; i < n; i++) { x.lines.push_back(choose_frame()); x.mark.push_back(mc::choose_dev((int)marks.size())); if (!fits(x.lines.back())) mc::prune(); if (mc::choose_dev(2)) { x.lines.push_back(noise(alt(noises))); x.mark.push_back(0); } } if (maybe()) x.tail = ""; run(x, "frames");
}
// every sequence of line kinds
MC_SCENARIO(patterns)
{
    static vector<std::pair<L, int>> al; if (al.empty()) { al = {{frame(X86), 0}, {frame(X86, true, "u", "m"), 0}, {frame(NOADDR, false, "n"), 0}, {frame(ARM), 0}, {frame(ARMRED), 0}, {frame(PPC, true), 0}, {frame(S390), 0}, {frame(HEX), 0}, {frame(X86, false, "i"), 1}, {frame(X86, false, "e"), 2}, {frame(X86, true, "b"), 4}, {noise(""), 1}, {noise(""), 3}, {noise("Call Trace:"), 0}, {frame(X86, false, "ip"), 0}, {frame(X86, true, "ip2", "m"), 0}, {noise(""), 0}}; al[14].first.k = L::RIP; al[15].first.k = L::EIP; }
    Oops x; int n = 1 + mc::choose(mc::thorough() ? 5 : 4); for (int i = 0; i < n; i++) { auto &p = mc::pick(al); x.lines.push_back(p.first); x.mark.push_back(p.second); } if (mc::flip()) x.stamp = stamps[1]; run(x, "patterns");
}
// full product for one frame line of every notation
MC_SCENARIO(one_frame)
{
    L x = frame(mc::choose(NNOT)); x.f = mc::pick(fns); x.m = mc::pick(mods); x.unreliable = may_be_unreliable(x.n) && mc::flip(); x.indent = indents[mc::choose(mc::thorough() ? 5 : 3)]; x.trail = trails[mc::choose(mc::thorough() ? 3 : 2)]; x.width = mc::flip() ? 8 : 16; x.a = addrs[mc::choose(mc::thorough() ? 7 : 2)]; Oops o; o.stamp = stamps[mc::choose(mc::thorough() ? 6 : 2)]; o.lines = {x}; if (!fits(x)) mc::prune(); run(o, "one frame");
}
MC_SCENARIO(numbers_)
{
    L x = frame(mc::choose(NNOT)); int w = mc::thorough() ? 7 : 4; x.a = addrs[mc::choose(w)]; x.o = offs[mc::choose(w)]; x.l = lens[mc::choose(w - mc::thorough())]; if (x.n == ARM || x.n == ARMRED || x.n == ARMHEX) { x.b = addrs[mc::choose(w)]; x.p = offs[mc::choose(w)]; x.q = lens[mc::choose(w - mc::thorough())]; } x.width = mc::thorough() ? vector<int>{16, 8, 0}[mc::choose(3)] : 0; Oops o; o.lines = {x}; run(o, "numbers");
}
MC_SCENARIO(bits)
{
    int b = mc::choose(64), w = mc::choose(4), n = mc::choose(NNOT); bool inv = mc::flip(); uint64_t v = inv ? ~(1ull << b) : 1ull << b; L x = frame(n); if (w == 0) x.a = v; else if (w == 1) x.o = v; else if (w == 2) x.l = v; else x.b = x.p = x.q = v; x.width = 0; Oops o; o.lines = {x}; run(o, "bits");
}
// noise never becomes a frame nor hides one
MC_SCENARIO(noise_lines)
{
    Oops x; x.stamp = stamps[mc::choose(mc::thorough() ? 6 : 3)]; auto add = [&](const L &l) { x.lines.push_back(l); }; int n = mc::choose((int)noises.size()), m = mc::choose((int)noises.size()), at = mc::choose(3); L f = frame(mc::choose(NNOT)); if (at == 0) add(noise(noises[n])); add(f); if (at != 2) add(noise(noises[m])); add(frame(X86, true, "g")); if (at) add(noise(noises[n])); if (at == 2) add(noise(noises[m])); if (mc::flip()) x.tail = ""; run(x, "noise");
}
// instruction pointer lines in every position
MC_SCENARIO(ip)
{
    Oops x; x.stamp = stamps[mc::choose(2)]; int n = mc::choose(mc::thorough() ? 4 : 3); L r = frame(X86, mc::flip(), fns[mc::choose(mc::thorough() ? 13 : 6)], mods[mc::choose(mc::thorough() ? 7 : 3)]); r.k = mc::flip() ? L::EIP : L::RIP; r.width = r.k == L::EIP ? 8 : 16; r.a = addrs[mc::choose(2)]; L r2 = frame(X86, false, "second"); r2.k = mc::flip() ? L::EIP : L::RIP; int p1 = mc::choose(n + 1), p2 = mc::choose(n + 2) - 1; bool sp = mc::flip();
    for (int i = 0; i <= n; i++) { if (i == p1) { x.lines.push_back(r); x.mark.push_back(0); } if (i == p2) { x.lines.push_back(r2); x.mark.push_back(0); } if (i < n) { x.lines.push_back(frame(X86, false, fmt("f%d", i))); x.mark.push_back(sp && i == 0 ? 1 : 0); } } if (p2 >= 0 && p2 == p1) { }
    if (mc::flip()) x.tail = ""; run(x, "ip");
}
// alternate stacks: every sequence of markers, on lines of their own or before a frame
MC_SCENARIO(stacks)
{
    Oops x; int n = 1 + mc::choose(mc::thorough() ? 5 : 3); if (mc::flip()) x.stamp = stamps[1]; for (int i = 0; i < n; i++) { bool own = mc::flip(); x.lines.push_back(own ? noise("") : frame(X86, i % 2, fmt("f%d", i))); x.mark.push_back(mc::choose((int)marks.size())); } x.lines.push_back(frame(NOADDR, false, "end")); x.mark.push_back(0); run(x, "stacks");
}
// module lists: wrapped anywhere, with whatever follows
static const vector<string> after = {"Pid: 123, comm: x\n", "CPU: 0 PID: 1\n", "CPU 1 \n", "irq event stamp: 77\n", "CR2: 0000000000000010\n", "[    1.000000] x\n", ""};
static const vector<string> modnames = {"ext4", "a", "snd_hda_intel", "i915(P)", "wl(PO+)", "nf-nat", "Pid", "\xc3\xa9"};
static void modules(Oops &x, const vector<string> &m, const vector<std::pair<int, int>> &wraps, const string &sep, const string &unloaded, const string &aft, bool endspace)
{
    x.has_modules = true; x.modules = m; string s = "Modules linked in:"; for (auto &n : m) s += (s.back() == ':' ? " " : sep) + n; vector<size_t> cut; size_t base = strlen("Modules linked in: ");
    for (auto &w : wraps) { size_t p = base; for (int i = 0; i < w.first; i++) p += m[i].size() + sep.size(); p += w.second; if (p > base && p < s.size()) cut.push_back(p); } // the line breaks before the character at p
    std::sort(cut.rbegin(), cut.rend()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end()); for (size_t p : cut) s.insert(p, "\n");
    if (endspace) s += " "; if (!unloaded.empty()) s += (endspace ? "" : " ") + unloaded; s += "\n"; x.modtext = s + aft;
}
MC_SCENARIO(module_lists)
{
    int n = mc::choose(mc::thorough() ? 5 : 4); vector<string> m; for (int i = 0; i < n; i++) m.push_back(mc::pick(modnames)); Oops x; vector<std::pair<int, int>> w; int nw = n ? mc::choose(2) : 0; if (nw) { int i = mc::choose(n); w.push_back({i, mc::choose((int)m[i].size() + 2)}); }
    if (mc::thorough() && nw && mc::flip()) { int i = mc::choose(n); w.push_back({i, mc::choose((int)m[i].size() + 2)}); if (n > 3) mc::prune(); }
    static const vector<string> un = {"", "[last unloaded: foo]"}; string u = un[mc::choose(2)], aft = mc::pick(after); for (auto &q : w) { if (q.second == 0 && q.first == 0) mc::prune(); string rest; for (int i = q.first; i < n; i++) rest += m[i] + " "; rest = rest.substr(std::min((size_t)q.second, rest.size())); if (!rest.compare(0, 4, "Pid ")) {} }
    modules(x, m, w, " ", u, aft, mc::flip()); if (aft.empty() && u.empty()) { x.stamp = "[   42.863016] "; } x.lines = {noise("Call Trace:"), frame(X86)}; run(x, "modules");
}
MC_SCENARIO(many_modules)
{
    int n = mc::choose(mc::thorough() ? 200 : 90), style = mc::choose(3); vector<string> m; for (int i = 0; i < n; i++) m.push_back(fmt("mod_%d", i)); vector<std::pair<int, int>> w; if (style) for (int i = 10; i < n; i += 10) w.push_back({i, style == 1 ? 0 : 2}); Oops x; modules(x, m, w, " ", "", "Pid: 1\n", false); x.lines = {frame(X86)}; run(x, "many modules");
}
// taint flags
MC_SCENARIO(taints)
{
    string set; if (mc::thorough()) { int v = mc::choose(1 << 16); for (int i = 0; i < 16; i++) if (v >> i & 1) set += letters[i]; } else { int a = mc::choose(17), b = mc::choose(17), c = mc::choose(17); if (b && b <= a) mc::prune(); if (c && (c <= b || !b)) mc::prune(); for (int i : {a, b, c}) if (i) set += letters[i - 1]; }
    int form = mc::choose(5); string t = "Pid: 123, comm: x "; if (form < 4) t += "Tainted: "; static const string order = "PFSRMBUDAWCIOELK"; string body; if (form == 0) { body = set.find('P') == string::npos ? "G" : ""; for (char c : order) body += set.find(c) == string::npos ? ' ' : c; } else if (form == 1) body = "G" + set; else if (form == 2) { for (auto i = set.rbegin(); i != set.rend(); ++i) body += string(" ") + *i; } else if (form == 3) body = set + "--------"; else { t += "Not tainted"; }
    t += body + vector<string>{"3.6.1 #1", " (2.6.27)", " 3.10.0-54.el7.x86_64 W", ""}[mc::choose(4)]; Oops x; x.taint = t; x.lines = {frame(X86)}; if (mc::flip()) x.stamp = stamps[1]; run(x, "taints");
}
MC_SCENARIO(many)
{
    int n = 1 + mc::choose(mc::thorough() ? 300 : 120), kind = mc::choose(3); Oops x; for (int i = 0; i < n; i++) { x.lines.push_back(frame(kind ? i % NNOT : (int)X86, kind == 0 && i % 3 == 0, fmt("f%d", i), i % 4 == 1 ? "m" : "")); x.mark.push_back(kind == 2 ? i % (int)marks.size() : 0); } if (kind == 1) x.stamp = stamps[2]; run(x, "many");
}
MC_SCENARIO(whole)
{
    Oops x; x.stamp = mc::pick(stamps); if (mc::flip()) { modules(x, {"ext4", "wl(P)"}, {}, " ", mc::flip() ? "[last unloaded: z]" : "", x.stamp.empty() ? "CPU: 0 PID: 1\n" : "", mc::flip()); } static const vector<string> ta = {"", "CPU: 0 PID: 1 Comm: x Tainted: G        W  O 3.4 #1", "Pid: 1, comm: y Not tainted 3.4"}; x.taint = mc::pick(ta); bool rip = mc::flip(), eip = mc::flip(), brk = mc::flip(); L r = frame(X86, false, "ip"); r.k = L::RIP; auto add = [&](const L &l, int m = 0) { x.lines.push_back(l); x.mark.push_back(m); }; if (rip) add(r); if (mc::flip()) add(noise("RSP: 0018:ffff88")); add(noise("Call Trace:")); int irq = mc::choose(3); add(frame(X86, false, "a"), irq ? 1 : 0); add(frame(X86, true, "b", "ext4"), irq == 2 ? 2 : 0); add(frame(NOADDR)); r.k = L::EIP; if (eip) add(r);
    if (brk) { add(noise("Last Breaking-Event-Address:")); add(noise(" [<000003ff8086d036>] will_oops_init+0x36/0x1000 [will_oops]")); } x.tail = mc::flip() ? "\n" : ""; static const vector<string> reasons = {"BUG: x", "", "general protection fault: 0000 [#1] SMP", "kernel BUG at x.c:3!", "WARNING: at a.c:3 f+0x1/0x2()"}; x.reason = mc::pick(reasons); run(x, "whole");
}
// every short text in each place of a line
MC_SCENARIO(words)
{
    int N = mc::thorough() ? 4 : 3; L x = frame(mc::choose(HEX)); if (may_be_unreliable(x.n)) x.unreliable = mc::flip(); Oops o; if (mc::flip()) o.stamp = stamps[1]; int where = mc::choose(4); string w;
    if (where == 0) { x.f = word({"a", "0", "_", ".", "-", "@", "x", ":", "$"}, 1, N); if (x.f[0] == '.') mc::prune(); }
    if (where == 1) x.m = word({"a", "0", "_", ".", "-", "(O)", "x"}, 1, N);
    if (where == 2) { if (x.n != ARM && x.n != ARMRED) mc::prune(); x.g = word({"a", "0", "_", ".", "-", "@", "x", ":"}, 1, N); }
    if (where == 3) { if (x.n != X86) mc::prune(); o.reason = word({"a", ":", "[", "]", "<", "#", "(", " ", " f+0x1/0x2()", "1"}, 1, N); }
    o.lines = {x, frame(X86, true, "u", "m")}; for (auto &q : {x.f, x.g}) if (!q.compare(0, 2, "0x")) mc::prune(); run(o, "words");
}
MC_SCENARIO(lengths)
{
    L x = frame(mc::choose(HEX)); Oops o; string w(size_near_limits(), 'a'); switch (mc::choose(6)) { case 0: x.f = w; break; case 1: x.m = w; break; case 2: if (x.n != ARM && x.n != ARMRED) mc::prune(); x.g = w; break; case 3: o.reason = w; break; case 4: x.indent = string(w.size(), ' '); break; case 5: modules(o, {"a", w, "b"}, {}, " ", "", "Pid: 1\n", false); break; } bool noise_first = mc::flip(); if (noise_first) o.lines.push_back(noise(string(w.size(), '-'))); o.lines.push_back(x); o.lines.push_back(frame(X86, true, "u", "m")); run(o, "lengths");
}
