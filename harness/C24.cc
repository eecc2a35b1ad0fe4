// C24: the identity of the operating system is read exactly from release files.
#include "common.h"
typedef vector<std::pair<string, string>> Pairs;
// reference reading of one value: quotes group, a backslash keeps the next character
static string unquote(const string &s, bool &vague)
{
    string r; char q = 0; for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (c == '\\') { if (q == '\'' || i + 1 == s.size()) vague = true; else r += s[++i]; } else if (q ? c == q : (c == '"' || c == '\'')) q = q ? 0 : c; else r += c; } if (q) vague = true; return r;
}
static Pairs ref(const string &t, bool &vague)
{
    Pairs p; size_t i = 0; while (i < t.size()) { size_t n = t.find('\n', i); string l = t.substr(i, n == string::npos ? n : n - i); i = n == string::npos ? t.size() : n + 1; size_t e = l.find('='); if (l.empty() || l[0] == '#' || e == string::npos || e == 0) continue; p.push_back({l.substr(0, e), unquote(l.substr(e + 1), vague)}); } return p;
}
static void collect(char *k, char *v, void *d) { ((Pairs *)d)->push_back({S(k), S(v)}); g_free(k); g_free(v); }
static string show(const Pairs &p) { string s; for (auto &x : p) s += quote(x.first) + "=" + quote(x.second) + " "; return s; }
static void pairs_of(const string &t) { Pairs got; bool vague = false; Pairs want = ref(t, vague); Exact e(t); sr_parse_os_release(e.p, collect, &got); mc::step(); if (vague) return; mc::validated(); if (got != want) mc::fail("pairs|" + quote(t), "%s is read as %s, expected %s", quote(t).c_str(), show(got).c_str(), show(want).c_str()); mc::outcome(show(got)); }
// every text over a small alphabet, assignment by assignment
MC_SCENARIO(every_text) { static const char al[] = "A=#\n\"'\\"; int len = mc::choose((mc::thorough() ? 8 : 7) + 1); string t; for (int i = 0; i < len; i++) t += al[mc::choose(7)]; mc::describe(quote(t)); pairs_of(t); mc::nontrivial(); }
// ---- identity
struct Id { string name, version, cpe, variant; bool ok; };
static Id ref_id(const Pairs &p) { Id r; bool raw = false; for (auto &x : p) { if (x.first == "ID") r.name = x.second; if (x.first == "VERSION_ID") r.version = x.second; if (x.first == "CPE_NAME") r.cpe = x.second; if (x.first == "VARIANT_ID") r.variant = x.second; if (x.first == "VERSION") raw = x.second.find("(Rawhide)") != string::npos; } if (raw) r.version = "rawhide"; r.ok = !r.name.empty() && !r.version.empty(); return r; }
static string dump(const Id &i) { return i.ok ? quote(i.name) + " " + quote(i.version) + " cpe " + quote(i.cpe) + " variant " + quote(i.variant) : "rejected"; }
static void identity(const string &t, const Id &w)
{
    Exact e(t); Id g; struct sr_operating_system *os = sr_operating_system_new(); g.ok = sr_operating_system_parse_etc_os_release(e.p, os); mc::step(); auto s = [](const char *x) { return x ? string(x) : string(); }; g.name = s(os->name); g.version = s(os->version); g.cpe = s(os->cpe); g.variant = s(os->variant); bool other = os->architecture || os->desktop || os->uptime; sr_operating_system_free(os); mc::validated();
    if (dump(g) != dump(w)) mc::fail("identity|" + quote(t), "%s is read as %s, expected %s", quote(t).c_str(), dump(g).c_str(), dump(w).c_str()); if (other) mc::fail("other fields|" + quote(t), "fields that the text does not give are set");
    { mc::HeapRegion h; os = sr_operating_system_new(); sr_operating_system_parse_etc_os_release(e.p, os); sr_operating_system_free(os); long l = h.live(); h.stop(); if (l) mc::fail("leak|" + quote(t), "%ld blocks left", l); } mc::nontrivial(); mc::outcome(dump(g));
}
static const char *lines[] = {"ID=fedora", "VERSION_ID=23", "VERSION=\"23 (Workstation Edition)\"", "VERSION=\"24 (Rawhide)\"", "CPE_NAME=\"cpe:/o:fedoraproject:fedora:23\"", "VARIANT_ID=workstation", "ID='rhel'", "VERSION_ID=\"7.0\"", "VARIANT_ID=\"ser\\\"ver\"", "CPE_NAME=cpe:\\$x", "NAME=Fedora", "ID_LIKE=\"rhel fedora\"", "VARIANT=\"Workstation Edition\"", "VERSION_CODENAME=Rawhide", "REDHAT_SUPPORT_PRODUCT_VERSION=Rawhide", "#ID=comment", "# VERSION_ID=9", "", "no assignment", "=nothing", "ID=", "VERSION_ID=\"\"", "XID=x", "IDX=y", "id=lower", " ID=blank", "PRETTY_NAME=\"ID=x VERSION_ID=y\"", "VERSION=(rawhide)", "ID=\"it's\"", "CPE_NAME='a\"b'", "ID=a=b", "VERSION_ID=1#2"};
static void sequence(int max, int pool)
{
    int n = mc::choose(max + 1); string t; Pairs all; int versions = 0; for (int i = 0; i < n; i++) { int k = mc::choose(pool); t += (i ? "\n" : "") + string(lines[k]); if (!strncmp(lines[k], "VERSION=", 8)) versions++; } if (versions > 1) mc::prune(); if (n && mc::choose(2)) t += "\n"; mc::describe(quote(t)); bool vague = false; Pairs p = ref(t, vague); pairs_of(t); identity(t, ref_id(p));
}
MC_SCENARIO(any_lines) { sequence(mc::thorough() ? 4 : 3, 32); }
MC_SCENARIO(identity_lines) { sequence(mc::thorough() ? 6 : 5, mc::thorough() ? 9 : 8); }
// every short value in every quoting that can express it
MC_SCENARIO(quoting)
{
    static const char al[] = "a\"'\\$ =#"; int len = 1 + mc::choose(mc::thorough() ? 5 : 4), cut; string v; for (int i = 0; i < len; i++) v += al[mc::choose(8)]; cut = mc::choose(len + 1); auto enc = [&](const string &s, int how) { string r; if (how == 2 && s.find_first_of("'\\") != string::npos) mc::prune(); for (char c : s) { if (how == 0 && strchr("\"'\\$ #", c)) r += '\\'; if (how == 1 && strchr("\"\\$", c)) r += '\\'; r += c; } return how == 0 ? r : how == 1 ? "\"" + r + "\"" : "'" + r + "'"; };
    string e = enc(v.substr(0, cut), mc::choose(3)) + (cut == len ? "" : enc(v.substr(cut), mc::choose(3))); int key = mc::choose(4); static const char *keys[] = {"ID", "VERSION_ID", "CPE_NAME", "VARIANT_ID"}; Id w; w.name = "n"; w.version = "1"; string t; for (int i = 0; i < 4; i++) if (i == key) t += string(keys[i]) + "=" + e + "\n"; else if (i < 2) t += string(keys[i]) + (i ? "=1\n" : "=n\n"); (key == 0 ? w.name : key == 1 ? w.version : key == 2 ? w.cpe : w.variant) = v; w.ok = true; mc::describe(quote(t)); identity(t, w);
}
// ---- system-release: "name release version (codename)"
static void system_release(const string &t)
{
    size_t r = t.find(" release "), nl = t.find('\n'); if (r != string::npos && (nl < r || t.find(" release ", r + 1) != string::npos || t.find(" release", r + 8) != string::npos)) mc::prune(); mc::describe(quote(t)); Id w; w.ok = false;
    if (r != string::npos) { string n = t.substr(0, r), rest = t.substr(r + 9, nl == string::npos ? nl : nl - r - 9); string low; for (char c : n) low += c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; string rh = "red hat enterprise linux"; w.name = !low.compare(0, rh.size(), rh) ? "rhel" : low; size_t v = 0; while (v < rest.size() && (isdigit((unsigned char)rest[v]) || rest[v] == '.')) v++; w.version = v ? rest.substr(0, v) : rest; w.ok = !w.name.empty() && !w.version.empty(); }
    Exact e(t); char *n = nullptr, *v = nullptr; Id g; g.ok = sr_operating_system_parse_etc_system_release(e.p, &n, &v); mc::step(); g.name = n ? n : ""; g.version = v ? v : ""; bool left = !g.ok && (n || v), missing = g.ok && (!n || !v); if (!left) { g_free(n); g_free(v); } mc::validated(); if (left) mc::fail("left|" + quote(t), "rejected, but a part is set"); if (missing) mc::fail("missing|" + quote(t), "accepted without a part");
    if (dump(g) != dump(w)) mc::fail("system-release|" + quote(t), "%s is read as %s, expected %s", quote(t).c_str(), dump(g).c_str(), dump(w).c_str()); { mc::HeapRegion h; n = v = nullptr; sr_operating_system_parse_etc_system_release(e.p, &n, &v); g_free(n); g_free(v); long l = h.live(); h.stop(); if (l) mc::fail("leak|" + quote(t), "%ld blocks left", l); } mc::nontrivial(); mc::outcome(dump(g));
}
MC_SCENARIO(system_releases)
{
    static const char *names[] = {"Fedora", "Red Hat Enterprise Linux", "Red Hat Enterprise Linux Server", "red hat enterprise linux Workstation", "Red Hat Linux", "CentOS", "CentOS Linux", "Scientific Linux", "", " ", "Red Hat Enterprise", "My Red Hat Enterprise Linux", "Release", "\xc3\x89lan", "RED HAT ENTERPRISE LINUX", "X"}, *seps[] = {" release ", " Release ", "release", " release", "  release ", " rel "}, *versions[] = {"16", "6.2", "7.2.1511", "Rawhide", "", "20", "5.10 beta", "x7", ".", "rawhide 20", "-1", "0"}, *tails[] = {"", " (Verne)", " (Core)\n", "\n", "\nsecond line 9\n", "b"};
    system_release(string(mc::pick(names)) + mc::pick(seps) + mc::pick(versions) + mc::pick(tails));
}
MC_SCENARIO(system_texts) { static const char *tok[] = {" release ", "7", ".", "R", "\n", " ", "Red Hat Enterprise Linux", "release", "("}; int n = mc::choose((mc::thorough() ? 7 : 6) + 1); string t; for (int i = 0; i < n; i++) t += mc::pick(tok); system_release(t); }
// sizes near limits: values, names, numbers of assignments
MC_SCENARIO(sizes)
{
    static const int ns[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537}; int n = ns[mc::choose(mc::thorough() ? 36 : 33)], how = mc::choose(7), key = mc::choose(6); static const char *keys[] = {"ID", "VERSION_ID", "CPE_NAME", "VARIANT_ID", "NAME", "VERSION"}; string v, e; mc::describe(fmt("%d characters, %s, %d", n, keys[key], how));
    for (int i = 0; i < n; i++) { char c = how >= 4 && i % 3 == 1 ? (how == 6 ? ' ' : '"') : (char)('a' + (i * 7 + i / 26) % 26); v += c; if ((how == 4 || how == 5) && c == '"') e += '\\'; e += c; } if (how == 1 || how == 5 || how == 6) e = '"' + e + '"'; if (how == 2) e = "'" + e + "'"; if (how == 3) { e = "'" + e.substr(0, n / 2) + "'\"" + e.substr(n / 2) + '"'; } string t; Id w; w.ok = true; w.name = "n"; w.version = "1"; if (key == 5) v = e = "\"" + v.substr(0, 0) + string(n, 'x') + " (Rawhide)\"";
    for (int i = 0; i < 6; i++) if (i == key) t += string(keys[i]) + "=" + e + "\n"; else if (i < 2) t += i ? "VERSION_ID=1\n" : "ID=n\n"; if (key == 0) w.name = v; if (key == 1) w.version = v; if (key == 2) w.cpe = v; if (key == 3) w.variant = v; if (key == 5) w.version = "rawhide"; if (how == 6) t.pop_back(); identity(t, w); pairs_of(t);
}
MC_SCENARIO(many_lines)
{
    static const int ns[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1025}; int n = ns[mc::choose(17)], kind = mc::choose(4), at = mc::choose(3), last = mc::choose(2); string t; Id w; w.ok = true; w.name = "fedora"; w.version = "23"; w.variant = "server"; mc::describe(fmt("%d lines of kind %d, %d, %d", n, kind, at, last)); for (int i = 0; i <= n; i++) { if (i == (at == 0 ? 0 : at == 1 ? n / 2 : n)) t += "ID=fedora\nVERSION_ID='23'\nVARIANT_ID=server\n"; if (i < n) t += kind == 0 ? fmt("K%d=%d\n", i, i) : kind == 1 ? string("# comment\n") : kind == 2 ? string("\n") : string("no assignment\n"); } if (last && kind != 2) t.pop_back(); identity(t, w); pairs_of(t);
}
MC_SCENARIO(long_system_releases)
{
    static const int ns[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097}; int n = ns[mc::choose(27)], how = mc::choose(6); string l; for (int i = 0; i < n; i++) l += (char)('A' + (i * 7 + i / 26) % 26); string d; for (int i = 0; i < n; i++) d += i % 4 == 3 && i + 1 < n ? '.' : (char)('0' + i % 10); mc::describe(fmt("%d characters, %d", n, how)); system_release(how == 0 ? l + " release 16 (x)" : how == 1 ? "Fedora release " + d : how == 2 ? "Fedora release 17 (" + l + ")\n" : how == 3 ? "Red Hat Enterprise Linux " + l + " release 6.2\n" : how == 4 ? "Fedora release " + d + " (x)\n" + l : "Fedora release " + l);
}
