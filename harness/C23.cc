// C23: package names and package lists are handled exactly.
#include "common.h"
static string text_of(const char *alphabet, int max) { int n = (int)strlen(alphabet), len = mc::choose(max + 1); string s; for (int i = 0; i < len; i++) s += alphabet[mc::choose(n)]; return s; }
static vector<string> split(const string &s, char c) { vector<string> v(1); for (char x : s) if (x == c) v.push_back(""); else v.back() += x; return v; }
static string join(const vector<string> &v, size_t n, char c) { string s; for (size_t i = 0; i < n; i++) s += (i ? string(1, c) : "") + v[i]; return s; }
struct Parts { string name, version, release, arch; uint64_t epoch = 0; bool ok = false, vague = false; };
// reference: what a string is composed of, from its pieces between the dashes
static Parts ref_nvr(const string &t) { Parts p; vector<string> v = split(t, '-'); if (v.size() < 3) return p; p.release = v.back(); p.version = v[v.size() - 2]; p.name = join(v, v.size() - 2, '-'); p.ok = !p.name.empty() && !p.version.empty() && !p.release.empty(); return p; }
static Parts ref_nevra(const string &t)
{
    Parts p = ref_nvr(t); if (p.release.find('.') == string::npos) { p.ok = false; return p; } vector<string> r = split(p.release, '.'); p.arch = r.back(); p.release = join(r, r.size() - 1, '.'); p.ok = p.ok && !p.arch.empty() && !p.release.empty();
    vector<string> e = split(p.version, ':'); if (e.size() > 2) p.vague = true; // a version never holds a colon
    if (e.size() == 2) { p.version = e[1]; if (e[0].empty() || e[1].empty()) p.ok = false; for (char c : e[0]) { if (!isdigit((unsigned char)c)) { p.ok = false; break; } if (p.epoch <= UINT32_MAX) p.epoch = p.epoch * 10 + (c - '0'); } if (p.epoch > UINT32_MAX) p.ok = false; }
    return p;
}
static string show(const Parts &p) { return p.ok ? quote(p.name) + " " + fmt("%llu", (unsigned long long)p.epoch) + " " + quote(p.version) + " " + quote(p.release) + " " + quote(p.arch) : "rejected"; }
static void check_text(const string &t)
{
    Exact e(t); string q = quote(t);
    { char *n = nullptr, *v = nullptr, *r = nullptr, *a = nullptr; uint32_t ep; mc::HeapRegion h; bool ok = sr_rpm_package_parse_nvr(e.p, &n, &v, &r); g_free(n); g_free(v); g_free(r); n = v = r = nullptr; long l1 = h.live(); bool ok2 = sr_rpm_package_parse_nevra(e.p, &n, &ep, &v, &r, &a); g_free(n); g_free(v); g_free(r); g_free(a); long l2 = h.live(); h.stop(); if (l1 || l2) mc::fail("leak|" + q, "%ld and %ld blocks left, accepted %d %d", l1, l2, ok, ok2); }
    { char *n = nullptr, *v = nullptr, *r = nullptr; Parts g; g.ok = sr_rpm_package_parse_nvr(e.p, &n, &v, &r); if (g.ok) { if (!n || !v || !r) mc::fail("nvr parts|" + q, "split without a part"); g.name = n; g.version = v; g.release = r; } g_free(n); g_free(v); g_free(r); mc::step(); Parts w = ref_nvr(t); mc::validated(); if (show(g) != show(w)) { string a = show(g), b = show(w); mc::fail("nvr|" + q, "%s is split into %s, expected %s", q.c_str(), a.c_str(), b.c_str()); } }
    { char *n = nullptr, *v = nullptr, *r = nullptr, *a = nullptr; uint32_t ep = 77; Parts g; g.ok = sr_rpm_package_parse_nevra(e.p, &n, &ep, &v, &r, &a); if (g.ok) { if (!n || !v || !r || !a) mc::fail("nevra parts|" + q, "split without a part"); g.name = n; g.version = v; g.release = r; g.arch = a; g.epoch = ep; } g_free(n); g_free(v); g_free(r); g_free(a); mc::step(); Parts w = ref_nevra(t); if (!w.vague) { mc::validated(); if (show(g) != show(w)) { string x = show(g), y = show(w); mc::fail("nevra|" + q, "%s is split into %s, expected %s", q.c_str(), x.c_str(), y.c_str()); } mc::outcome(show(g)); } }
}
MC_SCENARIO(every_text) { string t = text_of("a-.:1", mc::thorough() ? 11 : 9); mc::describe(quote(t)); check_text(t); mc::nontrivial(); }
MC_SCENARIO(composed)
{
    static const char *names[] = {"a", "bash", "gtk2-engines", "a-1-2", "-", "0", "lib.x", "c++", "a-", "A_b.c-d"}, *eps[] = {"", "0", "1", "32", "007", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "+1", " 1", "1 ", "x", "0x10", "1x"}, *vers[] = {"1", "4.2.10", "2.0~rc1", "20121110git", "1.2^3", "", "a_b"}, *rels[] = {"1", "9.fc17", "1.fc17.1", "0.1.20120101git.el6_5", "", "2"}, *archs[] = {"x86_64", "i686", "noarch", "(none)", "", "src"};
    string n = mc::pick(names), e = mc::pick(eps), v = mc::pick(vers), r = mc::pick(rels), a = mc::pick(archs); string t = n + "-" + (e.empty() ? "" : e + ":") + v + "-" + r + "." + a; mc::describe(quote(t)); check_text(t);
    // composing and splitting are inverse
    bool ve = !e.empty(), digits = e.find_first_not_of("0123456789") == string::npos; bool valid = !v.empty() && !r.empty() && !a.empty() && digits && (!ve || (e.size() <= 10 && atoll(e.c_str()) <= 4294967295ll)); string q = quote(t);
    char *gn = nullptr, *gv = nullptr, *gr = nullptr, *ga = nullptr; uint32_t ge = 0; bool ok = sr_rpm_package_parse_nevra(t.c_str(), &gn, &ge, &gv, &gr, &ga); string g = ok ? S(gn) + "|" + S(gv) + "|" + S(gr) + "|" + S(ga) + fmt("|%u", ge) : "rejected", w = valid ? n + "|" + v + "|" + r + "|" + a + fmt("|%u", (unsigned)strtoul(e.c_str(), nullptr, 10)) : "rejected"; g_free(gn); g_free(gv); g_free(gr); g_free(ga); mc::step(); mc::validated(); if (g != w) mc::fail("composed|" + q, "%s is split into %s, expected %s", q.c_str(), g.c_str(), w.c_str()); mc::nontrivial();
}
// ---- lists
static const char *cpaths[] = {"/p", "/q"};
struct Pkg { string n, v, r, a; uint32_t e; bool arch; int info; int id; };
static const Pkg pool[] = {{"a", "1", "1", "", 0, false, 0, 0}, {"a", "1", "1", "x", 0, true, 0, 0}, {"a", "1", "1", "y", 0, true, 0, 0}, {"a", "1", "1", "x", 1, true, 0, 0}, {"a", "1", "2", "x", 0, true, 0, 0}, {"b", "1", "1", "x", 0, true, 0, 0}, {"a", "2", "1", "x", 0, true, 0, 0}};
static const int NP = 7;
static struct sr_rpm_package *make(const Pkg &p)
{
    struct sr_rpm_package *k = sr_rpm_package_new(); k->name = g_strdup(p.n.c_str()); k->version = g_strdup(p.v.c_str()); k->release = g_strdup(p.r.c_str()); k->epoch = p.e; if (p.arch) k->architecture = g_strdup(p.a.c_str());
    if (p.info & 1) { k->install_time = 100 + p.id; }
    if (p.info & 2) { k->role = SR_ROLE_AFFECTED; for (auto c : cpaths) { struct sr_rpm_consistency *s = sr_rpm_consistency_new(); s->path = g_strdup(fmt("%s%d", c, p.id).c_str()); s->mode_changed = true; k->consistency = sr_rpm_consistency_append(k->consistency, s); } }
    return k;
}
static struct sr_rpm_package *make_c(const char *n, const char *a, int info) { struct sr_rpm_package *k = sr_rpm_package_new(); k->name = g_strdup(n); k->version = g_strdup("1"); k->release = g_strdup("1"); k->architecture = g_strdup(a); if (info & 2) { k->consistency = sr_rpm_consistency_new(); k->consistency->path = g_strdup("/p"); } return k; }
static string key(const Pkg &p) { return p.n + "-" + p.v + "-" + p.r + fmt(":%u", p.e); }
static string key(struct sr_rpm_package *p) { return S(p->name) + "-" + S(p->version) + "-" + S(p->release) + fmt(":%u", p->epoch); }
static string nevra(struct sr_rpm_package *p) { return key(p) + (p->architecture ? "." + string(p->architecture) : ""); }
static int sg(int x) { return (x > 0) - (x < 0); }
MC_SCENARIO(lists)
{
    int len = mc::choose((mc::thorough() ? 4 : 3) + 1); vector<Pkg> in; string what; struct sr_rpm_package *list = nullptr; vector<struct sr_rpm_package *> ptr; bool sorted = mc::choose(2);
    for (int i = 0; i < len; i++) { Pkg p = pool[mc::choose(NP)]; p.info = mc::choose(4); p.id = i; in.push_back(p); what += key(p) + "." + p.a + fmt("/%d ", p.info); }
    mc::describe(what);
    ptr.reserve(len); for (auto &p : in) { auto k = make(p); ptr.push_back(k); auto r = sr_rpm_package_append(list, k); if (r != (list ? list : k)) mc::fail("append|" + what, "append returned another package"); list = r; mc::step(); }
    if (sr_rpm_package_count(list) != len) mc::fail("count|" + what, "counted %d", sr_rpm_package_count(list)); { int i = 0; for (auto k = list; k; k = k->next, i++) if (i >= len || k != ptr[i]) mc::fail("append order|" + what, "place %d holds another package", i); }
    if (sorted) {
        list = sr_rpm_package_sort(list); mc::step(); vector<struct sr_rpm_package *> got; got.reserve(len + 2); for (auto k = list; k && (int)got.size() <= len; k = k->next) got.push_back(k);
        { vector<struct sr_rpm_package *> a = got, b = ptr; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) mc::fail("sort permutation|" + what, "the sorted list does not hold the same packages"); }
        for (size_t i = 0; i < got.size(); i++) for (size_t j = 0; j < got.size(); j++) { int c = sg(sr_rpm_package_cmp_nevra(got[i], got[j])), b = sg(sr_rpm_package_cmp_nevra(got[j], got[i])); bool same = key(got[i]) == key(got[j]) && g_strcmp0(got[i]->architecture, got[j]->architecture) == 0; if (c != -b || (c == 0) != same) mc::fail("order|" + what, "comparing %s with %s gives %d and %d", nevra(got[i]).c_str(), nevra(got[j]).c_str(), c, b); if (i < j && c > 0) mc::fail("sort order|" + what, "%s is before %s", nevra(got[i]).c_str(), nevra(got[j]).c_str()); mc::step(); }
        // packages that differ only in the architecture are together
        std::set<string> seen; for (size_t i = 0; i < got.size(); i++) if (!i || key(got[i]) != key(got[i - 1])) if (!seen.insert(key(got[i])).second) mc::fail("sort groups|" + what, "%s is in two places", key(got[i]).c_str());
        int end = 0; for (auto k = list; k; k = k->next) end++; if (end != len) mc::fail("sort end|" + what, "the sorted list has %d packages", end);
    }
    list = sr_rpm_package_uniq(list); mc::step(); { mc::HeapRegion h; struct sr_rpm_package *k = nullptr; for (size_t i = 0; i < in.size(); i++) k = sr_rpm_package_append(k, make_c(in[i].n.c_str(), pool[1].a.c_str(), in[i].info)); k = sr_rpm_package_uniq(sr_rpm_package_sort(k)); sr_rpm_package_free(k, true); long l = h.live(); h.stop(); if (l) mc::fail("leak|" + what, "%ld blocks left", l); } string out; std::map<string, int> count; std::map<string, std::set<string>> archs; std::set<string> have; bool dup = false; struct sr_rpm_package *prev = nullptr; int n = 0;
    for (auto k = list; k; k = k->next) { if (++n > len) mc::fail("uniq loop|" + what, "the list became longer"); out += nevra(k) + " "; dup = dup || count[nevra(k)]++; if (k->architecture) archs[key(k)].insert(k->architecture); have.insert(nevra(k)); if (prev && key(prev) == key(k) && (!prev->architecture || !k->architecture || !strcmp(prev->architecture, k->architecture))) mc::fail("uniq adjacent|" + what, "left %s", out.c_str()); prev = k; }
    if (sorted) { std::set<string> want; std::map<string, std::set<string>> wa; for (auto &p : in) { wa[key(p)]; if (p.arch) wa[key(p)].insert(p.a); } for (auto &g : wa) if (g.second.empty()) want.insert(g.first); else for (auto &a : g.second) want.insert(g.first + "." + a); if (dup || have != want) mc::fail("uniq|" + what, "left %s", out.c_str()); }
    // nothing is lost and nothing is made up
    std::map<string, std::multiset<string>> cons; for (auto k = list; k; k = k->next) {
        bool role = false, anyrole = false, mustrole = false, musttime = false; std::set<uint64_t> times; for (auto &p : in) if (key(p) == key(k)) { bool mine = p.arch && k->architecture && p.a == k->architecture, may = mine || !p.arch; if (p.info & 2) { anyrole = anyrole || may; mustrole = mustrole || (mine && sorted); } if (p.info & 1) { if (may) times.insert(100 + p.id); musttime = musttime || (mine && sorted); } }
        role = k->role == SR_ROLE_AFFECTED; if ((role && !anyrole) || (mustrole && !role)) mc::fail("role|" + what, "%s has role %d", nevra(k).c_str(), k->role); if (k->install_time ? !times.count(k->install_time) : musttime) mc::fail("time|" + what, "%s has install time %llu", nevra(k).c_str(), (unsigned long long)k->install_time);
        for (auto c = k->consistency; c; c = c->next) { if (!c->mode_changed || c->owner_changed || c->size_changed) mc::fail("consistency flags|" + what, "changed flags"); cons[key(k)].insert(S(c->path)); }
    }
    for (auto &p : in) { if (!cons.count(key(p))) cons[key(p)]; bool found = false, rolefound = false, timefound = false; for (auto k = list; k; k = k->next) if (key(p) == key(k) && (!p.arch || (k->architecture && p.a == k->architecture))) { found = true; rolefound = rolefound || k->role == SR_ROLE_AFFECTED; timefound = timefound || k->install_time; } if (!found) mc::fail("lost|" + what, "no %s.%s left in %s", key(p).c_str(), p.a.c_str(), out.c_str()); if ((p.info & 2) && !rolefound) mc::fail("lost role|" + what, "the role of %s", key(p).c_str()); if ((p.info & 1) && !timefound) mc::fail("lost time|" + what, "the time of %s", key(p).c_str()); }
    std::map<string, std::multiset<string>> wantc; for (auto &p : in) { wantc[key(p)]; if (p.info & 2) for (auto c : cpaths) wantc[key(p)].insert(fmt("%s%d", c, p.id)); } if (cons != wantc) mc::fail("consistency|" + what, "consistency records were lost or made up");
    sr_rpm_package_free(list, true); mc::validated(); mc::nontrivial(); mc::outcome(out);
}
// every list of packages that differ in one kind of information at most: two and three equal ones in a row and apart
MC_SCENARIO(long_lists)
{
    int len = 4 + mc::choose(mc::thorough() ? 4 : 3); vector<int> pick; string what; struct sr_rpm_package *list = nullptr; for (int i = 0; i < len; i++) { pick.push_back(mc::choose(i < 6 ? 4 : 2)); Pkg p = pool[pick.back()]; p.info = 1; p.id = i; what += key(p) + "." + p.a + " "; list = sr_rpm_package_append(list, make(p)); } mc::describe(what);
    list = sr_rpm_package_uniq(sr_rpm_package_sort(list)); mc::step(2); string out, want; for (auto k = list; k; k = k->next) out += nevra(k) + " "; std::set<int> s(pick.begin(), pick.end()); if (s.count(1) || s.count(2)) s.erase(0); for (int i : {0, 1, 2, 3}) if (s.count(i)) want += key(pool[i]) + (pool[i].arch ? "." + pool[i].a : "") + " "; mc::validated(); vector<string> a = split(out, ' '), b = split(want, ' '); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) mc::fail("uniq|" + what, "left %s, expected %s", out.c_str(), want.c_str()); sr_rpm_package_free(list, true); mc::nontrivial(); mc::outcome(out);
}
// ---- comparisons of packages and consistency records
MC_SCENARIO(consistency)
{
    auto mk = [](int bits, int path) { struct sr_rpm_consistency *c = sr_rpm_consistency_new(); static const char *ps[] = {nullptr, "", "/a", "/b"}; c->path = g_strdup(ps[path]); bool *f[] = {&c->owner_changed, &c->group_changed, &c->mode_changed, &c->md5_mismatch, &c->size_changed, &c->major_number_changed, &c->minor_number_changed, &c->symlink_changed, &c->modification_time_changed}; for (int i = 0; i < 9; i++) *f[i] = bits >> i & 1; return c; };
    static vector<int> sets; if (sets.empty()) { sets = {0, 511}; for (int i = 0; i < 9; i++) { sets.push_back(1 << i); sets.push_back(511 ^ (1 << i)); } for (int i = 0; i < 8; i++) sets.push_back(3 << i); }
    struct sr_rpm_consistency *c[3]; int bits[3], path[3]; string w; for (int i = 0; i < 3; i++) { bits[i] = i == 2 ? sets[mc::choose(mc::thorough() ? (int)sets.size() : 6)] : mc::pick(sets); path[i] = i == 2 && !mc::thorough() ? mc::choose(2) : mc::choose(4); c[i] = mk(bits[i], path[i]); w += fmt("%x/%d ", bits[i], path[i]); } mc::describe(w);
    int r[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r[i][j] = sg(sr_rpm_consistency_cmp(c[i], c[j])); if (sg(sr_rpm_consistency_cmp_recursive(c[i], c[j])) != r[i][j]) mc::fail("recursive|" + w, "lists of one compare differently"); mc::step(2); }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { if (r[i][j] != -r[j][i]) mc::fail("antisymmetry|" + w, "%d and %d", r[i][j], r[j][i]); if ((r[i][j] == 0) != (bits[i] == bits[j] && path[i] == path[j])) mc::fail("equality|" + w, "comparing %d with %d gives %d", i, j, r[i][j]); for (int k = 0; k < 3; k++) if (r[i][j] <= 0 && r[j][k] <= 0 && r[i][k] > 0) mc::fail("transitivity|" + w, "not transitive"); }
    // a record more at the end makes a greater list; the first difference decides; the package comparison sees it
    c[0]->next = mk(bits[0], path[0]); c[1]->next = mk(bits[1], path[1]); if (sg(sr_rpm_consistency_cmp_recursive(c[0], c[1])) != r[0][1]) mc::fail("lists|" + w, "lists of two compare differently"); { bool same = r[0][1] == 0, rest = r[0][2] == 0; auto n = c[1]->next; c[1]->next = c[2]; int x = sg(sr_rpm_consistency_cmp_recursive(c[0], c[1])), y = sg(sr_rpm_consistency_cmp_recursive(c[1], c[0])); if (x != -y || (x == 0) != (same && rest)) mc::fail("second|" + w, "%d and %d", x, y); c[1]->next = nullptr; x = sg(sr_rpm_consistency_cmp_recursive(c[0], c[1])); y = sg(sr_rpm_consistency_cmp_recursive(c[1], c[0])); if (x != -y || x == 0) mc::fail("longer|" + w, "%d and %d", x, y); if (sr_rpm_consistency_cmp_recursive(nullptr, nullptr) || sg(sr_rpm_consistency_cmp_recursive(c[2], nullptr)) != -sg(sr_rpm_consistency_cmp_recursive(nullptr, c[2])) || !sr_rpm_consistency_cmp_recursive(nullptr, c[2])) mc::fail("empty|" + w, "empty lists"); c[1]->next = n; }
    { auto a = sr_rpm_package_new(), b = sr_rpm_package_new(); a->name = g_strdup("a"); b->name = g_strdup("a"); auto n0 = c[0]->next, n1 = c[1]->next; c[0]->next = c[1]->next = nullptr; a->consistency = c[0]; b->consistency = c[1]; if (sg(sr_rpm_package_cmp(a, b)) != r[0][1] || sg(sr_rpm_package_cmp(b, a)) != r[1][0]) mc::fail("package|" + w, "packages compare differently"); a->consistency = b->consistency = nullptr; c[0]->next = n0; c[1]->next = n1; sr_rpm_package_free(a, true); sr_rpm_package_free(b, true); mc::step(2); }
    for (auto x : c) sr_rpm_consistency_free(x, true); mc::validated(); mc::nontrivial(); mc::outcome(w);
}
// ---- the list of shared objects: "file nevra (vendor) installtime"
MC_SCENARIO(dso_list)
{
    static const char *lines[] = {"/lib64/libc.so.6 glibc-2.15-57.fc17.x86_64 (Fedora Project) 1348482138", "/bin/b bash-1:4.2-1.fc17.i686 (V) 7", "/lib/l a-b-1-2.noarch 18446744073709551615", "", "/lib/only", "/lib/nevra a-1-2.x", "/lib/bad a-1 (V) 5", "/lib/bad2 a-x:1-2.x (V) 5", "/lib/notime a-1-2.x (V) x", "/lib/big a-1-2.x (V) 18446744073709551616", "/lib/space  a-1-2.x (V) 5", "/lib/trail a-1-2.x (V) ", "[vdso] a-1-2.x (V) 0"};
    int n = mc::choose((mc::thorough() ? 4 : 3) + 1); vector<string> l; string t; for (int i = 0; i < n; i++) { l.push_back(mc::pick(lines)); t += (i ? "\n" : "") + l.back(); } if (n && mc::choose(2)) t += "\n"; mc::describe(quote(t)); Exact e(t);
    string want; for (auto &x : l) { size_t a = x.find(' '); if (a == string::npos) continue; size_t b = x.find(' ', a + 1); if (b == string::npos) continue; Parts p = ref_nevra(x.substr(a + 1, b - a - 1)); if (!p.ok) continue; string time = x.substr(x.rfind(' ') + 1); if (time.empty() || time.find_first_not_of("0123456789") != string::npos || (time.size() >= 20 && time > "18446744073709551615")) continue; want += show(p) + " " + time + "\n"; }
    { mc::HeapRegion h; sr_rpm_package_free(sr_abrt_parse_dso_list(e.p), true); long l = h.live(); h.stop(); if (l) mc::fail("leak|" + quote(t), "%ld blocks left", l); }
    struct sr_rpm_package *list = sr_abrt_parse_dso_list(e.p); mc::step(); string got; for (auto k = list; k; k = k->next) { Parts p; p.ok = true; p.name = S(k->name); p.version = S(k->version); p.release = S(k->release); p.arch = S(k->architecture); p.epoch = k->epoch; got += show(p) + fmt(" %llu\n", (unsigned long long)k->install_time); } sr_rpm_package_free(list, true); mc::validated(); if (got != want) mc::fail("dso_list|" + quote(t), "%s gives %s, expected %s", quote(t).c_str(), quote(got).c_str(), quote(want).c_str()); mc::nontrivial(); mc::outcome(got);
}
// names, lists and texts of sizes near limits
static const int near_limits[] = {15, 16, 17, 20, 24, 25, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 199, 200, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65537};
MC_SCENARIO(long_names)
{
    int n = near_limits[mc::choose(mc::thorough() ? 33 : 32)], kind = mc::choose(3), where = mc::choose(6); string l, v = "1.2", nm = "bash", r = "3.fc17", a = "x86_64", e; for (int i = 0; i < n; i++) l += kind == 0 ? (char)('a' + i % 26) : kind == 1 ? (i % 3 == 1 && i + 1 < n ? '.' : 'a') : (i % 4 == 2 && i + 1 < n ? '-' : 'b');
    if (kind == 2 && where) mc::prune(); if (kind == 1 && where == 3) mc::prune(); switch (where) { case 0: nm = l; break; case 1: v = l; break; case 2: r = l; break; case 3: a = l; break; case 4: e = string(n, '0') + "7:"; if (kind) mc::prune(); break; case 5: e = string(n, '9') + ":"; if (kind) mc::prune(); break; } string t = nm + "-" + e + v + "-" + r + "." + a; mc::describe(fmt("%d %d %d", n, kind, where)); check_text(t); check_text(nm + "-" + v + "-" + r);
    // the list of shared objects holds the same package
    string d = "/lib/a " + t + " (V) 7\n/lib/b c-1-2.x (V) 8"; Parts w = ref_nevra(t); auto *list = sr_abrt_parse_dso_list(d.c_str()); mc::step(); string got; for (auto k = list; k; k = k->next) got += S(k->name) + fmt("|%u|", k->epoch) + S(k->version) + "|" + S(k->release) + "|" + S(k->architecture) + "\n"; sr_rpm_package_free(list, true); string want = (w.ok ? w.name + fmt("|%llu|", (unsigned long long)w.epoch) + w.version + "|" + w.release + "|" + w.arch + "\n" : "") + "c|0|1|2|x\n"; if (got != want) mc::fail(fmt("dso|%d %d %d", n, kind, where), "read as %s", quote(got.substr(0, 300)).c_str());
    mc::validated(); mc::nontrivial(); mc::outcome(t);
}
MC_SCENARIO(many_packages)
{
    int n = near_limits[mc::choose(mc::thorough() ? 28 : 23)], order = mc::choose(6), groups = mc::choose(5), mod = groups == 0 ? n : groups == 1 ? 1 : groups == 2 ? 2 : groups == 3 ? 7 : (n + 1) / 2; string what = fmt("%d packages, order %d, %d different", n, order, mod); mc::describe(what); vector<Pkg> in; struct sr_rpm_package *list = nullptr; vector<struct sr_rpm_package *> ptr;
    for (int i = 0; i < n; i++) { int x = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7) % n : order == 3 ? (i % 2 ? n - 1 - i / 2 : i / 2) : order == 4 ? (i + n / 2) % n : i ^ 1; x %= mod; Pkg p{fmt("p%d", x % 5), fmt("%d", x / 5 % 6), fmt("%d", x / 30), "x", (uint32_t)(x % 3), true, (int)(i % 4), i}; in.push_back(p); auto *k = make(p); ptr.push_back(k); list = sr_rpm_package_append(list, k); } mc::step(n);
    if (sr_rpm_package_count(list) != n) mc::fail("count|" + what, "counted %d", sr_rpm_package_count(list)); list = sr_rpm_package_sort(list); mc::step(); vector<struct sr_rpm_package *> got; for (auto k = list; k && (int)got.size() <= n; k = k->next) got.push_back(k); { auto a = got, b = ptr; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) mc::fail("permutation|" + what, "the sorted list has %zu packages", a.size()); } for (size_t i = 1; i < got.size(); i++) if (sr_rpm_package_cmp_nevra(got[i - 1], got[i]) > 0) mc::fail("order|" + what, "%s is before %s", nevra(got[i - 1]).c_str(), nevra(got[i]).c_str());
    list = sr_rpm_package_uniq(list); mc::step(); std::map<string, std::multiset<string>> cons, wantc; std::map<string, int> cnt; std::set<string> have, want, role, wantrole; for (auto &p : in) { want.insert(key(p) + ".x"); wantc[key(p)]; if (p.info & 2) { wantrole.insert(key(p)); for (auto c : cpaths) wantc[key(p)].insert(fmt("%s%d", c, p.id)); } } int left = 0; for (auto k = list; k; k = k->next, left++) { have.insert(nevra(k)); if (k->role == SR_ROLE_AFFECTED) role.insert(key(k)); cons[key(k)]; for (auto c = k->consistency; c; c = c->next) cons[key(k)].insert(S(c->path)); }
    sr_rpm_package_free(list, true); if (have != want || left != (int)want.size()) mc::fail("uniq|" + what, "%d packages left, %zu different, expected %zu", left, have.size(), want.size()); if (role != wantrole) mc::fail("roles|" + what, "%zu packages with the role, expected %zu", role.size(), wantrole.size()); if (cons != wantc) mc::fail("consistency|" + what, "records were lost or made up"); mc::validated(); mc::nontrivial(); mc::outcome(what);
}
