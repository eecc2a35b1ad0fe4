// C21: a problem directory becomes the report it describes.
#include "inject.h"
#include "jsonv.h"
struct V { bool there; string text; };
enum File { TYPE, OSINFO, OSRELEASE, ARCH, ENVIRON, PACKAGE, COMPONENT, EXECUTABLE, EPOCH, NAME, VERSION, RELEASE, PARCH, DSO, INTERP, COUNT, BACKTRACE, CORE, KERNEL, ANALYZER, NFILES };
static const char *const names[NFILES] = {"type", "os_info", "os_release", "architecture", "environ", "package", "component", "executable", "pkg_epoch", "pkg_name", "pkg_version", "pkg_release", "pkg_arch", "dso_list", "interpreter", "count", "backtrace", "core_backtrace", "kernel", "analyzer"};
typedef vector<V> Dir;
struct Type { const char *name; enum sr_report_type type; const char *good[2], *bad; };
static const Type types[] = {
    {"CCpp", SR_REPORT_CORE, {"{\"signal\": 6, \"executable\": \"/usr/bin/prog\", \"stacktrace\": [{\"crash_thread\": true, \"frames\": [{\"address\": 4096, \"build_id\": \"ab\", \"build_id_offset\": 16, \"function_name\": \"main\", \"file_name\": \"/usr/bin/prog\"}, {\"address\": 8192}]}]}", "{\"signal\": 11, \"stacktrace\": []}"}, "{\"signal\": 6"},
    {"Python", SR_REPORT_PYTHON, {"prog.py:12:run:ValueError: no\n\nTraceback (most recent call last):\n  File \"/usr/bin/prog.py\", line 12, in run\n    go()\n  File \"/usr/lib/x.py\", line 3, in go\n    raise ValueError('no')\nValueError: no\n\nLocal variables in innermost frame:\nx: 1\n", "Traceback (most recent call last):\n  File \"a.py\", line 1, in <module>\n    x\nNameError: x\n"}, "no traceback here\n"},
    {"Python3", SR_REPORT_PYTHON, {"Traceback (most recent call last):\n  File \"a.py\", line 1, in <module>\n    x\nNameError: x\n", "Traceback (most recent call last):\n  File \"b.py\", line 9, in f\n    y\nKeyError: 'y'\n"}, "Traceback (most recent call last):\n"},
    {"Kerneloops", SR_REPORT_KERNELOOPS, {"BUG: unable to handle kernel NULL pointer dereference at 0000000000000008\nCall Trace:\n [<ffffffff8105a1b2>] ? do_thing+0x12/0x40 [mod]\n [<ffffffff8105a1c3>] other_thing+0x3/0x10\n", "Call Trace:\n [<c0000001>] one+0x1/0x2\n"}, nullptr},
    {"Java", SR_REPORT_JAVA, {"Exception in thread \"main\" java.lang.NullPointerException: null\n\tat a.B.c(B.java:12)\n\tat a.B.main(B.java:3)\n", "java.lang.Error: x\n\tat a.B.c(Native Method)\n"}, ""},
    {"JavaScript", SR_REPORT_JAVASCRIPT, {"Error: no\n    at f (/usr/lib/x.js:3:9)\n    at Object.<anonymous> (/usr/lib/x.js:5:1)\n", "ReferenceError: x is not defined\n    at repl:1:2\n"}, "nothing"},
    {"Ruby", SR_REPORT_RUBY, {"/usr/share/x.rb:3:in `f': no (RuntimeError)\n\tfrom /usr/share/x.rb:5:in `<main>'\n", "a.rb:1:in `<main>': x (E)\n"}, "nothing"},
};
static const int NT = sizeof types / sizeof *types;
struct Pkg { string name, version, release, arch; uint32_t epoch; uint64_t when; bool affected; string str() const { return fmt("%s-%u:%s-%s.%s@%llu%s;", name.c_str(), epoch, version.c_str(), release.c_str(), arch.c_str(), (unsigned long long)when, affected ? "*" : ""); } };
static string packages_str(vector<Pkg> v) { vector<string> s; for (auto &p : v) s.push_back(p.str()); std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); string r; for (auto &x : s) r += x; return r; }
// what the report is expected to say; an empty `all` stands for a failure
static string os_str(const char *n, const char *v, const char *a, const char *c, const char *var, const char *d) { return "os=" + S(n) + "|" + S(v) + "|" + S(a) + "|" + S(c) + "|" + S(var) + "|" + S(d); }
static string stack_str(enum sr_report_type t, struct sr_stacktrace *st) { if (!st) return "none"; return take(sr_stacktrace_to_json(st)); }
static string show(struct sr_report *r)
{
    vector<Pkg> p; for (auto *x = r->rpm_packages; x; x = x->next) p.push_back({S(x->name), S(x->version), S(x->release), S(x->architecture), x->epoch, x->install_time, x->role == SR_ROLE_AFFECTED}); auto *o = r->operating_system; string s = fmt("type=%d\ncomponent=%s\nserial=%u\n", r->report_type, S(r->component_name).c_str(), r->serial); s += "packages=" + packages_str(p) + "\n" + (o ? os_str(o->name, o->version, o->architecture, o->cpe, o->variant, o->desktop) : "no os") + "\n"; s += fmt("version=%u root=%d local=%d auth=%d reporter=%s\n", r->report_version, r->user_root, r->user_local, r->auth_entries != nullptr, S(r->reporter_name).c_str()); return s + stack_str(r->report_type, r->stacktrace);
}
static string nl(const string &s) { return s.substr(0, s.find('\n')); }
static bool number(const string &s, uint64_t max, uint64_t &out) { if (s.empty()) return false; unsigned __int128 v = 0; for (char c : s) { if (!isdigit((unsigned char)c)) return false; v = v * 10 + (c - '0'); if (v > ((unsigned __int128)1 << 100)) return false; } if (v > max) return false; out = (uint64_t)v; return true; }
static bool nevra(const string &s, Pkg &p) { string n, a; size_t d = s.rfind('.'), r = s.rfind('-'), v = r == string::npos || r == 0 ? string::npos : s.rfind('-', r - 1); if (v == string::npos || v == 0 || d == string::npos || d < r) return false; p = {s.substr(0, v), s.substr(v + 1, r - v - 1), s.substr(r + 1, d - r - 1), s.substr(d + 1), 0, 0, false}; size_t c = p.version.find(':'); if (c != string::npos) { p.epoch = atoi(p.version.c_str()); p.version = p.version.substr(c + 1); } return true; }
struct Want { bool ok = false; string text; };
static string stack_of(const Type &t, const Dir &d, bool &ok)
{
    static std::map<string, string> memo; const V &f = d[t.type == SR_REPORT_CORE ? CORE : BACKTRACE]; ok = f.there; if (!ok) return ""; if (t.type == SR_REPORT_KERNELOOPS && !d[KERNEL].there) ok = false; if (t.type == SR_REPORT_JAVASCRIPT && !d[ANALYZER].there) ok = false; if (!ok) return ""; string key = fmt("%d", t.type) + f.text + (t.type == SR_REPORT_KERNELOOPS ? d[KERNEL].text : t.type == SR_REPORT_JAVASCRIPT ? d[ANALYZER].text : ""); auto it = memo.find(key);
    if (it == memo.end()) { string r; char *m = nullptr; if (t.type == SR_REPORT_CORE) { auto *s = sr_core_stacktrace_from_json_text(f.text.c_str(), &m); if (s) { r = take(sr_core_stacktrace_to_json(s)); sr_core_stacktrace_free(s); } } else { auto *s = sr_stacktrace_parse(t.type, f.text.c_str(), &m); if (s) { if (t.type == SR_REPORT_KERNELOOPS) { auto *k = (struct sr_koops_stacktrace *)s; g_free(k->version); k->version = g_strdup(d[KERNEL].text.c_str()); } if (t.type == SR_REPORT_JAVASCRIPT && d[ANALYZER].text == "Node.js") ((struct sr_js_stacktrace *)s)->platform = sr_js_platform_from_string("Node.js", nullptr, nullptr); r = take(sr_stacktrace_to_json(s)); sr_stacktrace_free(s); } } g_free(m); it = memo.insert({key, r}).first; } ok = !it->second.empty(); return it->second;
}
// the report that a directory describes
static Want expected(const Type *t, const Dir &d)
{
    Want w; if (!d[TYPE].there || !d[ARCH].there || !d[COUNT].there) return w; string on, ov, oc = "(null)", ovar = "(null)"; bool os = false; if (d[OSINFO].there) { std::map<string, string> kv; string x = d[OSINFO].text; for (size_t i = 0; i < x.size();) { size_t n = x.find('\n', i); if (n == string::npos) n = x.size(); string l = x.substr(i, n - i); i = n + 1; size_t e = l.find('='); if (e != string::npos) kv[l.substr(0, e)] = l.substr(e + 1); } if (kv.count("ID") && kv.count("VERSION_ID")) { os = true; on = kv["ID"]; ov = kv["VERSION_ID"]; if (kv.count("CPE_NAME")) oc = kv["CPE_NAME"]; if (kv.count("VARIANT_ID")) ovar = kv["VARIANT_ID"]; } }
    if (!os && d[OSRELEASE].there) { string x = nl(d[OSRELEASE].text); size_t r = x.find(" release "); if (r != string::npos) { os = true; for (char c : x.substr(0, r)) on += (char)tolower(c); ov = x.substr(r + 9, x.find(' ', r + 9) - (r + 9)); } } if (!os) return w;
    string desk = "(null)"; if (d[ENVIRON].there) { string x = "\n" + d[ENVIRON].text; size_t i = x.find("\nDESKTOP_SESSION="); if (i != string::npos) desk = nl(x.substr(i + 17)); }
    string comp = "(null)"; vector<Pkg> p; if (d[PACKAGE].there) { if (d[COMPONENT].there) comp = d[COMPONENT].text; uint64_t e; if (!d[EPOCH].there || !d[NAME].there || !d[VERSION].there || !d[RELEASE].there || !d[PARCH].there || !number(nl(d[EPOCH].text), UINT32_MAX, e)) return w; p.push_back({nl(d[NAME].text), nl(d[VERSION].text), nl(d[RELEASE].text), nl(d[PARCH].text), (uint32_t)e, 0, true}); } else if (d[EXECUTABLE].there) { string x = d[EXECUTABLE].text; size_t s = x.rfind('/'); comp = (s == string::npos ? x : x.substr(s + 1)) + "-unpackaged"; }
    if (d[DSO].there) { string x = d[DSO].text; for (size_t i = 0; i < x.size();) { size_t n = x.find('\n', i); if (n == string::npos) n = x.size(); string l = x.substr(i, n - i); i = n + 1; size_t a = l.find(' '), b = a == string::npos ? a : l.find(' ', a + 1), z = l.rfind(' '); Pkg q; uint64_t when; if (b == string::npos || !nevra(l.substr(a + 1, b - a - 1), q) || !number(l.substr(z + 1), UINT64_MAX, when)) continue; q.when = when; p.push_back(q); } }
    // the affected package may also be in the list of shared objects: one entry then holds what both say
    if (!p.empty() && p[0].affected) for (size_t i = p.size() - 1; i > 0; i--) if (p[i].name == p[0].name && p[i].epoch == p[0].epoch && p[i].version == p[0].version && p[i].release == p[0].release && p[i].arch == p[0].arch) { if (p[i].when) p[0].when = p[i].when; p.erase(p.begin() + i); }
    if (d[INTERP].there) { Pkg q; if (nevra(nl(d[INTERP].text), q)) p.push_back(q); }
    uint64_t count; if (!number(d[COUNT].text, UINT32_MAX, count)) return w; string st = "none"; if (t) { bool ok; st = stack_of(*t, d, ok); if (!ok) return w; } auto z = [](const string &s) { return s == "(null)" ? nullptr : s.c_str(); }; w.ok = true;
    w.text = fmt("type=%d\ncomponent=%s\nserial=%u\n", t ? t->type : SR_REPORT_INVALID, comp.c_str(), (uint32_t)count) + "packages=" + packages_str(p) + "\n" + os_str(on.c_str(), ov.c_str(), d[ARCH].text.c_str(), z(oc), z(ovar), z(desk)) + "\n" + "version=2 root=0 local=1 auth=0 reporter=satyr\n" + st; return w;
}
static string where;
static void put(const char *n, const string &s) { int fd = open((where + "/" + n).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) mc::prune(); close(fd); }
// the directory on disk follows the wanted one with as few changes as possible
static void lay_out(const Dir &d)
{
    static Dir now; static string there; string dir = string(mc::scratch()) + "/problem"; if (there != dir) { there = where = dir; mkdir(dir.c_str(), 0700); now.assign(NFILES, V{false, ""}); for (int i = 0; i < NFILES; i++) unlink((dir + "/" + names[i]).c_str()); } for (int i = 0; i < NFILES; i++) { if (d[i].there && (!now[i].there || now[i].text != d[i].text)) put(names[i], d[i].text); if (!d[i].there && now[i].there) unlink((dir + "/" + names[i]).c_str()); now[i] = d[i]; }
}
static Dir base(const Type &t, bool packaged)
{
    Dir d(NFILES, V{true, ""}); d[TYPE].text = t.name; d[OSINFO].text = "NAME=Fedora\nID=fedora\nVERSION_ID=24\nCPE_NAME=cpe:/o:f:f:24\nVARIANT_ID=server\n"; d[OSRELEASE].text = "CentOS release 6.2 (Final)\n"; d[ARCH].text = "x86_64"; d[ENVIRON].text = "A=1\nDESKTOP_SESSION=gnome\nB=2"; d[PACKAGE] = V{packaged, "prog-1.2-3.fc24"}; d[COMPONENT].text = "prog-component"; d[EXECUTABLE].text = "/usr/bin/prog"; d[EPOCH].text = "4"; d[NAME].text = "prog"; d[VERSION].text = "1.2"; d[RELEASE].text = "3.fc24"; d[PARCH].text = "x86_64"; d[DSO].text = "/lib/libc.so glibc-2.23.1-5.fc24.x86_64 (Fedora Project) 1460022605\n/lib/libx.so libx-1:9-8.i686 (None) 17\n"; d[INTERP].text = "python3-3.5.1-7.fc24.x86_64"; d[COUNT].text = "55"; bool core = t.type == SR_REPORT_CORE; d[BACKTRACE] = V{!core, core ? "" : t.good[0]}; d[CORE] = V{core, core ? t.good[0] : ""}; d[KERNEL].text = "4.5.0-1.fc24"; d[ANALYZER].text = "Node.js"; return d;
}
static string vary(Dir &d, const Type &t, int f, bool deep)
{
    static const vector<const char *> alt[NFILES] = {{"Foo", "", "ccpp"}, {"ID=fedora\nCPE_NAME=x\n", "garbage", "ID=rhel\nVERSION_ID=7.2"}, {"garbage"}, {"i686"}, {"XDESKTOP_SESSION=a\nDESKTOP_SESSION=kde", "GDESKTOP_SESSION=a", "DESKTOP_SESSION=first\nDESKTOP_SESSION=second\n", "", "A=DESKTOP_SESSION=x\n", "DESKTOP_SESSION="}, {""}, {"other"}, {"noslash", "/usr/bin/"}, {"0", "abc", "-1", "4294967296", "4294967295", "7\n", "", "99999999999999999999"}, {"prog\n"}, {"1.2\n"}, {"3.fc24\n"}, {"x86_64\n"}, {"", "garbage\nmore garbage\n", "/a glibc-2.23.1-5.fc24.x86_64 (x) 9\n/b glibc-2.23.1-5.fc24.x86_64 (x) 9\n/c libz-1-2.i686 (x) 9", "/a prog-4:1.2-3.fc24.x86_64 (x) 0\n", "/a prog-4:1.2-3.fc24.x86_64 (x) 77\n/b zz-1-2.noarch (x) 5\n"}, {"garbage", "ruby-1-2.noarch\n"}, {"0", "4294967295", "4294967296", "-1", "abc", "", "5x", "99999999999999999999"}, {}, {}, {"9"}, {"abrt-gjs", ""}};
    bool trace = f == (t.type == SR_REPORT_CORE ? CORE : BACKTRACE), other = f == (t.type == SR_REPORT_CORE ? BACKTRACE : CORE); if (other) { mc::choose_dev(1); return ""; } int n = trace ? (t.bad ? 2 : 1) : (int)alt[f].size(), k = mc::choose_dev(n + 2); if (!k) return ""; if (k == 1) { d[f].there = !d[f].there; if (f == PACKAGE && d[f].there) d[f].text = "x"; return string(" ") + names[f] + (d[f].there ? " present" : " absent"); } d[f].there = true; d[f].text = trace ? (k == 2 ? t.good[1] : t.bad) : alt[f][k - 2]; return string(" ") + names[f] + "=" + quote(d[f].text);
}
static struct sr_report *read_dir(string &got, bool &failed, string &msg, bool &hasmsg, long &live)
{
    char *m = nullptr; mc::HeapRegion h; struct sr_report *r = sr_abrt_report_from_dir(where.c_str(), &m); h.stop(); failed = !r; hasmsg = m; msg = S(m); if (r) got = show(r); mc::step(); (void)live; g_free(m); return r;
}
static void check_leak(const string &w) { long l; { char *m = nullptr; mc::HeapRegion h; struct sr_report *r = sr_abrt_report_from_dir(where.c_str(), &m); if (r) sr_report_free(r); g_free(m); l = h.live(); h.stop(); } mc::step(); if (l) mc::fail("leak|" + w, "%ld blocks left", l); }
static void judge(const Dir &d, const Type *t, const string &w)
{
    // the type may have been varied to one that does not exist
    const Type *u = d[TYPE].text == t->name ? t : nullptr; Want want = expected(u, d); string got, msg; bool failed, has; long live; auto *r = read_dir(got, failed, msg, has, live); if (r) sr_report_free(r); mc::validated(); mc::nontrivial();
    if (failed && (!has || msg.empty() || msg == "(null)")) mc::fail("no message|" + w, "a failure without a message"); if (!failed && has) mc::fail("message without failure|" + w, "%s", msg.c_str());
    if (failed && want.ok && u) mc::fail("rejected|" + w, "failed: %s", msg.c_str()); if (!failed && !want.ok) mc::fail("accepted|" + w, "a report was made: %s", got.c_str()); if (!failed && want.ok && got != want.text) mc::fail("differs|" + w, "the report says %s, expected %s", got.c_str(), want.text.c_str()); check_leak(w); mc::outcome(w);
}
MC_SCENARIO(directories)
{
    mc::set_dev_bound(mc::thorough() ? 3 : 2); int ti = mc::choose(NT); const Type *t = &types[ti]; bool packaged = mc::choose(2) == 0; Dir d = base(*t, packaged); string w = string(t->name) + (packaged ? " packaged" : " unpackaged"); for (int f = 0; f < NFILES; f++) { if (!packaged && f >= EPOCH && f <= PARCH) continue; w += vary(d, *t, f, false); } mc::describe(w); lay_out(d);
    judge(d, t, w);
}
// every system call on the files of the directory may fail, be interrupted or cut short
MC_SCENARIO(faults)
{
    mc::set_dev_bound(mc::thorough() ? 2 : 1); const Type &t = types[mc::choose(NT)]; bool packaged = mc::choose(2) == 0; Dir d = base(t, packaged); if (!packaged && mc::choose(2)) d[DSO].text = ""; d[ANALYZER].text = "Node.js"; lay_out(d); inj::plan(mc::thorough() ? 120 : 120); string w = string(t.name) + (packaged ? " packaged" : " unpackaged") + (d[DSO].text.empty() ? " no objects" : ""); mc::describe(w);
    char *m = nullptr; struct sr_report *r = nullptr; long live = 0; string tr = inj::run(mc::scratch(), [&] { mc::HeapRegion h; r = sr_abrt_report_from_dir(where.c_str(), &m); if (!r) live = h.live() - (m ? 1 : 0); h.stop(); }); w += " " + tr; mc::describe(w); mc::step(); mc::validated(); mc::nontrivial(); string msg = S(m), got = r ? show(r) : ""; bool failed = !r, has = m; { mc::HeapRegion h; h.stop(); } if (r) sr_report_free(r); g_free(m);
    if (inj::open_fds) mc::fail("descriptor|" + w, "%d descriptors left open", inj::open_fds); if (inj::strange) mc::fail("foreign descriptor|" + w, "a descriptor that is not its own was closed"); if (live) mc::fail("leak|" + w, "%ld blocks left after the failure", live); if (failed && (!has || msg.empty())) mc::fail("no message|" + w, "a failure without a message"); if (!failed && has) mc::fail("message without failure|" + w, "%s", msg.c_str());
    if (!inj::errors && !inj::eofs && failed) { // interruptions of other calls than reads and writes may be reported
        if (!inj::interrupts) mc::fail("failed|" + w, "failed although nothing did: %s", msg.c_str()); }
    if (!failed) { // files that could not be read and are optional may be missing from the report
        vector<int> opt; for (int f : {OSINFO, ENVIRON, COMPONENT, EXECUTABLE, INTERP}) if (tr.find(string("(") + names[f] + ")") != string::npos) opt.push_back(f); bool match = false; for (int k = 0; k < 1 << opt.size(); k++) { Dir x = d; for (size_t i = 0; i < opt.size(); i++) if (k >> i & 1) x[opt[i]].there = false; Want want = expected(&t, x); if (want.ok && want.text == got) match = true; } if (!match) mc::fail("wrong report|" + w, "the report says %s", got.c_str()); }
    if (inj::calls < 20 && !failed) mc::fail("unseen|" + w, "only %d system calls were seen", inj::calls); mc::outcome(w);
}
// what the parts of the interface say about the same directory, and what is printed
MC_SCENARIO(parts)
{
    mc::set_dev_bound(mc::thorough() ? 3 : 2); const Type &t = types[mc::choose(NT)]; bool packaged = mc::choose(2) == 0; Dir d = base(t, packaged); string w = string(t.name) + (packaged ? " packaged" : " unpackaged"); for (int f : {OSINFO, OSRELEASE, ARCH, ENVIRON, PACKAGE, EPOCH, NAME, VERSION, RELEASE, PARCH, DSO, INTERP}) { if (!packaged && f >= EPOCH && f <= PARCH) continue; w += vary(d, t, f, false); } mc::describe(w); lay_out(d); Want want = expected(&t, d);
    char *m = nullptr; auto *os = sr_abrt_operating_system_from_dir(where.c_str(), &m); string ostext = os ? os_str(os->name, os->version, os->architecture, os->cpe, os->variant, os->desktop) : ""; string om = S(m); bool ohas = m; sr_operating_system_free(os); g_free(m); m = nullptr; struct sr_rpm_package *p = nullptr; int rc = sr_abrt_rpm_packages_from_dir(where.c_str(), &p, &m); vector<Pkg> v; for (auto *x = p; x; x = x->next) v.push_back({S(x->name), S(x->version), S(x->release), S(x->architecture), x->epoch, x->install_time, x->role == SR_ROLE_AFFECTED}); string pt = "packages=" + packages_str(v) + "\n", pm = S(m); bool phas = m; if (rc < 0 && p) mc::fail("packages left|" + w, "packages are given in spite of the failure"); sr_rpm_package_free(p, true); g_free(m); m = nullptr; mc::step(2); mc::validated();
    if (ostext.empty() != (ohas && om != "")) mc::fail("os message|" + w, "result %s, message %s", ostext.c_str(), om.c_str()); if ((rc < 0) != phas) mc::fail("packages message|" + w, "returned %d, message %s", rc, pm.c_str()); if (want.ok && (rc < 0 || want.text.find(pt) == string::npos)) mc::fail("packages|" + w, "returned %d and %s, expected within %s", rc, pt.c_str(), want.text.c_str()); if (want.ok && (ostext.empty() || want.text.find("\n" + ostext + "\n") == string::npos)) mc::fail("os|" + w, "%s, expected within %s", ostext.c_str(), want.text.c_str());
    if (!want.ok && rc >= 0 && !ostext.empty()) mc::fail("accepted|" + w, "both parts are read from a directory with a malformed one");
    if (packaged || !want.ok) { fflush(stdout); string out = string(mc::scratch()) + "/printed"; int save = dup(1), fd = open(out.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); bool ok = sr_abrt_print_report_from_dir(where.c_str(), &m); fflush(stdout); dup2(save, 1); close(save); string text; char b[4096]; lseek(fd, 0, SEEK_SET); for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) text.append(b, n); close(fd); mc::step(); if (ok != want.ok) mc::fail("printed|" + w, "printing returned %d", ok); if (!ok && (!m || !*m)) mc::fail("print message|" + w, "no message"); if (!ok && !text.empty()) mc::fail("print failure|" + w, "something was printed"); g_free(m); m = nullptr; if (ok) { struct sr_report *r = sr_abrt_report_from_dir(where.c_str(), &m); string j = take(sr_report_to_json(r)) + "\n"; sr_report_free(r); if (j != text) mc::fail("print text|" + w, "printed %s, expected %s", text.c_str(), j.c_str()); JNode n; string e = json_error(text, n); if (!e.empty()) mc::fail("print json|" + w, "%s", e.c_str()); } }
    mc::nontrivial(); mc::outcome(w);
}
// the good texts are good and the bad ones bad, or nothing above means anything
MC_SCENARIO(samples) { const Type &t = types[mc::choose(NT)]; int k = mc::choose(3); Dir d = base(t, true); if (k == 2 && !t.bad) mc::prune(); d[t.type == SR_REPORT_CORE ? CORE : BACKTRACE].text = k < 2 ? t.good[k] : t.bad; bool ok; stack_of(t, d, ok); mc::describe(fmt("%s %d", t.name, k)); mc::step(); mc::validated(); if (ok != (k < 2)) mc::fail(fmt("sample|%s %d", t.name, k), "parsed: %d", ok); mc::nontrivial(); mc::outcome(fmt("%s %d", t.name, k)); }
MC_SCENARIO(type_names)
{
    static const char *tok[] = {"CCpp", "Python", "3", "Kerneloops", "Java", "Script", "Ruby", "J", "C", " ", "x"}; int n = mc::choose(4); string s; for (int i = 0; i < n; i++) s += mc::pick(tok); mc::describe(quote(s)); enum sr_report_type w = SR_REPORT_INVALID; auto starts = [&](const char *p) { return !s.compare(0, strlen(p), p); }; if (starts("CCpp")) w = SR_REPORT_CORE; if (starts("Python")) w = SR_REPORT_PYTHON; if (starts("Kerneloops")) w = SR_REPORT_KERNELOOPS; if (starts("Java")) w = SR_REPORT_JAVA; if (starts("JavaScript")) w = SR_REPORT_JAVASCRIPT; if (starts("Ruby")) w = SR_REPORT_RUBY; Exact e(s); auto g = sr_abrt_type_from_type(e.p); mc::step(); mc::validated(); if (g != w) mc::fail("type|" + s, "type %d, expected %d", g, w); mc::nontrivial(); mc::outcome(s);
}
MC_SCENARIO(no_directory) { int k = mc::choose(2); string at = string(mc::scratch()) + (k ? "/nowhere" : ""); mc::describe("no directory"); char *m = nullptr; auto *r = sr_abrt_report_from_dir(at.c_str(), &m); bool has = m; g_free(m); if (r || !has) mc::fail("no directory", "a report or no message"); mc::step(); mc::validated(); mc::nontrivial(); mc::outcome(fmt("%d", k)); }
// contents of sizes near limits: the files as wholes, single values, lists
MC_SCENARIO(sizes)
{
    static const int ls[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131073}; static const int ns[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1025};
    const Type &t = types[mc::choose(NT)]; Dir d = base(t, true); int dim = mc::choose(17), pos = mc::choose(2), n; if (dim && dim != 16 && &t != &types[0] && &t != &types[1]) mc::prune(); string w = string(t.name) + fmt(" %d %d", dim, pos), l; bool list = dim >= 12 && dim < 16; n = list || dim == 0 ? ns[mc::choose(mc::thorough() ? 20 : 18)] : ls[mc::choose(mc::thorough() ? 26 : 23)]; for (int i = 0; i < n; i++) l += (char)('a' + (i * 7 + i / 26) % 26); w += fmt(" n=%d", n); mc::describe(w); string q = pos ? "x" + l : l;
    auto lines = [&](auto one) { string r; for (int i = 0; i < n; i++) r += one(i); return r; };
    switch (dim) {
    case 0: { // a long stack trace
        string x; if (t.type == SR_REPORT_CORE) x = "{\"signal\": 6, \"stacktrace\": [{\"crash_thread\": true, \"frames\": [" + lines([](int i) { return fmt("%s{\"address\": %d}", i ? "," : "", i + 1); }) + "]}]}"; else if (t.type == SR_REPORT_PYTHON) x = "Traceback (most recent call last):\n" + lines([](int i) { return fmt("  File \"a%d.py\", line %d, in f%d\n    x\n", i, i + 1, i); }) + "NameError: x\n"; else if (t.type == SR_REPORT_KERNELOOPS) x = "Call Trace:\n" + lines([](int i) { return fmt(" [<%016llx>] f%d+0x1/0x2\n", 0xffffffff81000000ULL + i, i); }); else if (t.type == SR_REPORT_JAVA) x = "java.lang.Error: x\n" + lines([](int i) { return fmt("\tat a.B.c%d(B.java:%d)\n", i, i + 1); }); else if (t.type == SR_REPORT_JAVASCRIPT) x = "Error: no\n" + lines([](int i) { return fmt("    at f%d (/x.js:%d:9)\n", i, i + 1); }); else x = "/usr/share/x.rb:3:in `f': no (RuntimeError)\n" + lines([](int i) { return fmt("\tfrom /usr/x%d.rb:%d:in `g%d'\n", i, i + 1, i); });
        d[t.type == SR_REPORT_CORE ? CORE : BACKTRACE].text = x; break; }
    case 1: d[ARCH].text = q; break;
    case 2: d[COMPONENT].text = q; break;
    case 3: d[NAME].text = q; break;
    case 4: d[VERSION].text = q; break;
    case 5: d[RELEASE].text = q + "\n"; break;
    case 6: d[PARCH].text = q; break;
    case 7: d[ENVIRON].text = pos ? "A=" + l + "\nDESKTOP_SESSION=kde\n" : "DESKTOP_SESSION=" + l; break;
    case 8: d[OSINFO].text = pos ? "ID=" + l + "\nVERSION_ID=1\n" : "X=" + l + "\nID=a\nVERSION_ID=" + l + "\nCPE_NAME=" + l + "\n"; break;
    case 9: d[INTERP].text = pos ? "py-1-" + l + ".x86" : l + "-1-2.x86"; break;
    case 10: d[DSO].text = pos ? "/" + l + " a-1-2.x86 (v) 7\n/b b-1-2.x86 (v) 8\n" : "/a " + l + "-1-2.x86 (" + l + ") 7\n/b b-1-2.x86 (v) 8"; break;
    case 11: d[PACKAGE] = V{false, ""}; d[EXECUTABLE].text = pos ? "/" + l + "/prog" : "/bin/" + l; break;
    case 12: d[DSO].text = lines([&](int i) { return fmt("/l%d p%d-1-2.x86 (v) %d\n", i, pos ? i / 2 : (i * 7) % 1031, pos ? i / 2 : i + 1); }); break;
    case 13: d[ENVIRON].text = lines([](int i) { return fmt("V%d=%d\n", i, i); }) + (pos ? "DESKTOP_SESSION=last" : "DESKTOP_SESSION=last\nZ=1\n"); break;
    case 14: d[OSINFO].text = lines([](int i) { return fmt("K%d=%d\n", i, i); }) + "ID=fedora\nVERSION_ID=1\n"; break;
    case 15: d[DSO].text = pos ? lines([](int i) { return fmt("/l%d (not owned)\n", i); }) + "/b b-1-2.x86 (v) 8\n" : lines([](int i) { return fmt("/l%d prog-4:1.2-3.fc24.x86_64 (v) 5\n", i); }); break;
    case 16: if (t.type != SR_REPORT_KERNELOOPS) mc::prune(); d[KERNEL].text = q; break;
    }
    lay_out(d); judge(d, &t, w);
}
