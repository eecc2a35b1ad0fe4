// C31: queries for installed packages report what the RPM database records.
// Every execution builds a database of its own with librpm, in a scratch directory, and queries it through satyr.
#include "lang.h"
#include <rpm/rpmlib.h>
#include <rpm/rpmdb.h>
#include <rpm/rpmts.h>
#include <rpm/rpmtd.h>
#include <rpm/header.h>
#include <rpm/rpmmacro.h>
#include <rpm/rpmlog.h>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
// librpm keeps no package without a name
struct P { string name, version, release, arch; int64_t epoch, time; bool has_name, has_version, has_release, has_arch; vector<string> files; }; // epoch, time < 0: not recorded
static string text(const P &p) { return (p.has_name ? p.name : "?") + (p.epoch < 0 ? " -:" : fmt(" %lld:", (long long)p.epoch)) + (p.has_version ? p.version : "?") + "-" + (p.has_release ? p.release : "?") + "." + (p.has_arch ? p.arch : "?") + fmt(" @%lld", (long long)p.time) + [&] { string s; for (auto &f : p.files) s += " " + f; return s; }(); }
static string base() { return mc::scratch(); }
static void write_file(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "w"); if (!f) mc::prune(); fputs(s.c_str(), f); fclose(f); }
static void clear_dir(const string &d) { DIR *h = opendir(d.c_str()); if (!h) return; while (auto *e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((d + "/" + e->d_name).c_str()); closedir(h); }
static void config(bool rpmrc = true)
{
    static bool once = false; string c = base() + "/cfg"; if (!once) { once = true; mkdir(c.c_str(), 0700); mkdir((base() + "/db").c_str(), 0700); setenv("RPM_CONFIGDIR", c.c_str(), 1); setenv("HOME", c.c_str(), 1); setenv("XDG_CONFIG_HOME", c.c_str(), 1); rpmlogSetMask(0); }
    if (rpmrc) write_file(c + "/rpmrc", ""); else unlink((c + "/rpmrc").c_str()); write_file(c + "/macros", "%_dbpath " + base() + "/db\n%_db_backend sqlite\n%_rpmlock_path " + base() + "/db/.rpm.lock\n");
}
static void database(const vector<P> &ps)
{
    config(); clear_dir(base() + "/db"); if (rpmReadConfigFiles(nullptr, nullptr)) mc::fail("harness", "no configuration"); rpmts ts = rpmtsCreate(); if (rpmtsInitDB(ts, 0644) || rpmtsOpenDB(ts, 2)) mc::fail("harness", "no database"); rpmtxn t = rpmtxnBegin(ts, RPMTXN_WRITE); if (!t) mc::fail("harness", "no transaction");
    for (auto &p : ps) {
        Header h = headerNew(); uint32_t v; if (p.has_name) headerPutString(h, RPMTAG_NAME, p.name.c_str()); if (p.has_version) headerPutString(h, RPMTAG_VERSION, p.version.c_str()); if (p.has_release) headerPutString(h, RPMTAG_RELEASE, p.release.c_str()); if (p.has_arch) headerPutString(h, RPMTAG_ARCH, p.arch.c_str()); if (p.epoch >= 0) { v = p.epoch; headerPutUint32(h, RPMTAG_EPOCH, &v, 1); } if (p.time >= 0) { v = p.time; headerPutUint32(h, RPMTAG_INSTALLTIME, &v, 1); }
        for (auto &f : p.files) { size_t s = f.rfind('/') + 1; string d = f.substr(0, s); headerPutString(h, RPMTAG_BASENAMES, f.c_str() + s); vector<string> dirs; const char *dp = d.c_str(); headerPutStringArray(h, RPMTAG_DIRNAMES, &dp, 1); v = &f - &p.files[0]; headerPutUint32(h, RPMTAG_DIRINDEXES, &v, 1); }
        h = headerLink(h); if (rpmtsImportHeader(t, h, 0)) mc::fail("harness", "a header was not imported"); headerFree(h); headerFree(h);
    }
    rpmtxnEnd(t); rpmtsCloseDB(ts); rpmtsFree(ts);
}
static bool complete(const P &p) { return p.has_name && p.has_version && p.has_release && p.has_arch && p.time >= 0; }
static string show(struct sr_rpm_package *p) { string s; for (; p; p = p->next) s += S(p->name) + fmt(" %u:", p->epoch) + S(p->version) + "-" + S(p->release) + "." + S(p->architecture) + fmt(" @%llu r%d c%d\n", (unsigned long long)p->install_time, p->role, p->consistency != nullptr); return s; }
static string want_of(const P &p) { return p.name + fmt(" %u:", p.epoch < 0 ? 0u : (unsigned)p.epoch) + p.version + "-" + p.release + "." + p.arch + fmt(" @%lld r0 c0\n", (long long)p.time); }
static struct sr_rpm_package *ask(bool path, const string &q, char **e) { Exact x(q); return path ? sr_rpm_package_get_by_path(x.p, e) : sr_rpm_package_get_by_name(x.p, e); }
static void query(const vector<P> &ps, bool path, const string &q, const string &what, bool leaks = true)
{
    string want; bool bad = false; for (auto &p : ps) { bool m = path ? std::find(p.files.begin(), p.files.end(), q) != p.files.end() : p.has_name && p.name == q; if (!m) continue; if (complete(p)) want += want_of(p); else bad = true; }
    string w = what + (path ? " path " : " name ") + q; char *e = nullptr; struct sr_rpm_package *r = ask(path, q, &e); mc::step(); mc::validated(); string got = show(r), msg = S(e); bool null = !r, has = e; sr_rpm_package_free(r, true); g_free(e);
    if (bad) { if (!null) mc::fail("incomplete|" + w, "a package with missing information is reported: %s", got.c_str()); if (!has || msg.empty()) mc::fail("no message|" + w, "rejected without a message"); }
    else { if (got != want) mc::fail("packages|" + w, "found\n%sexpected\n%s(%s)", got.c_str(), want.c_str(), msg.c_str()); if (has) mc::fail("message|" + w, "a message with a result: %s", msg.c_str()); }
    if (leaks) { auto left = [&](const string &x) { mc::HeapRegion h; char *m = nullptr; sr_rpm_package_free(ask(path, x, &m), true); g_free(m); long l = h.live(); h.stop(); return l; }; // reading the configuration again leaves something behind inside librpm, whatever is asked for
    long l1 = left(q), l0 = left("/nothing/of/this/name"); if (l1 > l0) { l1 = left(q); if (l1 > l0) mc::fail("leak|" + w, "%ld blocks left, %ld by a query without matches", l1, l0); } }
    mc::nontrivial(); mc::outcome(w + got + msg);
}
static const P typical = {"bash", "5.2", "1.fc40", "x86_64", -1, 1700000000, true, true, true, true, {"/opt/none/sh"}};
static const vector<string> all_names = {"bash", "bas", "bashx", "Bash", "", "*", "bash-5.2", "b?sh"}, all_paths = {"/opt/none/sh", "/opt/none/s", "/opt/none/shx", "/opt/none", "/opt/none/lib/sh", "sh", "/opt/none/*"};
// every field of a package
MC_SCENARIO(fields)
{
    mc::set_dev_bound(mc::thorough() ? 3 : 2); P p = typical; static const vector<string> names = {"bash", "a", "kernel-core", "x++", "bash bash", "%{name}", "gpg-pubkey"}, versions = {"5.2", "0", "1:2", "1-2", "\xc3\xa9", "~rc1", "4294967296"}; static const vector<int64_t> epochs = {-1, 0, 1, 4294967295ll, 2147483648ll, 7}, times = {1700000000, 0, 1, 4294967295ll, 2147483648ll};
    p.name = alt(names); p.version = alt(versions); p.release = alt(versions); p.arch = alt(vector<string>{"x86_64", "noarch", "i686", "a b"}); p.epoch = alt(epochs); p.time = alt(times); p.has_version = !maybe(); p.has_release = !maybe(); p.has_arch = !maybe(); if (maybe()) p.time = -1; string what = text(p); mc::describe(what); vector<P> d = {p}; database(d); query(d, false, p.name, what); query(d, true, p.files[0], what);
}
// every combination of missing information
MC_SCENARIO(missing)
{
    P p = typical; p.has_version = mc::flip(); p.has_release = mc::flip(); p.has_arch = mc::flip(); p.time = mc::flip() ? -1 : 5; p.epoch = mc::choose(3) - 1; string what = text(p); mc::describe(what); vector<P> d = {p}; database(d); query(d, false, p.name, what); query(d, true, p.files[0], what);
}
// every database of a few packages, every query
MC_SCENARIO(databases)
{
    static vector<P> al; if (al.empty()) { al = vector<P>(8, typical); al[1].version = "4.1"; al[1].epoch = 2; al[1].files.push_back("/opt/none/lib/sh"); al[2].name = "bashx"; al[2].files = {"/opt/none/shx"}; al[3].has_version = false; al[4].name = "sh"; al[4].epoch = 0; al[5].files.clear(); al[5].release = "9"; al[6].name = "gpg-pubkey"; al[6].has_arch = false; al[6].files.clear(); al[7].arch = "i686"; al[7].time = 3; }
    int n = mc::choose((mc::thorough() ? 4 : 3) + 1); vector<P> d; string what = fmt("%d packages:", n); for (int i = 0; i < n; i++) { d.push_back(mc::pick(al)); what += " {" + text(d.back()) + "}"; } mc::describe(what); database(d); for (auto &q : all_names) if (!q.empty()) query(d, false, q, what, q == "bash"); for (auto &q : {"gpg-pubkey", "sh"}) query(d, false, q, what, false); for (auto &q : all_paths) query(d, true, q, what, q == all_paths[0]);
}
MC_SCENARIO(many)
{
    int n = 1 + mc::choose(mc::thorough() ? 60 : 20), bad = mc::choose(n + 1) - 1; if (n > 6 && bad > 0 && bad < n - 1 && bad != n / 2) mc::prune(); vector<P> d; for (int i = 0; i < n; i++) { P p = typical; p.version = fmt("%d", i); p.epoch = i % 3 - 1; p.files[0] = fmt("/opt/none/f%d", i % 4); if (i == bad) p.has_release = false; d.push_back(p); } string what = fmt("%d packages, %d incomplete", n, bad); mc::describe(what); database(d); query(d, false, "bash", what); for (int i = 0; i < 5; i++) query(d, true, fmt("/opt/none/f%d", i), what);
}
// states of the configuration and of the database
MC_SCENARIO(environment)
{
    int kind = mc::choose(4), n = mc::choose(2); string what = fmt("kind %d, %d packages", kind, n); mc::describe(what); vector<P> d(n, typical); database(d); string db = base() + "/db"; if (kind == 1) config(false); if (kind == 2) clear_dir(db); if (kind == 3) { clear_dir(db); write_file(db + "/rpmdb.sqlite", "damaged"); }
    for (int path = 0; path < 2; path++) { char *e = nullptr; struct sr_rpm_package *r = ask(path, path ? typical.files[0] : typical.name, &e); mc::step(); mc::validated(); string got = show(r), msg = S(e); bool has = e; sr_rpm_package_free(r, true); g_free(e); string want = kind == 0 && n ? want_of(typical) : ""; if (got != want) mc::fail("environment|" + what, "found %s", got.c_str()); if (kind == 0 && has) mc::fail("message|" + what, "%s", msg.c_str()); if (kind == 1 && (!has || msg.empty())) mc::fail("no message|" + what, "no configuration, no message"); mc::outcome(what + msg); } mc::nontrivial();
}
