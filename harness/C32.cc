// C32: the command line tool reports what the library computes, and every failure.
// satyr.c is compiled as it is (its main renamed, its exits announced) and every execution runs it in processes of their own.
#include "coredump.h"
#include "hash.h"
#include "parsers.h"
extern "C" int satyr_cli_main(int argc, char **argv);
static int announce = -1; // the child's end of a pipe: an exit that was not announced is a crash
extern "C" void satyr_cli_exit(int code) { fflush(stdout); fflush(stderr); unsigned char c = code; if (write(announce, &c, 1) != 1) _exit(98); _exit(code); }
struct Res { int code = -1; string out, err, end; }; // code < 0: crashed
static string slurp(int fd) { string s; char b[4096]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
static string slurp(const string &p) { int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC); if (fd < 0) return "(none)"; string s = slurp(fd); close(fd); return s; }
static Res run(const vector<string> &args)
{
    Res r; int fd[2]; static int o = -1, e = -1; static string at; if (at != mc::scratch()) { at = mc::scratch(); o = open(path("stdout").c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600); e = open(path("stderr").c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600); } if (o < 0 || e < 0 || pipe2(fd, O_CLOEXEC)) mc::prune(); for (int f : {o, e}) { if (ftruncate(f, 0)) mc::prune(); lseek(f, 0, SEEK_SET); }
    fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) mc::prune();
    if (pid == 0) {
        close(fd[0]); announce = fd[1]; dup2(o, 1); dup2(e, 2); int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); alarm(20); vector<Exact *> keep; vector<char *> av; for (auto &a : args) { keep.push_back(new Exact(a)); av.push_back(keep.back()->p); } av.push_back(nullptr); char **copy = (char **)malloc(av.size() * sizeof(char *)); memcpy(copy, av.data(), av.size() * sizeof(char *)); satyr_cli_exit(satyr_cli_main((int)args.size(), copy));
    }
    close(fd[1]); unsigned char c; ssize_t n = read(fd[0], &c, 1); close(fd[0]); int st = 0; waitpid(pid, &st, 0); r.out = slurp(o); r.err = slurp(e); mc::step(); if (n == 1 && WIFEXITED(st) && WEXITSTATUS(st) == c) r.code = c; else r.end = fmt("status %x: ", st) + r.err.substr(0, 400); return r;
}
static string words_of(const vector<string> &v) { string s; for (auto &x : v) s += (s.empty() ? "" : " ") + quote(x); return s; }
static bool starts(const string &s, const string &p) { return s.compare(0, p.size(), p) == 0; }
// a run that fails says so: exit status 1, a message, and no result
static void expect_failure(const Res &r, const string &w, const string *message, bool usage)
{
    if (r.code < 0) mc::fail("crash|" + w, "%s", r.end.c_str()); if (r.code != 1) mc::fail("status|" + w, "exit status %d, expected 1; printed %s", r.code, quote(r.out).c_str()); if (usage ? !starts(r.out, "Usage: ") : !r.out.empty()) mc::fail("output|" + w, "a failing run prints %s", quote(r.out).c_str()); if (message ? r.err != *message + "\n" : r.err.empty()) mc::fail("message|" + w, "says %s, expected %s", quote(r.err).c_str(), message ? quote(*message).c_str() : "a message");
}
static void expect_success(const Res &r, const string &w, const string &out)
{
    if (r.code < 0) mc::fail("crash|" + w, "%s", r.end.c_str()); if (r.code != 0) mc::fail("status|" + w, "exit status %d: %s", r.code, quote(r.err).c_str()); if (r.out != out) mc::fail("output|" + w, "prints %s, expected %s", quote(r.out).c_str(), quote(out).c_str()); if (!r.err.empty()) mc::fail("stderr|" + w, "succeeds and says %s", quote(r.err).c_str());
}
static const char *const type_names[] = {"core", "python", "kerneloops", "java", "gdb", "ruby", "javascript"};
static void duphash(const string &type, const string &file, const string *component, const string &w)
{
    vector<string> a = {"/usr/bin/satyr", "debug", "duphash", type, file}; if (component) a.push_back(*component); Res r = run(a); mc::validated(); enum sr_report_type t = SR_REPORT_INVALID; for (int i = 0; i < 7; i++) if (type == type_names[i]) t = sr_report_type_from_string(type_names[i]);
    if (t == SR_REPORT_INVALID) return expect_failure(r, w, nullptr, false);
    char *m = nullptr; char *text = sr_file_to_string(file.c_str(), &m); if (!text) { string s = take(m); expect_failure(r, w, &s, false); return; } struct sr_stacktrace *st = sr_stacktrace_parse(t, text, &m); g_free(text); if (!st) { string s = take(m); expect_failure(r, w, &s, false); return; }
    struct sr_thread *th = sr_stacktrace_find_crash_thread(st); char *c = th ? sr_thread_get_duphash(th, 3, component ? (char *)component->c_str() : nullptr, SR_DUPHASH_NOHASH) : nullptr; sr_stacktrace_free(st); if (!c) return expect_failure(r, w, nullptr, false); string clear = take(c); expect_success(r, w, "Cleartext:\n" + clear + "\nHash: " + ref_sha1(clear) + "\n");
}
// every command line of a few words
MC_SCENARIO(command_lines)
{
    static vector<string> words; static string good, dir; if (words.empty()) { good = path("trace"); put(good, langs().at("python").seeds[0]); dir = path("empty"); mkdir(dir.c_str(), 0700); words = {"--help", "--usage", "--version", "abrt-print-report-from-dir", "abrt-report-dir", "abrt-create-core-stacktrace", "debug", "normalize", "duphash", "unwind-from-hook", "python", good, dir, path("missing"), "", "--hel", "debugx", "Debug", "duphas", "x1", "999999999"}; }
    int n = mc::choose((mc::thorough() ? 5 : 4)); vector<string> a = {mc::choose(2) ? "satyr" : "/usr/local/bin/prog"}; for (int i = 0; i < n; i++) a.push_back(mc::pick(words)); if (mc::thorough() && n == 4 && a[1] != "debug") mc::prune(); auto w = words_of(a); mc::describe(w); auto arg = [&](size_t i) { return i < a.size() ? a[i] : string(); }; string c = arg(1), prog = a[0].substr(a[0].rfind('/') + 1);
    if (c == "debug" && a.size() == 5 && arg(2) == "unwind-from-hook" && arg(4) != "") { bool tid = arg(4).find_first_not_of("0123456789") == string::npos; if (tid && arg(4) != "999999999") mc::prune(); }
    if (c == "debug" && arg(2) == "duphash" && a.size() >= 5) { string comp = arg(5); duphash(arg(3), arg(4), a.size() > 5 ? &comp : nullptr, w); mc::nontrivial(); mc::outcome(w); return; }
    Res r = run(a); mc::validated(); mc::nontrivial(); mc::outcome(w + r.out + r.err);
    if (n == 0) { if (r.code != 1 || !starts(r.out, "Usage: " + prog)) mc::fail("none|" + w, "status %d, prints %s", r.code, quote(r.out).c_str()); }
    else if (c == "--help") { if (r.code || !r.err.empty()) mc::fail("help|" + w, "status %d %s", r.code, r.end.c_str()); for (auto x : {"Usage: ", "abrt-print-report-from-dir", "abrt-create-core-stacktrace", "debug"}) if (r.out.find(x) == string::npos) mc::fail("help|" + w, "no %s in %s", x, quote(r.out).c_str()); if (r.out.find(prog) == string::npos) mc::fail("help|" + w, "no name of the program"); }
    else if (c == "--usage") { if (r.code || !r.err.empty() || !starts(r.out, "Usage: " + prog)) mc::fail("usage|" + w, "status %d, prints %s", r.code, quote(r.out).c_str()); }
    else if (c == "--version") { if (r.code || !r.err.empty() || r.out.find("0.") == string::npos || std::count(r.out.begin(), r.out.end(), '\n') != 1) mc::fail("version|" + w, "status %d, prints %s", r.code, quote(r.out).c_str()); }
    else if (c == "abrt-report-dir") { if (r.code < 0 || r.err.empty()) mc::fail("not implemented|" + w, "status %d, %s %s", r.code, quote(r.err).c_str(), r.end.c_str()); }
    else if (c == "abrt-print-report-from-dir" || c == "abrt-create-core-stacktrace") {
        if (n == 1) expect_failure(r, w, nullptr, true); else { char *m = nullptr; if (c == "abrt-print-report-from-dir") { if (sr_abrt_report_from_dir(a[2].c_str(), &m)) mc::fail("library|" + w, "a report"); } else sr_abrt_create_core_stacktrace(a[2].c_str(), false, &m); if (!m) mc::fail("library|" + w, "no message"); string s = take(m); expect_failure(r, w, &s, false); } }
    else if (c == "debug" && (arg(2) == "normalize" || arg(2) == "unwind-from-hook")) {
        if (arg(2) == "unwind-from-hook") expect_failure(r, w, nullptr, false); else if (n == 2) expect_failure(r, w, nullptr, true);
        else if (arg(3) == good) { if (r.code != 0) mc::fail("normalize|" + w, "status %d: %s%s", r.code, r.err.c_str(), r.end.c_str()); }
        else { char *m = nullptr; char *t = sr_file_to_string(arg(3).c_str(), &m); if (t) mc::fail("library|" + w, "%s is read", arg(3).c_str()); string s = take(m); expect_failure(r, w, &s, false); } }
    else expect_failure(r, w, nullptr, true);
}
// ---- duplication hashes of files
static string file_with(const string &text) { string f = path("text"); put(f, text); return f; }
static void hash_text(const string &type, const string &text) { string w = type + " " + quote(text); mc::describe(w); string f = file_with(text); static const string comps[] = {"", "comp"}; int k = mc::choose(3); duphash(type, f, k ? &comps[k - 1] : nullptr, w + fmt(" %d", k)); mc::nontrivial(); mc::outcome(w + fmt("%d", k)); }
MC_SCENARIO(texts)
{
    static const std::pair<const char *, const char *> ls[] = {{"gdb", "gdb"}, {"kerneloops", "koops"}, {"python", "python"}, {"ruby", "ruby"}, {"java", "java"}, {"javascript", "js"}}; auto &l = mc::pick(ls); auto &lang = langs().at(l.second); auto t = tokenise(mc::pick(lang.seeds)); int n = (int)t.size(), i = mc::choose((mc::thorough() ? 6 : 2) * n), at = n ? i % n : 0; switch (n ? i / n : 9) { case 0: t.erase(t.begin() + at); break; case 1: t.resize(at); break; case 2: t.insert(t.begin() + at, string(t[at])); break; case 3: if (at) std::swap(t[at], t[at - 1]); break; case 4: t[at] = "\xff"; break; case 5: t[at] = "\n"; break; } string x; for (auto &s : t) x += s; hash_text(l.first, x);
}
MC_SCENARIO(short_texts)
{
    static const std::pair<const char *, const char *> ls[] = {{"gdb", "gdb"}, {"kerneloops", "koops"}, {"python", "python"}, {"ruby", "ruby"}, {"java", "java"}, {"javascript", "js"}}; auto &l = mc::pick(ls); hash_text(l.first, seq_text(langs().at(l.second), mc::thorough() ? 2 : 1, mc::pick(contexts.at(l.second))));
}
static string frame_json(int k) { static const char *f[] = {"{\"address\":1}", "{\"build_id\":\"ab\",\"build_id_offset\":5,\"function_name\":\"f\"}", "{\"function_name\":\"g\",\"file_name\":\"/x\"}", "{\"fingerprint\":\"h\",\"build_id_offset\":1}", "{}"}; return f[k]; }
MC_SCENARIO(core_texts)
{
    int nt = mc::choose(3), crash = mc::choose(nt + 1) - 1; string t; for (int i = 0; i < nt; i++) { int n = mc::choose(mc::thorough() ? 6 : i ? 3 : 5); string f; for (int j = 0; j < n; j++) f += (j ? "," : "") + frame_json(j == 0 || (j == n - 1 && mc::thorough()) ? mc::choose(5) : (j + n) % 5); t += (i ? ",{" : "{") + string(i == crash ? "\"crash_thread\":true," : "") + "\"frames\":[" + f + "]}"; } static const char *pre[] = {"{\"signal\":6,", "{\"executable\":\"/usr/bin/x\",", "{"}; string s = pre[mc::choose(mc::thorough() ? 3 : 2)] + string("\"stacktrace\":[") + t + "]}"; int cut = mc::choose(4); if (cut) s.resize(s.size() * (cut - 1) / 3); hash_text("core", s);
}
MC_SCENARIO(unreadable)
{
    int k = mc::choose(6); string f = path("odd"); rmdir(f.c_str()); unlink(f.c_str()); if (k == 1) mkdir(f.c_str(), 0700); if (k == 2) put(f, ""); if (k == 3) put(f, string("Traceback (most recent call last):\n  File \"a\", line 1, in f\n\0 x\nE\n", 55)); if (k == 4 && symlink(f.c_str(), f.c_str())) mc::prune(); if (k == 5) f += "/below"; string type = mc::pick(type_names); int how = mc::choose(2); string w = fmt("unreadable %d %s %d", k, type.c_str(), how); mc::describe(w);
    if (how == 0) duphash(type, f, nullptr, w); else { Res r = run({"satyr", "debug", "normalize", f}); mc::validated(); char *m = nullptr; char *t = sr_file_to_string(f.c_str(), &m); if (!t) { string s = take(m); expect_failure(r, w, &s, false); } else { g_free(t); if (r.code < 0) mc::fail("crash|" + w, "%s", r.end.c_str()); } } rmdir(path("odd").c_str()); unlink(path("odd").c_str()); mc::nontrivial(); mc::outcome(w);
}
// ---- normalisation of lists of symbols and libraries
static vector<string> printed(const string &out) { vector<string> v; size_t i = 0; while (i < out.size()) { size_t e = out.find('\n', i); if (e == string::npos) e = out.size(); string l = out.substr(i, e - i); i = e + 1; size_t k = l.find_first_not_of(' '); if (k == 2) v.push_back(l.substr(k)); } return v; }
MC_SCENARIO(normalize)
{
    static const char *fns[] = {"main", "raise", "abort", "__libc_message", "g_log", "foo", "gsignal", "_int_free", "malloc"}, *libs[] = {"/lib/libc.so.6", "libglib-2.0.so", "prog"}; int n = mc::choose((mc::thorough() ? 4 : 3)) + 1; string t, w; struct sr_gdb_thread *th = sr_gdb_thread_new(); int lib = mc::choose(3), nl = mc::choose(2);
    for (int i = 0; i < n; i++) { string f = mc::pick(fns); t += f + " " + libs[(lib + i) % 3] + (i + 1 < n || nl ? "\n" : ""); auto *x = sr_gdb_frame_new(); x->function_name = g_strdup(f.c_str()); x->library_name = g_strdup(libs[(lib + i) % 3]); x->source_file = g_strdup(""); th->frames = sr_gdb_frame_append(th->frames, x); } w = quote(t); mc::describe(w); sr_normalize_gdb_thread(th); vector<string> want; for (auto *f = th->frames; f; f = f->next) want.push_back(S(f->function_name)); sr_gdb_thread_free(th);
    Res r = run({"satyr", "debug", "normalize", file_with(t)}); mc::validated(); if (r.code || !r.err.empty()) mc::fail("normalize|" + w, "status %d: %s%s", r.code, r.err.c_str(), r.end.c_str()); vector<string> got = printed(r.out); if (got != want) mc::fail("normalized|" + w, "prints %s, expected %s", words_of(got).c_str(), words_of(want).c_str()); mc::nontrivial(); mc::outcome(w + r.out);
}
// ---- problem directories
struct Item { const char *name; vector<string> v; };
static void reports_from(const string &dir, const string &w)
{
    Res r = run({"satyr", "abrt-print-report-from-dir", dir}); mc::validated(); char *m = nullptr; struct sr_report *rep = sr_abrt_report_from_dir(dir.c_str(), &m); if (!rep) { string s = take(m); expect_failure(r, w, &s, false); } else { string j = take(sr_report_to_json(rep)); sr_report_free(rep); expect_success(r, w, j + "\n"); } mc::nontrivial(); mc::outcome(w + r.out + r.err);
}
MC_SCENARIO(reports)
{
    mc::set_dev_bound(mc::thorough() ? 3 : 2); static const vector<string> types = {"Python", "CCpp", "Kerneloops", "Java", "Ruby", "JavaScript", "Xorg", ""}; string dir = path("problem"); mkdir(dir.c_str(), 0700); string type = mc::pick(types), w = type; auto &ls = langs(); auto seed = [&](const char *l) { return ls.at(l).seeds[0]; };
    string trace = type == "Kerneloops" ? seed("koops") : type == "Java" ? seed("java") : type == "Ruby" ? seed("ruby") : type == "JavaScript" ? seed("js") : seed("python"); string core = "{\"signal\":6,\"executable\":\"/usr/bin/x\",\"stacktrace\":[{\"crash_thread\":true,\"frames\":[" + frame_json(1) + "]}]}";
    vector<Item> files = {{"type", {type}}, {"os_info", {"ID=fedora\nVERSION_ID=24\n", "\xff", "ID=\"a b\"\nVERSION_ID=\"\\\"\""}}, {"architecture", {"x86_64", "", "\"\\"}}, {"component", {"bash", "", "\xc3\xa9\n"}}, {"executable", {"/bin/bash"}}, {"count", {"1", "x", "0", "4294967295"}}, {"package", {"bash-5.2-1"}}, {"pkg_epoch", {"0", "7", "y"}}, {"pkg_name", {"bash"}}, {"pkg_version", {"5.2"}}, {"pkg_release", {"1"}}, {"pkg_arch", {"x86_64"}}, {"dso_list", {"", "/lib/l a-1-2.x (V) 5\n"}}, {"backtrace", {trace, "nothing", ""}}, {"core_backtrace", {core, "{", core.substr(0, 30)}}, {"kernel", {"4.0\n"}}, {"analyzer", {"abrt-javascript"}}, {"uid", {"0", "1000"}}};
    for (auto &f : files) { int k = mc::choose_dev((int)f.v.size() + 1); string p = dir + "/" + f.name; if (k) w += fmt(" %s#%d", f.name, k); if (k == (int)f.v.size()) unlink(p.c_str()); else put(p, f.v[k]); } mc::describe(w); reports_from(dir, w);
}
MC_SCENARIO(core_dumps)
{
    World w = world(); int lack = mc::choose(5), there = mc::choose(3); string dir = path("dir"); mkdir(dir.c_str(), 0700); static const vector<vector<uint64_t>> stacks = {{LIBA + 0x410}, {LIBA + 0x410, LIBA + 0x440, NOWHERE, EXE + 0x401}, {LIBB + 0x410, EXE + 0x441}}; auto &pcs = mc::pick(stacks); string d = fmt("lack %d there %d", lack, there); for (auto p : pcs) d += fmt(" %llx", (ull)p); mc::describe(d); string bt = dir + "/core_backtrace", core = dir + "/coredump", exe = dir + "/executable"; put(core, core_image({{7, 6, pcs}}, w.segs, w.opt)); put(exe, w.exe); if (lack == 1) unlink(core.c_str()); if (lack == 2) unlink(exe.c_str()); if (lack == 3) put(core, "text"); if (lack == 4) put(exe, "/nowhere");
    auto lay = [&] { rmdir(bt.c_str()); unlink(bt.c_str()); if (there == 1) put(bt, "old"); if (there == 2) mkdir(bt.c_str(), 0700); }; lay(); Res r = run({"satyr", "abrt-create-core-stacktrace", dir}); string got = slurp(bt); lay(); char *m = nullptr; bool ok = sr_abrt_create_core_stacktrace(dir.c_str(), false, &m); string want = slurp(bt); mc::validated(); if (ok) expect_success(r, d, ""); else { string s = S(m); expect_failure(r, d, &s, false); } g_free(m); if (!lack && there != 2) { if (ok && (want == "(none)" || want == "old")) mc::fail("library|" + d, "wrote %s", want.c_str()); } else if (ok && lack != 4) mc::fail("library|" + d, "succeeds"); if (got != want) mc::fail("file|" + d, "core_backtrace is %s, expected %s", quote(got).c_str(), quote(want).c_str()); lay(); rmdir(bt.c_str()); mc::nontrivial(); mc::outcome(d + got);
}
