// C17: duplication hashes depend exactly on the crash-relevant frames.
#include "hash.h"
static Frames frames_of(const Kind &k, struct sr_thread *t) { Frames v; for (void *f = sr_thread_frames(t); f; f = k.next(f)) v.push_back(k.content(f)); return v; }
static string dump(const Kind &k, const Frames &f) { string s; for (auto &c : f) s += k.text(c) + " "; return s; }
static const vector<Val> &prefixes() { static const vector<Val> v = {V((const char *)nullptr), V(""), V("p"), V("two\nlines\n"), V("%s%d")}; return v; }
// one thread, all flags; the reference normalisation is the library's own, checked by C16
static void check(const Kind &k, const Frames &fr, int n, const Val &prefix, const string &what)
{
    struct sr_thread *t = make_thread(k, fr), *norm = make_thread(k, fr); sr_thread_normalize(norm); Frames nf = frames_of(k, norm); sr_thread_free(norm);
    string p = prefix.null ? "" : prefix.s;
    for (int fl = 0; fl < 16; fl++) {
        bool compat = fl & SR_DUPHASH_KOOPS_COMPAT; Val want = ref_dup_text(k, fl & SR_DUPHASH_NONORMALIZE ? fr : nf, n, prefix, compat);
        if (!want.null && !(fl & SR_DUPHASH_NOHASH)) want = V(ref_sha1(want.s));
        char *h = sr_thread_get_duphash(t, n, prefix.null ? nullptr : &p[0], (enum sr_duphash_flags)fl); Val got = V(h); g_free(h); mc::step(); mc::validated();
        if (got != want) mc::fail(fmt("hash|%d|", fl) + what, "flags %d: the hash is %s, expected %s", fl, got.null ? "NULL" : quote(got.s).c_str(), want.null ? "NULL" : quote(want.s).c_str());
    }
    Frames after = frames_of(k, t); sr_thread_free(t);
    if (after != fr) mc::fail("changed|" + what, "hashing changed the thread: %s became %s", dump(k, fr).c_str(), dump(k, after).c_str());
    if (!prefix.null && p != prefix.s) mc::fail("prefix|" + what, "hashing changed the prefix");
    mc::nontrivial(); mc::outcome(what);
}
// which fields of a frame enter the hash
MC_SCENARIO(fields)
{
    const Kind &k = frame_kind(mc::pick(all_types)); Content a = base_frame(k); mc::set_dev_bound(mc::thorough() ? 4 : 3); bool absent = mc::choose(2);
    for (size_t i = 0; i < k.f.size(); i++) { if (absent && k.f[i].k == Field::STR) a[i] = V((const char *)nullptr); auto &vs = values(k.f[i]); int c = mc::choose_dev((int)std::min<size_t>(vs.size(), mc::thorough() ? 99 : 7) + 1); if (c) a[i] = vs[c - 1]; }
    string what = k.text(a); mc::describe(what); check(k, {a, base_frame(k)}, 0, V((const char *)nullptr), what);
}
// all sequences over the frames that normalisation and hashing treat differently, every limit and prefix
static Frames alphabet(const Kind &k)
{
    Frames v = frame_alphabet(k); if (v.size() > 3) v.resize(3);
    auto add = [&](std::initializer_list<std::pair<const char *, Val>> m) { Content c = base_frame(k); for (auto &p : m) c[k.idx(p.first)] = p.second; v.push_back(c); };
    Val null = V((const char *)nullptr);
    switch (k.type) {
    case SR_REPORT_CORE: add({{"build_id", null}, {"function_name", V("g")}}); add({{"build_id", null}, {"function_name", null}, {"fingerprint", null}, {"address", N(0x40)}}); add({{"build_id", null}, {"function_name", V("abort")}, {"file_name", V("/lib64/libc.so.6")}}); break;
    case SR_REPORT_GDB: add({{"function_name", V("abort")}, {"source_file", V("abort.c")}}); add({{"function_name", V("raise")}, {"source_file", V("raise.c")}}); add({{"function_name", null}, {"signal_handler_called", N(1)}}); break;
    case SR_REPORT_KERNELOOPS: add({{"function_name", V("f")}, {"reliable", N(1)}}); add({{"function_name", V("dump_stack")}, {"reliable", N(1)}}); add({{"function_name", null}, {"reliable", N(1)}, {"address", N(0xffffffff81000000ull)}}); break;
    default: add({{"file_line", N(7)}});
    }
    return v;
}
MC_SCENARIO(sequences)
{
    const Kind &k = frame_kind(mc::pick(all_types)); Frames al = alphabet(k), fr; int len = mc::choose((mc::thorough() ? 5 : 4) + 1); string w;
    for (int i = 0; i < len; i++) { int c = mc::choose((int)al.size()); fr.push_back(al[c]); w += char('A' + c); }
    mc::describe(k.name + " [" + w + "]");
    for (int n : {0, 1, 2, 3, 4, 5, 6, INT32_MAX, -1}) check(k, fr, n, V((const char *)nullptr), k.name + " [" + w + fmt("] %d", n));
    for (auto &p : prefixes()) if (!p.null) check(k, fr, 0, p, k.name + " [" + w + "] prefix " + quote(p.s));
    if (len) check(k, fr, 1, V("x"), k.name + " [" + w + "] 1 prefix x");
}
// long threads: a change anywhere matters exactly when it is within the limit
MC_SCENARIO(limits)
{
    const Kind &k = frame_kind(mc::pick(all_types)); int len = 1 + mc::choose(mc::thorough() ? 40 : 24), n = mc::choose(len + 3), at = mc::choose(len);
    const char *names[] = {"file_name", "function_name", "name"}; auto frame = [&](int x) { Content c = base_frame(k); for (size_t i = 0; i < k.f.size(); i++) for (auto nm : names) if (!strcmp(k.f[i].name, nm)) c[i] = V(fmt("n%d", x)); if (k.type == SR_REPORT_CORE) c[k.idx("build_id")] = V((const char *)nullptr); if (k.type == SR_REPORT_KERNELOOPS) c[k.idx("reliable")] = N(1); return c; };
    Frames a, b; for (int i = 0; i < len; i++) a.push_back(frame(i)); b = a; b[at] = frame(1000);
    string what = fmt("%s %d frames, limit %d, frame %d changed", k.name.c_str(), len, n, at); mc::describe(what);
    struct sr_thread *x = make_thread(k, a), *y = make_thread(k, b);
    for (int fl : {0, 4, 8, 12, 2}) { string h1 = take(sr_thread_get_duphash(x, n, nullptr, (enum sr_duphash_flags)fl)), h2 = take(sr_thread_get_duphash(y, n, nullptr, (enum sr_duphash_flags)fl)); mc::step(2); mc::validated();
        bool differ = n == 0 || at < n; if ((h1 != h2) != differ) mc::fail("limit|" + what, "flags %d: the hashes are %s", fl, differ ? "the same" : "different"); }
    sr_thread_free(x); sr_thread_free(y); mc::nontrivial(); mc::outcome(what);
}
// the same across the sizes at which a counter or a buffer may end
MC_SCENARIO(long_threads)
{
    const Kind &k = frame_kind(mc::pick(all_types)); static const int lens[] = {127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 2049, 4097}; int len = lens[mc::choose(mc::thorough() ? 12 : 10)]; const int ns[] = {0, 1, 127, 128, 255, 256, 257, len - 1, len, len + 1, 65536, INT32_MAX}; int n = mc::pick(ns); const int ats[] = {0, len / 2, len - 1, n - 1, n, 126, 127, 128, 254, 255, 256, 511}; int at = mc::pick(ats); if (at < 0 || at >= len) mc::prune();
    const char *names[] = {"file_name", "function_name", "name"}; auto frame = [&](int x) { Content c = base_frame(k); for (size_t i = 0; i < k.f.size(); i++) for (auto nm : names) if (!strcmp(k.f[i].name, nm)) c[i] = V(fmt("n%d", x)); if (k.type == SR_REPORT_CORE) c[k.idx("build_id")] = V((const char *)nullptr); if (k.type == SR_REPORT_KERNELOOPS) c[k.idx("reliable")] = N(1); return c; };
    Frames a; for (int i = 0; i < len; i++) a.push_back(frame(i)); string what = fmt("%s %d frames, limit %d, frame %d changed", k.name.c_str(), len, n, at); mc::describe(what);
    struct sr_thread *x = make_thread(k, a), *y = (a[at] = frame(100000), make_thread(k, a));
    for (int fl : {4, 6}) { string h1 = take(sr_thread_get_duphash(x, n, nullptr, (enum sr_duphash_flags)fl)), h2 = take(sr_thread_get_duphash(y, n, nullptr, (enum sr_duphash_flags)fl)); mc::step(2); mc::validated(); bool differ = n == 0 || at < n; if ((h1 != h2) != differ) mc::fail("long limit|" + what, "flags %d: the hashes are %s", fl, differ ? "the same" : "different"); }
    sr_thread_free(x); sr_thread_free(y); mc::nontrivial(); mc::outcome(what);
}
// a thread inside a stack trace: its neighbours do not matter
MC_SCENARIO(neighbours)
{
    enum sr_report_type ts[] = {SR_REPORT_CORE, SR_REPORT_GDB, SR_REPORT_JAVA}; enum sr_report_type ty = mc::pick(ts); const Kind &k = frame_kind(ty); Frames al = alphabet(k);
    TraceData d; d.type = ty; int nt = 1 + mc::choose(3); vector<string> alone;
    for (int i = 0; i < nt; i++) { ThreadData td; td.number = i + 1; td.tid = 100 + i; td.named = ty == SR_REPORT_JAVA; td.name = fmt("t%d", i); int len = mc::choose(mc::thorough() ? 3 : 3); for (int j = 0; j < len; j++) td.frames.push_back(al[mc::choose(3)]); d.threads.push_back(td); }
    string what = dump(d); mc::describe(what); struct sr_stacktrace *s = build(d); string before = dump(extract(s)); int i = 0;
    for (struct sr_thread *t = sr_stacktrace_threads(s); t; t = sr_thread_next(t), i++) for (int fl : {2, 6, 10}) {
        struct sr_thread *a = make_thread(k, d.threads[i].frames); string w = take(sr_thread_get_duphash(a, 0, nullptr, (enum sr_duphash_flags)fl)); sr_thread_free(a);
        string g = take(sr_thread_get_duphash(t, 0, nullptr, (enum sr_duphash_flags)fl)); mc::step(2); mc::validated();
        if (g != w) mc::fail(fmt("neighbour|%d|", i) + what, "thread %d hashes as %s, alone as %s", i, quote(g).c_str(), quote(w).c_str());
    }
    if (dump(extract(s)) != before) mc::fail("changed|" + what, "hashing changed the stack trace"); sr_stacktrace_free(s); mc::nontrivial(); mc::outcome(what);
}
