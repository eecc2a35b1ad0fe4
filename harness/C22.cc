// C22: reading and writing files reports every failure and never loses data.
#include "inject.h"
static string path_of(const char *n) { return string(mc::scratch()) + "/" + n; }
static void put(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "w"); if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static string get(const string &p, bool &ok) { FILE *f = fopen(p.c_str(), "r"); ok = f; if (!f) return ""; string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static const char *texts[] = {"", "a", "ab", "abc\n", "line one\nline two\n", "\xc3\xa9\xff\x01 end"};
static void check_error(const string &what, const char *msg) { if (!msg || !*msg) mc::fail("message|" + what, "a failure without a message"); }
static void finish(const string &what, long live) { if (inj::open_fds) mc::fail("descriptor|" + what, "%d descriptors left open", inj::open_fds); if (inj::strange) mc::fail("foreign descriptor|" + what, "a descriptor that is not its own was closed"); if (live) mc::fail("leak|" + what, "%ld blocks of memory left", live); }
MC_SCENARIO(reading)
{
    mc::set_dev_bound(mc::thorough() ? 4 : 3); string text = mc::pick(texts), p = path_of("in"); put(p, text); inj::plan(10); string what = "read " + quote(text) + " "; for (int i = 0; i < 10; i++) what += fmt("%d", inj::codes[i]); mc::describe(what);
    char *msg = nullptr, *r = nullptr; long live = 0; bool leak = false; string t = inj::run(mc::scratch(), [&] { mc::HeapRegion h; r = sr_file_to_string(p.c_str(), &msg); long l = h.live(); live = l - (r ? 1 : 0) - (msg ? 1 : 0); leak = live != 0; }); what = "read " + quote(text) + " " + t; mc::step(); mc::validated();
    bool failed = !r; string got = r ? r : "", m = msg ? msg : ""; bool hasmsg = msg; g_free(r); g_free(msg); finish(what, leak ? live : 0);
    if (!failed) { if (got != text) mc::fail("content|" + what, "read %s", quote(got).c_str()); if (hasmsg) mc::fail("message without failure|" + what, "%s", m.c_str()); }
    else { check_error(what, hasmsg ? m.c_str() : nullptr); if (!inj::errors && !inj::interrupts && !inj::eofs) mc::fail("failed|" + what, "failed although nothing did: %s", m.c_str()); }
    if (inj::calls < (failed ? 1 : 3)) mc::fail("unseen|" + what, "only %d system calls were seen", inj::calls); mc::nontrivial(); mc::outcome(what);
}
MC_SCENARIO(writing)
{
    mc::set_dev_bound(mc::thorough() ? 4 : 3); string text = mc::pick(texts), p = path_of("out"); int before = mc::choose(3); unlink(p.c_str()); if (before) put(p, before == 1 ? "" : "an old text that is longer than any of the new ones"); inj::plan(10); string what = "write " + quote(text) + fmt(" over %d ", before); for (int i = 0; i < 10; i++) what += fmt("%d", inj::codes[i]); mc::describe(what);
    char *msg = nullptr, *copy = g_strdup(text.c_str()); bool ok = false; long live = 0; string t = inj::run(mc::scratch(), [&] { mc::HeapRegion h; ok = sr_string_to_file(p.c_str(), copy, &msg); long l = h.live(); live = l - (msg ? 1 : 0); }); what = "write " + quote(text) + fmt(" over %d ", before) + t; mc::step(); mc::validated();
    string m = msg ? msg : "", c2 = copy; bool hasmsg = msg, there; g_free(copy); g_free(msg); finish(what, live); string got = get(p, there); struct stat st; bool hasst = !stat(p.c_str(), &st); unlink(p.c_str());
    if (c2 != text) mc::fail("input|" + what, "the string was changed");
    if (ok) { if (!there || got != text) mc::fail("content|" + what, "success, but the file holds %s", there ? quote(got).c_str() : "nothing: it does not exist"); if (inj::errors) mc::fail("error ignored|" + what, "success although a system call failed"); if (hasmsg) mc::fail("message without failure|" + what, "%s", m.c_str()); if (!before && hasst && (st.st_mode & 0137)) mc::fail("mode|" + what, "created with mode %o", st.st_mode & 07777); }
    else { check_error(what, hasmsg ? m.c_str() : nullptr); if (!inj::errors && !inj::interrupts) mc::fail("failed|" + what, "failed although nothing did: %s", m.c_str()); }
    if (inj::calls < 1) mc::fail("unseen|" + what, "no system call was seen"); mc::nontrivial(); mc::outcome(what);
}
// what is written reads back, for every small text and every way the transfers are split
MC_SCENARIO(round_trip)
{
    static const char al[] = "a\n\xff"; int len = mc::choose((mc::thorough() ? 6 : 4) + 1); string text, p = path_of("rt"); for (int i = 0; i < len; i++) text += al[mc::choose(3)]; string q = quote(text); mc::set_dev_bound(1); memset(inj::codes, 0, sizeof inj::codes); int split = mc::choose(4); for (int i = 0; i < inj::MAXCALLS; i++) inj::codes[i] = 0;
    // every transfer carries one byte only (1), or every other one (2), or the first ones a half (3)
    unlink(p.c_str()); char *msg = nullptr, *copy = g_strdup(text.c_str()), *r = nullptr; bool ok = false; mc::describe(q + fmt(" %d", split)); inj::transfer = split; inj::run(mc::scratch(), [&] { ok = sr_string_to_file(p.c_str(), copy, &msg); if (ok) r = sr_file_to_string(p.c_str(), &msg); }); inj::transfer = 0; mc::step(2); mc::validated(); string m = S(msg), got = S(r); bool hr = r; g_free(copy); g_free(msg); g_free(r);
    if (!ok || !hr || got != text) mc::fail("round trip|" + q + fmt(" %d", split), "written %d, read %s, message %s", ok, quote(got).c_str(), m.c_str()); finish(q, 0); mc::nontrivial(); mc::outcome(q + fmt("%d", split));
}
// files at the documented limit of 20 MB and other kinds of files
MC_SCENARIO(kinds)
{
    string p = path_of("k"), dir = path_of("kd"), what; int k = mc::choose(9); unlink(p.c_str()); mkdir(dir.c_str(), 0700); memset(inj::codes, 0, sizeof inj::codes); const long limit = 20000000; long size = 0; bool expect = true;
    if (k < 4) { size = k == 0 ? limit - 1 : k == 1 ? limit : k == 2 ? limit + 1 : 5000000000l; expect = size <= limit; what = fmt("a file of %ld bytes", size); put(p, "x"); if (truncate(p.c_str(), size)) mc::prune(); int fd = open(p.c_str(), O_WRONLY); if (pwrite(fd, "end", 3, size - 3) != 3) mc::prune(); close(fd); }
    else if (k == 4) { what = "no file"; expect = false; } else if (k == 5) { what = "a directory"; p = dir; expect = false; } else if (k == 6) { what = "a link to nothing"; if (symlink("nowhere", p.c_str())) mc::prune(); expect = false; } else if (k == 7) { what = "a link to a file"; put(path_of("kt"), "target"); if (symlink("kt", p.c_str())) mc::prune(); size = 6; } else { what = "a file below a file"; put(path_of("kt"), "t"); p = path_of("kt/x"); expect = false; }
    mc::describe(what); char *msg = nullptr, *r = nullptr; inj::run(mc::scratch(), [&] { r = sr_file_to_string(p.c_str(), &msg); }); mc::step(); mc::validated(); bool ok = r, hm = msg; string m = S(msg); bool tail = true; if (ok && k < 4) tail = r[0] == 'x' && !memcmp(r + size - 3, "end", 3) && !r[size]; if (ok && k == 7) tail = !strcmp(r, "target"); g_free(r); g_free(msg); unlink(path_of("k").c_str()); finish(what, 0);
    if (ok != expect) mc::fail("kind|" + what, "%s", ok ? "accepted" : m.c_str()); if (!tail) mc::fail("content|" + what, "other content"); if (!ok) check_error(what, hm ? m.c_str() : nullptr); mc::nontrivial(); mc::outcome(what);
    if (!expect && k != 6) { if (k < 4 || k == 4) return; char *e = nullptr, t[] = "text"; bool w = true; inj::run(mc::scratch(), [&] { w = sr_string_to_file(p.c_str(), t, &e); }); mc::step(); string em = S(e); bool he = e; g_free(e); finish(what, 0); if (w) mc::fail("write|" + what, "success"); check_error(what, he ? em.c_str() : nullptr); }
}
// contents of sizes near limits, transferred at once and in pieces
MC_SCENARIO(sizes)
{
    static const int ns[] = {15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073, 1048575, 1048576, 1048577}; int n = ns[mc::choose(42)], split = mc::choose(4), mode = mc::choose(3); if (split == 1 && n > (mc::thorough() ? 8193 : 1025)) mc::prune(); if (split == 2 && n > 131073 && !mc::thorough()) mc::prune();
    string text, p = path_of("sz"), q = fmt("%d bytes, split %d, mode %d", n, split, mode); for (int i = 0; i < n; i++) text += i % 61 == 60 ? '\n' : (char)('0' + (i * 7 + i / 61) % 64); mc::describe(q); memset(inj::codes, 0, sizeof inj::codes); unlink(p.c_str()); if (mode == 1) put(p, text + text); if (mode == 2) put(p, text);
    char *msg = nullptr, *copy = g_strdup(text.c_str()), *r = nullptr; bool ok = false; long live = 0; inj::transfer = split; inj::run(mc::scratch(), [&] { mc::HeapRegion h; ok = mode == 2 || sr_string_to_file(p.c_str(), copy, &msg); if (ok) r = sr_file_to_string(p.c_str(), &msg); live = h.live() - (r ? 1 : 0) - (msg ? 1 : 0); h.stop(); }); inj::transfer = 0; mc::step(2); mc::validated(); string m = S(msg), got = r ? r : ""; bool hr = r, same, ex = false; g_free(copy); g_free(msg); g_free(r); same = get(p, ex) == text; unlink(p.c_str()); finish(q, live);
    if (!ok || !hr) mc::fail("failed|" + q, "written %d, read %d: %s", ok, hr, m.c_str()); if (got != text || !same) mc::fail("content|" + q, "read %zu bytes, the file is %s", got.size(), same ? "right" : "wrong"); mc::nontrivial(); mc::outcome(q);
}
