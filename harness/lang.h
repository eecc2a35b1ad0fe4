// Helpers for the language harnesses: structure -> text -> real parser -> comparison with the structure.
#ifndef LANG_H
#define LANG_H
#include "objects.h"
static const Val nul = V((const char *)nullptr);
inline Content empty_frame(const Kind &k) { Content c; for (auto &f : k.f) c.push_back(f.k == Field::STR ? V((const char *)nullptr) : N(0)); return c; }
// the user name in a home directory is replaced
inline string ref_anon(const string &s) { if (!s.compare(0, 6, "/home/")) { size_t p = s.find('/', 6); if (p != string::npos) return "/home/anonymized" + s.substr(p); } return s; }
// a choice among alternatives, the first is the typical one; leaving it costs a deviation
template <class T> const T &alt(const vector<T> &v) { return v[mc::choose_dev((int)v.size())]; }
// every string of min..max pieces
inline string word(const vector<string> &pieces, int min, int max) { string s; int n = min + mc::choose(max - min + 1); while (n--) s += mc::pick(pieces); return s; }
// the sizes at which a buffer or a counter may end
inline int size_near_limits() { static const int v[] = {2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193, 32769, 65537}; return v[mc::choose(mc::thorough() ? 30 : 27)]; }
inline bool maybe() { return mc::choose_dev(2) == 1; }
// parse an exact-size copy of the text through the generic and the typed interface and compare
template <class T> void compare_parse(const string &text, const TraceData &want, T *(*parse)(const char **, struct sr_location *), void (*del)(T *), const string &what)
{
    mc::describe(what + "\n" + text);
    Exact e(text); const char *cur = e.p; struct sr_location loc; sr_location_init(&loc);
    T *t = parse(&cur, &loc); mc::step(); mc::validated();
    if (!t) mc::fail("rejected|" + quote(text), "the parser says: %s", loc.message ? loc.message : "(no message)");
    string got = dump(extract((struct sr_stacktrace *)t)), exp = dump(want);
    if (cur < e.p || cur > e.p + e.n) mc::fail("cursor|" + quote(text), "the cursor left the text");
    del(t);
    if (got != exp) { size_t p = 0; while (p < got.size() && got[p] == exp[p]) p++; p = p > 60 ? p - 60 : 0; mc::fail("differs|" + quote(text), "at \"%s\" instead of \"%s\"\nparsed\n%s\nexpected\n%s\nfrom\n%s", got.substr(p, 160).c_str(), exp.substr(p, 160).c_str(), got.c_str(), exp.c_str(), text.c_str()); }
    char *err = nullptr; struct sr_stacktrace *g = sr_stacktrace_parse(want.type, e.p, &err); mc::step();
    if (!g) mc::fail("generic|" + quote(text), "the generic parser fails: %s", err ? err : "(no message)");
    got = dump(extract(g)); sr_stacktrace_free(g);
    if (got != exp) mc::fail("generic differs|" + quote(text), "parsed\n%s\nexpected\n%s", got.c_str(), exp.c_str());
    mc::nontrivial(); mc::outcome(text);
}
#endif
