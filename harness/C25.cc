// C25: text primitives agree with their simplest definition on every text.
#include "jsonv.h"
#include <cxxabi.h>
extern "C" { GString *sr_json_append_escaped(GString *strbuf, const char *str); }
static string text_of(const char *alphabet, int max, int min = 0) { int n = (int)strlen(alphabet), len = min + mc::choose(max - min + 1); string s; for (int i = 0; i < len; i++) s += alphabet[mc::choose(n)]; return s; }
static size_t span(const string &s, const string &set) { size_t i = 0; while (i < s.size() && set.find(s[i]) != string::npos) i++; return i; }
static size_t cspan(const string &s, const string &set) { size_t i = 0; while (i < s.size() && set.find(s[i]) == string::npos) i++; return i; }
static void where(const string &s, size_t n, int &line, int &col) { line = 1; col = 0; for (size_t i = 0; i < n; i++) if (s[i] == '\n') { line++; col = 0; } else col++; }
template <class T> static void eq(const char *fn, const string &in, T got, T want) { if (got != want) mc::fail(string(fn) + "|" + in, "%s(%s) gives %s, expected %s", fn, in.c_str(), std::to_string(got).c_str(), std::to_string(want).c_str()); }
static void eqs(const char *fn, const string &in, const string &got, const string &want) { if (got != want) mc::fail(string(fn) + "|" + in, "%s(%s) gives %s, expected %s", fn, in.c_str(), quote(got).c_str(), quote(want).c_str()); }
MC_SCENARIO(scanners)
{
    string t = text_of("a09 \nf/x", mc::thorough() ? 7 : 6); mc::describe(quote(t)); Exact e(t); const char *c; string q = quote(t); static const string sets[] = {"", "a", "0", " ", "\n", "a0", "09", "af09", " \n", "xyz", "a09 \nf/x"};
    auto moved = [&](const char *fn, const string &arg, long want) { if (c - e.p != want) mc::fail(string(fn) + " cursor|" + q + "|" + quote(arg), "%s(%s, %s) moved the cursor by %ld, expected %ld", fn, q.c_str(), quote(arg).c_str(), (long)(c - e.p), want); };
    for (auto &s : sets) {
        string w = q + ", " + quote(s); size_t n = span(t, s), m = cspan(t, s); char *r = nullptr, ch = '?'; int line = -1, col = -1, wl, wc;
        c = e.p; eq("skip_char_span", w, sr_skip_char_span(&c, s.c_str()), (int)n); moved("skip_char_span", s, (long)n);
        c = e.p; eq("skip_char_cspan", w, sr_skip_char_cspan(&c, s.c_str()), (int)m); moved("skip_char_cspan", s, (long)m);
        c = e.p; eq("skip_char_span_location", w, sr_skip_char_span_location(&c, s.c_str(), &line, &col), (int)n); moved("skip_char_span_location", s, (long)n); where(t, n, wl, wc); eq("line", w, line, wl); eq("column", w, col, wc);
        line = col = -1; eq("strspn_location", w, sr_strspn_location(e.p, s.c_str(), &line, &col), n); eq("line", w, line, wl); eq("column", w, col, wc);
        c = e.p; eq("parse_char_span", w, sr_parse_char_span(&c, s.c_str(), &r), (int)n); moved("parse_char_span", s, (long)n); if (n) eqs("parse_char_span", w, take(r), t.substr(0, n)); else if (r) mc::fail("result|" + w, "a result without a match");
        r = nullptr; c = e.p; eq("parse_char_cspan", w, sr_parse_char_cspan(&c, s.c_str(), &r), m > 0); moved("parse_char_cspan", s, (long)m); if (m) eqs("parse_char_cspan", w, take(r), t.substr(0, m)); else if (r) mc::fail("result|" + w, "a result without a match");
        bool one = !t.empty() && s.find(t[0]) != string::npos; c = e.p; eq("skip_char_limited", w, sr_skip_char_limited(&c, s.c_str()), one); moved("skip_char_limited", s, one); c = e.p; eq("parse_char_limited", w, sr_parse_char_limited(&c, s.c_str(), &ch), one); moved("parse_char_limited", s, one); if (ch != (one ? t[0] : '?')) mc::fail("char|" + w, "the character is %d", ch);
        mc::step(8);
    }
    for (char x : {'a', '0', ' ', '\n', 'z'}) { string a(1, x), w = q + ", " + quote(a); bool one = !t.empty() && t[0] == x; c = e.p; eq("skip_char", w, sr_skip_char(&c, x), one); moved("skip_char", a, one); size_t n = span(t, a); c = e.p; eq("skip_char_sequence", w, sr_skip_char_sequence(&c, x), (int)n); moved("skip_char_sequence", a, (long)n);
        int line, col, wl, wc; char *p = sr_strchr_location(e.p, x, &line, &col); size_t at = t.find(x); eq("strchr_location", w, p ? (long)(p - e.p) : -1L, at == string::npos ? -1L : (long)at); if (p) { where(t, at, wl, wc); eq("line", w, line, wl); eq("column", w, col, wc); } mc::step(3); }
    for (int x : {0xe9, -23, 0}) { int line, col; char *p = sr_strchr_location(e.p, x, &line, &col); eq("strchr_location", q + fmt(", %d", x), p ? (long)(p - e.p) : -1L, x ? -1L : (long)t.size()); }
    static const string words[] = {"", "a", "0", "09", "a0", "af", "\n", " \n", "a09", "xx", "x/x"};
    for (auto &s : words) { string w = q + ", " + quote(s); bool m = !t.compare(0, s.size(), s); char *r = nullptr; c = e.p; eq("skip_string", w, sr_skip_string(&c, s.c_str()), m ? (int)s.size() : 0); moved("skip_string", s, m ? (long)s.size() : 0); c = e.p; eq("parse_string", w, sr_parse_string(&c, s.c_str(), &r), m); moved("parse_string", s, m ? (long)s.size() : 0); if (m) eqs("parse_string", w, take(r), s); mc::step(2); }
    { char d = !t.empty() && isdigit((unsigned char)t[0]) ? t[0] : 0; c = e.p; eq("parse_digit", q, (int)sr_parse_digit(&c), (int)d); moved("parse_digit", "", d != 0); size_t n = span(t, "0123456789"), h = span(t, "0123456789abcdefABCDEF"); c = e.p; eq("skip_uint", q, sr_skip_uint(&c), (int)n); moved("skip_uint", "", (long)n); c = e.p; eq("skip_hexadecimal_uint", q, sr_skip_hexadecimal_uint(&c), (int)h); moved("skip_hexadecimal_uint", "", (long)h);
      size_t hx = !t.compare(0, 2, "0x") ? span(t.substr(2), "0123456789abcdefABCDEF") : 0; if (hx) hx += 2; c = e.p; eq("skip_hexadecimal_0xuint", q, sr_skip_hexadecimal_0xuint(&c), (int)hx); moved("skip_hexadecimal_0xuint", "", (long)hx); mc::step(4); }
    c = sr_skip_whitespace(e.p); moved("skip_whitespace", "", (long)span(t, " \t\r\n\v\f")); c = sr_skip_non_whitespace(e.p); moved("skip_non_whitespace", "", (long)cspan(t, " \t\r\n\v\f"));
    { int line = 3, col = 5; c = e.p; size_t nl = t.find('\n'); bool r = sr_skip_to_next_line_location(&c, &line, &col); eq("skip_to_next_line_location", q, r, nl != string::npos); moved("skip_to_next_line_location", "", nl == string::npos ? (long)t.size() : (long)nl + 1); eq("line", q, line, nl == string::npos ? 3 : 4); eq("column", q, col, nl == string::npos ? 5 + (int)t.size() : 0); mc::step(3); }
    mc::validated(); mc::nontrivial(); mc::outcome(q);
}
// the same across the sizes at which a buffer or a counter may end
MC_SCENARIO(long_texts)
{
    static const int sizes[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16385, 32767, 32768, 65535, 65536, 65537, 131073, 262145}; int n = mc::pick(sizes), kind = mc::choose(8); static const char *units[] = {"a", "9", " ", "\n", "a\n", "\"", "\x01", "\xc3\xa9"}; string u = units[kind], t; while ((int)(t.size() + u.size()) <= n) t += u; string tail = mc::flip() ? "z" : ""; t += tail; string q = fmt("%s x %d + ", quote(u).c_str(), n) + quote(tail); mc::describe(q); Exact e(t); const char *c;
    for (const string &s : {u, string("z"), string("9"), string("\n"), string(" ")}) { size_t k = span(t, s), m = cspan(t, s); char *r = nullptr; int line = -1, col = -1, wl, wc; string w = q + ", " + quote(s);
        c = e.p; eq("skip_char_span", w, sr_skip_char_span(&c, s.c_str()), (int)k); eq("cursor", w, (size_t)(c - e.p), k); c = e.p; eq("skip_char_cspan", w, sr_skip_char_cspan(&c, s.c_str()), (int)m); eq("cursor", w, (size_t)(c - e.p), m); where(t, k, wl, wc); c = e.p; eq("skip_char_span_location", w, sr_skip_char_span_location(&c, s.c_str(), &line, &col), (int)k); eq("line", w, line, wl); eq("column", w, col, wc); c = e.p; eq("parse_char_span", w, sr_parse_char_span(&c, s.c_str(), &r), (int)k); if (k && take(r) != t.substr(0, k)) mc::fail("parse_char_span|" + w, "another text"); r = nullptr; c = e.p; eq("parse_char_cspan", w, sr_parse_char_cspan(&c, s.c_str(), &r), m > 0); if (m && take(r) != t.substr(0, m)) mc::fail("parse_char_cspan|" + w, "another text");
        char *p = sr_strchr_location(e.p, s[0], &line, &col); size_t at = t.find(s[0]); eq("strchr_location", w, p ? (long)(p - e.p) : -1L, at == string::npos ? -1L : (long)at); if (p) { where(t, at, wl, wc); eq("line", w, line, wl); eq("column", w, col, wc); } p = sr_strstr_location(e.p, (s + "z").c_str(), &line, &col); at = t.find(s + "z"); eq("strstr_location", w, p ? (long)(p - e.p) : -1L, at == string::npos ? -1L : (long)at); if (p) { where(t, at, wl, wc); eq("line", w, line, wl); eq("column", w, col, wc); } c = e.p; eq("skip_char_sequence", w, sr_skip_char_sequence(&c, s[0]), s.size() > 1 ? (int)span(t, s.substr(0, 1)) : (int)k); char *x = nullptr; c = e.p; bool ok = sr_parse_string(&c, t.c_str(), &x); eq("parse_string", w, ok, true); if (take(x) != t) mc::fail("parse_string|" + w, "another text"); c = e.p; eq("skip_string", w, sr_skip_string(&c, t.c_str()), (int)t.size()); mc::step(9); }
    int line = 1, col = 0; c = e.p; size_t nl = t.find('\n'); eq("skip_to_next_line_location", q, sr_skip_to_next_line_location(&c, &line, &col), nl != string::npos); eq("cursor", q, (size_t)(c - e.p), nl == string::npos ? t.size() : nl + 1); c = e.p; size_t d = span(t, "0123456789"); eq("skip_uint", q, sr_skip_uint(&c), (int)d); c = e.p; d = span(t, "0123456789abcdefABCDEF"); eq("skip_hexadecimal_uint", q, sr_skip_hexadecimal_uint(&c), (int)d);
    string first = "  ", rest; for (size_t i = 0; i < t.size(); i++) { first += t[i]; rest += t[i]; if (t[i] == '\n' && i + 1 < t.size()) { first += "  "; rest += "  "; } } eq("indent", q, take(sr_indent(e.p, 2)) == first, true); eq("indent_except_first_line", q, take(sr_indent_except_first_line(e.p, 2)) == rest, true); eq("build_path", q, take(sr_build_path(e.p, "x", e.p, nullptr)) == t + "/x/" + t, true); { string h = "/home/" + string(n % 1000, 'u') + "/" + t; eq("anonymize_path", q, take(anonymize_path(g_strdup(h.c_str()))) == "/home/anonymized/" + t, true); }
    { string hex(2 * t.size() + 1, '.'), w; char *end = sr_bin2hex(&hex[0], t.data(), (int)t.size()); for (unsigned char x : t) w += fmt("%02x", x); eq("bin2hex", q, string(&hex[0], end) == w && *end == '.', true); }
    { GString *g = g_string_new(nullptr); sr_json_append_escaped(g, e.p); string j(g->str, g->len), out; g_string_free(g, TRUE); JParse p(j); if (!p.str(out) || p.i != j.size() || out != t) mc::fail("json|" + q, "does not read back"); }
    mc::step(9); mc::validated(); mc::nontrivial(); mc::outcome(q);
}
// every byte as the only character of a text, in front of and behind another one
MC_SCENARIO(bytes)
{
    int b = 1 + mc::choose(255), at = mc::choose(3); string t = at == 0 ? string(1, (char)b) : at == 1 ? string(1, (char)b) + "a" : string("a") + (char)b; string q = quote(t); mc::describe(q); Exact e(t); const char *c; auto sp = [](unsigned char x) { return x == ' ' || (x >= 9 && x <= 13); }; size_t ws = 0, nws = 0; while (ws < t.size() && sp(t[ws])) ws++; while (nws < t.size() && !sp(t[nws])) nws++;
    eq("skip_whitespace", q, (size_t)(sr_skip_whitespace(e.p) - e.p), ws); eq("skip_non_whitespace", q, (size_t)(sr_skip_non_whitespace(e.p) - e.p), nws);
    for (int x : {b, (int)(signed char)b, b - 256, b + 256}) { int line, col, wl, wc; char *p = sr_strchr_location(e.p, x, &line, &col); size_t i = t.find((char)b); eq("strchr_location", q + fmt(", %d", x), p ? (long)(p - e.p) : -1L, (long)i); where(t, i, wl, wc); eq("line", q, line, wl); eq("column", q, col, wc); mc::step(); }
    bool d = t[0] >= '0' && t[0] <= '9', h = strchr("0123456789abcdefABCDEF", t[0]); c = e.p; eq("parse_digit", q, (int)sr_parse_digit(&c), d ? (int)t[0] : 0); c = e.p; eq("skip_uint", q, sr_skip_uint(&c) > 0, d); c = e.p; eq("skip_hexadecimal_uint", q, sr_skip_hexadecimal_uint(&c) > 0, h); char hex[8] = "......."; char *end = sr_bin2hex(hex, t.data(), (int)t.size()); string w; for (unsigned char x : t) w += fmt("%02x", x); eqs("bin2hex", q, string(hex, end), w); if (*end != '.') mc::fail("bin2hex end|" + q, "wrote beyond the digits");
    // JSON strings: what is written reads back as the same text
    if (at || b < 0x80) { string u = b >= 0x80 ? "\xc3" + string(1, (char)(0x80 | (b & 0x3f))) + "x" : t; GString *g = g_string_new("["); sr_json_append_escaped(g, u.c_str()); string j = string(g->str, g->len) + "]"; g_string_free(g, TRUE); JParse p(j); JNode n; json_object *o = json_tokener_parse(j.c_str()); string r = o ? S(json_object_get_string(json_object_array_get_idx(o, 0))) : "(invalid)"; json_object_put(o); eqs("json", quote(u), r, u); size_t i0 = 1; p.i = i0; string out; if (!p.str(out) || out != u || p.i != j.size() - 1) mc::fail("json|" + quote(u), "%s is not a JSON string for it", j.c_str()); }
    mc::step(6); mc::validated(); mc::nontrivial(); mc::outcome(q);
}
MC_SCENARIO(json_strings)
{
    string t = text_of("a\"\\/\n\t\x01u0", mc::thorough() ? 6 : 5); mc::describe(quote(t)); GString *g = g_string_new(nullptr); GString *r = sr_json_append_escaped(g, t.c_str()); string j(g->str, g->len); if (r != g) mc::fail("same|" + quote(t), "another string is returned"); g_string_free(g, TRUE); JParse p(j); string out; mc::step(); mc::validated(); if (!p.str(out) || p.i != j.size() || out != t) mc::fail("json|" + quote(t), "written as %s, read as %s", j.c_str(), quote(out).c_str()); mc::nontrivial(); mc::outcome(t);
}
// searching with locations
MC_SCENARIO(search)
{
    string t = text_of("ab\n", mc::thorough() ? 11 : 9), q = quote(t); mc::describe(q); Exact e(t); static vector<string> needles; if (needles.empty()) { needles = {""}; for (size_t i = 0; i < needles.size(); i++) if (needles[i].size() < 3) for (char c : {'a', 'b', '\n'}) needles.push_back(needles[i] + c); needles.push_back("abab"); needles.push_back("aaaa"); needles.push_back("a\nab"); }
    for (auto &n : needles) { int line = -1, col = -1, wl, wc; char *p = sr_strstr_location(e.p, n.c_str(), &line, &col); size_t at = t.find(n); string w = q + ", " + quote(n); mc::step(); eq("strstr_location", w, p ? (long)(p - e.p) : -1L, at == string::npos ? -1L : (long)at); if (p) { where(t, at, wl, wc); eq("line", w, line, wl); eq("column", w, col, wc); } }
    struct sr_location l; sr_location_init(&l); int el = 1, ec = 0; for (char c : t) { sr_location_eat_char(&l, c); sr_location_eat_char_ext(&el, &ec, c); } int wl, wc; where(t, t.size(), wl, wc); eq("eat line", q, l.line, wl); eq("eat column", q, l.column, wc); eq("eat line", q, el, wl); eq("eat column", q, ec, wc);
    // adding the size of the rest to the location of the beginning gives the location of the end
    for (size_t i = 0; i <= t.size(); i++) { int al, ac, bl, bc; where(t, i, al, ac); where(t.substr(i), t.size() - i, bl, bc); struct sr_location x; sr_location_init(&x); x.line = al; x.column = ac; sr_location_add(&x, bl, bc); eq("add line", q + fmt(" at %zu", i), x.line, wl); eq("add column", q + fmt(" at %zu", i), x.column, wc); sr_location_add_ext(&al, &ac, bl, bc); eq("add_ext line", q + fmt(" at %zu", i), al, wl); eq("add_ext column", q + fmt(" at %zu", i), ac, wc); mc::step(2); }
    for (int sp = 0; sp < 4; sp++) { string first, rest; bool bol = true; string pad(sp, ' '); for (size_t i = 0; i < t.size(); i++) { if (bol) { first += pad; if (i) rest += pad; bol = false; } first += t[i]; rest += t[i]; if (t[i] == '\n') bol = true; } eqs("indent", q + fmt(", %d", sp), take(sr_indent(e.p, sp)), first); eqs("indent_except_first_line", q + fmt(", %d", sp), take(sr_indent_except_first_line(e.p, sp)), rest); mc::step(2); }
    mc::validated(); mc::nontrivial(); mc::outcome(q);
}
MC_SCENARIO(locations)
{
    static const int nums[] = {0, 1, 2, 3, 1000000}; static const char *msgs[] = {nullptr, "", "x", "y", "a longer message than the first allocation of the text"}; struct sr_location a, b; sr_location_init(&a); if (a.line != 1 || a.column != 0 || a.message) mc::fail("init", "line %d column %d", a.line, a.column); a.line = mc::pick(nums); a.column = mc::pick(nums); a.message = mc::pick(msgs); b.line = mc::pick(nums); b.column = mc::pick(nums); b.message = mc::pick(msgs); string q = fmt("%d,%d,%s %d,%d,%s", a.line, a.column, S(a.message).c_str(), b.line, b.column, S(b.message).c_str()); mc::describe(q); auto sg = [](int x) { return (x > 0) - (x < 0); };
    for (int m = 0; m < 2; m++) { int w = a.line != b.line ? sg(a.line - b.line) : a.column != b.column ? sg(a.column - b.column) : m ? sg(g_strcmp0(a.message, b.message)) : 0; eq("location_cmp", q, sg(sr_location_cmp(&a, &b, m)), w); mc::step(); }
    string w = fmt("Line %d, column %d", a.line, a.column); if (a.message) w += string(": ") + a.message; eqs("location_to_string", q, take(sr_location_to_string(&a)), w); mc::step(); mc::validated(); mc::nontrivial(); mc::outcome(q);
}
// ---- numbers, around every limit
typedef unsigned __int128 u128;
static string dec(u128 v) { string s; do s.insert(s.begin(), (char)('0' + (int)(v % 10))); while (v /= 10); return s; }
static string hexs(u128 v, bool up) { string s; do s.insert(s.begin(), (up ? "0123456789ABCDEF" : "0123456789abcdef")[(int)(v % 16)]); while (v /= 16); return s; }
MC_SCENARIO(numbers)
{
    static vector<u128> base; if (base.empty()) { for (u128 b : {(u128)0, (u128)9, (u128)10, (u128)15, (u128)16, (u128)255, (u128)65535, (u128)INT32_MAX, (u128)UINT32_MAX, (u128)INT64_MAX, (u128)UINT64_MAX, (u128)UINT64_MAX * 10, (u128)UINT64_MAX * 16, (u128)UINT32_MAX * 10, (u128)UINT32_MAX * 16, ((u128)1 << 100), (u128)10000000000ull, (u128)1000000000000000000ull * 10, (u128)1000000000000000000ull * 20}) for (int d = -2; d <= 2; d++) if (d >= 0 || b >= (u128)-d) base.push_back(b + d); for (int i = 0; i < 10; i++) base.push_back(((u128)1 << 64) + ((u128)1 << (4 * i)) + i); }
    u128 v = mc::pick(base); bool hex = mc::choose(2), up = hex && mc::choose(2); static const char *zeros[] = {"", "0", "000", "0000000000000000000000000"}, *after[] = {"", " ", "x", "g", ".", "-", "\n", "9z"}, *before[] = {"", " ", "+", "-", "0x", "0X", "x"}; string z = mc::pick(zeros), a = mc::pick(after), b = mc::pick(before), num = z + (hex ? hexs(v, up) : dec(v)); string t = b + num + a, q = quote(t); mc::describe(q); Exact e(t); const char *c;
    // what each reader sees: the longest run of its digits at the beginning
    auto read = [&](const string &s, int radix, u128 &r, bool &big) { size_t n = span(s, radix == 10 ? "0123456789" : "0123456789abcdefABCDEF"); r = 0; big = false; for (size_t i = 0; i < n; i++) { int d = isdigit((unsigned char)s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10; r = r * radix + d; if (r > (u128)UINT64_MAX) { big = true; r = (u128)1 << 64; } } return n; };
    auto check = [&](const char *fn, int got, u128 val, size_t n, bool fits, u128 want) { bool ok = n && fits; eq(fn, q, got, ok ? (int)n : 0); eq("cursor", string(fn) + " " + q, (long)(c - e.p), ok ? (long)n : 0L); if (ok && val != want) mc::fail(string("value|") + fn + "|" + q, "%s read as %s", q.c_str(), dec(val).c_str()); if (!ok && val != 777) mc::fail(string("touched|") + fn + "|" + q, "the result was changed on failure"); mc::step(); };
    u128 r; bool big; size_t n = read(t, 10, r, big); uint32_t r32 = 777; c = e.p; int g = sr_parse_uint32(&c, &r32); check("parse_uint32", g, r32, n, !big && r <= UINT32_MAX, r); uint64_t r64 = 777; c = e.p; g = sr_parse_uint64(&c, &r64); check("parse_uint64", g, r64, n, !big, r);
    n = read(t, 16, r, big); r64 = 777; c = e.p; g = sr_parse_hexadecimal_uint64(&c, &r64); check("parse_hexadecimal_uint64", g, r64, n, !big, r); c = e.p; eq("skip_hexadecimal_uint", q, sr_skip_hexadecimal_uint(&c), (int)n);
    n = !t.compare(0, 2, "0x") ? read(t.substr(2), 16, r, big) : 0; r64 = 777; c = e.p; g = sr_parse_hexadecimal_0xuint64(&c, &r64); check("parse_hexadecimal_0xuint64", g, r64, n ? n + 2 : 0, !big, r); c = e.p; eq("skip_hexadecimal_0xuint", q, sr_skip_hexadecimal_0xuint(&c), n ? (int)n + 2 : 0);
    mc::validated(); mc::nontrivial(); mc::outcome(q);
}
MC_SCENARIO(paths)
{
    static const char *el[] = {"", "a", "/", "b c", "/x/"}; int n = 1 + mc::choose(4); string e[4], w; for (int i = 0; i < n; i++) { e[i] = mc::pick(el); w += (i ? "/" : "") + e[i]; } mc::describe(w); auto a = [&](int i) { return i < n ? e[i].c_str() : nullptr; }; eqs("build_path", w + fmt(" %d", n), take(sr_build_path(a(0), a(1), a(2), a(3), nullptr)), w); mc::step();
    static const char *homes[] = {"/home/", "/home", "/home/u", "/home/u/", "/home/u/x", "/home//x", "/home/u/v/x", "/root/home/u/x", "home/u/x", "", "/Home/u/x", "/home/anonymized/x", "/home/u/home/v/x"};
    for (auto h : homes) { string s = h, x = s; if (!s.compare(0, 6, "/home/")) { size_t p = s.find('/', 6); if (p != string::npos) x = "/home/anonymized" + s.substr(p); } eqs("anonymize_path", s, take(anonymize_path(g_strdup(h))), x); } if (anonymize_path(nullptr)) mc::fail("anonymize_path|null", "no path became one"); mc::validated(); mc::nontrivial(); mc::outcome(w + fmt("%d", n));
}
MC_SCENARIO(unique)
{
    static const char *al[] = {"", "a", "b", "ab"}; int len = mc::choose((mc::thorough() ? 8 : 7) + 1); vector<string> v; vector<char *> p(len + 1, nullptr); string w; for (int i = 0; i < len; i++) { v.push_back(mc::pick(al)); p[i] = strdup(v[i].c_str()); w += v[i] + ","; } mc::describe(w); vector<char *> own(p.begin(), p.begin() + len); bool sorted = mc::choose(2);
    if (sorted) { qsort(p.data(), len, sizeof(char *), sr_ptrstrcmp); std::stable_sort(v.begin(), v.end()); } size_t n = len; sr_struniq(p.data(), &n); v.erase(std::unique(v.begin(), v.end()), v.end()); mc::step(2); mc::validated(); string g, x; for (size_t i = 0; i < n && i <= (size_t)len; i++) g += S(p[i]) + ","; for (auto &s : v) x += s + ","; for (auto q : own) free(q);
    if (n != v.size() || g != x) mc::fail("struniq|" + w + fmt("|%d", sorted), "left %s, expected %s", g.c_str(), x.c_str()); const char *strs[] = {nullptr, "", "a", "b", "ab"}; auto sg = [](int c) { return (c > 0) - (c < 0); }; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { int c = !strs[i] || !strs[j] ? (strs[i] != nullptr) - (strs[j] != nullptr) : sg(strcmp(strs[i], strs[j])); eq("ptrstrcmp", fmt("%d %d", i, j), sg(sr_ptrstrcmp(&strs[i], &strs[j])), c); } mc::nontrivial(); mc::outcome(w + fmt("%d", sorted));
}
// only mangled names are demangled, and exactly as the C++ ABI says
static void demangle(const string &t) { mc::describe(quote(t)); Exact e(t); char *g = sr_demangle_symbol(e.p), *w = nullptr; int st; if (!t.compare(0, 2, "_Z")) w = abi::__cxa_demangle(t.c_str(), nullptr, nullptr, &st); mc::step(); mc::validated(); string a = g ? g : "(none)", b = w ? w : "(none)"; free(g); free(w); eqs("demangle_symbol", quote(t), a, b); mc::nontrivial(); mc::outcome(t); }
MC_SCENARIO(demangling) { demangle(text_of("_ZNE1av", mc::thorough() ? 7 : 6)); }
MC_SCENARIO(demangling_names) { static const char *al[] = {"_Z1fv", "_Z1fi", "_ZN1a1bEv", "_ZN3foo3barEPKc", "_ZNKSt6vectorIiSaIiEE4sizeEv", "_ZSt4cout", "_ZTV1a", "_ZN1aC1Ev", "_ZN1aD0Ev", "f", "i", "main", "", "_", "__Z1fv", "_Z", "_ZZ1fvE1x", "_ZN12_GLOBAL__N_11fEv", "_Z1fIiEvT_", "St", "_R1f"}; string t = mc::pick(al); int cut = mc::choose((int)t.size() + 1); t = t.substr(0, t.size() - cut); static const char *suf[] = {"", "x", ".part.0", "@@GLIBC", " "}; demangle(t + mc::pick(suf)); }
MC_SCENARIO(demangling_long)
{
    int n = 1 + mc::choose(mc::thorough() ? 600 : 300), kind = mc::choose(3); string t; if (kind == 0) { string id(n, 'a'); t = fmt("_Z%d", n) + id + "v"; } else if (kind == 1) { t = "_ZN"; for (int i = 0; i < n; i++) t += "1a"; t += "Ev"; } else { t = "_Z1f"; t += string(n, 'i'); } demangle(t); }
