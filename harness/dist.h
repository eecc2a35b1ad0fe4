// Reference distances over frame sequences, and the frame alphabets they are explored with.
#ifndef DIST_H
#define DIST_H
#include "objects.h"
// when two frames count as the same function for clustering
inline bool same_frame(const Kind &k, const Content &a, const Content &b)
{
    auto eq = [&](const char *n) { int i = k.idx(n); return a[i] == b[i]; };
    auto get = [&](const Content &c, const char *n) -> const Val & { return c[k.idx(n)]; };
    auto both = [&](const char *n) { return !get(a, n).null && !get(b, n).null; };
    switch (k.type) {
    case SR_REPORT_GDB:
        if (both("function_name") && get(a, "function_name").s == "??" && get(b, "function_name").s == "??") return false;
        return eq("function_name") && (!both("library_name") || eq("library_name"));
    case SR_REPORT_CORE:
        if (both("function_name")) return eq("function_name");
        if (eq("build_id") && eq("build_id_offset")) return true;
        return both("fingerprint") && eq("fingerprint");
    case SR_REPORT_PYTHON: return eq("function_name") && eq("file_name") && eq("special_function") && eq("special_file");
    case SR_REPORT_RUBY: return eq("function_name") && eq("file_name") && eq("special_function");
    case SR_REPORT_JAVASCRIPT: return eq("function_name") && eq("file_name") && eq("file_line");
    case SR_REPORT_JAVA: return eq("name");
    case SR_REPORT_KERNELOOPS: return eq("function_name");
    default: abort();
    }
}
inline Content base_frame(const Kind &k) { Content c; for (auto &f : k.f) c.push_back(f.k == Field::STR ? V("x") : N(0)); return c; }
// named frames first, then the awkward ones (unknown functions, unknown libraries, ...)
inline const vector<Content> &frame_alphabet(const Kind &k)
{
    static std::map<const Kind *, vector<Content>> cache; auto &v = cache[&k]; if (!v.empty()) return v;
    typedef vector<std::pair<const char *, Val>> M;
    auto add = [&](const M &m) { Content c = base_frame(k); for (auto &p : m) c[k.idx(p.first)] = p.second; v.push_back(c); };
    Val null = V((const char *)nullptr);
    switch (k.type) {
    case SR_REPORT_GDB: add({{"function_name", V("f")}, {"library_name", null}}); add({{"function_name", V("g")}, {"library_name", null}}); add({{"function_name", V("??")}, {"library_name", null}}); add({{"function_name", V("f")}, {"library_name", V("l")}}); add({{"function_name", V("f")}, {"library_name", V("m")}}); add({{"function_name", null}}); break;
    case SR_REPORT_CORE: add({{"function_name", V("f")}}); add({{"function_name", V("g")}}); add({{"function_name", null}, {"fingerprint", null}}); add({{"function_name", null}, {"build_id", V("y")}, {"fingerprint", V("p")}}); add({{"function_name", V("f")}, {"build_id", V("z")}, {"fingerprint", V("p")}}); add({{"function_name", null}, {"build_id_offset", N(8)}, {"fingerprint", V("p")}}); break;
    case SR_REPORT_JAVA: add({{"name", V("f")}}); add({{"name", V("g")}}); add({{"name", null}}); add({{"name", V("f")}, {"file_name", V("y")}}); break;
    case SR_REPORT_KERNELOOPS: add({{"function_name", V("f")}}); add({{"function_name", V("g")}}); add({{"function_name", null}}); add({{"function_name", V("f")}, {"module_name", V("y")}}); break;
    case SR_REPORT_JAVASCRIPT: add({{"function_name", V("f")}}); add({{"function_name", V("g")}}); add({{"function_name", null}}); add({{"function_name", V("f")}, {"file_line", N(7)}}); add({{"function_name", V("f")}, {"file_name", V("y")}}); break;
    default: add({{"function_name", V("f")}}); add({{"function_name", V("g")}}); add({{"function_name", null}}); add({{"function_name", V("f")}, {"file_name", V("y")}}); add({{"function_name", V("f")}, {"special_function", N(1)}}); break;
    }
    return v;
}
typedef vector<Content> Frames;
struct Rel { // relation between the frames of two sequences, by reference predicate
    vector<vector<char>> e;
    Rel(const Kind &k, const Frames &a, const Frames &b) { for (auto &x : a) { e.emplace_back(); for (auto &y : b) e.back().push_back(same_frame(k, x, y)); } }
};
inline float ref_lev(const vector<vector<char>> &e, int m, int n, bool trans)
{
    if (!m && !n) return 0;
    vector<vector<int>> d(m + 1, vector<int>(n + 1));
    for (int i = 0; i <= m; i++) for (int j = 0; j <= n; j++) {
        if (!i || !j) { d[i][j] = i + j; continue; }
        int c = !e[i - 1][j - 1]; d[i][j] = std::min({d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + c});
        if (trans && i > 1 && j > 1 && e[i - 1][j - 2] && e[i - 2][j - 1]) d[i][j] = std::min(d[i][j], d[i - 2][j - 2] + c);
    }
    return d[m][n] / (float)std::max(m, n);
}
// sim(i,j): sameness between any two frames of a (m) followed by b (n)
inline float ref_jaccard(const vector<vector<char>> &s, int m, int n)
{
    auto distinct = [&](int lo, int hi, int other_lo, int other_hi, int &inter) {
        int set = 0; for (int i = lo; i < hi; i++) { bool later = false; for (int j = i + 1; j < hi; j++) later |= s[i][j]; if (later) continue; set++; bool in = false; for (int j = other_lo; j < other_hi; j++) in |= s[i][j]; inter += in; }
        return set; };
    int i1 = 0, i2 = 0, s1 = distinct(0, m, m, m + n, i1), s2 = distinct(m, m + n, 0, m, i2), in = std::min(i1, i2), un = s1 + s2 - in;
    if (!un) return 0;
    return std::max(0.f, 1 - in / (float)un);
}
inline float ref_jw(const vector<vector<char>> &e, int m, int n)
{
    if (!m && !n) return 1;
    int w = std::max(0, std::max(m, n) / 2 - 1), match = 0, prefix = 0; float tr = 0; bool pre = true;
    for (int i = 0; i < m; i++) {
        pre = pre && i < n && e[i][i]; prefix += pre;
        for (int j = std::max(0, i - w); j <= std::min(n - 1, i + w); j++) if (e[i][j]) { match++; tr += j != i; break; }
    }
    if (!match) return 0;
    tr /= 2; float j = (match / (float)m + std::min(match, n) / (float)n + (match - tr) / match) / 3;
    return j + std::min(prefix, 4) * 0.2f * (1 - j);
}
// the reference distance of two frame sequences
inline float ref_distance(enum sr_distance_type t, const Kind &k, const Frames &a, const Frames &b)
{
    int m = (int)a.size(), n = (int)b.size();
    if (t == SR_DISTANCE_JACCARD) { Frames all = a; all.insert(all.end(), b.begin(), b.end()); return ref_jaccard(Rel(k, all, all).e, m, n); }
    Rel r(k, a, b);
    return t == SR_DISTANCE_JARO_WINKLER ? ref_jw(r.e, m, n) : ref_lev(r.e, m, n, t == SR_DISTANCE_DAMERAU_LEVENSHTEIN);
}
static const enum sr_distance_type all_distances[] = {SR_DISTANCE_JARO_WINKLER, SR_DISTANCE_JACCARD, SR_DISTANCE_LEVENSHTEIN, SR_DISTANCE_DAMERAU_LEVENSHTEIN};
static const char *const distance_names[] = {"jaro-winkler", "jaccard", "levenshtein", "damerau-levenshtein"};
// a thread of any type made of these frames; it lives inside a stack trace of its own
inline struct sr_thread *make_thread(const Kind &k, const Frames &fr)
{
    TraceData d; d.type = k.type; ThreadData td; td.frames = fr; d.threads.push_back(td); struct sr_stacktrace *s = build(d);
    if (!threaded(k.type)) return (struct sr_thread *)s;
    struct sr_thread *t = sr_stacktrace_threads(s);
    switch (k.type) { case SR_REPORT_CORE: ((struct sr_core_stacktrace *)s)->threads = nullptr; break; case SR_REPORT_GDB: ((struct sr_gdb_stacktrace *)s)->threads = nullptr; break; default: ((struct sr_java_stacktrace *)s)->threads = nullptr; }
    sr_stacktrace_free(s); return t;
}
inline string word(const vector<int> &w) { string t; for (int a : w) t += char('A' + a); return t; }
inline vector<vector<int>> words(int alphabet, int maxlen) { vector<vector<int>> v{{}}; for (size_t i = 0; i < v.size(); i++) if ((int)v[i].size() < maxlen) for (int a = 0; a < alphabet; a++) { auto w = v[i]; w.push_back(a); v.push_back(w); } return v; }
// gives unknown gdb functions that stand between the same functions in both threads the same name
inline void ref_pair_unknown(const Kind &k, Frames &a, Frames &b)
{
    if (a.empty() || b.empty()) return;
    int fn = k.idx("function_name"), lib = k.idx("library_name"); Val unk = V("??");
    auto libs = [&](const Content &x, const Content &y) { return x[lib].null || y[lib].null || x[lib] == y[lib]; };
    auto next_ok = [&](size_t i, size_t j) {
        bool na = i + 1 < a.size(), nb = j + 1 < b.size(); if (na != nb) return false; if (!na) return true;
        return a[i + 1][fn] == b[j + 1][fn] && a[i + 1][fn] != unk && libs(a[i + 1], b[j + 1]); };
    int id = 0; auto name = [&](size_t i, size_t j) { a[i][fn] = b[j][fn] = V(fmt("__unknown_function_%d", id++)); };
    if (a[0][fn] == unk && b[0][fn] == unk && libs(a[0], b[0]) && next_ok(0, 0)) name(0, 0);
    for (size_t i = 1; i < a.size(); i++) if (a[i][fn] == unk)
        for (size_t j = 1; j < b.size(); j++)
            if (b[j][fn] == unk && libs(a[i], b[j]) && b[j - 1][fn] != unk && next_ok(i, j) && a[i - 1][fn] == b[j - 1][fn] && libs(a[i - 1], b[j - 1])) { name(i, j); break; }
}
// the distance as clustering uses it
inline float ref_clustering_distance(enum sr_distance_type t, const Kind &k, Frames a, Frames b) { if (k.type == SR_REPORT_GDB) ref_pair_unknown(k, a, b); return ref_distance(t, k, a, b); }
#endif
