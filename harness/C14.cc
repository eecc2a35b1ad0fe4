// C14: distance matrices are complete however the computation is split.
#include "dist.h"
#include <cmath>
static bool near(float a, float b) { return std::fabs(a - b) <= 1e-5f; }
static vector<std::pair<int, int>> entries(int m, int n) { if (m >= n) m = n - 1; vector<std::pair<int, int>> v; for (int i = 0; i < m; i++) for (int j = i + 1; j < n; j++) v.push_back({i, j}); return v; }
struct Threads {
    vector<Frames> f; vector<struct sr_thread *> t;
    Threads(const Kind &k, const vector<Frames> &fr) : f(fr) { for (auto &x : fr) t.push_back(make_thread(k, x)); }
    ~Threads() { for (auto *x : t) sr_thread_free(x); }
};
// threads with as many different distances between them as possible, of different lengths
static vector<Frames> varied(const Kind &k, int n)
{
    auto &al = frame_alphabet(k); vector<Frames> v; static const int w[][6] = {{0, 1, 0, 1, 2, 0}, {0, 1, 1, -1}, {1, 0, 0, 1, 0, -1}, {2, 0, 2, -1}, {0, -1}, {0, 1, 2, 1, 1, -1}, {1, 1, 2, 0, 1, -1}, {-1}, {1, 2, -1}};
    for (int i = 0; i < n; i++) { Frames f; for (int a : w[i % 9]) { if (a < 0) break; f.push_back(al[a]); } v.push_back(f); }
    return v;
}
static void check_matrix(const string &what, const Kind &k, enum sr_distance_type t, const Threads &th, struct sr_distances *d, int m, int n)
{
    for (auto &e : entries(m, n)) {
        float got = sr_distances_get_distance(d, e.first, e.second), back = sr_distances_get_distance(d, e.second, e.first), want = ref_clustering_distance(t, k, th.f[e.first], th.f[e.second]);
        if (!near(got, want)) mc::fail("entry|" + what + fmt(" %d,%d", e.first, e.second), "the entry is %g, the distance of the threads is %g", got, want);
        if (got != back) mc::fail("symmetry|" + what + fmt(" %d,%d", e.first, e.second), "%g one way, %g the other", got, back);
    }
    for (int i = 0; i < n; i++) if (sr_distances_get_distance(d, i, i) != 0) mc::fail("diagonal|" + what, "entry %d,%d is %g", i, i, sr_distances_get_distance(d, i, i));
}
// every shape for every kind and distance
MC_SCENARIO(shapes)
{
    const Kind &k = frame_kind(mc::pick(all_types)); enum sr_distance_type t = mc::pick(all_distances); int n = 2 + mc::choose(mc::thorough() ? 11 : 8), m = 1 + mc::choose(n + 1), rot = mc::choose(n);
    string what = fmt("%s %s %dx%d rotated %d", k.name.c_str(), distance_names[t], m, n, rot); mc::describe(what);
    auto fr = varied(k, n); std::rotate(fr.begin(), fr.begin() + rot, fr.end()); Threads th(k, fr); mc::HeapRegion h;
    struct sr_distances *d = sr_threads_compare(th.t.data(), m, n, t); mc::step();
    if (d->n != n || d->m != std::min(m, n - 1)) mc::fail("shape|" + what, "the matrix is %dx%d", d->m, d->n);
    check_matrix(what, k, t, th, d, m, n);
    struct sr_distances *c = sr_distances_dup(d); sr_distances_free(d); check_matrix(what + " copy", k, t, th, c, m, n); sr_distances_free(c);
    if (h.live()) mc::fail("leak|" + what, "%ld blocks leaked", h.live());
    for (int i = 0; i < n; i++) { Frames now; for (void *o = sr_thread_frames(th.t[i]); o; o = k.next(o)) now.push_back(k.content(o)); if (now != th.f[i]) mc::fail("changed|" + what, "comparing changed thread %d", i); }
    mc::validated(); mc::nontrivial(); mc::outcome(what);
}
// every triple of short threads
MC_SCENARIO(triples)
{
    const Kind &k = frame_kind(mc::pick(all_types)); enum sr_distance_type t = mc::pick(all_distances); static std::map<string, Threads *> cache; int alpha = k.type == SR_REPORT_GDB || k.type == SR_REPORT_CORE ? 4 : 3;
    auto w = words(alpha, mc::thorough() && k.type == SR_REPORT_GDB ? 3 : 2); Threads *&p = cache[k.name]; if (!p) { vector<Frames> f; for (auto &x : w) { Frames y; for (int a : x) y.push_back(frame_alphabet(k)[a]); f.push_back(y); } p = new Threads(k, f); }
    int i = mc::choose((int)w.size()), j = mc::choose((int)w.size()); uint64_t hh = 0; mc::describe(fmt("%s %s [%s][%s]", k.name.c_str(), distance_names[t], word(w[i]).c_str(), word(w[j]).c_str()));
    for (size_t l = 0; l < w.size(); l++) {
        string what = fmt("%s %s [%s][%s][%s]", k.name.c_str(), distance_names[t], word(w[i]).c_str(), word(w[j]).c_str(), word(w[l]).c_str());
        struct sr_thread *ts[] = {p->t[i], p->t[j], p->t[l]}; const int id[] = {i, j, (int)l}; struct sr_distances *d = sr_threads_compare(ts, 2, 3, t); mc::step();
        for (auto &e : entries(2, 3)) { float got = sr_distances_get_distance(d, e.first, e.second), want = ref_clustering_distance(t, k, p->f[id[e.first]], p->f[id[e.second]]); if (!near(got, want)) mc::fail("entry|" + what + fmt(" %d,%d", e.first, e.second), "the entry is %g, the distance of the threads is %g", got, want); hh = hh * 31 + (uint64_t)(got * 1e5); }
        sr_distances_free(d); mc::validated();
    }
    mc::nontrivial(); mc::outcome(fmt("%s %d %d %d %llx", k.name.c_str(), t, i, j, (unsigned long long)hh));
}
// longer gdb threads with unknown functions, in pairs
MC_SCENARIO(unknown_functions)
{
    const Kind &k = frame_kind(SR_REPORT_GDB); auto &al = frame_alphabet(k); const int use[] = {0, 1, 2, -1}; static vector<vector<int>> w; static Threads *p;
    if (!p) { w = words(4, mc::thorough() ? 5 : 4); vector<Frames> f; Content unk = al[2]; unk[k.idx("library_name")] = V("l"); for (auto &x : w) { Frames y; for (int a : x) y.push_back(use[a] < 0 ? unk : al[use[a]]); f.push_back(y); } p = new Threads(k, f); }
    int i = mc::choose((int)w.size()); mc::describe(word(w[i])); enum sr_distance_type t = mc::flip() ? SR_DISTANCE_DAMERAU_LEVENSHTEIN : SR_DISTANCE_JACCARD; uint64_t hh = 0;
    for (size_t j = 0; j < w.size(); j++) {
        struct sr_thread *ts[] = {p->t[i], p->t[j]}; struct sr_distances *d = sr_threads_compare(ts, 1, 2, t); float got = sr_distances_get_distance(d, 0, 1), want = ref_clustering_distance(t, k, p->f[i], p->f[j]); sr_distances_free(d); mc::step(); mc::validated();
        if (!near(got, want)) mc::fail(fmt("entry|%s [%s][%s]", distance_names[t], word(w[i]).c_str(), word(w[j]).c_str()), "the entry is %g, the distance of the threads is %g", got, want);
        hh = hh * 31 + (uint64_t)(got * 1e5);
    }
    mc::nontrivial(); mc::outcome(fmt("%d %d %llx", t, i, (unsigned long long)hh));
}
// storing and reading entries: every shape, every order of pairs of stores, both index orders
MC_SCENARIO(store)
{
    int n = 2 + mc::choose(mc::thorough() ? 8 : 6), m = 1 + mc::choose(n + 1); auto es = entries(m, n); bool rev1 = mc::flip(), rev2 = mc::flip(); int at = mc::choose((int)es.size()), diag = mc::choose(n);
    string what = fmt("%dx%d entry %d", m, n, at); mc::describe(what); vector<float> model(es.size()), before(es.size()); mc::HeapRegion h;
    struct sr_distances *d = sr_distances_new(m, n);
    auto set = [&](size_t i, float v, bool rev) { if (rev) sr_distances_set_distance(d, es[i].second, es[i].first, v); else sr_distances_set_distance(d, es[i].first, es[i].second, v); model[i] = v; mc::step(); };
    auto check = [&](struct sr_distances *x, const vector<float> &mo, const char *when) { for (size_t i = 0; i < es.size(); i++) if (sr_distances_get_distance(x, es[i].first, es[i].second) != mo[i] || sr_distances_get_distance(x, es[i].second, es[i].first) != mo[i]) mc::fail("store|" + what + when, "entry %d,%d reads %g, stored %g", es[i].first, es[i].second, sr_distances_get_distance(x, es[i].first, es[i].second), mo[i]); for (int i = 0; i < n; i++) if (sr_distances_get_distance(x, i, i) != 0) mc::fail("diagonal|" + what, "not zero"); };
    for (size_t i = 0; i < es.size(); i++) set(i, i + 1, rev1);
    check(d, model, " filled"); sr_distances_set_distance(d, diag, diag, 77); check(d, model, " diagonal stored");
    struct sr_distances *c = sr_distances_dup(d); before = model; set(at, 0.5, rev2); check(d, model, " changed"); check(c, before, " copied");
    sr_distances_free(d); check(c, before, " original freed"); sr_distances_free(c); sr_distances_free(nullptr);
    if (h.live()) mc::fail("leak|" + what, "%ld blocks leaked", h.live());
    mc::validated(); mc::nontrivial(); mc::outcome(what + fmt("%d%d%d", rev1, rev2, diag));
}
static vector<struct sr_distances_part *> list(struct sr_distances_part *p) { vector<struct sr_distances_part *> v; for (; p; p = p->next) v.push_back(p); return v; }
static struct sr_distances_part *relink(const vector<struct sr_distances_part *> &v) { for (size_t i = 0; i < v.size(); i++) v[i]->next = i + 1 < v.size() ? v[i + 1] : nullptr; return v.empty() ? nullptr : v[0]; }
static vector<int> permutation(int n) { vector<int> rest, out; for (int i = 0; i < n; i++) rest.push_back(i); while (!rest.empty()) { int c = mc::choose((int)rest.size()); out.push_back(rest[c]); rest.erase(rest.begin() + c); } return out; }
// dividing: every shape and number of parts
MC_SCENARIO(divide)
{
    int n = 2 + mc::choose(mc::thorough() ? 19 : 11), m = 1 + mc::choose(n + 1); auto es = entries(m, n); unsigned big[] = {0x7fffffff, 0x80000000u, UINT_MAX, 1000}; int c = mc::choose((int)es.size() + 6); unsigned np = c < (int)es.size() + 2 ? c : big[c - es.size() - 2];
    string what = fmt("%dx%d in %u", m, n, np); mc::describe(what); vector<struct sr_distances_part *> v; v.reserve(es.size() + 2); mc::HeapRegion h; struct sr_distances_part *p = sr_distances_part_create(m, n, SR_DISTANCE_LEVENSHTEIN, np); mc::step(); for (auto *x = p; x && v.size() < es.size() + 2; x = x->next) v.push_back(x);
    size_t want = std::min<size_t>(np, es.size()), pos = 0, lo = SIZE_MAX, hi = 0;
    if (v.size() != want) mc::fail("count|" + what, "%zu parts, expected %zu", v.size(), want);
    for (auto *x : v) {
        if (pos >= es.size() || es[pos].first != x->m_begin || es[pos].second != x->n_begin) mc::fail("cover|" + what, "a part begins at %d,%d", x->m_begin, x->n_begin);
        if (x->m != std::min(m, n - 1) || x->n != n || x->dist_type != SR_DISTANCE_LEVENSHTEIN || x->distances) mc::fail("part|" + what, "part of %dx%d", x->m, x->n);
        pos += x->len; lo = std::min(lo, x->len); hi = std::max(hi, x->len);
    }
    if (np && (pos != es.size() || hi - lo > 1 || !lo)) mc::fail("sizes|" + what, "parts of %zu to %zu entries, %zu in all, matrix of %zu", lo, hi, pos, es.size());
    sr_distances_part_free(p, true); if (h.live()) mc::fail("leak|" + what, "%ld blocks leaked", h.live());
    mc::validated(); mc::nontrivial(); mc::outcome(what);
}
// computing parts in any order, listing them in any order, merging
MC_SCENARIO(split)
{
    static const enum sr_report_type kinds[] = {SR_REPORT_GDB, SR_REPORT_CORE, SR_REPORT_PYTHON}; const Kind &k = frame_kind(mc::pick(kinds)); enum sr_distance_type t = mc::thorough() ? mc::pick(all_distances) : mc::flip() ? SR_DISTANCE_LEVENSHTEIN : SR_DISTANCE_JACCARD;
    int n = 2 + mc::choose(5), m = 1 + mc::choose(n); int np = 1 + mc::choose(std::min<int>(mc::thorough() ? 5 : 4, (int)entries(m, n).size())); string what = fmt("%s %s %dx%d in %d", k.name.c_str(), distance_names[t], m, n, np); mc::describe(what);
    auto order = permutation(np), merge = permutation(np); int again = mc::choose(np + 1); what += " computed"; for (int x : order) what += fmt(" %d", x); what += " merged"; for (int x : merge) what += fmt(" %d", x); mc::describe(what);
    Threads th(k, varied(k, n)); vector<struct sr_distances_part *> v(np), l; l.reserve(np); mc::HeapRegion h; { auto w = list(sr_distances_part_create(m, n, t, np)); if (w.size() == v.size()) v = w; else v.clear(); } if ((int)v.size() != np) mc::fail("count|" + what, "%zu parts", v.size());
    for (int x : order) { sr_distances_part_compute(v[x], th.t.data()); mc::step(); if (x + 1 == again) sr_distances_part_compute(v[x], th.t.data()); }
    for (int x : merge) l.push_back(v[x]); struct sr_distances *d = sr_distances_part_merge(relink(l)), *whole = sr_threads_compare(th.t.data(), m, n, t); mc::step();
    if (!d) mc::fail("merge|" + what, "merging all parts failed");
    if (d->m != whole->m || d->n != whole->n) mc::fail("shape|" + what, "merged to %dx%d", d->m, d->n);
    for (auto &e : entries(m, n)) { float a = sr_distances_get_distance(d, e.first, e.second), b = sr_distances_get_distance(whole, e.first, e.second); if (a != b) mc::fail("entry|" + what, "entry %d,%d is %g merged and %g unsplit", e.first, e.second, a, b); }
    check_matrix(what, k, t, th, d, m, n);
    sr_distances_free(d); sr_distances_free(whole); sr_distances_part_free(l[0], true); if (h.live()) mc::fail("leak|" + what, "%ld blocks leaked", h.live());
    mc::validated(); mc::nontrivial(); mc::outcome(what);
}
// histories of computing and merging: merging succeeds exactly when every entry has been computed once
MC_SCENARIO(histories)
{
    const Kind &k = frame_kind(SR_REPORT_KERNELOOPS); int n = 3 + mc::choose(2), m = n - 1 - mc::choose(2), np = 2 + mc::choose(2); string what = fmt("%dx%d in %d:", m, n, np); auto v = list(sr_distances_part_create(m, n, SR_DISTANCE_LEVENSHTEIN, np)); np = (int)v.size(); Threads th(k, varied(k, n)); std::set<int> done; mc::describe(what);
    for (int step = 0; step < np + (mc::thorough() ? 2 : 1); step++) {
        int op = mc::choose(np + 2); // compute part, merge all, merge a random subset
        if (op < np) { sr_distances_part_compute(v[op], th.t.data()); done.insert(op); what += fmt(" compute%d", op); }
        else {
            int mask = (1 << np) - 1, last = mask, dup = 0; if (op == np + 1) { mask = mc::choose(last + 1); dup = mc::flip(); }
            what += fmt(" merge%x%s", mask, dup ? "+dup" : ""); vector<struct sr_distances_part *> l; for (int i = 0; i < np; i++) if (mask >> i & 1) l.push_back(v[i]);
            bool all = mask == last; for (int i = 0; i < np; i++) if ((mask >> i & 1) && !done.count(i)) all = false;
            struct sr_distances_part copy; if (dup && !l.empty()) { copy = *l[0]; l.push_back(&copy); all = false; } // the same part twice
            mc::describe(what); mc::HeapRegion h; struct sr_distances *d = sr_distances_part_merge(relink(l)); if ((d != nullptr) != all) mc::fail("merge|" + what, "merging %s", d ? "succeeded" : "failed"); if (d) check_matrix(what, k, SR_DISTANCE_LEVENSHTEIN, th, d, m, n); sr_distances_free(d);
            if (h.live()) mc::fail("leak|" + what, "%ld blocks leaked", h.live()); mc::validated();
        }
        mc::step(); string st = fmt("%d %d %d", m, n, np); for (int x : done) st += fmt(" %d", x); mc::state(st);
    }
    for (auto *x : v) sr_distances_part_free(x, false);
    mc::nontrivial(); mc::outcome(what);
}
// parts that do not belong together
MC_SCENARIO(mismatch)
{
    const Kind &k = frame_kind(mc::flip() ? SR_REPORT_PYTHON : SR_REPORT_GDB); int n = 3 + mc::choose(3), m = 1 + mc::choose(n - 1), np = 2 + mc::choose(3), bad = mc::choose(12); auto v = list(sr_distances_part_create(m, n, SR_DISTANCE_LEVENSHTEIN, np)); np = (int)v.size(); int at = mc::choose(np);
    string what = fmt("%s %dx%d in %d part %d bad %d", k.name.c_str(), m, n, np, at, bad); mc::describe(what); auto fr = varied(k, n); Threads th(k, fr); fr[n - 1].push_back(frame_alphabet(k)[0]); Threads other(k, fr); bool ok = false;
    for (int i = 0; i < np; i++) {
        if (i != at) { sr_distances_part_compute(v[i], th.t.data()); continue; }
        switch (bad) {
        case 0: break;                                                         // never computed
        case 1: sr_distances_part_compute(v[i], other.t.data()); ok = np == 1; break; // of other threads
        case 2: sr_distances_part_compute(v[i], th.t.data()); v[i]->dist_type = SR_DISTANCE_JACCARD; ok = np == 1; break;
        case 3: sr_distances_part_compute(v[i], th.t.data()); v[i]->n++; break; // of another shape
        case 4: v[i]->dist_type = SR_DISTANCE_JACCARD; sr_distances_part_compute(v[i], th.t.data()); ok = np == 1; break;
        case 5: sr_distances_part_compute(v[i], th.t.data()); v[i]->m_begin = 0; v[i]->n_begin = 1; ok = i == 0; break; // over the first part
        case 6: sr_distances_part_compute(v[i], th.t.data()); v[i]->len--; break; // an entry missing
        case 7: sr_distances_part_compute(v[i], th.t.data()); v[i]->m_begin = m; v[i]->n_begin = m + 1; break; // behind the last row
        case 8: sr_distances_part_compute(v[i], th.t.data()); v[i]->n_begin = n; break; // behind the last column
        case 9: sr_distances_part_compute(v[i], th.t.data()); v[i]->n_begin = v[i]->m_begin; break; // on the diagonal
        case 10: sr_distances_part_compute(v[i], th.t.data()); v[i]->m++; break;
        default: sr_distances_part_compute(v[i], th.t.data()); ok = true; break;
        }
    }
    mc::HeapRegion h; struct sr_distances *d = sr_distances_part_merge(v[0]); mc::step(); bool got = d; sr_distances_free(d); if (h.live()) mc::fail("leak|" + what, "%ld blocks leaked", h.live());
    if (got != ok) mc::fail("merge|" + what, "merging %s", got ? "succeeded" : "failed");
    sr_distances_part_free(v[0], true); if (sr_distances_part_merge(nullptr)) mc::fail("merge null", "no parts merged to a matrix"); mc::validated(); mc::nontrivial(); mc::outcome(what);
}
// matrices of sizes near limits: storing, dividing, computing in parts and merging
static int big_shape(int &m, int n) { int c = mc::choose(5); m = c == 0 ? n - 1 : c == 1 ? 1 : c == 2 ? n / 2 : c == 3 ? n : n - 2; return m = std::max(1, m); }
MC_SCENARIO(big_store)
{
    static const int ns[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 180, 181, 182, 255, 256, 257, 300, 361, 362, 363, 511, 512, 513}; int n = ns[mc::choose(mc::thorough() ? 26 : 20)], m; big_shape(m, n); bool rev = mc::flip(), backwards = mc::flip(); string what = fmt("%dx%d rev %d backwards %d", m, n, rev, backwards); mc::describe(what);
    auto es = entries(m, n); if (backwards) std::reverse(es.begin(), es.end()); mc::HeapRegion h; struct sr_distances *d = sr_distances_new(m, n); for (size_t i = 0; i < es.size(); i++) { if (rev) sr_distances_set_distance(d, es[i].second, es[i].first, i + 1); else sr_distances_set_distance(d, es[i].first, es[i].second, i + 1); }
    struct sr_distances *c = sr_distances_dup(d); if (!es.empty()) sr_distances_set_distance(d, es[0].first, es[0].second, 0.5);
    auto check = [&](struct sr_distances *x, float first, const char *w) { if (x->m != std::min(m, n - 1) || x->n != n) mc::fail("shape|" + what + w, "the matrix is %dx%d", x->m, x->n); for (size_t i = 0; i < es.size(); i++) { float want = i ? i + 1 : first, a = sr_distances_get_distance(x, es[i].first, es[i].second), b = sr_distances_get_distance(x, es[i].second, es[i].first); if (a != want || b != want) mc::fail("store|" + what + w, "entry %d,%d reads %g and %g, stored %g", es[i].first, es[i].second, a, b, want); } for (int i = 0; i < n; i++) if (sr_distances_get_distance(x, i, i) != 0) mc::fail("diagonal|" + what + w, "not zero"); };
    check(d, 0.5, " original"); sr_distances_free(d); check(c, 1, " copy"); sr_distances_free(c); mc::step(4); if (h.live()) mc::fail("leak|" + what, "%ld blocks leaked", h.live());
    mc::validated(); mc::nontrivial(); mc::outcome(what);
}
MC_SCENARIO(big_divide)
{
    static const int ns[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 600}; int n = ns[mc::choose(mc::thorough() ? 19 : 17)], m; big_shape(m, n); size_t es = entries(m, n).size(); static const int nps[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000}; int c = mc::choose(28); size_t np = c < 24 ? nps[c] : c == 24 ? es / 2 : c == 25 ? es - 1 : c == 26 ? es : es + 1;
    string what = fmt("%dx%d in %zu", m, n, np); mc::describe(what); auto all = entries(m, n); size_t want = std::min(np, es), pos = 0, cnt = 0, lo = SIZE_MAX, hi = 0; mc::HeapRegion h; struct sr_distances_part *p = sr_distances_part_create(m, n, SR_DISTANCE_JACCARD, np); mc::step();
    for (auto *x = p; x && cnt <= es; x = x->next, cnt++) { if (pos >= es || all[pos].first != x->m_begin || all[pos].second != x->n_begin || x->m != std::min(m, n - 1) || x->n != n || x->distances) mc::fail("cover|" + what, "part %zu begins at %d,%d", cnt, x->m_begin, x->n_begin); pos += x->len; lo = std::min(lo, x->len); hi = std::max(hi, x->len); }
    sr_distances_part_free(p, true); if (h.live()) mc::fail("leak|" + what, "%ld blocks leaked", h.live());
    if (cnt != want || (np && (pos != es || !lo || hi - lo > 1))) mc::fail("sizes|" + what, "%zu parts of %zu to %zu entries, %zu in all, matrix of %zu", cnt, lo, hi, pos, es);
    mc::validated(); mc::nontrivial(); mc::outcome(what);
}
MC_SCENARIO(big_split)
{
    static const enum sr_report_type kinds[] = {SR_REPORT_PYTHON, SR_REPORT_GDB, SR_REPORT_CORE}; const Kind &k = frame_kind(mc::pick(kinds)); enum sr_distance_type t = mc::pick(all_distances); static const int ns[] = {15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65}; int n = ns[mc::choose(mc::thorough() ? 11 : 5)], m; big_shape(m, n); static const int nps[] = {2, 3, 8, 31, 100, 1000}; int np = nps[mc::choose(6)], order = mc::choose(mc::thorough() ? 3 : 1), merge = mc::choose(4); if (!mc::thorough()) order = merge % 3;
    string what = fmt("%s %s %dx%d in %d, computed %d merged %d", k.name.c_str(), distance_names[t], m, n, np, order, merge); mc::describe(what); Threads th(k, varied(k, n)); mc::HeapRegion h; auto v = list(sr_distances_part_create(m, n, t, np)), w = v;
    if (order == 1) std::reverse(w.begin(), w.end()); if (order == 2) std::rotate(w.begin(), w.begin() + w.size() / 2, w.end()); for (auto *x : w) sr_distances_part_compute(x, th.t.data());
    w = v; if (merge == 1) std::reverse(w.begin(), w.end()); if (merge == 2) std::rotate(w.begin(), w.begin() + w.size() / 3, w.end()); if (merge == 3) for (size_t i = 0; i + 1 < w.size(); i += 2) std::swap(w[i], w[i + 1]);
    struct sr_distances *d = sr_distances_part_merge(relink(w)), *whole = sr_threads_compare(th.t.data(), m, n, t); mc::step(2); if (!d) mc::fail("merge|" + what, "merging all parts failed"); for (auto &e : entries(m, n)) { float a = sr_distances_get_distance(d, e.first, e.second), b = sr_distances_get_distance(whole, e.first, e.second); if (a != b) mc::fail("entry|" + what, "entry %d,%d is %g merged and %g unsplit", e.first, e.second, a, b); }
    check_matrix(what, k, t, th, d, m, n); sr_distances_free(d); sr_distances_free(whole); sr_distances_part_free(w[0], true); { vector<struct sr_distances_part *>().swap(v); vector<struct sr_distances_part *>().swap(w); } if (h.live()) mc::fail("leak|" + what, "%ld blocks leaked", h.live());
    mc::validated(); mc::nontrivial(); mc::outcome(what);
}
// matrices with more entries than 31 bits count are divided exactly like small ones
MC_SCENARIO(huge_divide)
{
    static const vector<std::pair<int, int>> sizes = {{46342, 46343}, {50000, 50001}, {1, 1000000}, {2, 1000000}, {40, 46342}, {46340, 46341}, {46341, 46342}, {30, 30000000}, {1000, 2000000}, {65536, 65537}, {65537, 65538}, {70000, 70000}};
    auto sz = sizes[mc::choose(mc::thorough() ? 12 : 5)]; unsigned nparts = mc::pick(mc::thorough() ? vector<unsigned>{1, 2, 3, 1000, 100001} : vector<unsigned>{1, 3, 100001}); int n = sz.second, m = std::min(sz.first, n - 1); string what = fmt("%dx%d in %u", sz.first, n, nparts); mc::describe(what);
    uint64_t total = (uint64_t)m * (m - 1) / 2 + (uint64_t)m * (n - m), sum = 0; struct sr_distances_part *parts = sr_distances_part_create(sz.first, n, SR_DISTANCE_LEVENSHTEIN, nparts); mc::step(); uint64_t k = 0;
    for (auto *p = parts; p; p = p->next, k++) {
        uint64_t i = p->m_begin, j = p->n_begin, want = total / nparts + (k < total % nparts); if (p->m != m || p->n != n) mc::fail("size of part|" + what, "part %d is of a %dx%d matrix", (int)k, p->m, p->n);
        if (i >= (uint64_t)m || j <= i || j >= (uint64_t)n || i * n - i * (i + 1) / 2 + (j - i - 1) != sum) mc::fail("start of part|" + what, "part %d starts at %d,%d behind %llu entries", (int)k, p->m_begin, p->n_begin, (unsigned long long)sum);
        if (p->len != want) mc::fail("length of part|" + what, "part %d has %zu entries, %llu expected", (int)k, p->len, (unsigned long long)want);
        sum += p->len;
    }
    if (sum != total || k != std::min<uint64_t>(nparts, total)) mc::fail("parts|" + what, "%d parts with %llu entries of %llu", (int)k, (unsigned long long)sum, (unsigned long long)total);
    while (parts) { auto *x = parts->next; sr_distances_part_free(parts, false); parts = x; }
    mc::validated(); mc::nontrivial(); mc::outcome(what);
}
// few rows of very many columns
MC_SCENARIO(huge_store)
{
    int n = mc::pick(vector<int>{46341, 46342, 65536, 65537, 1000000}), m = mc::pick(vector<int>{1, 2, 3, 17}); string what = fmt("%dx%d", m, n); mc::describe(what); struct sr_distances *d = sr_distances_new(m, n); mc::step();
    vector<std::pair<int, int>> e; for (int i = 0; i < m; i++) for (int j : {i + 1, i + 2, m, m + 1, 46340, 46341, n / 2, n - 2, n - 1}) if (j > i && j < n) e.push_back({i, j}); std::sort(e.begin(), e.end()); e.erase(std::unique(e.begin(), e.end()), e.end());
    for (size_t x = 0; x < e.size(); x++) { if (x & 1) sr_distances_set_distance(d, e[x].first, e[x].second, 1.0f / (x + 1)); else sr_distances_set_distance(d, e[x].second, e[x].first, 1.0f / (x + 1)); }
    struct sr_distances *c = sr_distances_dup(d); for (auto *y : {d, c}) { for (size_t x = 0; x < e.size(); x++) for (bool swap : {false, true}) { float got = swap ? sr_distances_get_distance(y, e[x].second, e[x].first) : sr_distances_get_distance(y, e[x].first, e[x].second); if (got != 1.0f / (x + 1)) mc::fail("entry|" + what + fmt(" %d,%d", e[x].first, e[x].second), "%g, not %g", got, 1.0f / (x + 1)); } sr_distances_free(y); }
    mc::validated(); mc::nontrivial(); mc::outcome(what);
}
