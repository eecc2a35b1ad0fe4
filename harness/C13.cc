// C13: stack distances follow their published definitions.
#include "dist.h"
#include <cmath>
static bool near(float a, float b) { return std::fabs(a - b) <= 1e-5f; }

// which frames count as the same
MC_SCENARIO(same_frames)
{
    auto &ks = frame_kinds(); const Kind &k = ks[mc::choose((int)ks.size())]; static const vector<Val> s = {V("x"), V((const char *)nullptr), V("y"), V("??"), V("")};
    Content a = base_frame(k); mc::set_dev_bound(mc::thorough() ? 4 : 3);
    for (size_t i = 0; i < k.f.size(); i++) { if (k.f[i].k == Field::STR) a[i] = s[mc::choose_dev((int)s.size())]; else { int n = (int)std::min<size_t>(2, nums(k.f[i].k).size()); a[i] = N(mc::choose_dev(n)); } }
    Content b = a;
    for (size_t i = 0; i < k.f.size(); i++) { if (k.f[i].k == Field::STR) { int c = mc::choose_dev((int)s.size() + 1); if (c) b[i] = s[c - 1]; } else if (mc::choose_dev(2)) b[i] = N(k.f[i].k == Field::BOOL || k.f[i].k == Field::ENUM ? !b[i].n : b[i].n + 3); }
    string what = k.text(a) + " " + k.text(b); mc::describe(what);
    void *x = k.build(a), *y = k.build(b);
    int r1 = sr_frame_cmp_distance((struct sr_frame *)x, (struct sr_frame *)y), r2 = sr_frame_cmp_distance((struct sr_frame *)y, (struct sr_frame *)x), r3 = k.cmp_distance(x, y); mc::step(3);
    bool kept = k.content(x) == a && k.content(y) == b; k.del(x); k.del(y);
    bool want = same_frame(k, a, b);
    if ((r1 == 0) != want || (r2 == 0) != want || (r3 == 0) != want) mc::fail("same|" + what, "frames count as %s (%d %d %d), expected %s", r1 ? "different" : "the same", r1, r2, r3, want ? "the same" : "different");
    if (!kept) mc::fail("changed|" + what, "comparing frames changed them");
    mc::validated(); mc::nontrivial(); mc::outcome(k.name + what);
}
struct Pool { vector<vector<int>> w; vector<Frames> f; vector<struct sr_thread *> t; };
static const Pool &pool(const Kind &k, int alphabet, int len)
{
    static std::map<string, Pool> cache; Pool &p = cache[k.name + fmt(" %d %d", alphabet, len)]; if (!p.w.empty()) return p;
    p.w = words(alphabet, len); auto &al = frame_alphabet(k);
    for (auto &w : p.w) { Frames f; for (int a : w) f.push_back(al[a]); p.f.push_back(f); p.t.push_back(make_thread(k, f)); }
    return p;
}
static void compare_all(const Kind &k, const Pool &p, const Pool &q, enum sr_distance_type t)
{
    int i = mc::choose((int)p.w.size()); mc::describe(fmt("%s %s [%s]", k.name.c_str(), distance_names[t], word(p.w[i]).c_str())); uint64_t h = 0;
    for (size_t j = 0; j < q.w.size(); j++) {
        float got = sr_distance(t, p.t[i], q.t[j]), back = sr_distance(t, q.t[j], p.t[i]), want = ref_distance(t, k, p.f[i], q.f[j]); mc::step(2); mc::validated();
        string what = fmt("%s %s [%s][%s]", k.name.c_str(), distance_names[t], word(p.w[i]).c_str(), word(q.w[j]).c_str());
        if (!(got >= 0 && got <= 1)) mc::fail("range|" + what, "the distance is %g", got);
        if (!near(got, want)) mc::fail("value|" + what, "the distance is %g, its definition gives %g", got, want);
        if (t != SR_DISTANCE_JARO_WINKLER && got != back) mc::fail("symmetry|" + what, "the distance is %g one way and %g the other", got, back);
        if (&p == &q && i == (int)j) {
            std::set<int> distinct(p.w[i].begin(), p.w[i].end()); bool self = true; for (auto &f : p.f[i]) self &= same_frame(k, f, f);
            bool apart = true; for (size_t x = 0; x < p.f[i].size(); x++) for (size_t y = 0; y < x; y++) apart &= !same_frame(k, p.f[i][x], p.f[i][y]);
            if (self && t != SR_DISTANCE_JARO_WINKLER && got != 0) mc::fail("identity|" + what, "the distance of identical threads is %g", got);
            if (self && apart && t == SR_DISTANCE_JARO_WINKLER && !near(got, 1)) mc::fail("identity|" + what, "the similarity of identical threads is %g", got);
        }
        h = h * 1000003 + (uint64_t)(got * 100000);
    }
    mc::nontrivial(); mc::outcome(fmt("%s %d %d %llx", k.name.c_str(), t, i, (unsigned long long)h));
}
// all pairs of short threads over the whole alphabet
MC_SCENARIO(short_threads)
{
    const Kind &k = frame_kind(mc::pick(all_types)); enum sr_distance_type t = mc::pick(all_distances);
    const Pool &p = pool(k, (int)frame_alphabet(k).size(), mc::thorough() ? 4 : 3); compare_all(k, p, p, t);
}
// all pairs of longer threads over four frames
MC_SCENARIO(four_frames)
{
    enum sr_report_type ts[] = {SR_REPORT_GDB, SR_REPORT_CORE}; const Kind &k = frame_kind(mc::pick(ts)); enum sr_distance_type t = mc::pick(all_distances);
    const Pool &p = pool(k, 4, mc::thorough() ? 5 : 4); const Pool &q = pool(k, 4, 4); compare_all(k, p, mc::thorough() ? q : p, t);
}
// all pairs of long threads over two and three frames
MC_SCENARIO(long_threads)
{
    int a = mc::choose(2); enum sr_distance_type t = mc::pick(all_distances); const Kind &k = frame_kind(SR_REPORT_GDB);
    const Pool &p = pool(k, a ? 3 : 2, a ? (mc::thorough() ? 6 : 5) : (mc::thorough() ? 9 : 8)); compare_all(k, p, p, t);
}
// threads much longer than the prefix and window constants: every rotation, swap and cut of one long thread
MC_SCENARIO(very_long_threads)
{
    const Kind &k = frame_kind(mc::pick(all_types)); enum sr_distance_type t = mc::pick(all_distances); int n = mc::choose(mc::thorough() ? 40 : 20); int op = mc::choose(5), at = n ? mc::choose(n) : 0, d = mc::choose(3);
    int f = -1; for (size_t i = 0; i < k.f.size(); i++) if (!strcmp(k.f[i].name, "function_name") || !strcmp(k.f[i].name, "name")) f = (int)i;
    auto frame = [&](int x) { Content c = base_frame(k); c[f] = V(fmt("fn%d", x)); return c; };
    vector<int> v, w; for (int i = 0; i < n; i++) v.push_back(i); w = v;
    switch (op) {
    case 0: if (n) std::rotate(w.begin(), w.begin() + at, w.end()); break;
    case 1: if (at + d + 1 < n) std::swap(w[at], w[at + d + 1]); break;
    case 2: w.resize(at); break;
    case 3: for (int i = 0; i <= d && n; i++) w.insert(w.begin() + at, 100 + i); break;
    case 4: if (n) w[at] = w[(at + d) % n]; break;
    }
    Frames a, b; for (int x : v) a.push_back(frame(x)); for (int x : w) b.push_back(frame(x));
    string what = fmt("%s %s n=%d op%d at %d by %d", k.name.c_str(), distance_names[t], n, op, at, d); mc::describe(what);
    struct sr_thread *x = make_thread(k, a), *y = make_thread(k, b); float got = sr_distance(t, x, y), back = sr_distance(t, y, x); mc::step(2); sr_thread_free(x); sr_thread_free(y);
    float want = ref_distance(t, k, a, b), wback = ref_distance(t, k, b, a);
    if (!near(got, want) || !near(back, wback)) mc::fail("value|" + what, "the distances are %g and %g, the definition gives %g and %g", got, back, want, wback);
    mc::validated(); mc::nontrivial(); mc::outcome(fmt("%s %g", what.c_str(), got));
}
// threads of sizes near limits: every kind of repetition, every length against about the same, half and few
MC_SCENARIO(sizes)
{
    static const int ns[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1025}; static const int periods[][2] = {{0, 0}, {3, 3}, {2, 3}, {1, 1}, {7, 5}};
    const Kind &k = frame_kind(mc::pick(all_types)); enum sr_distance_type t = mc::pick(all_distances); int n = ns[mc::choose(mc::thorough() ? 19 : 15)], c = mc::choose(4), m = c == 0 ? n : c == 1 ? n + 1 : c == 2 ? n / 2 : 3; auto &pq = periods[mc::choose(5)]; int by = mc::choose(3); by = by == 2 ? n / 2 : by;
    int f = -1; for (size_t i = 0; i < k.f.size(); i++) if (!strcmp(k.f[i].name, "function_name") || !strcmp(k.f[i].name, "name")) f = (int)i;
    string what = fmt("%s %s n=%d m=%d periods %d %d by %d", k.name.c_str(), distance_names[t], n, m, pq[0], pq[1], by); mc::describe(what);
    vector<int> v, w; for (int i = 0; i < n; i++) v.push_back(pq[0] ? i % pq[0] : i); for (int i = 0; i < m; i++) w.push_back(pq[1] ? (i + by) % pq[1] : i + by);
    auto build_one = [&](const vector<int> &x) { Frames a; for (int i : x) { Content c = base_frame(k); c[f] = V(fmt("fn%d", i)); a.push_back(c); } return make_thread(k, a); };
    auto rel = [](const vector<int> &a, const vector<int> &b) { vector<vector<char>> e; for (int x : a) { e.emplace_back(); for (int y : b) e.back().push_back(x == y); } return e; };
    auto ref = [&](const vector<int> &a, const vector<int> &b) { int x = (int)a.size(), y = (int)b.size(); if (t == SR_DISTANCE_JACCARD) { vector<int> all = a; all.insert(all.end(), b.begin(), b.end()); return ref_jaccard(rel(all, all), x, y); } return t == SR_DISTANCE_JARO_WINKLER ? ref_jw(rel(a, b), x, y) : ref_lev(rel(a, b), x, y, t == SR_DISTANCE_DAMERAU_LEVENSHTEIN); };
    struct sr_thread *x = build_one(v), *y = build_one(w); float got = sr_distance(t, x, y), back = sr_distance(t, y, x); mc::step(2); sr_thread_free(x); sr_thread_free(y);
    float want = ref(v, w), wback = ref(w, v);
    if (!near(got, want) || !near(back, wback)) mc::fail("value|" + what, "the distances are %g and %g, the definition gives %g and %g", got, back, want, wback);
    mc::validated(); mc::nontrivial(); mc::outcome(fmt("%s %g", what.c_str(), got));
}
// distances across types, and no thread is changed by being compared
MC_SCENARIO(purity)
{
    enum sr_report_type a = mc::pick(all_types), b = mc::pick(all_types); int t = mc::choose(6); const Kind &ka = frame_kind(a), &kb = frame_kind(b); Frames fa = frame_alphabet(ka), fb = frame_alphabet(kb);
    string what = fmt("types %d %d distance %d", a, b, t); mc::describe(what); if (t >= 4) t = t == 4 ? SR_DISTANCE_NUM : 77;
    struct sr_thread *x = make_thread(ka, fa), *y = make_thread(kb, fb); float got = sr_distance((enum sr_distance_type)t, x, y); mc::step();
    Frames xa, yb; for (void *o = sr_thread_frames(x); o; o = ka.next(o)) xa.push_back(ka.content(o)); for (void *o = sr_thread_frames(y); o; o = kb.next(o)) yb.push_back(kb.content(o));
    sr_thread_free(x); sr_thread_free(y);
    if (xa != fa || yb != fb) mc::fail("changed|" + what, "computing a distance changed a thread");
    if ((a != b || t >= SR_DISTANCE_NUM) && got != 1) mc::fail("types|" + what, "the distance is %g", got);
    mc::validated(); mc::nontrivial(); mc::outcome(what);
}
