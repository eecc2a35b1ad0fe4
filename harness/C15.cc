// C15: clustering builds the average-linkage dendrogram and cuts it correctly.
#include "common.h"
#include <cmath>
static const double EPS = 1e-4;
struct Block { int lo, hi, slot; }; // order[lo..hi), slot = its smallest object
struct Validator {
    int m, n; const int *order; const float *levels; string why = "no sequence of merges of closest clusters gives this tree";
    typedef std::map<std::pair<int, int>, double> D; // distances between slots
    double get(const D &d, int a, int b) const { return d.at({std::min(a, b), std::max(a, b)}); }
    bool known(int a, int b) const { return std::min(a, b) < m; }
    bool run(vector<Block> bl, D d) const
    {
        if (bl.size() == 1) return true;
        double mn = INFINITY; for (size_t i = 0; i < bl.size(); i++) for (size_t j = 0; j < i; j++) if (known(bl[i].slot, bl[j].slot)) mn = std::min(mn, get(d, bl[i].slot, bl[j].slot));
        for (size_t i = 0; i + 1 < bl.size(); i++) {
            int a = std::min(bl[i].slot, bl[i + 1].slot), b = std::max(bl[i].slot, bl[i + 1].slot); const Block &A = bl[i].slot == a ? bl[i] : bl[i + 1], &B = bl[i].slot == a ? bl[i + 1] : bl[i];
            if (!known(a, b) || get(d, a, b) > mn + EPS || std::fabs(levels[bl[i].hi - 1] - get(d, a, b)) > EPS) continue;
            D e = d; double sa = A.hi - A.lo, sb = B.hi - B.lo;
            for (auto &c : bl) { if (c.slot == a || c.slot == b || !known(c.slot, b)) continue; e[{std::min(a, c.slot), std::max(a, c.slot)}] = (get(d, a, c.slot) * sa + get(d, b, c.slot) * sb) / (sa + sb); }
            vector<Block> nb = bl; nb[i] = Block{bl[i].lo, bl[i + 1].hi, a}; nb.erase(nb.begin() + i + 1);
            if (run(nb, e)) return true;
        }
        return false;
    }
};
static void cluster_case(int m, int n, const vector<float> &vals)
{
    vector<std::pair<int, int>> es; for (int i = 0; i < m; i++) for (int j = i + 1; j < n; j++) es.push_back({i, j});
    Validator::D d; vector<float> v; string what = fmt("%dx%d:", m, n);
    struct sr_distances *mat = sr_distances_new(m, n);
    for (auto &e : es) { float x = mc::pick(vals); v.push_back(x); d[e] = x; what += fmt(" %g", x); sr_distances_set_distance(mat, e.first, e.second, x); }
    mc::describe(what);
    long live; { mc::HeapRegion reg; sr_dendrogram_free(sr_distances_cluster_objects(mat)); live = reg.live(); } struct sr_dendrogram *t = sr_distances_cluster_objects(mat); mc::step(2);
    if (t->size != n) mc::fail("size|" + what, "dendrogram of %d objects", t->size);
    std::set<int> seen(t->order, t->order + n); string got = "order"; for (int i = 0; i < n; i++) got += fmt(" %d", t->order[i]); got += " levels"; for (int i = 0; i + 1 < n; i++) got += fmt(" %g", t->merge_levels[i]);
    if ((int)seen.size() != n || *seen.begin() != 0 || *seen.rbegin() != n - 1) mc::fail("order|" + what, "the leaves are not a permutation: %s", got.c_str());
    Validator val; val.m = m; val.n = n; val.order = t->order; val.levels = t->merge_levels; vector<Block> bl; for (int i = 0; i < n; i++) bl.push_back(Block{i, i + 1, t->order[i]});
    if (!val.run(bl, d)) mc::fail("tree|" + what, "%s: %s", val.why.c_str(), got.c_str());
    for (size_t i = 0; i < es.size(); i++) if (sr_distances_get_distance(mat, es[i].first, es[i].second) != v[i]) mc::fail("changed|" + what, "clustering changed the matrix");
    sr_dendrogram_free(t); sr_distances_free(mat); if (live) mc::fail("leak|" + what, "%ld blocks leaked", live);
    mc::validated(); mc::nontrivial(); mc::outcome(fmt("%dx%d ", m, n) + got);
}
MC_SCENARIO(up_to_four) { int n = 2 + mc::choose(3), m = 1 + mc::choose(n - 1); cluster_case(m, n, n < 4 || mc::thorough() ? vector<float>{0.5f, 0, 1, 0.3f, 7} : vector<float>{0.5f, 0, 1, 0.3f}); }
MC_SCENARIO(five) { int m = 1 + mc::choose(4); cluster_case(m, 5, m < 3 || mc::thorough() ? vector<float>{0.5f, 0, 1} : vector<float>{0.2f, 1}); }
MC_SCENARIO(five_three_values) { cluster_case(4, 5, {0.25f, 0.5f, 1}); }
MC_SCENARIO(six) { int m = 1 + mc::choose(5); cluster_case(m, 6, {0.25f, 1}); }
MC_SCENARIO_T(six_three_values, 2) { cluster_case(mc::flip() ? 3 : 2, 6, {0.25f, 0.5f, 1}); }
// all orders of distinct distances: no ties, so exactly one tree is right
MC_SCENARIO(distinct)
{
    int n = mc::thorough() ? 5 : 4, m = n - 1 - mc::choose(2); int cnt = 0; for (int i = 0; i < m; i++) cnt += n - 1 - i; vector<float> rest; float x = 0.1f; for (int i = 0; i < cnt; i++, x *= 1.7f) rest.push_back(x);
    // 5 objects have 10! orders: the 9-entry matrix and a fixed last choice keep it exhaustive over the rest
    Validator::D d; string what = fmt("%dx%d:", m, n); struct sr_distances *mat = sr_distances_new(m, n);
    if (cnt > 9) { cnt = 9; }
    int left = (int)rest.size(); for (int i = 0; i < m; i++) for (int j = i + 1; j < n; j++) { int c = left > 9 ? 0 : mc::choose((int)rest.size()); left--; float f = rest[c]; rest.erase(rest.begin() + c); d[{i, j}] = f; sr_distances_set_distance(mat, i, j, f); what += fmt(" %g", f); }
    mc::describe(what); struct sr_dendrogram *t = sr_distances_cluster_objects(mat); mc::step();
    Validator val; val.m = m; val.n = n; val.order = t->order; val.levels = t->merge_levels; vector<Block> bl; std::set<int> seen; for (int i = 0; i < n; i++) { bl.push_back(Block{i, i + 1, t->order[i]}); seen.insert(t->order[i]); }
    string got = "order"; for (int i = 0; i < n; i++) got += fmt(" %d", t->order[i]); got += " levels"; for (int i = 0; i + 1 < n; i++) got += fmt(" %g", t->merge_levels[i]);
    if ((int)seen.size() != n || !val.run(bl, d)) mc::fail("tree|" + what, "%s: %s", val.why.c_str(), got.c_str());
    sr_dendrogram_free(t); sr_distances_free(mat); mc::validated(); mc::nontrivial(); mc::outcome(got);
}
// cutting: every dendrogram over four levels, every cut level and minimum size
MC_SCENARIO(cut)
{
    static const vector<float> lv = {0.5f, 0, 0.3f, 1}; static const vector<float> cuts = {-1, 0, 0.1f, 0.3f, 0.4f, 0.5f, 0.9f, 1, 2};
    int n = 2 + mc::choose(mc::thorough() ? 7 : 5), perm = mc::choose(2); struct sr_dendrogram *t = sr_dendrogram_new(n); string what;
    for (int i = 0; i < n; i++) t->order[i] = perm ? (i * 3 + 2) % n == i ? n - 1 - i : n - 1 - i : i;
    for (int i = 0; i + 1 < n; i++) { t->merge_levels[i] = mc::pick(lv); what += fmt(" %g", t->merge_levels[i]); }
    for (float c : cuts) for (int ms = 0; ms <= n + 1; ms++) {
        string w = what + fmt(" cut at %g size %d", c, ms); mc::describe(w); vector<vector<int>> want, got; vector<int> cur{t->order[0]};
        for (int i = 1; i <= n; i++) { if (i < n && t->merge_levels[i - 1] <= c) cur.push_back(t->order[i]); else { if ((int)cur.size() >= ms) want.push_back(cur); if (i < n) cur = {t->order[i]}; } }
        long live; { mc::HeapRegion h; for (struct sr_cluster *l = sr_dendrogram_cut(t, c, ms), *x; l; l = x) { x = l->next; sr_cluster_free(l); } live = h.live(); }
        struct sr_cluster *l = sr_dendrogram_cut(t, c, ms); mc::step(2);
        for (auto *x = l; x; x = x->next) got.push_back(vector<int>(x->objects, x->objects + x->size));
        while (l) { auto *x = l->next; sr_cluster_free(l); l = x; }
        if (live) mc::fail("leak|" + w, "%ld blocks leaked", live);
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); if (want != got) mc::fail("groups|" + w, "%zu groups, expected %zu", got.size(), want.size());
        mc::validated(); mc::outcome(fmt("%d %d%s", n, perm, w.c_str()));
    }
    sr_dendrogram_free(t); sr_dendrogram_free(nullptr); sr_cluster_free(nullptr); mc::nontrivial();
}
// from threads to groups: clustering real threads and cutting agrees with grouping the matrix by hand
MC_SCENARIO(cut_of_clusters)
{
    int n = 3 + mc::choose(2); static const vector<float> vals = {0.25f, 0.5f, 1}; Validator::D d; string what = fmt("%d:", n); struct sr_distances *mat = sr_distances_new(n - 1, n);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { float x = mc::pick(vals); sr_distances_set_distance(mat, i, j, x); d[{i, j}] = x; what += fmt(" %g", x); }
    float level = mc::pick(vector<float>{0, 0.25f, 0.3f, 0.5f, 0.75f, 1}); what += fmt(" cut %g", level); mc::describe(what);
    struct sr_dendrogram *t = sr_distances_cluster_objects(mat); struct sr_cluster *l = sr_dendrogram_cut(t, level, 1); mc::step(2);
    std::set<std::set<int>> got; size_t objs = 0; bool bad = false; for (auto *x = l; x; x = x->next) { std::set<int> s(x->objects, x->objects + x->size); got.insert(s); objs += x->size; }
    // groups are disjoint, cover everything, and average linkage between any two exceeds the level
    std::set<int> all; for (auto &s : got) all.insert(s.begin(), s.end()); string why;
    if ((int)objs != n || (int)all.size() != n) why = "the groups do not partition the objects";
    for (auto &a : got) for (auto &b : got) if (a < b) { double s = 0; for (int i : a) for (int j : b) s += d[{std::min(i, j), std::max(i, j)}]; if (s / (a.size() * b.size()) <= level - EPS) bad = true; }
    if (bad) why = "two groups are closer than the cut level";
    for (auto &a : got) if (a.size() == 2 && d[{*a.begin(), *a.rbegin()}] > level + EPS) why = "two objects further apart than the cut level are in a group";
    while (l) { auto *x = l->next; sr_cluster_free(l); l = x; } sr_dendrogram_free(t); sr_distances_free(mat);
    if (!why.empty()) mc::fail("groups|" + what, "%s", why.c_str());
    mc::validated(); mc::nontrivial(); string o = what; for (auto &s : got) { o += "/"; for (int i : s) o += fmt("%d", i); } mc::outcome(o);
}
// many objects: distances of several kinds of arrangement, in every order of the objects of several
MC_SCENARIO(many_objects)
{
    static const int ns[] = {7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 100}; int n = ns[mc::choose(mc::thorough() ? 18 : 13)], kind = mc::choose(6), perm = mc::choose(4), cut = mc::choose(3), m = cut == 0 ? n - 1 : cut == 1 ? n : n / 2;
    vector<int> id(n); for (int i = 0; i < n; i++) id[i] = perm == 0 ? i : perm == 1 ? n - 1 - i : perm == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (i + n / 3) % n;
    auto h = [](uint32_t x) { x ^= x >> 16; x *= 0x7feb352dU; x ^= x >> 15; x *= 0x846ca68bU; x ^= x >> 16; return x / 4294967296.0; };
    auto dist = [&](int a, int b) { int x = std::min(a, b), y = std::max(a, b); double noise = h(x * 1000 + y); switch (kind) {
        case 0: return 1 + noise * 90; case 1: return (y - x) + noise * .4; case 2: return std::fabs(sqrt(y + 1.) - sqrt(x + 1.)) * 20 + noise * .1; // anywhere, on a line, on a bent line
        case 3: { int l = 0; for (int p = x, q = y; p != q; p /= 2, q /= 2) l++; return l * 8 + noise; }                                           // a balanced tree
        case 4: return y + noise * .5;                                                                                                            // one after another
        default: return (x % 5 == y % 5 ? 1 : 30) + noise * 5; } };                                                                               // five groups
    string what = fmt("%dx%d kind %d permutation %d", m, n, kind, perm); mc::describe(what); Validator::D d; struct sr_distances *mat = sr_distances_new(m, n); m = std::min(m, n - 1);
    for (int i = 0; i < m; i++) for (int j = i + 1; j < n; j++) { float f = dist(id[i], id[j]); d[{i, j}] = f; sr_distances_set_distance(mat, i, j, f); }
    struct sr_dendrogram *t = sr_distances_cluster_objects(mat); mc::step(); vector<int> order(t->order, t->order + n); vector<float> levels(t->merge_levels, t->merge_levels + n - 1); int size = t->size;
    vector<float> cuts = levels; std::sort(cuts.begin(), cuts.end()); float level = cuts[mc::choose(3) * (n - 2) / 2]; vector<vector<int>> got, want; for (struct sr_cluster *l = sr_dendrogram_cut(t, level, 2), *x; l; l = x) { x = l->next; got.push_back(vector<int>(l->objects, l->objects + l->size)); sr_cluster_free(l); } sr_dendrogram_free(t);
    { vector<int> cur{order[0]}; for (int i = 1; i <= n; i++) { if (i < n && levels[i - 1] <= level) cur.push_back(order[i]); else { if (cur.size() >= 2) want.push_back(cur); if (i < n) cur = {order[i]}; } } }
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); std::set<int> seen(order.begin(), order.end()); string o; for (int x : order) o += fmt(" %d", x); o += " levels"; for (float x : levels) o += fmt(" %g", x);
    if (size != n || (int)seen.size() != n || *seen.begin() != 0 || *seen.rbegin() != n - 1) mc::fail("order|" + what, "the leaves are not a permutation: %s", o.c_str());
    Validator val; val.m = m; val.n = n; val.order = order.data(); val.levels = levels.data(); vector<Block> bl; for (int i = 0; i < n; i++) bl.push_back(Block{i, i + 1, order[i]}); if (!val.run(bl, d)) mc::fail("tree|" + what, "%s: %s", val.why.c_str(), o.c_str());
    if (got != want) mc::fail("groups|" + what, "%zu groups, expected %zu", got.size(), want.size());
    sr_distances_free(mat); mc::validated(); mc::nontrivial(); mc::outcome(what + o);
}
// cutting dendrograms of many objects
MC_SCENARIO(cut_many)
{
    static const int ns[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1025}; int n = ns[mc::choose(mc::thorough() ? 19 : 15)], kind = mc::choose(4), c = mc::choose(5), ms = mc::choose(5); static const int mss[] = {0, 1, 2, 5, 300}; ms = mss[ms]; struct sr_dendrogram *t = sr_dendrogram_new(n); string what = fmt("%d leaves kind %d cut %d size %d", n, kind, c, ms); mc::describe(what);
    for (int i = 0; i < n; i++) t->order[i] = n - 1 - i; for (int i = 0; i + 1 < n; i++) t->merge_levels[i] = kind == 0 ? i + 1 : kind == 1 ? (i % 7 + 1) * n / 7 : kind == 2 ? __builtin_ctz(i + 1) * n / 8 : (i == n / 2 ? n : 1);
    float cut = c * n / 4.f; vector<vector<int>> want, got; vector<int> cur{t->order[0]}; for (int i = 1; i <= n; i++) { if (i < n && t->merge_levels[i - 1] <= cut) cur.push_back(t->order[i]); else { if ((int)cur.size() >= ms) want.push_back(cur); if (i < n) cur = {t->order[i]}; } }
    for (struct sr_cluster *l = sr_dendrogram_cut(t, cut, ms), *x; l; l = x) { x = l->next; got.push_back(vector<int>(l->objects, l->objects + l->size)); sr_cluster_free(l); } mc::step(); sr_dendrogram_free(t);
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); if (want != got) mc::fail("groups|" + what, "%zu groups, expected %zu", got.size(), want.size());
    mc::validated(); mc::nontrivial(); mc::outcome(what);
}
