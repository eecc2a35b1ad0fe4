// C12: comparisons are total orders consistent with equality.
#include "objects.h"
#include "sizes.h"
static int sgn(int x) { return (x > 0) - (x < 0); }

// a comparison under test: its objects, their texts and which content it compares
struct Cmp {
    string name; const Kind *k; int (*f)(void *, void *);
    std::function<bool(const Content &, const Content &)> same;
};
static vector<Cmp> &cmps()
{
    static vector<Cmp> v; if (!v.empty()) return v;
    auto except = [](const Kind &k, vector<const char *> drop) { vector<int> idx; for (size_t i = 0; i < k.f.size(); i++) { bool d = false; for (auto n : drop) d |= !strcmp(n, k.f[i].name); if (!d) idx.push_back((int)i); } return [idx](const Content &a, const Content &b) { for (int i : idx) if (a[i] != b[i]) return false; return true; }; };
    for (auto &k : frame_kinds()) {
        if (k.type == SR_REPORT_GDB) {
            int s = k.idx("signal_handler_called");
            for (int num = 0; num < 2; num++) {
                vector<const char *> drop{"address"}; if (!num) drop.push_back("number"); auto rest = except(k, drop);
                auto same = [rest, s](const Content &a, const Content &b) { if (a[s] != b[s]) return false; if (a[s].n) return true; return rest(a, b); }; // all signal handler frames are the same
                v.push_back(Cmp{num ? "gdb_frame_cmp" : "gdb_frame_cmp(no number)", &k, num ? [](void *a, void *b) { return sr_gdb_frame_cmp((struct sr_gdb_frame *)a, (struct sr_gdb_frame *)b, true); } : [](void *a, void *b) { return sr_gdb_frame_cmp((struct sr_gdb_frame *)a, (struct sr_gdb_frame *)b, false); }, same});
            }
        } else if (k.type == SR_REPORT_JAVA) {
            int e = k.idx("is_exception"), n = k.idx("name"); auto rest = except(k, {"message"});
            v.push_back(Cmp{k.name + "_cmp", &k, k.cmp, [rest, e, n](const Content &a, const Content &b) { if (a[e] != b[e]) return false; if (a[e].n) return a[n] == b[n]; return rest(a, b); }}); // exceptions are compared by name only (localised messages)
        } else if (k.type == SR_REPORT_CORE) v.push_back(Cmp{k.name + "_cmp", &k, k.cmp, except(k, {"address", "fingerprint_hashed"})});
        else v.push_back(Cmp{k.name + "_cmp", &k, k.cmp, except(k, {})});
    }
    for (auto &k : frame_kinds()) { // the generic comparison of the same frames
        for (size_t i = 0; i < v.size(); i++) if (v[i].k == &k && v[i].name != "gdb_frame_cmp") { v.push_back(Cmp{"sr_frame_cmp:" + k.name, &k, [](void *a, void *b) { return sr_frame_cmp((struct sr_frame *)a, (struct sr_frame *)b); }, v[i].same}); break; }
    }
    const Kind &p = other_kinds()[0];
    v.push_back(Cmp{"rpm_package_cmp", &p, p.cmp, except(p, {"role"})});
    v.push_back(Cmp{"rpm_package_cmp_nvr", &p, [](void *a, void *b) { return sr_rpm_package_cmp_nvr((struct sr_rpm_package *)a, (struct sr_rpm_package *)b); }, except(p, {"role", "epoch", "architecture", "install_time"})});
    v.push_back(Cmp{"rpm_package_cmp_nevra", &p, [](void *a, void *b) { return sr_rpm_package_cmp_nevra((struct sr_rpm_package *)a, (struct sr_rpm_package *)b); }, except(p, {"role", "install_time"})});
    return v;
}
static const vector<Val> &few(const Field &f)
{
    static const vector<Val> s = {V("b"), V((const char *)nullptr), V(""), V("a"), V("ba"), V("\xff")};
    return f.k == Field::STR ? s : nums(f.k);
}
struct Pool { vector<Content> c; vector<void *> o; };
// every object with at most `devs` fields away from the base
static const Pool &pool(const Kind &k, int devs)
{
    static std::map<std::pair<const Kind *, int>, Pool> cache; Pool &p = cache[{&k, devs}]; if (!p.c.empty()) return p;
    std::function<void(size_t, int, Content)> rec = [&](size_t i, int left, Content c) {
        if (i == k.f.size()) { p.c.push_back(c); return; }
        auto &v = few(k.f[i]);
        for (size_t j = 0; j < v.size(); j++) if (!j || left) { c.push_back(v[j]); rec(i + 1, left - (j > 0), c); c.pop_back(); }
    };
    rec(0, devs, {}); for (auto &c : p.c) p.o.push_back(k.build(c));
    return p;
}
// pairs: reflexive, antisymmetric, equal exactly when the compared content is equal, comparing changes nothing
MC_SCENARIO(pairs)
{
    auto &cs = cmps(); const Cmp &m = cs[mc::choose((int)cs.size())]; const Pool &p = pool(*m.k, mc::thorough() ? 3 : 2);
    const Pool &q = pool(*m.k, mc::thorough() ? 1 : 2);
    int i = mc::choose((int)p.c.size()); mc::describe(m.name + ": " + m.k->text(p.c[i]));
    for (size_t j = 0; j < q.c.size(); j++) {
        int ab = m.f(p.o[i], q.o[j]), ba = m.f(q.o[j], p.o[i]); mc::step(2); mc::validated();
        if (sgn(ab) != -sgn(ba)) mc::fail(m.name + " antisymmetry|" + m.k->text(p.c[i]) + "," + m.k->text(q.c[j]), "compare as %d and %d", ab, ba);
        if ((ab == 0) != m.same(p.c[i], q.c[j])) mc::fail(m.name + " equality|" + m.k->text(p.c[i]) + "," + m.k->text(q.c[j]), "compare as %d but their compared content is %s", ab, ab ? "equal" : "different");
    }
    void *copy = m.k->build(p.c[i]); int self = m.f(p.o[i], copy); m.k->del(copy);
    if (self) mc::fail(m.name + " reflexivity|" + m.k->text(p.c[i]), "compares as %d with an equal object", self);
    if (m.k->content(p.o[i]) != p.c[i]) mc::fail(m.name + " changes|" + m.k->text(p.c[i]), "comparing changed it");
    mc::nontrivial(); mc::outcome(fmt("%s %d", m.name.c_str(), i));
}
// the order of two objects that differ in one number (or string) follows that value alone, however far apart
MC_SCENARIO(monotone)
{
    auto &cs = cmps(); const Cmp &m = cs[mc::choose((int)cs.size())]; int f = mc::choose((int)m.k->f.size()); int base = mc::choose(3); string what = m.name + " by " + m.k->f[f].name + fmt(" base%d", base); mc::describe(what);
    Content b; for (auto &x : m.k->f) b.push_back(base == 0 ? few(x)[0] : base == 1 ? x.k == Field::BOOL || x.k == Field::ENUM ? N(0) : few(x)[1] : few(x).back());
    vector<void *> o; vector<Content> c; vector<Val> vals = few(m.k->f[f]); std::sort(vals.begin(), vals.end(), [](const Val &a, const Val &b) { return a.null != b.null ? a.null : a.s != b.s ? strcmp(a.s.c_str(), b.s.c_str()) < 0 : a.n < b.n; });
    for (auto &v : vals) { Content x = b; x[f] = v; c.push_back(x); o.push_back(m.k->build(x)); }
    int dir = 0; string bad;
    for (size_t i = 0; i < o.size(); i++) for (size_t j = i + 1; j < o.size(); j++) { int r = sgn(m.f(o[i], o[j])); mc::step(); if (r && !dir) dir = r; if (r && r != dir) bad = fmt("%s and %s are ordered against the other values", m.k->text(c[i]).c_str(), m.k->text(c[j]).c_str()); }
    for (auto x : o) m.k->del(x);
    if (!bad.empty()) mc::fail(m.name + " magnitude|" + what, "%s", bad.c_str());
    mc::validated(); mc::nontrivial(); mc::outcome(what + fmt("%d", dir));
}
// transitivity over all triples
MC_SCENARIO(triples)
{
    auto &cs = cmps(); const Cmp &m = cs[mc::choose((int)cs.size())]; const Pool &p = pool(*m.k, 1), &q = pool(*m.k, mc::thorough() ? 2 : 1);
    int i = mc::choose((int)p.c.size()), j = mc::choose((int)p.c.size()); int ij = sgn(m.f(p.o[i], p.o[j])); mc::describe(m.name + ": " + m.k->text(p.c[i]) + "," + m.k->text(p.c[j]));
    if (ij > 0) mc::prune();
    for (size_t l = 0; l < q.c.size(); l++) {
        int jl = sgn(m.f(p.o[j], q.o[l])); mc::step(2); if (jl > 0) continue;
        int il = sgn(m.f(p.o[i], q.o[l])); mc::validated();
        if (il > 0 || (il == 0) != (ij == 0 && jl == 0)) mc::fail(m.name + " transitivity|" + m.k->text(p.c[i]) + "," + m.k->text(p.c[j]) + "," + m.k->text(q.c[l]), "a<=b<=c compare as %d %d %d", ij, jl, il);
    }
    mc::nontrivial(); mc::outcome(fmt("%s %d %d", m.name.c_str(), i, j));
}
// --- threads, stack traces and consistency lists: sequences over an alphabet of elements
struct Seq { string text; void *o; };
struct Seqs { string name; vector<Seq> s; int (*f)(void *, void *); };
static vector<Seqs> &seqs()
{
    static vector<Seqs> v; if (!v.empty()) return v; int maxlen = mc::thorough() ? 4 : 3;
    vector<vector<int>> words{{}}; for (size_t i = 0; i < words.size(); i++) if ((int)words[i].size() < maxlen) for (int a = 0; a < 3; a++) { auto w = words[i]; w.push_back(a); words.push_back(w); }
    for (auto t : all_types) {
        const Kind &k = frame_kind(t); Seqs q{fmt("thread_cmp type %d", t), {}, [](void *a, void *b) { return sr_thread_cmp((struct sr_thread *)a, (struct sr_thread *)b); }};
        Seqs q2 = q; q2.name += " (own)"; q2.f = t == SR_REPORT_CORE ? [](void *a, void *b) { return sr_core_thread_cmp((struct sr_core_thread *)a, (struct sr_core_thread *)b); } : t == SR_REPORT_GDB ? [](void *a, void *b) { return sr_gdb_thread_cmp((struct sr_gdb_thread *)a, (struct sr_gdb_thread *)b); } : t == SR_REPORT_JAVA ? [](void *a, void *b) { return sr_java_thread_cmp((struct sr_java_thread *)a, (struct sr_java_thread *)b); } : q.f;
        int extra = t == SR_REPORT_GDB || t == SR_REPORT_JAVA ? 3 : 1;
        for (auto &w : words) for (int e = 0; e < extra; e++) {
            vector<Content> fr; for (int a : w) { Content c; for (auto &f : k.f) c.push_back(f.k == Field::STR ? V(a == 2 ? "q" : "p") : f.k == Field::BOOL ? N(0) : N(a == 1 ? UINT32_MAX : 1)); fr.push_back(c); }
            void *frames = chain(k, fr); string text = fmt("extra%d ", e); for (int a : w) text += fmt("%d", a); struct sr_thread *th = nullptr;
            switch (t) {
            case SR_REPORT_GDB: th = (struct sr_thread *)sr_gdb_thread_new(); ((struct sr_gdb_thread *)th)->number = e == 0 ? 0 : e == 1 ? 1 : UINT32_MAX; break;
            case SR_REPORT_CORE: th = (struct sr_thread *)sr_core_thread_new(); break;
            case SR_REPORT_JAVA: th = (struct sr_thread *)sr_java_thread_new(); ((struct sr_java_thread *)th)->name = e == 0 ? nullptr : g_strdup(e == 1 ? "" : "main"); break;
            case SR_REPORT_PYTHON: th = (struct sr_thread *)sr_python_stacktrace_new(); break;
            case SR_REPORT_RUBY: th = (struct sr_thread *)sr_ruby_stacktrace_new(); break;
            case SR_REPORT_JAVASCRIPT: th = (struct sr_thread *)sr_js_stacktrace_new(); break;
            default: th = (struct sr_thread *)sr_koops_stacktrace_new();
            }
            // set directly: the library's setter is not under test here
            if (t == SR_REPORT_GDB) ((struct sr_gdb_thread *)th)->frames = (struct sr_gdb_frame *)frames; else if (t == SR_REPORT_CORE) ((struct sr_core_thread *)th)->frames = (struct sr_core_frame *)frames; else if (t == SR_REPORT_JAVA) ((struct sr_java_thread *)th)->frames = (struct sr_java_frame *)frames; else sr_thread_set_frames(th, (struct sr_frame *)frames);
            q.s.push_back({text, th});
        }
        q2.s = q.s; v.push_back(q); if (q2.f != q.f) v.push_back(q2);
    }
    { Seqs q{"java_stacktrace_cmp", {}, [](void *a, void *b) { return sr_java_stacktrace_cmp((struct sr_java_stacktrace *)a, (struct sr_java_stacktrace *)b); }};
      for (auto &w : words) { auto *s = sr_java_stacktrace_new(); struct sr_java_thread **tail = &s->threads; string text; for (int a : w) { auto *t = sr_java_thread_new(); t->name = g_strdup(a ? "x" : "y"); if (a == 2) { t->frames = sr_java_frame_new(); t->frames->name = g_strdup("f"); } *tail = t; tail = &t->next; text += fmt("%d", a); } q.s.push_back({text, s}); } v.push_back(q); }
    { Seqs q{"rpm_consistency_cmp_recursive", {}, [](void *a, void *b) { return sr_rpm_consistency_cmp_recursive((struct sr_rpm_consistency *)a, (struct sr_rpm_consistency *)b); }};
      for (auto &w : words) { struct sr_rpm_consistency *l = nullptr, **tail = &l; string text; for (int a : w) { auto *c = sr_rpm_consistency_new(); c->path = g_strdup(a == 2 ? "/y" : "/x"); c->symlink_changed = a == 1; *tail = c; tail = &c->next; text += fmt("%d", a); } q.s.push_back({text, l}); } v.push_back(q);
      Seqs p{"rpm_package_cmp consistency", {}, [](void *a, void *b) { return sr_rpm_package_cmp((struct sr_rpm_package *)a, (struct sr_rpm_package *)b); }};
      for (auto &x : q.s) { auto *r = sr_rpm_package_new(); r->name = g_strdup("n"); r->consistency = (struct sr_rpm_consistency *)x.o; p.s.push_back({x.text, r}); } v.push_back(p);
      Seqs f{"rpm_consistency_cmp", {}, [](void *a, void *b) { return sr_rpm_consistency_cmp((struct sr_rpm_consistency *)a, (struct sr_rpm_consistency *)b); }};
      for (int path = 0; path < 2; path++) for (int i = 0; i < 10; i++) for (int j = 0; j <= i; j++) { auto *c = sr_rpm_consistency_new(); c->path = g_strdup(path ? "/a" : "/b"); bool *b[] = {&c->owner_changed, &c->group_changed, &c->mode_changed, &c->md5_mismatch, &c->size_changed, &c->major_number_changed, &c->minor_number_changed, &c->symlink_changed, &c->modification_time_changed}; if (i < 9) *b[i] = true; if (j < 9 && i < 9) *b[j] = true; if (i == 9 && j) continue; f.s.push_back({fmt("%d %d %d", path, i, j), c}); } v.push_back(f); }
    return v;
}
MC_SCENARIO(sequences)
{
    auto &all = seqs(); const Seqs &q = all[mc::choose((int)all.size())]; int i = mc::choose((int)q.s.size()), j = mc::choose((int)q.s.size());
    string what = q.name + " [" + q.s[i].text + "] [" + q.s[j].text + "]"; mc::describe(what);
    int ij = sgn(q.f(q.s[i].o, q.s[j].o)), ji = sgn(q.f(q.s[j].o, q.s[i].o)); mc::step(2);
    if (ij != -ji) mc::fail("antisymmetry|" + what, "compare as %d and %d", ij, ji);
    if ((ij == 0) != (i == j)) mc::fail("equality|" + what, "compare as %d", ij);
    if (ij <= 0) for (auto &l : q.s) { int jl = sgn(q.f(q.s[j].o, l.o)), il = sgn(q.f(q.s[i].o, l.o)); mc::step(2); if (jl <= 0 && (il > 0 || (il == 0) != (ij == 0 && jl == 0))) mc::fail("transitivity|" + what + l.text, "a<=b<=c compare as %d %d %d", ij, jl, il); }
    mc::validated(); mc::nontrivial(); mc::outcome(what + fmt("%d", ij));
}
// --- different kinds are unequal, in an antisymmetric and transitive way
MC_SCENARIO(kinds)
{
    enum sr_report_type a = mc::pick(all_types), b = mc::pick(all_types); bool threads = mc::flip(); string what = fmt("%s types %d %d", threads ? "threads" : "frames", a, b); mc::describe(what);
    if (a == b) mc::prune();
    TraceData da, db; da.type = a; db.type = b; Content ca, cb; for (auto &f : frame_kind(a).f) ca.push_back(f.k == Field::STR ? V("x") : N(0)); for (auto &f : frame_kind(b).f) cb.push_back(f.k == Field::STR ? V("x") : N(0));
    da.threads.resize(1); db.threads.resize(1); da.threads[0].frames = {ca}; db.threads[0].frames = {cb};
    struct sr_stacktrace *x = build(da), *y = build(db); struct sr_thread *tx = sr_stacktrace_threads(x), *ty = sr_stacktrace_threads(y);
    int ab, ba; if (threads) ab = sr_thread_cmp(tx, ty), ba = sr_thread_cmp(ty, tx); else ab = sr_frame_cmp(sr_thread_frames(tx), sr_thread_frames(ty)), ba = sr_frame_cmp(sr_thread_frames(ty), sr_thread_frames(tx)); mc::step(2);
    int d1 = sr_frame_cmp_distance(sr_thread_frames(tx), sr_thread_frames(ty));
    sr_stacktrace_free(x); sr_stacktrace_free(y);
    if (!ab || sgn(ab) != -sgn(ba)) mc::fail("kinds|" + what, "compare as %d and %d", ab, ba);
    if (!d1) mc::fail("kinds distance|" + what, "frames of different kinds count as the same");
    mc::validated(); mc::nontrivial(); mc::outcome(what);
}
// --- long threads and long strings that differ in one place
MC_SCENARIO(sizes)
{
    enum sr_report_type t = mc::pick(all_types); const Kind &k = frame_kind(t); int dim = mc::choose(2), f = -1, n, at; string what; vector<Content> a, b;
    if (dim == 0) { n = count_near_limits(); int where[] = {0, 1, n / 2, n - 2, n - 1, n}; at = mc::pick(where); for (int i = 0; i < n; i++) a.push_back(numbered_frame(k, i)); b = a; if (at < n) { f = mc::choose((int)k.f.size()); if (k.f[f].k == Field::BOOL || k.f[f].k == Field::ENUM) mc::prune(); b[at][f] = k.f[f].k == Field::STR ? V("zz" + b[at][f].s) : N(b[at][f].n + 40000); } else b.push_back(numbered_frame(k, n)); what = fmt("%s: %d frames, %s of %d differs", k.name.c_str(), n, f < 0 ? "number" : k.f[f].name, at); }
    else { n = length_near_limits(); vector<int> fs; for (size_t i = 0; i < k.f.size(); i++) if (k.f[i].k == Field::STR) fs.push_back((int)i); f = mc::pick(fs); int where[] = {0, 1, n / 2, n - 1, n}; at = mc::pick(where); a = {numbered_frame(k, 1)}; b = a; string s = long_text(n, 0); a[0][f] = V(s); if (at < n) s[at] = 'Z'; else s += "a"; b[0][f] = V(s); what = fmt("%s: %s of %d characters, %d differs", k.name.c_str(), k.f[f].name, n, at); }
    mc::describe(what); auto thread = [&](const vector<Content> &v) { TraceData d; d.type = t; d.threads.resize(1); d.threads[0].frames = v; return build(d); }; auto *x = thread(a), *y = thread(b), *z = thread(a); auto *p = sr_stacktrace_threads(x), *q = sr_stacktrace_threads(y), *r = sr_stacktrace_threads(z);
    int xy = sgn(sr_thread_cmp(p, q)), yx = sgn(sr_thread_cmp(q, p)), xz = sr_thread_cmp(p, r), fo = 0; if (dim) { auto *u = sr_thread_frames(p), *v = sr_thread_frames(q); fo = sgn(sr_frame_cmp(u, v)); int back = sgn(sr_frame_cmp(v, u)); if (fo != -back) mc::fail("antisymmetry|" + what, "frames compare as %d and %d", fo, back); }
    for (auto *s : {x, y, z}) sr_stacktrace_free(s); mc::step(3); mc::validated(); if (xz) mc::fail("equality|" + what, "equal threads compare as %d", xz); if (xy != -yx) mc::fail("antisymmetry|" + what, "compare as %d and %d", xy, yx); bool compared = true; if (f >= 0) for (auto &m : cmps()) if (m.name == "sr_frame_cmp:" + k.name) { size_t i = 0; while (a[i] == b[i]) i++; compared = !m.same(a[i], b[i]); } bool vague = f >= 0 && !strcmp(k.f[f].name, "number"); if (!vague && (xy == 0) == compared) mc::fail("difference|" + what, "different threads compare as %d", xy); mc::nontrivial(); mc::outcome(what);
}
