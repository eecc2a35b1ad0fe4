// Bounded-exhaustive stateless explorer for satyr harnesses.
//
// A scenario is a deterministic function of a sequence of choices.  The
// explorer enumerates *every* choice sequence (depth-first, alternatives in
// ascending order), optionally bounding the number of "deviations" (choices
// other than the default 0 made through choose_dev()).  Executions are
// distributed over forked workers by hashing a choice prefix, so the union of
// the workers' executions is the complete tree.
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Fail {};      // thrown by fail()
struct SkipShard {}; // thrown by choose() when the prefix belongs to another worker
struct Prune {};     // thrown by prune(): the case is outside the space (not counted)

// --- choices
int choose(int n);                       // full branching over 0..n-1
int choose_dev(int n);                   // 0 is the default; >0 costs one deviation
int choose_cost(int n, int cost);        // >0 costs `cost` deviations
void set_dev_bound(int k);               // call first in the body (per execution)
int devs_left();
template <class T> const T &pick(const std::vector<T> &v) { return v[choose((int)v.size())]; }
template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[choose((int)N)]; }
inline bool flip() { return choose(2) == 1; }
[[noreturn]] void prune();

// --- reporting
void describe(const std::string &text);  // the concrete case (for crash reports, samples)
void outcome(const std::string &text);   // observed behaviour, hashed for distinctness
void outcome(uint64_t h);
void state(const std::string &canon);    // model/implementation state visited
void step(int n = 1);                    // operations executed on the real code
void validated(int n = 1);               // traces whose real outcome was compared with the reference
void nontrivial();                       // this execution exercised the property
// key identifies the failing case *specifically* (it is what known_findings.txt lists)
[[noreturn]] void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

bool thorough();
bool replaying();
const char *scratch();                   // per-worker scratch directory (created and removed by the driver)

// --- leak accounting: live heap blocks allocated in the region and not freed
struct HeapRegion { HeapRegion(); ~HeapRegion(); long live() const; void stop(); };

struct Scenario {
    std::string name;
    std::function<void()> body;
    int tiers;         // 1 quick, 2 thorough, 3 both
};
std::vector<Scenario> &scenarios();
struct Register {
    Register(const char *name, std::function<void()> body, int tiers = 3)
    { scenarios().push_back(Scenario{name, std::move(body), tiers}); }
};

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string quote(const std::string &s); // C-like escaped rendering
uint64_t hash(const std::string &s, uint64_t seed = 1469598103934665603ull);

#define MC_SCENARIO(id)                                             \
    static void id##_body();                                        \
    static mc::Register id##_reg(#id, id##_body);                   \
    static void id##_body()
#define MC_SCENARIO_T(id, tiers)                                    \
    static void id##_body();                                        \
    static mc::Register id##_reg(#id, id##_body, tiers);            \
    static void id##_body()

} // namespace mc
#endif
