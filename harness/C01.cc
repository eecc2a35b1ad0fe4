// C01: parsers are total: memory-safe, terminating, leak-free on every text.
#include "parsers.h"

static void check(const Parser &p, const string &text)
{
    Run r; long leak = 0;
    for (int i = 0; i < 3; i++) {
        r = Run();
        Exact e(text);
        { mc::HeapRegion h; p.run(e, r); h.stop(); leak = h.live(); }
        mc::step();
        if (!leak) break;            // one-time library caches disappear on the second run
    }
    if (leak) mc::fail(p.name + "|leak|" + text, "%s: %ld heap blocks neither returned nor released (%s)", p.name.c_str(), leak, r.ok ? "after freeing the result" : "parse failed");
    if (r.heap_msg) mc::fail(p.name + "|the diagnostic message of a failed parse is an unowned heap string", "location message is heap memory although callers must not release it");
    mc::outcome(fmt("%s %d %ld %d:%d %llx", p.name.c_str(), r.ok, r.consumed, r.has_loc ? r.loc.line : 0, r.has_loc ? r.loc.column : 0, (unsigned long long)r.result));
    if (!text.empty()) mc::nontrivial();
}
static void one(const Parser &p, const string &text)
{
    mc::describe(p.name + " " + quote(text.size() > 2000 ? text.substr(0, 2000) + "..." : text));
    check(p, text);
}

static const vector<Parser> &parsers() { static vector<Parser> v = all_parsers(); return v; }

static struct Reg {
    Reg()
    {
        for (auto &p : parsers()) {
            const Parser *q = &p;
            string lang = p.lang;
            mc::scenarios().push_back({p.name + "_seq", [q, lang] {
                const Lang &l = langs().at(lang);
                const string &ctx = mc::pick(contexts.at(lang));
                int n = (int)l.tokens.size(), d = mc::thorough() ? (n > 24 ? 4 : 5) : (n > 24 ? 2 : 3);
                if (ctx.empty() && !mc::thorough()) d++;
                one(*q, seq_text(l, d, ctx));
            }, 3});
            mc::scenarios().push_back({p.name + "_edit", [q, lang] {
                one(*q, edited_text(langs().at(lang), 1));
            }, 3});
        }
    }
} reg;

// Deep nesting and long repetition: the number of repetitions is enumerated over a ladder.
MC_SCENARIO(ladder)
{
    static const struct { const char *lang, *pre, *rep, *post; } L[] = {
        {"gdb", "#0 f (", "(", ""}, {"gdb", "#0 f (", "{", ""}, {"gdb", "#0 f<", "a<", ""}, {"gdb", "#0 f", "(", ""}, {"gdb", "", "(", ""}, {"gdb", "", "<", ""}, {"gdb", "<", "a<", ""}, {"gdb", "", "operator ", ""}, {"gdb", "#0 f", "(<", ""}, {"gdb", "#0 f", "<(", ""}, {"gdb", "#0 f<", "f [with <", ""}, {"gdb", "#0 f(", "operator(", ""}, {"gdb", "#0 f (x=", "\"", ""}, {"gdb", "#0 f (x=", "'", ""},
        {"gdb", "", "#0 f ()\n", ""}, {"gdb", "", "Thread 1 (LWP 1):\n#0 f ()\n", ""}, {"gdb", "#0 ", "const ", ""}, {"gdb", "#0 ", "a ", "()"},
        {"koops", "", " [<ff>] f+0x1/0x2\n", ""}, {"koops", "Modules linked in:", " a", "\n"}, {"koops", "Modules linked in:", " a(F)\n", ""}, {"koops", "", "[", ""},
        {"python", "Traceback (most recent call last):\n", "  File \"a\", line 1, in f\n", "E\n"}, {"python", "", "Traceback (most recent call last):\n", ""},
        {"ruby", "a:1:in `b': m (E)\n", "\tfrom a:1:in `b'\n", ""}, {"ruby", "a:1:in `", "block in ", "b'"}, {"ruby", "a:1:in `", "rescue in ", "b'"},
        {"java", "E: m\n", "\tat a.b(C.java:1)\n", ""}, {"java", "E: m\n\tat a.b(C.java:1)\n", "Caused by: F: x\n\tat c.d(E:2)\n", ""},
        {"js", "E: m\n", "    at f (a.js:1:2)\n", ""}, {"js", "E: m\n    at f", "(", ""},
        {"osrel", "", "ID=a\n", ""}, {"unstrip", "", "0x1+0x2 a@0x1 b c d\n", ""}, {"dso", "", "/l a-1-2.x (V) 1\n", ""}, {"gdb_lib", "From To Syms Read Shared Object Library\n", "0x1 0x2 Yes /a\n", ""}, {"funs", "", "f l\n", ""}};
    const auto &l = L[mc::choose(sizeof L / sizeof *L)];
    static const int N[] = {1, 2, 3, 15, 16, 17, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 30000};
    int n = N[mc::choose(17)];
    int k = mc::choose((int)parsers().size());
    if (parsers()[k].lang != l.lang || (n > 10000 && strchr(l.rep, '\n'))) mc::prune();
    string t = l.pre; for (int i = 0; i < n; i++) t += l.rep; t += l.post;
    mc::describe(parsers()[k].name + " " + quote(l.pre) + " then " + fmt("%d", n) + " times " + quote(l.rep) + " then " + quote(l.post));
    Run r; check(parsers()[k], t);
}

// two edits of a seed (thorough): every pair of edits at token granularity of the whole-text parsers
MC_SCENARIO_T(two_edits, 2)
{
    static vector<const Parser *> gen;
    if (gen.empty()) for (auto &p : parsers()) if (p.kind == 0) gen.push_back(&p);
    const Parser *p = mc::pick(gen);
    one(*p, edited_text(langs().at(p->lang), 2));
}
