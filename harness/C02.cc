// C02: cursor / result / error-location contract of every cursor parser.
#include "parsers.h"

static void one(const Parser &p, const string &text)
{
    mc::describe(p.name + " " + quote(text));
    Run r; { Exact e(text); p.run(e, r); }
    mc::step();
    const char *n = p.name.c_str();
    if (r.has_cursor) {
        if (r.ok) {
            if (r.consumed < 0 || r.consumed > (long)text.size()) mc::fail(p.name + "|range|" + text, "%s: cursor moved by %ld in a text of %zu characters", n, r.consumed, text.size());
            if (r.reported >= 0 && r.reported != r.consumed) mc::fail(p.name + "|count|" + text, "%s: reports %ld characters, moved by %ld", n, r.reported, r.consumed);
        } else {
            if (r.cursor_moved) mc::fail(p.name + "|moved|" + text, "%s: failed but moved the cursor by %ld", n, r.consumed);
            if (r.reported > 0) mc::fail(p.name + "|count|" + text, "%s: failed but reports %ld characters", n, r.reported);
        }
    }
    if (r.ok && r.broken) mc::fail(p.name + "|result|" + text, "%s succeeds with %s", n, r.broken);
    if (!r.ok) {
        if (r.out_touched) mc::fail(p.name + "|output|" + text, "%s: failed but changed an output argument", n);
        if (r.has_loc) {
            if (!r.loc.message) mc::fail(p.name + "|message|" + text, "%s: failed without an error message", n);
            int lines = 1 + (int)std::count(text.begin(), text.end(), '\n');
            if (r.loc.line < 1 || r.loc.line > lines + 1) mc::fail(p.name + "|line|" + text, "%s: error line %d of a text of %d lines", n, r.loc.line, lines);
        }
    }
    // same text somewhere else in memory, with other bytes behind its terminator: same behaviour
    string guard = text + string(1, '\0') + " 0x1 in f (a=1) at b.c:2\n";
    Run q; { Exact e(guard); p.run(e, q); }
    mc::step();
    if (q.ok != r.ok || q.consumed != r.consumed || q.reported != r.reported || q.result != r.result || (r.has_loc && (q.loc.line != r.loc.line || q.loc.column != r.loc.column)))
        mc::fail(p.name + "|memory|" + text, "%s: behaviour depends on bytes behind the terminator: ok %d/%d consumed %ld/%ld reported %ld/%ld result %llx/%llx loc %d:%d/%d:%d", n, r.ok, q.ok, r.consumed, q.consumed, r.reported, q.reported, (unsigned long long)r.result, (unsigned long long)q.result, r.has_loc ? r.loc.line : 0, r.has_loc ? r.loc.column : 0, q.has_loc ? q.loc.line : 0, q.has_loc ? q.loc.column : 0);
    mc::validated();
    mc::nontrivial();
    mc::outcome(fmt("%s %d %ld %d:%d %llx", n, r.ok, r.consumed, r.has_loc ? r.loc.line : 0, r.has_loc ? r.loc.column : 0, (unsigned long long)r.result));
}

static const vector<Parser> &parsers() { static vector<Parser> v = all_parsers(); return v; }
static struct Reg {
    Reg()
    {
        for (auto &p : parsers()) {
            const Parser *q = &p; string lang = p.lang;
            mc::scenarios().push_back({p.name + "_seq", [q, lang] {
                const Lang &l = langs().at(lang);
                const string &ctx = mc::pick(contexts.at(lang));
                int n = (int)l.tokens.size(), d = mc::thorough() ? (n > 24 ? 4 : 5) : (n > 24 ? 2 : 3);
                if (ctx.empty() && !mc::thorough() && n > 24) d++;
                one(*q, seq_text(l, d, ctx));
            }, 3});
            mc::scenarios().push_back({p.name + "_edit", [q, lang] { one(*q, edited_text(langs().at(lang), 1)); }, 3});
        }
    }
} reg;
