// Uniform view of every text parser of the library.
#ifndef PARSERS_H
#define PARSERS_H
#include "common.h"
extern "C" {
int __sanitizer_get_ownership(const volatile void *p);
#include "unstrip.h"
#include "core/unwind.h"
}

struct Run {                    // fixed size: filled inside a heap-accounting region
    bool ok = false;
    bool has_cursor = false, cursor_moved = false;
    long consumed = 0;          // cursor - start
    long reported = -1;         // parsers returning the number of characters consumed
    bool has_loc = false; struct sr_location loc;
    bool out_touched = false;   // an output argument was modified although the parser failed
    uint64_t result = 0;        // digest of the result
    const char *broken = nullptr;   // what a successful parser may not do
    bool heap_msg = false;      // the location message is heap memory nobody is going to release
    void message()              // call after a failed parse
    {
        GQuark q = !ok && has_loc && loc.message ? g_quark_try_string(loc.message) : 0;
        if (q && g_quark_to_string(q) == loc.message) return;       // an interned string: owned by GLib for good
        if (!ok && has_loc && loc.message && __sanitizer_get_ownership(loc.message)) { heap_msg = true; free((void *)loc.message); loc.message = "released by the harness"; }
    }
};
static inline uint64_t dig(const char *p) { return p ? mc::hash(p) : 7; }

// Every query a user may make on a successfully parsed stack trace.
inline uint64_t consume(struct sr_stacktrace *st)
{
    uint64_t h = 1;
    auto use = [&](char *p) { h = h * 31 + (p ? dig(p) : 3); g_free(p); };
    bool gdb = st->type == SR_REPORT_GDB;
    use(sr_stacktrace_to_short_text(st, 0));
    use(sr_stacktrace_to_short_text(st, 2));
    use(sr_stacktrace_get_bthash(st, SR_BTHASH_NORMAL));
    use(sr_stacktrace_get_bthash(st, SR_BTHASH_NOHASH));
    if (!gdb) {
        use(sr_stacktrace_get_reason(st));
        char *j = sr_stacktrace_to_json(st);
        char *err = nullptr;
        struct sr_stacktrace *b = sr_stacktrace_from_json_text(st->type, j, &err);
        if (b) sr_stacktrace_free(b);
        g_free(err); g_free(j);
    }
    sr_stacktrace_find_crash_thread(st);
    for (struct sr_thread *t = sr_stacktrace_threads(st); t; t = sr_thread_next(t)) {
        h = h * 31 + sr_thread_frame_count(t);
        for (struct sr_frame *f = sr_thread_frames(t); f; f = sr_frame_next(f)) {
            GString *s = g_string_new(nullptr);
            sr_frame_append_to_str(f, s);
            h = h * 31 + dig(s->str);
            g_string_free(s, TRUE);
            sr_frame_cmp(f, f); sr_frame_cmp_distance(f, f);
        }
        sr_thread_cmp(t, t);
        if (sr_thread_frames(t)) sr_distance(SR_DISTANCE_DAMERAU_LEVENSHTEIN, t, t);
        struct sr_thread *d = sr_thread_dup(t);
        use(sr_thread_get_duphash(d, 0, nullptr, SR_DUPHASH_NORMAL));
        use(sr_thread_get_duphash(d, 1, (char *)"x", (enum sr_duphash_flags)(SR_DUPHASH_NOHASH | SR_DUPHASH_NONORMALIZE)));
        use(sr_thread_get_duphash(d, 3, nullptr, (enum sr_duphash_flags)(SR_DUPHASH_NOHASH | SR_DUPHASH_KOOPS_COMPAT)));
        sr_thread_normalize(d);
        sr_thread_cmp(t, d);
        sr_thread_free(d);
    }
    return h;
}

struct Parser {
    string name;
    std::function<void(const Exact &, Run &)> run;
    int kind;      // 0 void/whole-text, 1 cursor + location (stack-trace language), 2 cursor only
    string lang;   // alphabet to use
};

// --- adapters -------------------------------------------------------------
template <class T, class F, class C, class D>
Parser loc_parser(string name, string lang, F parse, C use, D destroy)
{
    return Parser{name, [=](const Exact &e, Run &r) {
        const char *cur = e.p;
        r.has_cursor = r.has_loc = true;
        sr_location_init(&r.loc);
        T *t = parse(&cur, &r.loc);
        r.consumed = cur - e.p; r.cursor_moved = cur != e.p; r.ok = t != nullptr;
        if (t) { r.result = use(t); destroy(t); }
        r.message();
    }, 1, lang};
}
template <class T> uint64_t consume_st(T *t) { return consume((struct sr_stacktrace *)t); }
template <class T> uint64_t frame_text(T *f)
{
    GString *s = g_string_new(nullptr);
    sr_frame_append_to_str((struct sr_frame *)f, s);
    uint64_t h = dig(s->str); g_string_free(s, TRUE); return h;
}
static char *const SENT = (char *)"sentinel";

inline vector<Parser> all_parsers()
{
    vector<Parser> v;
    // ---- GDB
    v.push_back(loc_parser<sr_gdb_stacktrace>("gdb_stacktrace", "gdb", sr_gdb_stacktrace_parse, [](sr_gdb_stacktrace *s) {
        uint64_t h = consume_st(s);
        char *t = sr_gdb_stacktrace_to_text(s, true); h ^= dig(t); g_free(t);
        sr_gdb_stacktrace_quality_simple(s); sr_gdb_stacktrace_quality_complex(s); 
        struct sr_gdb_frame *cf = sr_gdb_stacktrace_get_crash_frame(s); if (cf) sr_gdb_frame_free(cf);
        struct sr_gdb_thread *ct = sr_gdb_stacktrace_find_crash_thread(s);
        struct sr_gdb_thread *ot = ct ? sr_gdb_thread_get_optimized(ct, s->libs, 3) : nullptr;
        if (ot) { char *f = sr_gdb_thread_format_funs(ot); h ^= dig(f); g_free(f); sr_gdb_thread_free(ot); }
        struct sr_gdb_stacktrace *d = sr_gdb_stacktrace_dup(s);
        sr_gdb_stacktrace_set_libnames(d); sr_gdb_stacktrace_limit_frame_depth(d, 1); sr_gdb_stacktrace_free(d);
        return h; }, sr_gdb_stacktrace_free));
    v.push_back(Parser{"gdb_stacktrace_header", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = r.has_loc = true; sr_location_init(&r.loc);
        sr_gdb_frame *f = (sr_gdb_frame *)SENT;
        r.ok = sr_gdb_stacktrace_parse_header(&cur, &f, &r.loc);
        r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
        if (r.ok && (f == (sr_gdb_frame *)SENT || (!f && (cur == e.p || cur[-1] != '\n' || strncmp(cur, "Thread ", 7))))) r.broken = "no frame and no thread to go on with";
        if (r.ok) { if (f && f != (sr_gdb_frame *)SENT) { r.result = frame_text(f); sr_gdb_frame_free(f); } }
    }, 1, "gdb"});
    v.push_back(loc_parser<sr_gdb_thread>("gdb_thread", "gdb", sr_gdb_thread_parse, [](sr_gdb_thread *t) {
        GString *s = g_string_new(nullptr); sr_gdb_thread_append_to_str(t, s, true); uint64_t h = dig(s->str); g_string_free(s, TRUE);
        sr_gdb_thread_quality(t); return h; }, sr_gdb_thread_free));
    v.push_back(loc_parser<sr_gdb_frame>("gdb_frame", "gdb", sr_gdb_frame_parse, [](sr_gdb_frame *f) {
        GString *s = g_string_new(nullptr); sr_gdb_frame_append_to_str(f, s, true); uint64_t h = dig(s->str); g_string_free(s, TRUE); return h; }, sr_gdb_frame_free));
    v.push_back(loc_parser<sr_gdb_frame>("gdb_frame_header", "gdb", sr_gdb_frame_parse_header, frame_text<sr_gdb_frame>, sr_gdb_frame_free));
    v.push_back(Parser{"gdb_function_name", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = r.has_loc = true; sr_location_init(&r.loc); char *n = SENT, *t = SENT;
        r.ok = sr_gdb_frame_parse_function_name(&cur, &n, &t, &r.loc);
        r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
        if (r.ok) { r.result = dig(n) ^ dig(t) * 3; g_free(n); g_free(t); } else r.out_touched = n != SENT || t != SENT;
    }, 1, "gdb"});
    v.push_back(Parser{"gdb_function_call", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = r.has_loc = true; sr_location_init(&r.loc); char *n = SENT, *t = SENT;
        r.ok = sr_gdb_frame_parse_function_call(&cur, &n, &t, &r.loc);
        r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
        if (r.ok) { r.result = dig(n) ^ dig(t) * 3; g_free(n); g_free(t); } else r.out_touched = n != SENT || t != SENT;
    }, 1, "gdb"});
    v.push_back(Parser{"gdb_address_in_function", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = r.has_loc = true; sr_location_init(&r.loc); char *n = SENT, *t = SENT; uint64_t a = 77;
        r.ok = sr_gdb_frame_parse_address_in_function(&cur, &a, &n, &t, &r.loc);
        r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
        if (r.ok) { r.result = dig(n) ^ dig(t) * 3 ^ a * 1000003; g_free(n); g_free(t); } else r.out_touched = n != SENT || t != SENT; /* the address is documented as an output of the attempt */
    }, 1, "gdb"});
    v.push_back(Parser{"gdb_skip_function_args", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = r.has_loc = true; sr_location_init(&r.loc);
        r.ok = sr_gdb_frame_skip_function_args(&cur, &r.loc);
        r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
    }, 1, "gdb"});
    v.push_back(Parser{"gdb_file_location", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = r.has_loc = true; sr_location_init(&r.loc); char *f = SENT; uint32_t l = 77;
        r.ok = sr_gdb_frame_parse_file_location(&cur, &f, &l, &r.loc);
        r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
        if (r.ok) { r.result = dig(f) ^ (uint64_t)l << 32; g_free(f); } else r.out_touched = f != SENT || l != 77;
    }, 1, "gdb"});
    v.push_back(Parser{"gdb_frame_start", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = true; uint32_t n = 77; r.reported = sr_gdb_frame_parse_frame_start(&cur, &n);
        r.ok = r.reported != 0; r.consumed = cur - e.p; r.cursor_moved = cur != e.p; r.result = n; 
    }, 2, "gdb"});
    v.push_back(Parser{"gdb_thread_lwp", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = true; uint32_t n = 77; r.reported = sr_gdb_thread_parse_lwp(&cur, &n);
        r.ok = r.reported != 0; r.consumed = cur - e.p; r.cursor_moved = cur != e.p; r.result = n; 
    }, 2, "gdb"});
    v.push_back(Parser{"gdb_thread_skip_lwp", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = true; r.reported = sr_gdb_thread_skip_lwp(&cur);
        r.ok = r.reported != 0; r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
    }, 2, "gdb"});
    v.push_back(Parser{"gdb_operator", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = true; GString *g = g_string_new(nullptr); r.reported = sr_gdb_frame_parseadd_operator(&cur, g);
        r.ok = r.reported != 0; r.consumed = cur - e.p; r.cursor_moved = cur != e.p; r.result = dig(g->str); r.out_touched = !r.ok && g->len; g_string_free(g, TRUE);
    }, 2, "gdb"});
    auto strsub = [&](string name, std::function<int(const char **, char **)> f) {
        v.push_back(Parser{name, [=](const Exact &e, Run &r) {
            const char *cur = e.p; r.has_cursor = true; char *s = SENT; r.reported = f(&cur, &s);
            r.ok = r.reported != 0; r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
            if (r.ok) { r.result = dig(s); g_free(s); } else r.out_touched = s != SENT;
        }, 2, "gdb"});
    };
    strsub("gdb_name_chunk", [](const char **i, char **s) { return sr_gdb_frame_parse_function_name_chunk(i, false, s); });
    strsub("gdb_name_chunk_space", [](const char **i, char **s) { return sr_gdb_frame_parse_function_name_chunk(i, true, s); });
    strsub("gdb_name_braces", sr_gdb_frame_parse_function_name_braces);
    strsub("gdb_name_template", sr_gdb_frame_parse_function_name_template);
    strsub("gdb_name_template_args", sr_gdb_frame_parse_function_name_template_args);
    v.push_back(Parser{"gdb_sharedlib", [](const Exact &e, Run &r) {
        struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_parse(e.p); r.ok = l != nullptr;
        if (l) { r.result = sr_gdb_sharedlib_count(l); sr_gdb_sharedlib_find_address(l, 0x10); r.result ^= dig(l->soname); while (l) { struct sr_gdb_sharedlib *n = l->next; sr_gdb_sharedlib_free(l); l = n; } }
    }, 0, "gdb_lib"});
    v.push_back(Parser{"gdb_thread_funs", [](const Exact &e, Run &r) {
        struct sr_gdb_thread *t = sr_gdb_thread_parse_funs(e.p); r.ok = t != nullptr;
        if (t) { char *f = sr_gdb_thread_format_funs(t); r.result = dig(f); g_free(f); sr_gdb_thread_free(t); }
    }, 0, "funs"});
    // ---- kernel oops
    v.push_back(loc_parser<sr_koops_stacktrace>("koops_stacktrace", "koops", sr_koops_stacktrace_parse, consume_st<sr_koops_stacktrace>, sr_koops_stacktrace_free));
    v.push_back(Parser{"koops_frame", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = true; struct sr_koops_frame *f = sr_koops_frame_parse(&cur);
        r.ok = f; r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
        if (f) { r.result = frame_text(f); char *j = sr_koops_frame_to_json(f); g_free(j); sr_koops_frame_free(f); }
    }, 2, "koops"});
    v.push_back(Parser{"koops_modules", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = true; char **m = sr_koops_stacktrace_parse_modules(&cur);
        r.ok = m; r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
        if (m) { for (char **i = m; *i; i++) { r.result = r.result * 31 + dig(*i); g_free(*i); } g_free(m); }
    }, 2, "koops"});
    v.push_back(Parser{"koops_timestamp", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = true; r.ok = sr_koops_skip_timestamp(&cur); r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
    }, 2, "koops"});
    v.push_back(Parser{"koops_address", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = true; uint64_t a = 77; r.ok = sr_koops_parse_address(&cur, &a); r.consumed = cur - e.p; r.cursor_moved = cur != e.p; r.result = r.ok ? a : 0;
    }, 2, "koops"});
    v.push_back(Parser{"koops_module_name", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = true; char *m = SENT; r.ok = sr_koops_parse_module_name(&cur, &m); r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
        if (r.ok) { r.result = dig(m); g_free(m); } else r.out_touched = m != SENT && m != nullptr;
    }, 2, "koops"});
    v.push_back(Parser{"koops_function", [](const Exact &e, Run &r) {
        const char *cur = e.p; r.has_cursor = true; char *f = nullptr, *m = nullptr; uint64_t o = 77, l = 78;
        r.ok = sr_koops_parse_function(&cur, &f, &o, &l, &m); r.consumed = cur - e.p; r.cursor_moved = cur != e.p;
        if (r.ok) { r.result = dig(f) ^ dig(m) * 3 ^ o * 7 ^ l * 11; g_free(f); g_free(m); } 
    }, 2, "koops"});
    // ---- Python, Ruby, Java, JavaScript
    v.push_back(loc_parser<sr_python_stacktrace>("python_stacktrace", "python", sr_python_stacktrace_parse, consume_st<sr_python_stacktrace>, sr_python_stacktrace_free));
    v.push_back(loc_parser<sr_python_frame>("python_frame", "python", sr_python_frame_parse, frame_text<sr_python_frame>, sr_python_frame_free));
    v.push_back(loc_parser<sr_ruby_stacktrace>("ruby_stacktrace", "ruby", sr_ruby_stacktrace_parse, consume_st<sr_ruby_stacktrace>, sr_ruby_stacktrace_free));
    v.push_back(loc_parser<sr_ruby_frame>("ruby_frame", "ruby", sr_ruby_frame_parse, frame_text<sr_ruby_frame>, sr_ruby_frame_free));
    v.push_back(loc_parser<sr_java_stacktrace>("java_stacktrace", "java", sr_java_stacktrace_parse, consume_st<sr_java_stacktrace>, sr_java_stacktrace_free));
    v.push_back(loc_parser<sr_java_thread>("java_thread", "java", sr_java_thread_parse, [](sr_java_thread *t) { uint64_t h = 0; for (sr_java_frame *f = t->frames; f; f = f->next) h = h * 31 + frame_text(f); char *j = sr_java_thread_to_json(t); g_free(j); return h; }, sr_java_thread_free));
    v.push_back(loc_parser<sr_java_frame>("java_exception", "java", sr_java_frame_parse_exception, frame_text<sr_java_frame>, sr_java_frame_free_full));
    v.push_back(loc_parser<sr_java_frame>("java_frame", "java", sr_java_frame_parse, frame_text<sr_java_frame>, sr_java_frame_free_full));
    v.push_back(loc_parser<sr_js_stacktrace>("js_stacktrace", "js", sr_js_stacktrace_parse, consume_st<sr_js_stacktrace>, sr_js_stacktrace_free));
    v.push_back(loc_parser<sr_js_frame>("js_frame", "js", sr_js_frame_parse, frame_text<sr_js_frame>, sr_js_frame_free));
    v.push_back(loc_parser<sr_js_stacktrace>("js_stacktrace_v8", "js", sr_js_stacktrace_parse_v8, consume_st<sr_js_stacktrace>, sr_js_stacktrace_free));
    v.push_back(loc_parser<sr_js_frame>("js_frame_v8", "js", sr_js_frame_parse_v8, frame_text<sr_js_frame>, sr_js_frame_free));
    v.push_back(loc_parser<sr_js_frame>("js_platform_frame", "js", [](const char **c, struct sr_location *l) { sr_js_platform_t pl = sr_js_platform_new(); sr_js_platform_init(pl, SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8); auto *f = sr_js_platform_parse_frame(pl, c, l); sr_js_platform_free(pl); return f; }, frame_text<sr_js_frame>, sr_js_frame_free));
    v.push_back(loc_parser<sr_js_stacktrace>("js_platform_stacktrace", "js", [](const char **c, struct sr_location *l) { sr_js_platform_t pl = sr_js_platform_new(); sr_js_platform_init(pl, SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8); auto *s = sr_js_platform_parse_stacktrace(pl, c, l); sr_js_platform_free(pl); return s; }, consume_st<sr_js_stacktrace>, sr_js_stacktrace_free));
    // ---- whole-text parsers
    static const struct { const char *n; enum sr_report_type t; const char *lang; } gen[] = {
        {"generic_gdb", SR_REPORT_GDB, "gdb"}, {"generic_koops", SR_REPORT_KERNELOOPS, "koops"}, {"generic_python", SR_REPORT_PYTHON, "python"},
        {"generic_java", SR_REPORT_JAVA, "java"}, {"generic_ruby", SR_REPORT_RUBY, "ruby"}, {"generic_js", SR_REPORT_JAVASCRIPT, "js"}};
    for (auto &g : gen) {
        auto t = g.t;
        v.push_back(Parser{g.n, [=](const Exact &e, Run &r) {
            char *err = nullptr; struct sr_stacktrace *s = sr_stacktrace_parse(t, e.p, &err);
            r.ok = s; if (s) { r.result = consume(s); sr_stacktrace_free(s); } else r.out_touched = err == nullptr; // NULL result must come with a message
            g_free(err);
        }, 0, g.lang});
    }
    v.push_back(Parser{"rpm_nvr", [](const Exact &e, Run &r) {
        char *n = nullptr, *ve = nullptr, *re = nullptr; r.ok = sr_rpm_package_parse_nvr(e.p, &n, &ve, &re);
        if (r.ok) { r.result = dig(n) ^ dig(ve) * 3 ^ dig(re) * 5; g_free(n); g_free(ve); g_free(re); }
    }, 0, "nevra"});
    v.push_back(Parser{"rpm_nevra", [](const Exact &e, Run &r) {
        char *n = nullptr, *ve = nullptr, *re = nullptr, *ar = nullptr; uint32_t ep = 0; r.ok = sr_rpm_package_parse_nevra(e.p, &n, &ep, &ve, &re, &ar);
        if (r.ok) { r.result = dig(n) ^ dig(ve) * 3 ^ dig(re) * 5 ^ ep ^ dig(ar) * 7; g_free(n); g_free(ve); g_free(re); g_free(ar); }
    }, 0, "nevra"});
    v.push_back(Parser{"abrt_dso_list", [](const Exact &e, Run &r) {
        struct sr_rpm_package *p = sr_abrt_parse_dso_list(e.p); r.ok = p; if (p) { char *j = sr_rpm_package_to_json(p, true); r.result = dig(j); g_free(j); sr_rpm_package_free(p, true); }
    }, 0, "dso"});
    v.push_back(Parser{"os_system_release", [](const Exact &e, Run &r) {
        char *n = nullptr, *ve = nullptr; r.ok = sr_operating_system_parse_etc_system_release(e.p, &n, &ve); if (r.ok) { r.result = dig(n) ^ dig(ve) * 3; g_free(n); g_free(ve); } else { r.out_touched = n || ve; }
    }, 0, "sysrel"});
    v.push_back(Parser{"os_os_release", [](const Exact &e, Run &r) {
        struct sr_operating_system *o = sr_operating_system_new(); r.ok = sr_operating_system_parse_etc_os_release(e.p, o); char *j = sr_operating_system_to_json(o); r.result = dig(j); g_free(j); sr_operating_system_free(o);
    }, 0, "osrel"});
    v.push_back(Parser{"unstrip", [](const Exact &e, Run &r) {
        struct sr_unstrip_entry *u = sr_unstrip_parse(e.p); r.ok = u; if (u) { r.result = u->start ^ u->length * 3 ^ dig(u->file_name) ^ dig(u->mod_name) ^ dig(u->build_id); sr_unstrip_find_address(u, 0x1000); sr_unstrip_free(u); }
    }, 0, "unstrip"});
    return v;
}

struct Lang { vector<string> tokens; vector<string> seeds; };
inline const std::map<string, Lang> &langs()
{
    static std::map<string, Lang> m = {
    {"gdb", {{"#", "0", "12", " ", "0x", "1f", "in ", "foo", "<", ">", "(", ")", "::", "operator", "const", "=", "\"", "\\", "{", "}", ",", "at ", "from ", "a.c", ":", "\n", "*", "Thread ", "LWP", "[", "]", "<signal handler called>", "@", "$", "\xff", "4294967296", "vtable", " [with "},
        {"Core was generated by `a'.\n#0  0x00007f in foo (x=1) at a.c:3\n\nThread 2 (Thread 0x7f0 (LWP 123)):\n#0  0x1 in bar () from /lib/l.so\n#1  <signal handler called>\nNo symbol table.\n#2  0x3 in std::vector<int, char>::operator[] (this=0x1, s=\"a)\\\"b\") at v.h:12\n\nThread 1 (LWP 9):\n#0  main (argc=1, argv={0x1, 0x2}) at m.c:9\n        x = 3\nFrom                To                  Syms Read   Shared Object Library\n0x0000000000000001  0x0000000000000009  Yes         /lib/l.so\n",
         "Thread 1 (process 5):\n#0  0xffffffffffffffff in operator new[](unsigned long) () from /l\n#1  a::(anonymous namespace)::b<c<d> > (x=0x0) const at b.c:1\n#2  0x2 in int const* f<int>(char const*) (a=<optimized out>) at /x y/c.c:44\n#3  ?? ()\n",
         "#0  0x1 in vtable for N::C ()\n#1  0x2 in f<g() [with T = int; U = a[2]]> (x=(truncated)) at a.c:1\n#2  0x3 in C::operator()<T> (this=0x0) from /l\n"}}},
    {"gdb_lib", {{"From", "To", "Syms Read", "Shared Object Library", "Shared", "0x1", "0x20", "  ", " ", "Yes", "No", "(*)", "/a.so", "\n", "\t", "zz", "0x", "-", "18446744073709551616"},
        {"From                To                  Syms Read   Shared Object Library\n0x0000000000000001  0x0000000000000020  Yes         /lib/a.so\n0x0000000000000030  0x0000000000000040  Yes (*)     /lib/b.so\n                                        No          linux-vdso.so.1\n"}}},
    {"funs", {{"f", " ", "\n", "lib.so", "a b", "\t", "\xff"}, {"foo lib.so\nbar baz(int) l2\nqux \n"}}},
    {"koops", {{"[", "]", "<", ">", "(", ")", " ", "1", "12.5", "ffffffff81057adf", "? ", "foo", "+", "0x1f", "/", "0xc0", "mod", "\n", "Call Trace:", "Modules linked in:", "[last unloaded:", "<IRQ>", "<EOI>", "RIP:", "IP:", "BUG:", "Tainted: PF", "Not tainted", "#", "{", "}", "<4>", "kernel: ", "[<", ">]", "Code:", "--", "Version: ", "EIP:", "from"},
        {"[110417.280426] WARNING: at mm/page_alloc.c:2204 foo+0x231/0x8f0()\n[110417.280431] Modules linked in: vfat fat(F) bar [last unloaded: scsi]\n[110417.2] Pid: 3, comm: k Tainted: PFGD W 3.3.7-1.fc16.x86_64 #1\n[110417.280528] Call Trace:\n[110417.280535]  <IRQ> [<ffffffff81057adf>] warn_slowpath_common+0x7f/0xc0\n[110417.280539]  [<ffffffff81057b3a>] ? warn_slowpath_null+0x1a/0x20 [ppp]\n[1.1]  <EOI>  [<ffffffff8127e2c0>] ? bar+0x1/0x2\n[1.2]  [<f8>] ret_from_fork+0x7c/0xb0\n[1.3] ---[ end trace e2cf3bdf7f4b0d5b ]---\n",
         "<4>BUG: unable to handle kernel NULL pointer dereference at 0000000000000088\n<1>IP: [<ffffffffa0a5>] baz+0x1/0x2 [mod]\n<4>RIP: 0010:[<ffffffff>]  [<ffffffff>] qux+0x5/0x60\n<4>Call Trace:\n<4> [<ffffffff>] (a+0x1/0x2) from [<c0>] (b+0x3/0x4)\n<4> foo+0x1/0x2\n<4>(c+0x1/0x2) from (d)\n<4>Code: 1\n",
         "([<0000000000112f28>] dump_trace+0xb8/0xd8)\n [<000003ff800f2>] x_y+0x52/0x1c0 [zz]\nBacktrace: [<c0012>] (f+0x0/0x10) from [<c01>] (g+0x1/0x2 [m])\n[c00000007fffba00] [c00000000001c2d8] .foo+0x3/0x4 (unreliable)\nLast Breaking-Event-Address:\n [<0000>] bar+0x1/0x2\n",
         "[1.1] Call Trace:\n[1.1]  [<c04>] ? wl_x+0x1/0x2 [wl]\n[1.1] <EOE> [<c05>] (e) from [<c06>] (h+0x1/0x2)\n[1.1] EIP: [<f8e40765>] wdev.part.8+0x3/0x5 [wl] SS:ESP 0068:f180dbf8\n"}}},
    {"python", {{"Traceback (most recent call last):", "\n", "  File \"", "a.py", "\"", ", line ", "12", ", in ", "foo", "<module>", "    ", "x()", "Error", ": msg", " ", "^", "<string>", "<", ">", "<frozen f>", "~~", "4294967296", "Traceback", "File ", "invalid syntax ("},
        {"Traceback (most recent call last):\n  File \"/usr/bin/w\", line 3, in <module>\n    0/0\n    ~^~\n  File \"<string>\", line 1, in f\n  File \"b.py\", line 22, in g\n    return x(y)\nZeroDivisionError: integer division\n",
         "Traceback (most recent call last):\nFile \"a.py\", line 5\n    if x\n       ^\nSyntaxError: invalid syntax\n", "/x.py:1:<module>:E: a\n\nTraceback (most recent call last):\n  File \"a.py\", line 1, in <module>\nE\nLocal variables in innermost frame:\na: 1\n"}}},
    {"ruby", {{"a.rb", ":", "12", ":in ", "`", "'", "foo", "\n", "\t", "from ", " (", "Err)", "msg", "rescue in ", "block in ", "block (2 levels) in ", "<class:X>", "ensure in ", " ", "<main>", "levels) in", "4294967296"},
        {"/usr/a.rb:103:in `get': Unable to. (RuntimeError)\n\tfrom /b.rb:77:in `block (2 levels) in init'\n\tfrom /c:24:in `rescue in block in new'\n\tfrom /sbin/x:24:in `<main>'",
         "a.rb:1: msg (E)\n", "a.rb:9:in `<top (required)>': multi\nline\nmessage (A::B)\n\tfrom b.rb:1:in `require'\n"}}},
    {"java", {{"Exception in thread ", "\"main\"", "\"", " ", "java.lang.E", ": msg", "\n", "\tat ", "a.B.c", "(", "B.java", ":12", ")", "Native Method", "Unknown Source", "Caused by: ", "... 1 more", "[file:/", "x.jar", "]", "Suppressed: ", "CIRCULAR REFERENCE:", "<init>", "4294967296", "at "},
        {"Exception in thread \"main\" java.lang.IllegalStateException: A book has a null property\n        at com.Author.getBookIds(Author.java:38)\n        at com.Bootstrap.main(Native Method) [jar:file:/u/x.jar!/B.class]\nCaused by: java.lang.NullPointerException\n\tat com.Book.getId(Unknown Source) [file:/u/y.class]\n\t... 1 more\nCaused by: E: f\n\tat a.b(C.java:1)\n",
         "java.lang.E: x\n\tat a.<init>(B.java) [fi]\n\tat c.d(E.java:70000) [http://h/z.jar]\n"}}},
    {"js", {{"Error", ": msg", "\n", "    at ", "at ", "foo", " (", "a.js", ":1", ":2", ")", "new ", "Object.", "<anonymous>", "[as x]", "native", " ", "(", ":", "4294967296", "async ", "TypeError"},
        {"ReferenceError: nonexistent is not defined\n    at Object.<anonymous> (/tmp/i.js:2:1)\n    at emitNone (events.js:86:13)\n    at /x.js:10:20\n    at Socket.g [as oncomplete] (net.js:1068:10)\n    at native\n    at new Foo (a b.js:1:1)",
         "E\n    at f (<anonymous>)\n    at a.js:1:2", "TypeError: x\n  y\n    at C.m (node:internal:5:6)\n"}}},
    {"nevra", {{"a", "-", ":", ".", "1", "0", "b", "x86_64", "4294967296", " ", "fc1", "\n"}, {"coreutils-8.22-11.fc20", "a-b-0:8.22-11.fc20.x86_64", "kernel-4294967295:1-2.noarch"}}},
    {"dso", {{"/l.so", " ", "a-1-2.x", "a-1:1-2.x", "(", ")", "Fedora", "123", "\n", "-", ":", "."}, {"/usr/lib64/libc.so.6 glibc-2.17-4.fc19.x86_64 (Fedora Project) 1363187891\n/bin/a b-c-1:2-3.n (V) 1\n/x y-1-2.z () 18446744073709551616\n"}}},
    {"sysrel", {{"Fedora", " ", "release", " release ", "20", "(", "Heisenbug", ")", "\n", "rhel", "Red Hat Enterprise Linux"}, {"Fedora release 16 (Verne)", "Red Hat Enterprise Linux Server release 6.2 (Santiago)", "Red Hat Enterprise Linux 7.0 beta"}}},
    {"osrel", {{"ID", "=", "\"", "'", "fedora", "\n", "VERSION_ID", "CPE_NAME", "VARIANT_ID", "20", "\\", "$", " ", "#", "ID=", "REDHAT_BUGZILLA_PRODUCT", "Red Hat"}, {"NAME=Fedora\nVERSION=\"20 (H)\"\nID=fedora\nVERSION_ID=20\nPRETTY_NAME='F \\\"20\\$'\nCPE_NAME=\"cpe:/o:f\"\nVARIANT_ID=server\n", "ID=\"rhel\"\nVERSION_ID=\"7.0\"\nREDHAT_SUPPORT_PRODUCT_VERSION=x\n"}}},
    {"unstrip", {{"0x", "1f", "+", " ", "abcd", "@", "-", ".", "/b", "[exe]", "\n", "(", "0", "zz", "<", "18446744073709551616"}, {"0x400000+0x207000 ab12@0x400284 /usr/bin/x /usr/lib/debug/x.debug [exe]\n0x7f+0x1000 - . - linux-vdso.so.1\n0x10+0x20 cd@0x1 - - l.so\n"}}},
    };
    return m;
}

// Tokens of a seed: words, numbers, whitespace runs, single punctuation.
inline vector<string> tokenise(const string &s)
{
    vector<string> t;
    for (size_t i = 0; i < s.size();) {
        size_t j = i + 1;
        auto cls = [](char c) { return isalnum((unsigned char)c) ? 1 : c == ' ' ? 2 : 0; };
        if (cls(s[i])) while (j < s.size() && cls(s[j]) == cls(s[i])) j++;
        t.push_back(s.substr(i, j - i)); i = j;
    }
    return t;
}
inline string join(const vector<string> &v) { string r; for (auto &s : v) r += s; return r; }

// One choice-driven text of the bounded input space of a language:
//   part 0: every sequence of at most `depth` tokens after a prefix
//   part 1: every single edit (and truncation) of a seed; two edits when `two`
inline string seq_text(const Lang &l, int depth, const string &prefix)
{
    string s = prefix;
    for (int i = 0; i < depth; i++) { int c = mc::choose((int)l.tokens.size() + 1); if (!c) break; s += l.tokens[c - 1]; }
    return s;
}
inline string edited_text(const Lang &l, int edits)
{
    const string &seed = l.seeds[mc::choose((int)l.seeds.size())];
    vector<string> t = tokenise(seed);
    static const char bytes[] = {' ', '\n', '0', '(', '<', '"', ':', '\xff'};
    for (int e = 0; e < edits; e++) {
        int op = mc::choose(7);
        if (op == 0) break;
        if (op == 6) { string s = join(t); int n = mc::choose((int)s.size() + 1); t = {s.substr(0, n)}; if (e + 1 < edits) t = tokenise(t[0]); continue; }
        if (t.empty()) break;
        int i = mc::choose((int)t.size());
        if (op == 1) t.erase(t.begin() + i);
        else if (op == 2) t.insert(t.begin() + i, t[i]);
        else if (op == 3) t[i] = l.tokens[mc::choose((int)l.tokens.size())];
        else if (op == 4) t.insert(t.begin() + i, l.tokens[mc::choose((int)l.tokens.size())]);
        else t[i] = string(1, bytes[mc::choose(8)]);
    }
    return join(t);
}
// sequences of tokens after these contexts (so the deep grammar positions are reached with few tokens)
inline const std::map<string, vector<string>> contexts = {
    {"gdb", {"", "#0  ", "#1  0x1f in ", "#0 f (", "#0 f () at ", "Thread 1 (LWP 1):\n", "operator", "f<", "f<g() [with ", "#0 0x1 in vtable"}},
    {"gdb_lib", {"", "From To Syms Read Shared Object Library\n", "0x1 0x2 "}},
    {"koops", {"", " [<ff>] ", " [<ff>] foo+0x1/0x2", "Modules linked in: ", "[1.1] ", "Call Trace:\n", "EIP: ", "EIP: [<ff>] ", " [<ff>] (f+0x1/0x2) from ", " [<ff>] (f) from [<fe>] "}},
    {"python", {"", "Traceback (most recent call last):\n", "  File \"a\", line 1", "Traceback (most recent call last):\n  File \"a\", line 1\n"}},
    {"ruby", {"", "a:1:in `b': ", "a:1:in `"}},
    {"java", {"", "E: m\n", "E\n\tat a(", "\tat a(b:1) ", "Exception in thread \"m\" "}},
    {"js", {"", "E\n", "E\n    at f (", "    at "}},
    {"nevra", {"", "a-1:2-"}}, {"dso", {"", "/l a-1-2.x ("}}, {"sysrel", {"", "Fedora release "}}, {"osrel", {"", "ID=", "A=b\n"}},
    {"unstrip", {"", "0x1+0x2 ", "0x1+0x2 - - "}}, {"funs", {""}},
};

#endif
