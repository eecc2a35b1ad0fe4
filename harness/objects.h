// Type-erased description of every object kind of the library: its fields, its life-cycle functions.
#ifndef OBJECTS_H
#define OBJECTS_H
#include "common.h"
#include <cstddef>

struct Field {
    enum K { STR, U64, U32, U16, BOOL, ENUM } k;
    const char *name; size_t off; bool json;
};
struct Val { bool null = false; string s; uint64_t n = 0; bool operator==(const Val &o) const { return null == o.null && s == o.s && n == o.n; } bool operator!=(const Val &o) const { return !(*this == o); } };
typedef vector<Val> Content;
inline Val V(const char *s) { Val v; if (!s) v.null = true; else v.s = s; return v; }
inline Val V(const string &s) { Val v; v.s = s; return v; }
inline Val N(uint64_t n) { Val v; v.n = n; return v; }

struct Kind {
    string name; enum sr_report_type type;
    vector<Field> f; size_t next_off;
    void *(*make)(); void (*del)(void *);           // one element
    void *(*dup)(void *, bool siblings);
    int (*cmp)(void *, void *); int (*cmp_distance)(void *, void *);
    void *(*append)(void *, void *);
    char *(*to_json)(void *); void *(*from_json)(json_object *, char **);
    void *&next(void *o) const { return *(void **)((char *)o + next_off); }
    int idx(const char *n) const { for (size_t i = 0; i < f.size(); i++) if (!strcmp(f[i].name, n)) return (int)i; abort(); }
    Val get(void *o, int i) const
    {
        char *p = (char *)o + f[i].off;
        switch (f[i].k) {
        case Field::STR: return V(*(char **)p);
        case Field::U64: return N(*(uint64_t *)p);
        case Field::U32: return N(*(uint32_t *)p);
        case Field::U16: return N(*(uint16_t *)p);
        case Field::BOOL: return N(*(bool *)p);
        case Field::ENUM: return N(*(int *)p);
        }
        return Val();
    }
    void set(void *o, int i, const Val &v) const
    {
        char *p = (char *)o + f[i].off;
        switch (f[i].k) {
        case Field::STR: g_free(*(char **)p); *(char **)p = v.null ? nullptr : g_strdup(v.s.c_str()); break;
        case Field::U64: *(uint64_t *)p = v.n; break;
        case Field::U32: *(uint32_t *)p = (uint32_t)v.n; break;
        case Field::U16: *(uint16_t *)p = (uint16_t)v.n; break;
        case Field::BOOL: *(bool *)p = v.n; break;
        case Field::ENUM: *(int *)p = (int)v.n; break;
        }
    }
    Content content(void *o) const { Content c; for (size_t i = 0; i < f.size(); i++) c.push_back(get(o, (int)i)); return c; }
    void *build(const Content &c) const { void *o = make(); for (size_t i = 0; i < f.size(); i++) set(o, (int)i, c[i]); return o; }
    string text(const Content &c) const
    {
        string t = name + "{";
        for (size_t i = 0; i < f.size(); i++) t += string(i ? ", " : "") + f[i].name + "=" + (f[i].k == Field::STR ? c[i].null ? "NULL" : quote(c[i].s) : fmt("%llu", (unsigned long long)c[i].n));
        return t + "}";
    }
    // fields that have no meaning next to an absent partner are not part of the content
    Content canonical(Content c) const
    {
        auto drop = [&](const char *owner, const char *flag, uint64_t dflt) { if (c[idx(owner)].null) c[idx(flag)].n = dflt; };
        if (name == "core_frame") drop("fingerprint", "fingerprint_hashed", 1);
        if (name == "python_frame") { drop("file_name", "special_file", 0); drop("function_name", "special_function", 0); }
        if (name == "ruby_frame") drop("function_name", "special_function", 0);
        return c;
    }
};
#define FN(T, x) struct T, x
#define F_(T, k, n) Field{Field::k, #n, offsetof(struct T, n), true}
#define FRAME_KIND(L, TYPE, JS, ...) Kind{#L "_frame", TYPE, {__VA_ARGS__}, offsetof(struct sr_##L##_frame, next), \
    [] { return (void *)sr_##L##_frame_new(); }, [](void *o) { sr_##L##_frame_free((struct sr_##L##_frame *)o); }, \
    [](void *o, bool s) { return (void *)sr_##L##_frame_dup((struct sr_##L##_frame *)o, s); }, \
    [](void *a, void *b) { return sr_##L##_frame_cmp((struct sr_##L##_frame *)a, (struct sr_##L##_frame *)b); }, \
    [](void *a, void *b) { return sr_##L##_frame_cmp_distance((struct sr_##L##_frame *)a, (struct sr_##L##_frame *)b); }, \
    [](void *a, void *b) { return (void *)sr_##L##_frame_append((struct sr_##L##_frame *)a, (struct sr_##L##_frame *)b); }, JS}
#define FRAME_JSON(L) [](void *o) { return sr_##L##_frame_to_json((struct sr_##L##_frame *)o); }, [](json_object *j, char **e) { return (void *)sr_##L##_frame_from_json(j, e); }

inline int sr_gdb_frame_cmp(struct sr_gdb_frame *a, struct sr_gdb_frame *b) { return sr_gdb_frame_cmp(a, b, true); } // with the frame number
inline vector<Kind> &frame_kinds()
{
    static vector<Kind> v;
    if (!v.empty()) return v;

    v.push_back(Kind(FRAME_KIND(core, SR_REPORT_CORE, FRAME_JSON(core), F_(sr_core_frame, U64, address), F_(sr_core_frame, STR, build_id), F_(sr_core_frame, U64, build_id_offset), F_(sr_core_frame, STR, function_name), F_(sr_core_frame, STR, file_name), F_(sr_core_frame, STR, fingerprint), F_(sr_core_frame, BOOL, fingerprint_hashed))));

    v.push_back(Kind(FRAME_KIND(koops, SR_REPORT_KERNELOOPS, FRAME_JSON(koops), F_(sr_koops_frame, U64, address), F_(sr_koops_frame, BOOL, reliable), F_(sr_koops_frame, STR, function_name), F_(sr_koops_frame, U64, function_offset), F_(sr_koops_frame, U64, function_length), F_(sr_koops_frame, STR, module_name), F_(sr_koops_frame, U64, from_address), F_(sr_koops_frame, STR, from_function_name), F_(sr_koops_frame, U64, from_function_offset), F_(sr_koops_frame, U64, from_function_length), F_(sr_koops_frame, STR, from_module_name), F_(sr_koops_frame, STR, special_stack))));
    v.push_back(Kind(FRAME_KIND(python, SR_REPORT_PYTHON, FRAME_JSON(python), F_(sr_python_frame, BOOL, special_file), F_(sr_python_frame, STR, file_name), F_(sr_python_frame, U32, file_line), F_(sr_python_frame, BOOL, special_function), F_(sr_python_frame, STR, function_name), F_(sr_python_frame, STR, line_contents))));
    v.push_back(Kind(FRAME_KIND(java, SR_REPORT_JAVA, FRAME_JSON(java), F_(sr_java_frame, STR, name), F_(sr_java_frame, STR, file_name), F_(sr_java_frame, U32, file_line), F_(sr_java_frame, STR, class_path), F_(sr_java_frame, BOOL, is_native), F_(sr_java_frame, BOOL, is_exception), F_(sr_java_frame, STR, message))));
    v.push_back(Kind(FRAME_KIND(ruby, SR_REPORT_RUBY, FRAME_JSON(ruby), F_(sr_ruby_frame, STR, file_name), F_(sr_ruby_frame, U32, file_line), F_(sr_ruby_frame, BOOL, special_function), F_(sr_ruby_frame, STR, function_name), F_(sr_ruby_frame, U32, block_level), F_(sr_ruby_frame, U32, rescue_level))));
    v.push_back(Kind(FRAME_KIND(js, SR_REPORT_JAVASCRIPT, FRAME_JSON(js), F_(sr_js_frame, STR, file_name), F_(sr_js_frame, U32, file_line), F_(sr_js_frame, U32, line_column), F_(sr_js_frame, STR, function_name))));
#define NOJSON nullptr, nullptr
    v.push_back(Kind(FRAME_KIND(gdb, SR_REPORT_GDB, NOJSON, F_(sr_gdb_frame, STR, function_name), F_(sr_gdb_frame, STR, function_type), F_(sr_gdb_frame, U32, number), F_(sr_gdb_frame, STR, source_file), F_(sr_gdb_frame, U32, source_line), F_(sr_gdb_frame, BOOL, signal_handler_called), F_(sr_gdb_frame, U64, address), F_(sr_gdb_frame, STR, library_name))));
    return v;
}
inline const Kind &frame_kind(enum sr_report_type t) { for (auto &k : frame_kinds()) if (k.type == t) return k; abort(); }

inline vector<Kind> &other_kinds()
{
    static vector<Kind> v;
    if (!v.empty()) return v;
    v.push_back(Kind{"rpm_package", SR_REPORT_INVALID, {F_(sr_rpm_package, STR, name), F_(sr_rpm_package, U32, epoch), F_(sr_rpm_package, STR, version), F_(sr_rpm_package, STR, release), F_(sr_rpm_package, STR, architecture), F_(sr_rpm_package, U64, install_time), F_(sr_rpm_package, ENUM, role)}, offsetof(struct sr_rpm_package, next),
        [] { return (void *)sr_rpm_package_new(); }, [](void *o) { sr_rpm_package_free((struct sr_rpm_package *)o, false); }, nullptr,
        [](void *a, void *b) { return sr_rpm_package_cmp((struct sr_rpm_package *)a, (struct sr_rpm_package *)b); }, nullptr,
        [](void *a, void *b) { return (void *)sr_rpm_package_append((struct sr_rpm_package *)a, (struct sr_rpm_package *)b); },
        [](void *o) { return sr_rpm_package_to_json((struct sr_rpm_package *)o, false); },
        [](json_object *j, char **e) { struct sr_rpm_package *p = nullptr; sr_rpm_package_from_json(&p, j, false, e); return (void *)p; }});
    v.push_back(Kind{"operating_system", SR_REPORT_INVALID, {F_(sr_operating_system, STR, name), F_(sr_operating_system, STR, version), F_(sr_operating_system, STR, architecture), F_(sr_operating_system, STR, cpe), F_(sr_operating_system, U64, uptime), F_(sr_operating_system, STR, desktop), F_(sr_operating_system, STR, variant)}, 0,
        [] { return (void *)sr_operating_system_new(); }, [](void *o) { sr_operating_system_free((struct sr_operating_system *)o); }, nullptr, nullptr, nullptr, nullptr,
        [](void *o) { return sr_operating_system_to_json((struct sr_operating_system *)o); },
        [](json_object *j, char **e) { return (void *)sr_operating_system_from_json(j, e); }});
    return v;
}

// ---- whole stack traces described as data
struct ThreadData { string name; uint64_t number = 0, tid = 0; vector<Content> frames; bool named = false; };
struct TraceData {
    enum sr_report_type type; vector<ThreadData> threads;
    Val exception = V((const char *)nullptr);                       // python, ruby, js
    uint64_t signal = 0; Val executable = V((const char *)nullptr); bool only_crash = false; int crash = -1; // core
    Val version = V((const char *)nullptr), raw = V((const char *)nullptr), reason = V((const char *)nullptr); bool has_modules = false; vector<string> modules; vector<bool> taint; // koops
    sr_js_platform_t platform = 0;
    int crash_frame = -1; uint64_t crash_tid = UINT32_MAX; // gdb
};
static size_t const taint_off[] = {offsetof(struct sr_koops_stacktrace, taint_module_proprietary), offsetof(struct sr_koops_stacktrace, taint_module_out_of_tree), offsetof(struct sr_koops_stacktrace, taint_forced_module), offsetof(struct sr_koops_stacktrace, taint_forced_removal), offsetof(struct sr_koops_stacktrace, taint_smp_unsafe), offsetof(struct sr_koops_stacktrace, taint_mce), offsetof(struct sr_koops_stacktrace, taint_page_release), offsetof(struct sr_koops_stacktrace, taint_userspace), offsetof(struct sr_koops_stacktrace, taint_died_recently), offsetof(struct sr_koops_stacktrace, taint_acpi_overridden), offsetof(struct sr_koops_stacktrace, taint_warning), offsetof(struct sr_koops_stacktrace, taint_staging_driver), offsetof(struct sr_koops_stacktrace, taint_firmware_workaround), offsetof(struct sr_koops_stacktrace, taint_unsigned_module), offsetof(struct sr_koops_stacktrace, taint_soft_lockup), offsetof(struct sr_koops_stacktrace, taint_live_patched)};
enum { NTAINT = sizeof taint_off / sizeof *taint_off };

inline bool threaded(enum sr_report_type t) { return t == SR_REPORT_CORE || t == SR_REPORT_GDB || t == SR_REPORT_JAVA; }
static const enum sr_report_type all_types[] = {SR_REPORT_CORE, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_JAVA, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT, SR_REPORT_GDB};
inline char *gs(const Val &v) { return v.null ? nullptr : g_strdup(v.s.c_str()); }
// frames are linked by hand, so that building a trace does not depend on the append functions under test
inline void *chain(const Kind &k, const vector<Content> &v)
{
    void *head = nullptr, *last = nullptr;
    for (auto &c : v) { void *o = k.build(c); if (last) k.next(last) = o; else head = o; last = o; }
    return head;
}
inline struct sr_stacktrace *build(const TraceData &d)
{
    const Kind &k = frame_kind(d.type);
    switch (d.type) {
    case SR_REPORT_CORE: {
        struct sr_core_stacktrace *s = sr_core_stacktrace_new(); struct sr_core_thread **tail = &s->threads;
        s->signal = d.signal; s->executable = gs(d.executable); s->only_crash_thread = d.only_crash;
        for (size_t i = 0; i < d.threads.size(); i++) { struct sr_core_thread *t = sr_core_thread_new(); t->id = d.threads[i].tid; t->frames = (struct sr_core_frame *)chain(k, d.threads[i].frames); *tail = t; tail = &t->next; if ((int)i == d.crash) s->crash_thread = t; }
        return (struct sr_stacktrace *)s; }
    case SR_REPORT_GDB: {
        struct sr_gdb_stacktrace *s = sr_gdb_stacktrace_new(); struct sr_gdb_thread **tail = &s->threads;
        for (auto &td : d.threads) { struct sr_gdb_thread *t = sr_gdb_thread_new(); t->number = td.number; t->tid = td.tid; t->frames = (struct sr_gdb_frame *)chain(k, td.frames); *tail = t; tail = &t->next; }
        s->crash_tid = d.crash_tid;
        return (struct sr_stacktrace *)s; }
    case SR_REPORT_JAVA: {
        struct sr_java_stacktrace *s = sr_java_stacktrace_new(); struct sr_java_thread **tail = &s->threads;
        for (auto &td : d.threads) { struct sr_java_thread *t = sr_java_thread_new(); t->name = td.named ? g_strdup(td.name.c_str()) : nullptr; t->frames = (struct sr_java_frame *)chain(k, td.frames); *tail = t; tail = &t->next; }
        return (struct sr_stacktrace *)s; }
    case SR_REPORT_PYTHON: {
        struct sr_python_stacktrace *s = sr_python_stacktrace_new(); s->exception_name = gs(d.exception); s->frames = (struct sr_python_frame *)chain(k, d.threads[0].frames);
        return (struct sr_stacktrace *)s; }
    case SR_REPORT_RUBY: {
        struct sr_ruby_stacktrace *s = sr_ruby_stacktrace_new(); s->exception_name = gs(d.exception); s->frames = (struct sr_ruby_frame *)chain(k, d.threads[0].frames);
        return (struct sr_stacktrace *)s; }
    case SR_REPORT_JAVASCRIPT: {
        struct sr_js_stacktrace *s = sr_js_stacktrace_new(); s->exception_name = gs(d.exception); s->frames = (struct sr_js_frame *)chain(k, d.threads[0].frames); s->platform = d.platform;
        return (struct sr_stacktrace *)s; }
    case SR_REPORT_KERNELOOPS: {
        struct sr_koops_stacktrace *s = sr_koops_stacktrace_new(); s->version = gs(d.version); s->raw_oops = gs(d.raw); s->reason = gs(d.reason); s->frames = (struct sr_koops_frame *)chain(k, d.threads[0].frames);
        for (size_t i = 0; i < d.taint.size(); i++) *(bool *)((char *)s + taint_off[i]) = d.taint[i];
        if (d.has_modules) { s->modules = (char **)g_malloc((d.modules.size() + 1) * sizeof(char *)); for (size_t i = 0; i < d.modules.size(); i++) s->modules[i] = g_strdup(d.modules[i].c_str()); s->modules[d.modules.size()] = nullptr; }
        return (struct sr_stacktrace *)s; }
    default: abort();
    }
}
// reads the structure back as data, through the public structures only
inline TraceData extract(struct sr_stacktrace *st)
{
    TraceData d; d.type = st->type; const Kind &k = frame_kind(d.type);
    auto frames = [&](void *f) { vector<Content> v; for (; f; f = k.next(f)) v.push_back(k.content(f)); return v; };
    switch (d.type) {
    case SR_REPORT_CORE: { auto *s = (struct sr_core_stacktrace *)st; d.signal = s->signal; d.executable = V(s->executable); d.only_crash = s->only_crash_thread; int i = 0;
        for (auto *t = s->threads; t; t = t->next, i++) { ThreadData td; td.tid = t->id; td.frames = frames(t->frames); d.threads.push_back(td); if (t == s->crash_thread) d.crash = i; }
        if (s->crash_thread && d.crash < 0) d.crash = -2; break; } // -2: points outside the trace
    case SR_REPORT_GDB: { auto *s = (struct sr_gdb_stacktrace *)st; d.crash_tid = s->crash_tid;
        for (auto *t = s->threads; t; t = t->next) { ThreadData td; td.number = t->number; td.tid = t->tid; td.frames = frames(t->frames); d.threads.push_back(td); } break; }
    case SR_REPORT_JAVA: { auto *s = (struct sr_java_stacktrace *)st;
        for (auto *t = s->threads; t; t = t->next) { ThreadData td; td.named = t->name; td.name = t->name ? t->name : ""; td.frames = frames(t->frames); d.threads.push_back(td); } break; }
    case SR_REPORT_PYTHON: { auto *s = (struct sr_python_stacktrace *)st; d.exception = V(s->exception_name); ThreadData td; td.frames = frames(s->frames); d.threads.push_back(td); break; }
    case SR_REPORT_RUBY: { auto *s = (struct sr_ruby_stacktrace *)st; d.exception = V(s->exception_name); ThreadData td; td.frames = frames(s->frames); d.threads.push_back(td); break; }
    case SR_REPORT_JAVASCRIPT: { auto *s = (struct sr_js_stacktrace *)st; d.exception = V(s->exception_name); d.platform = s->platform; ThreadData td; td.frames = frames(s->frames); d.threads.push_back(td); break; }
    case SR_REPORT_KERNELOOPS: { auto *s = (struct sr_koops_stacktrace *)st; d.version = V(s->version); d.raw = V(s->raw_oops); d.reason = V(s->reason); ThreadData td; td.frames = frames(s->frames); d.threads.push_back(td);
        for (int i = 0; i < NTAINT; i++) d.taint.push_back(*(bool *)((char *)s + taint_off[i]));
        if (s->modules) { d.has_modules = true; for (char **m = s->modules; *m; m++) d.modules.push_back(*m); } break; }
    default: abort();
    }
    return d;
}
inline string dump(const TraceData &d)
{
    auto v = [](const Val &x) { return x.null ? string("NULL") : quote(x.s); };
    string t = fmt("type%d exc=%s sig=%llu exe=%s only=%d crash=%d ver=%s raw=%s reason=%s plat=%x ctid=%llu mod=", d.type, v(d.exception).c_str(), (unsigned long long)d.signal, v(d.executable).c_str(), d.only_crash, d.crash, v(d.version).c_str(), v(d.raw).c_str(), v(d.reason).c_str(), d.platform, (unsigned long long)d.crash_tid);
    if (!d.has_modules) t += "NULL"; else for (auto &m : d.modules) t += quote(m) + ",";
    t += " taint="; for (bool b : d.taint) t += b ? '1' : '0';
    const Kind &k = frame_kind(d.type);
    for (auto &th : d.threads) { t += fmt("\n thread %s#%llu/%llu:", th.named ? quote(th.name).c_str() : "-", (unsigned long long)th.number, (unsigned long long)th.tid); for (auto &f : th.frames) t += "\n  " + k.text(f); }
    return t;
}
// string and number alphabets
inline const vector<Val> &strs()
{
    static const vector<Val> v = {V("abc"), V((const char *)nullptr), V(""), V("a b"), V("\""), V("\\"), V("\n"), V("\x01"), V("\x1f x"), V("\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80"), V("\\u0041\\n"), V("</x>\t\r\b\f\x7f"), V("{\"a\": [1]}"), V("0"), V("null")};
    return v;
}
inline const vector<Val> &nums(Field::K k)
{
    static const vector<Val> u64 = {N(42), N(0), N(1), N(UINT64_MAX), N(UINT64_MAX - 1), N(INT64_MAX), N((uint64_t)INT64_MAX + 1), N(UINT32_MAX), N((uint64_t)UINT32_MAX + 1), N(0xffffffff81000000ull), N(INT32_MAX)};
    static const vector<Val> u32 = {N(42), N(0), N(1), N(UINT32_MAX), N(UINT32_MAX - 1), N(INT32_MAX), N((uint64_t)INT32_MAX + 1)};
    static const vector<Val> u16 = {N(11), N(0), N(1), N(65535), N(32768)};
    static const vector<Val> b = {N(0), N(1)};
    switch (k) { case Field::U64: return u64; case Field::U32: return u32; case Field::U16: return u16; default: return b; }
}
inline const vector<Val> &values(const Field &f) { return f.k == Field::STR ? strs() : nums(f.k); }
#endif
