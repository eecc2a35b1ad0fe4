// Reference of the normalisation rules, working on plain data.
#ifndef NORM_H
#define NORM_H
#include "dist.h"
#include "norm_table.h"
typedef std::pair<const char *, vector<const char *>> Call;
inline bool has(const Val &s, const char *sub) { return !s.null && s.s.find(sub) != string::npos; }
inline bool called(const vector<Call> &rules, const Val &fn, const Val &file, bool empty_matches)
{
    if (fn.null) return false;
    for (auto &r : rules) if (fn.s == r.first) { if (r.second.empty() && empty_matches) return true; for (auto f : r.second) if (has(file, f)) return true; }
    return false;
}
inline const vector<Call> &gdb_exit_rules()
{
    static const vector<Call> v = {{"__run_exit_handlers", {"exit.c"}}, {"raise", {"pt-raise.c", "libc.so", "libc-", "libpthread.so", "raise.c"}}, {"__GI_raise", {"raise.c"}}, {"exit", {"exit.c"}}, {"abort", {"abort.c", "libc.so", "libc-"}}, {"__GI_abort", {"abort.c"}}, {"__chk_fail", {"chk_fail.c", "libc.so"}}, {"__stack_chk_fail", {"stack_chk_fail.c", "libc.so"}}, {"do_exit", {"exit.c"}}, {"kill", {"syscall-template.S"}}};
    return v;
}
inline const vector<Call> &core_exit_rules()
{
    static const vector<Call> v = {{"__run_exit_handlers", {}}, {"raise", {"libc.so", "libc-", "libpthread.so"}}, {"__GI_raise", {}}, {"exit", {}}, {"abort", {"libc.so", "libc-"}}, {"__GI_abort", {}}, {"__chk_fail", {"libc.so"}}, {"__stack_chk_fail", {"libc.so"}}, {"kill", {}}};
    return v;
}
inline const vector<Call> &above_rules()
{
    static vector<Call> v;
    if (v.empty()) {
        for (auto n : {"__assert_fail", "__assert_fail_base", "__chk_fail", "__longjmp_chk", "__malloc_assert", "__strcat_chk", "__strcpy_chk", "__strncpy_chk", "__vsnprintf_chk", "___vsnprintf_chk", "__snprintf_chk", "___snprintf_chk", "__vasprintf_chk", "__vsprintf_chk", "___sprintf_chk", "__fwprintf_chk", "__asprintf_chk", "___printf_chk", "___fprintf_chk", "__vswprintf_chk"}) v.push_back({n, {""}});
        for (auto n : {"malloc_consolidate", "malloc_printerr", "_int_malloc", "_int_free", "_int_realloc"}) v.push_back({n, {"malloc.c", "libc"}});
        for (auto n : {"_int_memalign", "__libc_free", "__libc_malloc", "__libc_memalign", "__libc_realloc", "__posix_memalign", "__libc_calloc"}) v.push_back({n, {"malloc.c"}});
        v.push_back({"__libc_fatal", {"libc"}});
    }
    return v;
}
inline const vector<Call> &removable_calls() { static vector<Call> v; if (v.empty()) for (auto &r : removable_rules()) v.push_back({r.fn, r.files}); return v; }
static const char *const arch_functions[] = {"memchr", "memcmp", "memcpy", "memmove", "memset", "rawmemchr", "strcasecmp", "strcasecmp_l", "strcat", "strchr", "strchrnul", "strcmp", "strcpy", "strcspn", "strlen", "strncmp", "strncpy", "strpbrk", "strrchr", "strspn", "strstr", "strtok"};
static const char *const arch_suffixes[] = {"_sse2", "_sse2_bsf", "_ssse3", "_ssse3_rep", "_ssse3_back", "_sse42", "_ia32"};
inline Val ref_alias(const Val &fn, const Val &file)
{
    if (fn.null) return fn;
    for (auto f : arch_functions) for (auto s : arch_suffixes) if (fn.s == string("__") + f + s && (has(file, f) || has(file, !strcmp(s, "_ia32") ? "/sysdeps" : "/sysdeps/") || has(file, "libc.so"))) return V(f);
    return fn;
}
inline Val ref_prefix(Val fn)
{
    if (fn.null) return fn;
    for (auto p : {"IA__gdk", "IA__g_", "IA__gtk"}) if (!fn.s.compare(0, strlen(p), p)) fn.s.erase(0, 4);
    if (!fn.s.compare(0, 5, "__GI_")) fn.s.erase(0, 5);
    return fn;
}
// what normalising a thread of this kind leaves of its frames
inline Frames ref_normalize(const Kind &k, Frames f)
{
    if (k.type == SR_REPORT_KERNELOOPS) {
        static const std::set<string> bad = {"do_softirq", "do_vfs_ioctl", "dump_stack", "flush_kthread_worker", "gs_change", "irq_exit", "kernel_thread_helper", "kthread", "process_one_work", "system_call_fastpath", "warn_slowpath_common", "warn_slowpath_fmt", "warn_slowpath_fmt_taint", "warn_slowpath_null", "worker_thread"};
        int fn = k.idx("function_name"), mod = k.idx("module_name"); Frames r;
        for (auto &c : f) { if (!c[fn].null) c[fn].s = c[fn].s.substr(0, c[fn].s.find('.')); if (c[mod].null && !c[fn].null && bad.count(c[fn].s)) continue; r.push_back(c); }
        return r;
    }
    if (k.type != SR_REPORT_GDB && k.type != SR_REPORT_CORE) return f;
    bool gdb = k.type == SR_REPORT_GDB; int fn = k.idx("function_name"), src = k.idx(gdb ? "source_file" : "file_name"), addr = k.idx("address");
    auto is_exit = [&](const Content &c) { return gdb ? called(gdb_exit_rules(), c[fn], c[src], false) : called(core_exit_rules(), c[fn], c[src], true); };
    for (size_t i = f.size(); i-- > 0;) if (is_exit(f[i])) { f.erase(f.begin(), f.begin() + i + 1); break; }
    for (auto &c : f) if (!gdb || !c[src].null) c[fn] = ref_prefix(c[fn]);
    for (auto &c : f) c[fn] = ref_alias(c[fn], c[src]);
    Frames r; // a frame either goes, goes with everything above it, or stays
    for (auto &c : f) {
        if (called(above_rules(), c[fn], c[src], false) || is_exit(c)) { r.clear(); continue; }
        if (called(removable_calls(), c[fn], c[src], false)) continue;
        r.push_back(c);
    }
    f = r;
    if (!gdb) for (auto &c : f) if (!c[src].null && !c[src].s.compare(0, 6, "/home/")) { size_t p = c[src].s.find('/', 6); if (p != string::npos) c[src].s = "/home/anonymized" + c[src].s.substr(p); }
    auto null_call = [&](const Content &c) { return c[addr].n == 0 && (gdb ? !c[fn].null && c[fn].s == "??" : c[fn].null); };
    if (!f.empty() && null_call(f.front())) f.erase(f.begin());
    if (!f.empty() && null_call(f.back())) f.pop_back();
    r.clear();
    for (auto &c : f) { if (!r.empty() && r.back()[fn] == c[fn] && (gdb ? !(!c[fn].null && c[fn].s == "??") : !c[fn].null)) continue; r.push_back(c); }
    return r;
}
#endif
