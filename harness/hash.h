// Reference texts of the duplication and backtrace hashes, and a SHA-1 of our own.
#ifndef HASH_H
#define HASH_H
#include "dist.h"
inline string ref_sha1(const string &text)
{
    uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; string m = text; m += '\x80'; while (m.size() % 64 != 56) m += '\0';
    uint64_t bits = (uint64_t)text.size() * 8; for (int i = 7; i >= 0; i--) m += (char)(bits >> (8 * i));
    auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[80]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)(unsigned char)m[o + 4 * i] << 24 | (uint32_t)(unsigned char)m[o + 4 * i + 1] << 16 | (uint32_t)(unsigned char)m[o + 4 * i + 2] << 8 | (unsigned char)m[o + 4 * i + 3];
        for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; i++) {
            uint32_t f, k; if (i < 20) f = (b & c) | (~b & d), k = 0x5a827999; else if (i < 40) f = b ^ c ^ d, k = 0x6ed9eba1; else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8f1bbcdc; else f = b ^ c ^ d, k = 0xca62c1d6;
            uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    return fmt("%08x%08x%08x%08x%08x", h[0], h[1], h[2], h[3], h[4]);
}
inline string ref_str(const Val &v) { return v.null ? "<unknown>" : v.s; }
// what one frame adds to the duplication hash
inline string ref_dup_frame(const Kind &k, const Content &c, bool compat)
{
    auto g = [&](const char *n) -> const Val & { return c[k.idx(n)]; }; auto u = [&](const char *n) { return (unsigned long long)g(n).n; };
    switch (k.type) {
    case SR_REPORT_CORE:
        if (!g("build_id").null) return g("build_id").s + fmt("+0x%llx\n", u("build_id_offset"));
        if (!g("function_name").null) return "  " + g("function_name").s + "\n";
        if (!g("fingerprint").null) return g("fingerprint").s + fmt("+0x%llx\n", u("build_id_offset"));
        return fmt("0x%llx\n", u("address"));
    case SR_REPORT_GDB: { string t = " "; if (!g("function_type").null) t += " " + g("function_type").s; if (!g("function_name").null) t += " " + g("function_name").s; if (u("signal_handler_called")) t += " <signal handler called>"; return t + "\n"; }
    case SR_REPORT_KERNELOOPS:
        if (compat && !u("reliable")) return "";
        return g("function_name").null ? fmt("0x%llx\n", u("address")) : g("function_name").s + "\n";
    case SR_REPORT_JAVA: return g("name").null ? ref_str(g("class_path")) + "/" + ref_str(g("file_name")) + fmt(":%llu\n", u("file_line")) : g("name").s + "\n";
    default: return ref_str(g("file_name")) + fmt(":%llu\n", u("file_line"));
    }
}
// frames: already normalised. null result: no hash
inline Val ref_dup_text(const Kind &k, const Frames &fr, int n, const Val &prefix, bool compat)
{
    string t = prefix.null ? "" : prefix.s; if (!compat) t += "Thread\n"; long left = n ? n : LONG_MAX;
    for (auto &f : fr) { if (left <= 0) break; string x = ref_dup_frame(k, f, compat); t += x; left -= !x.empty(); }
    return compat && t.empty() ? V((const char *)nullptr) : V(t);
}
inline string ref_bt_frame(const Kind &k, const Content &c)
{
    auto g = [&](const char *n) -> const Val & { return c[k.idx(n)]; }; auto u = [&](const char *n) { return (unsigned long long)g(n).n; }; auto s = [&](const char *n) { return ref_str(g(n)); };
    switch (k.type) {
    case SR_REPORT_CORE: return (u("address") ? fmt("0x%llx, ", u("address")) : string("<unknown>, ")) + s("build_id") + fmt("+0x%llx, ", u("build_id_offset")) + s("file_name") + ", " + s("fingerprint") + "\n";
    case SR_REPORT_GDB: return s("function_name") + ", " + s("function_type") + fmt(", %llu, ", u("number")) + s("source_file") + fmt(", %llu, %llu, 0x%llx, ", u("source_line"), u("signal_handler_called"), u("address")) + s("library_name") + "\n";
    case SR_REPORT_KERNELOOPS: return fmt("0x%llx, %llu, ", u("address"), u("reliable")) + s("function_name") + fmt(", 0x%llx, 0x%llx, ", u("function_offset"), u("function_length")) + s("module_name") + fmt(", 0x%llx, ", u("from_address")) + s("from_function_name") + fmt(", 0x%llx, 0x%llx, ", u("from_function_offset"), u("from_function_length")) + s("from_module_name") + "\n";
    case SR_REPORT_PYTHON: return s("file_name") + fmt(", %llu, %llu, ", u("special_file"), u("file_line")) + s("function_name") + fmt(", %llu, ", u("special_function")) + s("line_contents") + "\n";
    case SR_REPORT_JAVA: return s("name") + ", " + s("file_name") + fmt(", %llu, ", u("file_line")) + s("class_path") + fmt(", %llu, %llu, ", u("is_native"), u("is_exception")) + s("message") + "\n";
    case SR_REPORT_RUBY: return s("file_name") + fmt(", %llu, ", u("file_line")) + s("function_name") + fmt(", %llu, %llu, %llu\n", u("special_function"), u("block_level"), u("rescue_level"));
    case SR_REPORT_JAVASCRIPT: return s("file_name") + fmt(", %llu, ", u("file_line")) + s("function_name") + "\n";
    default: abort();
    }
}
struct Lib { uint64_t from, to; Val name; };
static const char *const taint_words[] = {"module_proprietary", "module_out_of_tree", "forced_module", "forced_removal", "smp_unsafe", "mce", "page_release", "userspace", "died_recently", "acpi_overridden", "warning", "staging_driver", "firmware_workaround", "unsigned_module", "soft_lockup", "live_patched"}; // in the order of taint_off
// the flags line may list the flags in any order: it is compared as a set
inline string ref_bt_text(const TraceData &d, const vector<Lib> &libs)
{
    const Kind &k = frame_kind(d.type); string t;
    switch (d.type) {
    case SR_REPORT_CORE: t = "Executable: " + ref_str(d.executable) + fmt("\nSignal: %llu\n\n", (unsigned long long)d.signal); break;
    case SR_REPORT_GDB: for (auto &l : libs) t += fmt("%llx-%llx, ", (unsigned long long)l.from, (unsigned long long)l.to) + ref_str(l.name) + "\n"; t += "\n"; break;
    case SR_REPORT_JAVA: break;
    case SR_REPORT_JAVASCRIPT: t = "Error: " + ref_str(d.exception) + "\n\n"; break;
    case SR_REPORT_KERNELOOPS: { t = "Version: " + ref_str(d.version) + "\nFlags: "; std::set<string> on; for (size_t i = 0; i < d.taint.size(); i++) if (d.taint[i]) on.insert(taint_words[i]); string f; for (auto &x : on) f += (f.empty() ? "" : ", ") + x; t += f + "\nModules: "; for (size_t i = 0; i < d.modules.size(); i++) t += (i ? ", " : "") + d.modules[i]; t += "\n\n"; break; }
    default: t = "Exception: " + ref_str(d.exception) + "\n\n";
    }
    for (size_t i = 0; i < d.threads.size(); i++) {
        if (i) t += "\n";
        if (d.type == SR_REPORT_GDB) t += fmt("Thread %llu\n", (unsigned long long)d.threads[i].number);
        if (d.type == SR_REPORT_JAVA) t += "Thread " + (d.threads[i].named ? d.threads[i].name : string("<unknown>")) + "\n";
        for (auto &f : d.threads[i].frames) t += ref_bt_frame(k, f);
    }
    return t;
}
#endif
