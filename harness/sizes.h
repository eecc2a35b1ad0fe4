// Stack traces of every size near a limit: many frames, many threads, many modules, long strings.
#ifndef SIZES_H
#define SIZES_H
#include "objects.h"
inline int count_near_limits(bool small = false) { static const int v[] = {4, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097}; return v[mc::choose(small ? mc::thorough() ? 26 : 19 : mc::thorough() ? 32 : 26)]; }
inline int length_near_limits() { static const int v[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 81, 99, 100, 127, 128, 129, 199, 200, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16385, 32768, 65535, 65536}; return v[mc::choose(mc::thorough() ? 40 : 34)]; }
// a text of n characters, all different nearby, with a special character first, last, or nowhere
inline string long_text(int n, int special) { string s; for (int i = 0; i < n; i++) s += (char)('a' + (i * 7 + i / 26) % 26); if (special == 1) s[n - 1] = '"'; if (special == 2) s[0] = '\\'; return s; }
inline Content numbered_frame(const Kind &k, int i) { Content c; for (auto &f : k.f) c.push_back(f.k == Field::STR ? V(fmt("%c%d", f.name[0], i)) : N(f.k == Field::BOOL ? 0 : strstr(f.name, "level") ? i % 3 : f.k == Field::U16 ? i % 65000 : (uint64_t)(i + 1))); return c; }
inline TraceData long_trace(enum sr_report_type ty, string &what, bool special = true)
{
    TraceData d; d.type = ty; const Kind &k = frame_kind(ty); d.threads.resize(1); if (!threaded(ty)) d.exception = ty == SR_REPORT_KERNELOOPS ? V((const char *)nullptr) : V("E"); if (ty == SR_REPORT_CORE) { d.executable = V("/x"); d.signal = 6; d.crash = 0; } if (ty == SR_REPORT_KERNELOOPS) d.taint.assign(NTAINT, false); if (ty == SR_REPORT_JAVASCRIPT) d.platform = _sr_js_platform_assemble(SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8);
    int base = 0; for (int i = 0; i < 2; i++) d.threads[0].frames.push_back(numbered_frame(k, base++)); vector<int> strs; for (size_t i = 0; i < k.f.size(); i++) if (k.f[i].k == Field::STR) strs.push_back((int)i); int header = ty == SR_REPORT_CORE ? 1 : ty == SR_REPORT_KERNELOOPS ? 4 : ty == SR_REPORT_GDB ? 0 : 1;
    enum { FRAMES, STRINGS, HEADER, THREADS, MODULES }; vector<int> dims = {FRAMES, STRINGS}; if (header) dims.push_back(HEADER); if (threaded(ty)) dims.push_back(THREADS); if (ty == SR_REPORT_KERNELOOPS) dims.push_back(MODULES); int dim = mc::pick(dims);
    if (threaded(ty)) { d.threads[0].named = ty == SR_REPORT_JAVA; d.threads[0].name = d.threads[0].named ? "t" : ""; if (ty == SR_REPORT_CORE) d.threads[0].tid = 7; if (ty == SR_REPORT_GDB) { d.threads[0].number = 1; } }
    if (dim == FRAMES) { int n = count_near_limits(), kind = mc::choose(2); d.threads[0].frames.clear(); for (int i = 0; i < n; i++) d.threads[0].frames.push_back(numbered_frame(k, kind ? i : i % 3)); what = fmt("%s: %d frames, %d", k.name.c_str(), n, kind); }
    if (dim == THREADS) { int n = count_near_limits(true); for (int i = 1; i < n; i++) { ThreadData t = d.threads[0]; if (ty == SR_REPORT_JAVA) t.name = fmt("t%d", i); if (ty == SR_REPORT_GDB) t.number = i + 1; if (ty == SR_REPORT_CORE) t.tid = 7 + i; t.frames = {numbered_frame(k, base++)}; d.threads.push_back(t); } if (ty == SR_REPORT_CORE) d.crash = mc::choose(2) ? n - 1 : 0; what = fmt("%s: %d threads, crash %d", k.name.c_str(), n, d.crash); }
    if (dim == MODULES) { int n = count_near_limits(); d.has_modules = true; for (int i = 0; i < n; i++) d.modules.push_back(fmt("m%d", i)); what = fmt("%d modules", n); }
    if (dim == STRINGS || dim == HEADER) { int n = length_near_limits(), sp = special ? mc::choose(3) : 0; Val v = V(long_text(n, sp)); if (dim == STRINGS) { int f = mc::pick(strs), at = mc::choose(2); d.threads[0].frames[at][f] = v; what = fmt("%s: %s of frame %d has %d characters, %d", k.name.c_str(), k.f[f].name, at, n, sp); } else { int h = mc::choose(header); if (ty == SR_REPORT_CORE) d.executable = v; else if (ty == SR_REPORT_JAVA) { d.threads[0].name = v.s; } else if (ty != SR_REPORT_KERNELOOPS) d.exception = v; else if (h == 0) d.version = v; else if (h == 1) d.raw = v; else if (h == 2) d.reason = v; else { d.has_modules = true; d.modules = {"a", v.s, "b"}; } what = fmt("%s: header %d has %d characters, %d", k.name.c_str(), h, n, sp); } }
    mc::describe(what); return d;
}
#endif
