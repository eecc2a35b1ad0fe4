// Core dumps, executables and libraries made from scratch, and the frames expected from them.
#ifndef COREDUMP_H
#define COREDUMP_H
#include "jsonv.h"
extern "C" {
#include "core/unwind.h"
}
#include <elf.h>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/procfs.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
typedef unsigned long long ull;
static const uint64_t MAX = UINT64_MAX;
static const unsigned LIMIT = 256; // frames kept per thread

// ---- what a stack trace should contain
struct Frame { uint64_t address; bool module = false; string build_id, file; uint64_t offset = 0; string function; bool any_function = false; bool any_file = false; };
struct Thread { vector<Frame> frames; int64_t tid = -1; };
static string text(const Frame &f) { return fmt("%llx", (ull)f.address) + (f.module ? fmt(" %s+%llx %s", f.build_id.c_str(), (ull)f.offset, f.any_file ? "?" : f.file.c_str()) : string()) + " " + (f.any_function ? "?" : f.function); }
// the frame as it is, with the parts that are not judged left out; an address outside modules has no build ID and no file
static string actual(struct sr_core_frame *f, const Frame *w)
{
    bool module = (f->build_id && *f->build_id) || f->file_name; string s = fmt("%llx", (ull)f->address) + (module ? fmt(" %s+%llx %s", f->build_id ? f->build_id : "", (ull)f->build_id_offset, w && w->any_file ? "?" : S(f->file_name).c_str()) : string()) + " " + (w && w->any_function ? "?" : f->function_name ? f->function_name : ""); return s;
}
static string compare(struct sr_core_stacktrace *st, const vector<Thread> &want, int crash, bool tids)
{
    size_t i = 0; for (auto *t = st->threads; t; t = t->next, i++) {
        if (i >= want.size()) return fmt("more than %zu threads", want.size()); if (tids && t->id != want[i].tid) return fmt("thread %zu has id %lld, expected %lld", i, (long long)t->id, (long long)want[i].tid);
        if ((st->crash_thread == t) != ((int)i == crash)) return fmt("thread %zu is %sthe crash thread", i, st->crash_thread == t ? "" : "not "); size_t k = 0;
        for (auto *f = t->frames; f; f = f->next, k++) { const Frame *w = k < want[i].frames.size() ? &want[i].frames[k] : nullptr; string a = actual(f, w); if (!w) return fmt("thread %zu has more than %zu frames: %s", i, want[i].frames.size(), a.c_str()); if (a != text(*w)) return fmt("thread %zu frame %zu is [%s], expected [%s]", i, k, a.c_str(), text(*w).c_str()); }
        if (k < want[i].frames.size()) return fmt("thread %zu has %zu frames, expected %zu, missing [%s]", i, k, want[i].frames.size(), text(want[i].frames[k]).c_str()); }
    if (i < want.size()) return fmt("%zu threads, expected %zu", i, want.size()); if (crash < 0 && st->crash_thread) return "a crash thread is marked"; return "";
}

// ---- files
struct Bytes { string s; void n(uint64_t v, int k) { for (int i = 0; i < k; i++) s += (char)(v >> 8 * i); } void u8(int v) { n(v, 1); } void u16(int v) { n(v, 2); } void u32(uint64_t v) { n(v, 4); } void u64(uint64_t v) { n(v, 8); } void pad(int a) { while (s.size() % a) s += '\0'; } void patch(size_t at, uint64_t v) { for (int i = 0; i < 8; i++) s[at + i] = (char)(v >> 8 * i); } };
static string z(const char *s) { return string(s) + string(1, 0); }
static string path(const char *n) { return string(mc::scratch()) + "/" + n; }
static void put(const string &p, const string &s, int mode = 0600) { unlink(p.c_str()); int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, mode); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } if (fd < 0 || o < s.size()) mc::prune(); close(fd); }
static string hex(const string &s) { string r; for (unsigned char c : s) r += fmt("%02x", c); return r; }
static string note(const char *name, int type, const string &desc) { Bytes b; b.u32(strlen(name) + 1); b.u32(desc.size()); b.u32(type); b.s += z(name); b.pad(4); b.s += desc; b.pad(4); return b.s; }
struct Sym { const char *name; const char *shown; uint64_t off, len; };
static const uint64_t TEXT = 0x400, SIZE = 0x1000;
// an executable or a library of one page
static string module_image(int type, uint64_t vaddr, const string &build_id, const vector<Sym> &syms, const string &code = "")
{
    Bytes strs, st; strs.s = string(1, 0); st.s = string(24, 0); for (auto &x : syms) { st.u32(strs.s.size()); strs.s += z(x.name); st.u8((STB_GLOBAL << 4) | STT_FUNC); st.u8(0); st.u16(1); st.u64(vaddr + x.off); st.u64(x.len); }
    string nt = build_id.empty() ? "" : note("GNU", NT_GNU_BUILD_ID, build_id), shstr("\0.text\0.note.gnu.build-id\0.symtab\0.strtab\0.shstrtab\0", 52); size_t noff = 0x200, soff = SIZE, stroff = soff + st.s.size(), shs = stroff + strs.s.size(), shoff = (shs + shstr.size() + 7) & ~7;
    Bytes b; b.s = string("\x7f" "ELF\2\1\1", 7) + string(9, 0); b.u16(type); b.u16(EM_X86_64); b.u32(1); b.u64(type == ET_EXEC ? vaddr + TEXT : 0); b.u64(64); b.u64(shoff); b.u32(0); b.u16(64); b.u16(56); b.u16(nt.size() ? 2 : 1); b.u16(64); b.u16(6); b.u16(5);
    auto ph = [&](int t, int f, uint64_t o, uint64_t sz, int al) { b.u32(t); b.u32(f); b.u64(o); b.u64(vaddr + o); b.u64(vaddr + o); b.u64(sz); b.u64(sz); b.u64(al); }; ph(PT_LOAD, 5, 0, SIZE, 0x1000); if (nt.size()) ph(PT_NOTE, 4, noff, nt.size(), 4);
    b.s.resize(noff); b.s += nt; b.s.resize(TEXT); b.s += code; b.s.resize(SIZE, '\x90'); b.s += st.s; b.s += strs.s; b.s += shstr; b.s.resize(shoff);
    auto sh = [&](int nm, int t, int fl, uint64_t a, uint64_t o, uint64_t sz, int link, int info, int al, int es) { b.u32(nm); b.u32(t); b.u64(fl); b.u64(a); b.u64(o); b.u64(sz); b.u32(link); b.u32(info); b.u64(al); b.u64(es); };
    sh(0, 0, 0, 0, 0, 0, 0, 0, 0, 0); sh(1, SHT_PROGBITS, 6, vaddr + TEXT, TEXT, SIZE - TEXT, 0, 0, 16, 0); sh(7, nt.size() ? SHT_NOTE : SHT_PROGBITS, 2, vaddr + noff, noff, nt.size(), 0, 0, 4, 0); sh(26, SHT_SYMTAB, 0, 0, soff, st.s.size(), 4, 1, 8, 24); sh(34, SHT_STRTAB, 0, 0, stroff, strs.s.size(), 0, 0, 1, 0); sh(42, SHT_STRTAB, 0, 0, shs, shstr.size(), 0, 0, 1, 0); return b.s;
}
struct Mod { uint64_t base; string file; string build_id; vector<Sym> syms; bool symbols = true; };
static const vector<Sym> exe_syms = {{"main", "main", 0x400, 0x40}, {"g", "g", 0x440, 0x40}, {"_start", "_start", 0x500, 0x20}}, lib_syms = {{"f1", "f1", 0x400, 0x40}, {"f2", "f2", 0x440, 0x40}, {"_Z3foov", "foo()", 0x480, 0x20}, {"__libc_start_main", "__libc_start_main", 0x500, 0x20}};
static Frame expected(uint64_t a, bool ret, const vector<Mod> &mods)
{
    Frame f; f.address = a; uint64_t l = a - ret; for (auto &m : mods) if (l >= m.base && l < m.base + SIZE) { f.module = true; f.build_id = hex(m.build_id); f.file = m.file; f.offset = a - m.base; if (m.symbols) for (auto &s : m.syms) if (l - m.base >= s.off && l - m.base < s.off + s.len) f.function = s.shown; } return f;
}
struct CoreThread { int tid, sig; vector<uint64_t> pcs; };
struct CoreOpt { bool file_note = true; bool prpsinfo_first = false; vector<std::pair<uint64_t, string>> names; vector<string> first; };
static string core_image(const vector<CoreThread> &threads, const vector<std::pair<uint64_t, string>> &segs, const CoreOpt &o)
{
    vector<string> notes; vector<std::pair<uint64_t, string>> load = segs; std::sort(load.begin(), load.end()); uint64_t stk = 0x7ff000000000ull;
    for (auto &t : threads) {
        Bytes s; s.s = string(0x100, 0); for (size_t i = 1; i < t.pcs.size(); i++) { uint64_t next = i + 1 < t.pcs.size() ? stk + s.s.size() + 16 : 0; s.u64(next); s.u64(t.pcs[i]); } s.s += string(32, 0); s.s.resize((s.s.size() + 0xfff) & ~0xfffull);
        struct elf_prstatus ps; memset(&ps, 0, sizeof ps); ps.pr_pid = t.tid; ps.pr_cursig = t.sig; ps.pr_info.si_signo = t.sig; struct user_regs_struct r; memset(&r, 0, sizeof r); r.rip = t.pcs.empty() ? 0 : t.pcs[0]; r.rsp = stk + 0xf0; r.rbp = t.pcs.size() > 1 ? stk + 0x100 : 0; r.cs = 0x33; r.ss = 0x2b; memcpy(&ps.pr_reg, &r, sizeof r); notes.push_back(note("CORE", NT_PRSTATUS, string((char *)&ps, sizeof ps))); load.push_back({stk, s.s}); stk += 0x100000; }
    struct elf_prpsinfo pi; memset(&pi, 0, sizeof pi); pi.pr_pid = threads.empty() ? 1 : threads[0].tid; strcpy(pi.pr_fname, "x"); string psn = note("CORE", NT_PRPSINFO, string((char *)&pi, sizeof pi)); if (o.prpsinfo_first) notes.insert(notes.begin(), psn); else notes.insert(notes.begin() + (threads.empty() ? 0 : 1), psn);
    notes.insert(notes.begin(), o.first.begin(), o.first.end()); if (o.file_note) { Bytes nf; nf.u64(o.names.size()); nf.u64(0x1000); for (auto &x : o.names) { nf.u64(x.first); nf.u64(x.first + SIZE); nf.u64(0); } for (auto &x : o.names) nf.s += z(x.second.c_str()); notes.push_back(note("CORE", NT_FILE, nf.s)); }
    vector<string> groups; { string a; for (auto &n : notes) a += n; groups.push_back(a); }
    Bytes c; c.s = string("\x7f" "ELF\2\1\1", 7) + string(9, 0); c.u16(ET_CORE); c.u16(EM_X86_64); c.u32(1); c.u64(0); c.u64(64); c.u64(0); c.u32(0); c.u16(64); c.u16(56); c.u16(groups.size() + load.size()); c.u16(64); c.u16(0); c.u16(0);
    auto ph = [&](int t, int f, uint64_t off, uint64_t v, uint64_t sz) { c.u32(t); c.u32(f); c.u64(off); c.u64(v); c.u64(0); c.u64(sz); c.u64(t == PT_LOAD ? sz : 0); c.u64(t == PT_LOAD ? 0x1000 : 4); };
    size_t at = (64 + 56 * (groups.size() + load.size()) + 15) & ~15ull; vector<size_t> noff; for (auto &g : groups) { noff.push_back(at); ph(PT_NOTE, 0, at, 0, g.size()); at += g.size(); } at = (at + 0xfff) & ~0xfffull; vector<size_t> loff; for (auto &l : load) { loff.push_back(at); ph(PT_LOAD, 5, at, l.first, l.second.size()); at += l.second.size(); }
    for (size_t i = 0; i < groups.size(); i++) { c.s.resize(noff[i]); c.s += groups[i]; } for (size_t i = 0; i < load.size(); i++) { c.s.resize(loff[i]); c.s += load[i].second; } return c.s;
}
static const uint64_t EXE = 0x400000, LIBA = 0x7f0000001000ull, LIBB = 0x7f0000002000ull, NOWHERE = 0x1234;
struct World { vector<Mod> mods; vector<std::pair<uint64_t, string>> segs; CoreOpt opt; string exe; };
// an executable and two libraries, one of them directly after the other
static World world()
{
    World w; w.exe = path("exe"); string a = path("liba.so"), b = path("libb.so"); string ei = module_image(ET_EXEC, EXE, "exe build id, 20 byte", exe_syms), ai = module_image(ET_DYN, 0, "0123456789abcdefghij", lib_syms), bi = module_image(ET_DYN, 0, "\xff\x01", {{"b1", "b1", 0x400, 0x100}});
    static string done; if (done != mc::scratch()) { put(w.exe, ei, 0700); put(a, ai); put(b, bi); done = mc::scratch(); }
    char *real = realpath(w.exe.c_str(), nullptr); w.mods = {{EXE, S(real), "exe build id, 20 byte", exe_syms}, {LIBA, a, "0123456789abcdefghij", lib_syms}, {LIBB, b, "\xff\x01", {{"b1", "b1", 0x400, 0x100}}}}; free(real); w.segs = {{EXE, ei.substr(0, SIZE)}, {LIBA, ai.substr(0, SIZE)}, {LIBB, bi.substr(0, SIZE)}}; w.opt.names = {{LIBA, a}, {LIBB, b}}; return w;
}
static vector<Frame> unwound(const vector<uint64_t> &pcs, const vector<Mod> &mods)
{
    vector<Frame> v; for (size_t i = 0; i < pcs.size(); i++) { Frame f = expected(pcs[i], i > 0, mods); if (f.function == "__libc_start_main") break; v.push_back(f); } if (v.size() > LIMIT) v.erase(v.begin(), v.end() - LIMIT); return v;
}
#endif
