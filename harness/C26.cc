// C26: address lookups agree with the recorded memory maps; ELF readers stay inside the file.
#include "jsonv.h"
#include <elf.h>
extern "C" {
#include "unstrip.h"
#include "elves.h"
#include "disasm.h"
}
#include <fcntl.h>
#include <unistd.h>
typedef unsigned __int128 u128;
static const uint64_t MAX = UINT64_MAX;
static const uint64_t starts[] = {0, 1, 2, 5, 0x7fffffffffffffffull, MAX - 2, MAX}, lengths[] = {0, 1, 2, 3, MAX - 1, MAX};
static vector<uint64_t> probes(const vector<std::pair<uint64_t, uint64_t>> &r) { std::set<uint64_t> s = {0, 1, 3, 4, MAX, MAX - 1, 0x8000000000000000ull}; for (auto &x : r) for (int d = -2; d <= 2; d++) { s.insert(x.first + d); s.insert(x.first + x.second + d); } return vector<uint64_t>(s.begin(), s.end()); }
static bool inside(uint64_t a, uint64_t start, uint64_t len) { return a >= start && (u128)a < (u128)start + len; }
// ---- unstrip: START+SIZE BUILDID[@ADDR] FILE DEBUGFILE MODULENAME
MC_SCENARIO(unstrip_ranges)
{
    int n = mc::choose((mc::thorough() ? 3 : 2) + 1) + 1; vector<std::pair<uint64_t, uint64_t>> r; string t; for (int i = 0; i < n; i++) { uint64_t s = mc::pick(starts), l = i < 2 || mc::thorough() ? mc::pick(lengths) : 2; r.push_back({s, l}); t += fmt("0x%llx+0x%llx %d@0x1 /f%d - m%d\n", (unsigned long long)s, (unsigned long long)l, i, i, i); } mc::describe(t); Exact e(t);
    struct sr_unstrip_entry *u = sr_unstrip_parse(e.p); mc::step(); vector<struct sr_unstrip_entry *> v; v.reserve(n + 1); for (auto *x = u; x && (int)v.size() <= n; x = x->next) v.push_back(x); if ((int)v.size() != n) mc::fail("count|" + t, "%zu entries read", v.size()); for (int i = 0; i < n; i++) if (v[i]->start != r[i].first || v[i]->length != r[i].second || v[i]->build_id != fmt("%d", i) || v[i]->file_name != fmt("/f%d", i) || v[i]->mod_name != fmt("m%d", i)) mc::fail("entry|" + t, "entry %d is %llx+%llx", i, (unsigned long long)v[i]->start, (unsigned long long)v[i]->length);
    for (uint64_t a : probes(r)) { int w = -1, g = -1; for (int i = n - 1; i >= 0; i--) if (inside(a, r[i].first, r[i].second)) w = i; auto *f = sr_unstrip_find_address(u, a); for (int i = 0; i < n; i++) if (v[i] == f) g = i; mc::step(); if (g != w || (f && g < 0)) mc::fail("find|" + t + fmt("0x%llx", (unsigned long long)a), "address %llx found in entry %d, expected %d", (unsigned long long)a, g, w); }
    sr_unstrip_free(u); if (sr_unstrip_find_address(nullptr, 1)) mc::fail("empty", "found in an empty list"); mc::validated(); mc::nontrivial(); mc::outcome(t);
}
MC_SCENARIO(unstrip_text)
{
    struct L { const char *text, *want; }; static const L lines[] = {{"0x400000+0x207000 2818b2009547f780a5639c904cded443e564973e@0x400284 /bin/sleep /usr/lib/debug/bin/sleep.debug [exe]", "400000+207000 2818b2009547f780a5639c904cded443e564973e /bin/sleep [exe]"}, {"0x7fff2b54a000+0x1000 d2f5@0x7fff2b54a3fc . - linux-vdso.so.1", "7fff2b54a000+1000 d2f5 . linux-vdso.so.1"}, {"0x35bee00000+0x3ba000 - /lib64/libc.so.6 - libc.so.6", "35bee00000+3ba000  /lib64/libc.so.6 libc.so.6"}, {"0x1+0x2 AbC09 /x\t-   y", "1+2 AbC09 /x y"}, {"", nullptr}, {"junk line", nullptr}, {"0x12", nullptr}, {"0x12+0xzz 1 2 3 4", nullptr}, {"+0x1 a b c d", nullptr}, {"0x1+0x1", "1+1   "}, {"0x1+0x1 ", "1+1   "}, {"0x2+0x1 ab", "2+1 ab  "}, {"0x3+0x1 ab@0x9 /f", "3+1 ab /f "}, {"0x4+0x1 ab /f -", "4+1 ab /f "}, {"0xffffffffffffffff+0xffffffffffffffff 1 2 3 4", "ffffffffffffffff+ffffffffffffffff 1 2 4"}};
    int n = mc::choose((mc::thorough() ? 4 : 3) + 1); string t, want; for (int i = 0; i < n; i++) { auto &l = mc::pick(lines); t += (i ? "\n" : "") + string(l.text); if (l.want) want += string(l.want) + "\n"; } if (n && mc::choose(2)) t += "\n"; mc::describe(quote(t)); Exact e(t); { mc::HeapRegion h; sr_unstrip_free(sr_unstrip_parse(e.p)); long l = h.live(); h.stop(); if (l) mc::fail("leak|" + quote(t), "%ld blocks left", l); }
    auto *u = sr_unstrip_parse(e.p); mc::step(); string got; for (auto *x = u; x; x = x->next) got += fmt("%llx+%llx %s %s %s\n", (unsigned long long)x->start, (unsigned long long)x->length, S(x->build_id).c_str(), S(x->file_name).c_str(), S(x->mod_name).c_str()); sr_unstrip_free(u); mc::validated(); if (got != want) mc::fail("unstrip|" + quote(t), "%s is read as %s, expected %s", quote(t).c_str(), quote(got).c_str(), quote(want).c_str()); mc::nontrivial(); mc::outcome(got);
}
// every length of each word of a line
MC_SCENARIO(unstrip_lengths)
{
    int which = mc::choose(5), len = 1 + mc::choose(mc::thorough() ? 1100 : 300); string hex, w[5] = {"ab", "/f", "/d", "m", "0x1"}; for (int i = 0; i < len; i++) hex += "0123456789abcdef"[i * 7 % 16]; static const uint64_t val[] = {0, 1, 0x123456789abcdefull, MAX}; uint64_t start = 0x1000, size = mc::pick(val); if (which == 0) w[0] = hex; else if (which < 4) w[which] = (which < 3 ? "/" : "") + hex; else { if (len > 15) mc::prune(); start = strtoull(hex.substr(0, len).c_str(), nullptr, 16); w[4] = "0x" + hex; }
    string t = fmt("0x%llx+0x%llx ", (unsigned long long)start, (unsigned long long)size) + w[0] + "@" + w[4] + " " + w[1] + " " + w[2] + " " + w[3] + "\n"; mc::describe(t); Exact e(t); auto *u = sr_unstrip_parse(e.p); mc::step(); string got, want = fmt("%llx+%llx ", (unsigned long long)start, (unsigned long long)size) + w[0] + " " + w[1] + " " + w[3] + "\n"; for (auto *x = u; x; x = x->next) got += fmt("%llx+%llx ", (unsigned long long)x->start, (unsigned long long)x->length) + S(x->build_id) + " " + S(x->file_name) + " " + S(x->mod_name) + "\n"; sr_unstrip_free(u); mc::validated(); if (got != want) mc::fail("lengths|" + quote(t), "read as %s, expected %s", quote(got).c_str(), quote(want).c_str()); mc::nontrivial(); mc::outcome(t);
}
// ---- libraries as GDB lists them; both ends belong to the range, and a library may have no addresses
MC_SCENARIO(sharedlib_ranges)
{
    int n = mc::choose((mc::thorough() ? 3 : 2) + 1); static const uint64_t tos[] = {0, 1, 2, 4, 5, 7, MAX - 1, MAX}; vector<std::pair<uint64_t, uint64_t>> r, sz; struct sr_gdb_sharedlib *l = nullptr; vector<struct sr_gdb_sharedlib *> v; string w; for (int i = 0; i < n; i++) { auto *x = sr_gdb_sharedlib_new(); if (x->from != MAX || x->to != MAX || x->soname || x->next) mc::fail("new", "a new library is not empty"); if (mc::choose(2)) { x->from = mc::pick(starts); x->to = mc::pick(tos); } r.push_back({x->from, x->to}); sz.push_back({x->from, x->to - x->from}); w += fmt("%llx-%llx ", (unsigned long long)x->from, (unsigned long long)x->to); v.push_back(x); l = sr_gdb_sharedlib_append(l, x); } mc::describe(w);
    for (uint64_t a : probes(sz)) { int want = -1, g = -1; for (int i = n - 1; i >= 0; i--) if (a != MAX && a >= r[i].first && a <= r[i].second) want = i; auto *f = sr_gdb_sharedlib_find_address(l, a); for (int i = 0; i < n; i++) if (v[i] == f) g = i; mc::step(); if (g != want || (f && g < 0)) mc::fail("sharedlib|" + w + fmt("0x%llx", (unsigned long long)a), "address %llx found in %d, expected %d", (unsigned long long)a, g, want); } for (auto *x : v) sr_gdb_sharedlib_free(x); mc::validated(); mc::nontrivial(); mc::outcome(w);
}
MC_SCENARIO(sharedlib_text)
{
    struct L { const char *text, *want; }; static const L lines[] = {{"0x0000003848c05640  0x0000003848c10e48  Yes         /lib64/libpthread.so.0", "3848c05640-3848c10e48 0 /lib64/libpthread.so.0"}, {"0x1 0xff  Yes (*)     /usr/lib64/libX11.so.6", "1-ff 2 /usr/lib64/libX11.so.6"}, {"0x00007f907d3efd20  0x00007f907d3f56d8  No          /a b/libc.so", "7f907d3efd20-7f907d3f56d8 1 /a b/libc.so"}, {"                                        No          linux-vdso.so.1", "ffffffffffffffff-ffffffffffffffff 1 linux-vdso.so.1"}, {"                    Yes /x", "ffffffffffffffff-ffffffffffffffff 0 /x"}}; static const char *heads[] = {"From                To                  Syms Read   Shared Object Library\n", "some text\nFrom To Syms Read Shared Object Library\n", "From here\nFrom  To   Syms Read   Shared Object Library\n", " From  To   Syms Read   Shared Object Library\n", "From  To  Syms Shared Object Library\n", "", "xFrom To Syms Read Shared Object Library\n"}, *ends[] = {"", "\n", "\n(*): Shared library is missing debugging information.\n", "\n$1 = 0x0 No symbol\n"};
    int h = mc::choose(7), n = mc::choose((mc::thorough() ? 4 : 3) + 1); string t = heads[h], want; for (int i = 0; i < n; i++) { auto &l = mc::pick(lines); t += (i ? "\n" : "") + string(l.text); if (h < 3) want += string(l.want) + "\n"; } if (n) t += mc::pick(ends); mc::describe(quote(t)); Exact e(t); auto *l = sr_gdb_sharedlib_parse(e.p); mc::step(); string got; int c = 0; for (auto *x = l; x; x = x->next, c++) got += fmt("%llx-%llx %d %s\n", (unsigned long long)x->from, (unsigned long long)x->to, x->symbols, S(x->soname).c_str()); if (sr_gdb_sharedlib_count(l) != c) mc::fail("count|" + quote(t), "counted %d", sr_gdb_sharedlib_count(l)); while (l) { auto *x = l->next; sr_gdb_sharedlib_free(l); l = x; } mc::validated(); if (got != want) mc::fail("sharedlib text|" + quote(t), "%s is read as %s, expected %s", quote(t).c_str(), quote(got).c_str(), quote(want).c_str()); mc::nontrivial(); mc::outcome(got);
}
// ---- functions and procedure linkage table entries
MC_SCENARIO(functions)
{
    int n = mc::choose((mc::thorough() ? 3 : 2) + 1); static const uint64_t bases[] = {0, 3, 0x400000, MAX - 1}; uint64_t base = mc::pick(bases); vector<std::pair<uint64_t, uint64_t>> r; vector<struct sr_elf_fde *> v; struct sr_elf_fde *l = nullptr, **tail = &l; string w = fmt("%llx: ", (unsigned long long)base); for (int i = 0; i < n; i++) { auto *x = (struct sr_elf_fde *)g_malloc0(sizeof *l); x->exec_base = base; x->start_address = mc::pick(starts); x->length = mc::pick(lengths); r.push_back({x->start_address, x->length}); v.push_back(x); *tail = x; tail = &x->next; w += fmt("%llx+%llx ", (unsigned long long)x->start_address, (unsigned long long)x->length); } mc::describe(w);
    auto at = [&](struct sr_elf_fde *f) { for (int i = 0; i < n; i++) if (v[i] == f) return i; return f ? -2 : -1; }; auto bad = [&](const char *fn, uint64_t a, int g, int want) { mc::step(); if (g != want) mc::fail(string(fn) + "|" + w + fmt("0x%llx", (unsigned long long)a), "%llx found in %d, expected %d", (unsigned long long)a, g, want); };
    for (uint64_t a : probes(r)) { int o = -1, d = -1, s = -1; for (int i = n - 1; i >= 0; i--) { if (inside(a, r[i].first, r[i].second)) o = i; if (inside(a, base + r[i].first, r[i].second)) d = i; if (a == base + r[i].first) s = i; } bad("offset", a, at(sr_elf_find_fde_for_offset(l, a)), o); bad("address", a, at(sr_elf_find_fde_for_address(l, a)), d); bad("start", a, at(sr_elf_find_fde_for_start_address(l, a)), s); uint64_t b = a + base; d = s = -1; for (int i = n - 1; i >= 0; i--) { if (inside(b, base + r[i].first, r[i].second)) d = i; if (b == base + r[i].first) s = i; } bad("address", b, at(sr_elf_find_fde_for_address(l, b)), d); bad("start", b, at(sr_elf_find_fde_for_start_address(l, b)), s); }
    if (n) { string j = take(sr_elf_fde_to_json(l, true)); JNode a; bool ok = json_error(j, a).empty() && a.t == JNode::ARR && (int)a.a.size() == n; for (int i = 0; ok && i < n; i++) { auto num = [&](const char *k) { auto *x = a.a[i].get(k); return x ? x->s : string("none"); }; ok = num("start_address") == fmt("%llu", (unsigned long long)r[i].first) && num("length") == fmt("%llu", (unsigned long long)r[i].second); } mc::step(); if (!ok) mc::fail("json|" + w, "written as %s", j.c_str()); }
    sr_elf_eh_frame_free(l); struct sr_elf_plt_entry *pl = nullptr, **pt = &pl; for (int i = 0; i < n; i++) { struct sr_elf_plt_entry *x = (struct sr_elf_plt_entry *)g_malloc0(sizeof *x); x->address = r[i].first; x->symbol_name = i ? g_strdup("s") : nullptr; *pt = x; pt = &x->next; } for (uint64_t a : probes(r)) { int want = -1, g = -1, k = 0; for (int i = n - 1; i >= 0; i--) if (r[i].first == a) want = i; auto *f = sr_elf_plt_find_for_address(pl, a); for (auto *x = pl; x; x = x->next, k++) if (x == f) g = k; bad("plt", a, g, want); } sr_elf_procedure_linkage_table_free(pl); mc::validated(); mc::nontrivial(); mc::outcome(w);
}
// ---- instructions
static const char *instrs[] = {"call 0x401000", "callq 401000", "callq  0x402000 ", "call *%rax", "callx 0x405000", "calls 1", "cal 0x406000", "call", "callq", "callw 0xffffffffffffffff", "calll 5", "callb 6", "jmp 0x401000", "call 0x401000 <f>", "nop", "", "lcall 0x7", "push %rbp", "retq"};
MC_SCENARIO(instructions)
{
    int n = mc::choose((mc::thorough() ? 4 : 3) + 1); vector<string> v; string w; char **a = (char **)malloc((n + 1) * sizeof *a); for (int i = 0; i < n; i++) { v.push_back(mc::pick(instrs)); a[i] = strdup(v[i].c_str()); w += v[i] + "\n"; } a[n] = nullptr; mc::describe(w); string text = take(sr_disasm_instructions_to_text(a)); if (text != w) mc::fail("text|" + w, "rendered as %s", quote(text).c_str());
    auto mnem = [](const string &s) { return s.substr(0, s.find(' ')); }; auto addr = [](const string &s, uint64_t &r) { size_t p = s.find(' '); if (p == string::npos) return false; p = s.find_first_not_of(' ', p); if (p == string::npos) return false; string o = s.substr(p); while (!o.empty() && o.back() == ' ') o.pop_back(); if (!o.compare(0, 2, "0x")) o = o.substr(2); if (o.empty() || o.find_first_not_of("0123456789abcdef") != string::npos) return false; r = strtoull(o.c_str(), nullptr, 16); return true; };
    static const vector<string> sets[] = {{}, {"call"}, {"callq", "nop"}, {"c", "push", "retq"}, {"call", "callb", "callw", "calll", "callq"}}; for (auto &s : sets) { vector<const char *> m; for (auto &x : s) m.push_back(x.c_str()); m.push_back(nullptr); bool any = false; for (int i = 0; i < n; i++) { bool is = std::find(s.begin(), s.end(), mnem(v[i])) != s.end(); any = any || is; mc::step(); if (sr_disasm_instruction_is_one_of(a[i], m.data()) != is) mc::fail("one of|" + v[i] + "|" + (s.empty() ? "" : s[0]), "the instruction is %sone of them", is ? "" : "not "); } if (sr_disasm_instruction_present(a, m.data()) != any) mc::fail("present|" + w, "presence"); }
    vector<uint64_t> want; for (auto &s : v) { uint64_t x = 0, y = 77; bool ok = addr(s, x); Exact e(s); bool g = sr_disasm_instruction_parse_single_address_operand(e.p, &y); mc::step(); if (g != ok || y != (ok ? x : 77)) mc::fail("operand|" + s, "accepted %d with %llx", g, (unsigned long long)y); if (g != sr_disasm_instruction_parse_single_address_operand(e.p, nullptr)) mc::fail("operand without result|" + s, "differs"); auto &c = sets[4]; if (ok && std::find(c.begin(), c.end(), mnem(s)) != c.end() && std::find(want.begin(), want.end(), x) == want.end()) want.push_back(x); }
    uint64_t *c = sr_disasm_get_callee_addresses(a); size_t k = 0; while (k < want.size() && c[k] == want[k]) k++; bool good = k == want.size() && c[k] == 0; g_free(c); mc::step(); if (!good) mc::fail("callees|" + w, "the called addresses differ at %zu", k); sr_disasm_instructions_free(a); mc::validated(); mc::nontrivial(); mc::outcome(w);
}
// ---- ELF files
struct Bytes { string s; void u8(int v) { s += (char)v; } void u16(int v) { u8(v & 255); u8(v >> 8 & 255); } void u32(uint64_t v) { for (int i = 0; i < 4; i++) u8(v >> 8 * i & 255); } void u64(uint64_t v) { for (int i = 0; i < 8; i++) u8(v >> 8 * i & 255); } void n(uint64_t v, int size) { for (int i = 0; i < size; i++) u8(v >> 8 * i & 255); } void patch32(size_t at, uint32_t v) { for (int i = 0; i < 4; i++) s[at + i] = (char)(v >> 8 * i & 255); } };
struct Sec { string name, data; uint32_t type, link, info; uint64_t flags, addr, entsize; };
struct Layout { uint64_t base; int segments; bool execseg; bool narrow = false; }; // narrow: a 32-bit file
static const size_t TEXT = 0x200; // file offset where the executable segment starts in split layouts
static uint64_t map_data(const Layout &l, uint64_t off) { return l.base + off; }
static uint64_t map_text(const Layout &l, uint64_t off) { return l.base + off + (l.segments == 2 ? 0x1000 : 0); }
static string elf_file(const Layout &l, vector<Sec> secs, vector<size_t> *offsets = nullptr)
{
    Sec names{".shstrtab", string(1, 0), SHT_STRTAB, 0, 0, 0, 0, 0}; secs.push_back(names); vector<uint32_t> nm; string &st = secs.back().data; for (auto &s : secs) { nm.push_back(st.size()); st += s.name + string(1, 0); }
    Bytes b; size_t at = TEXT + 0x40; vector<size_t> off; for (auto &s : secs) { at = (at + 7) & ~7ull; off.push_back(at); at += s.data.size(); } size_t shoff = (at + 7) & ~7ull; int phnum = l.segments == 0 ? 1 : 2;
    bool nar = l.narrow; auto word = [&](uint64_t v) { b.n(v, nar ? 4 : 8); };
    b.s = string(nar ? "\x7f" "ELF\1\1\1" : "\x7f" "ELF\2\1\1", 7) + string(9, 0); b.u16(ET_DYN); b.u16(nar ? EM_386 : EM_X86_64); b.u32(1); word(0); word(nar ? 52 : 64); word(shoff); b.u32(0); b.u16(nar ? 52 : 64); b.u16(nar ? 32 : 56); b.u16(phnum); b.u16(nar ? 40 : 64); b.u16(secs.size() + 1); b.u16(secs.size());
    auto ph = [&](int flags, uint64_t o, uint64_t v, uint64_t sz) { b.u32(PT_LOAD); if (!nar) b.u32(flags); word(o); word(v); word(v); word(sz); word(sz); if (nar) b.u32(flags); word(0x10); }; int x = l.execseg ? PF_R | PF_X : PF_R; if (l.segments == 0) ph(x, 0, l.base, shoff); else { ph(PF_R, 0, l.base, shoff); ph(x, TEXT, map_text(l, TEXT), shoff - TEXT); }
    for (size_t i = 0; i < secs.size(); i++) { b.s.resize(off[i], 0); b.s += secs[i].data; } b.s.resize(shoff, 0); b.s += string(nar ? 40 : 64, 0); for (size_t i = 0; i < secs.size(); i++) { auto &s = secs[i]; b.u32(nm[i]); b.u32(s.type); word(s.flags); word(s.addr); word(off[i]); word(s.data.size()); b.u32(s.link); b.u32(s.info); word(8); word(s.entsize); } if (offsets) *offsets = off; return b.s;
}
static int open_fds() { int n = 0; for (int i = 0; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void no_leak(const string &p, const string &w)
{
    long live = 0; int before = open_fds(); for (int i = 0; i < 2; i++) { mc::HeapRegion h; char *m = nullptr; sr_elf_eh_frame_free(sr_elf_get_eh_frame(p.c_str(), &m)); g_free(m); m = nullptr; sr_elf_procedure_linkage_table_free(sr_elf_get_procedure_linkage_table(p.c_str(), &m)); g_free(m); h.stop(); live = h.live(); mc::step(2); }
    if (live > 0) mc::fail("leak|" + w, "%ld blocks left", live); if (open_fds() != before) mc::fail("descriptors|" + w, "%d open before, %d after", before, open_fds());
}
struct Fn { uint64_t off, len; bool wide = false; int keep = -1; }; // wide: a record with a 64-bit length; keep: cut to so many bytes behind the CIE pointer
// encodings of the pointers in FDEs
struct Enc { int code, size; bool pcrel; const char *aug; bool valid; };
static const Enc encs[] = {{0x1b, 4, true, "zR", true}, {0x00, 8, false, "", true}, {0x00, 8, false, "zR", true}, {0x03, 4, false, "zR", true}, {0x04, 8, false, "zR", true}, {0x1c, 8, true, "zR", true}, {0x1b, 4, true, "zPLR", true}, {0x1b, 4, true, "zRS", true}, {0x1b, 4, true, "zSR", true}, {0x00, 8, false, "zL", true}, {0x1b, 4, true, "zLR", true}, {0x02, 2, false, "zR", false}, {0x1b, 4, true, "zXR", false}};
static string eh_frame(const Layout &l, uint64_t addr, const vector<Fn> &fns, const vector<int> &cie_of, const vector<const Enc *> &cies, bool terminator)
{
    Bytes b; vector<size_t> at; for (auto *e : cies) { at.push_back(b.s.size()); Bytes c; c.u32(0); c.u8(1); c.s += e->aug; c.u8(0); c.u8(1); c.u8(0x78); c.u8(16); if (*e->aug == 'z') { Bytes d; for (const char *p = e->aug + 1; *p; p++) { if (*p == 'R') d.u8(e->code); if (*p == 'L') d.u8(0x1b); if (*p == 'P') { d.u8(0x9b); d.u32(0x1234); } if (*p == 'X') d.u8(7); } c.u8(d.s.size()); c.s += d.s; } while ((c.s.size() + 4) % 8) c.u8(0); b.u32(c.s.size()); b.s += c.s; }
    for (size_t i = 0; i < fns.size(); i++) { const Enc *e = cies[cie_of[i]]; size_t begin = b.s.size(); bool wide = fns[i].wide; Bytes f; f.n(begin + (wide ? 12 : 4) - at[cie_of[i]], wide ? 8 : 4); uint64_t field = addr + begin + (wide ? 20 : 8), target = map_text(l, fns[i].off); f.n(e->pcrel ? target - field : target, e->size); f.n(fns[i].len, e->size); if (*e->aug == 'z') { int extra = strchr(e->aug, 'L') ? 4 : 0; f.u8(extra); for (int k = 0; k < extra; k++) f.u8(0); } while ((f.s.size() + 4) % 8) f.u8(0); if (fns[i].keep >= 0) f.s.resize((wide ? 8 : 4) + fns[i].keep); if (wide) { b.u32(0xffffffff); b.u64(f.s.size()); } else b.u32(f.s.size()); b.s += f.s; }
    if (terminator) b.u32(0); return b.s;
}
static string put(const string &s) { string p = string(mc::scratch()) + "/elf"; int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) mc::prune(); close(fd); return p; }
static Sec eh_sec(const Layout &l, const vector<Fn> &fns, const vector<int> &cie_of, const vector<const Enc *> &cies, bool term) { uint64_t addr = map_data(l, TEXT + 0x40); return Sec{".eh_frame", eh_frame(l, addr, fns, cie_of, cies, term), SHT_PROGBITS, 0, 0, SHF_ALLOC, addr, 0}; }
MC_SCENARIO(eh_frame)
{
    static const uint64_t bases[] = {0, 0x400000, 0x3463e00000ull}; Layout l{mc::pick(bases), mc::choose(3), mc::choose(2) == 0, mc::flip()}; if (l.narrow && l.base > UINT32_MAX) mc::prune(); int ncie = 1 + mc::choose(2); vector<const Enc *> cies; string w = fmt("%s base %llx layout %d exec %d", l.narrow ? "32-bit" : "64-bit", (unsigned long long)l.base, l.segments, l.execseg); bool valid = l.execseg; for (int i = 0; i < ncie; i++) { cies.push_back(&mc::pick(encs)); if (l.narrow) { static Enc four[sizeof encs / sizeof *encs]; int q = cies[i] - encs; if (cies[i]->size == 8 && cies[i]->code) mc::prune(); four[q] = encs[q]; if (four[q].size == 8) four[q].size = 4; cies[i] = &four[q]; } if (cies[i]->size == 4 && !cies[i]->pcrel && l.base > UINT32_MAX) mc::prune(); valid = valid && cies[i]->valid; w += fmt(" %s/%x", cies[i]->aug, cies[i]->code); }
    static const Fn pool[] = {{TEXT, 0x10}, {TEXT + 0x10, 0x23}, {TEXT + 0x33, 1}, {TEXT + 0x100, 0x1000}}; int n = mc::choose(l.execseg ? (mc::thorough() ? 4 : 3) : 2); vector<Fn> fns; vector<int> of; for (int i = 0; i < n; i++) { fns.push_back(pool[mc::choose(4)]); of.push_back(mc::choose(ncie)); w += fmt(" %llx+%llx/%d", (unsigned long long)fns[i].off, (unsigned long long)fns[i].len, of[i]); } bool term = mc::choose(2); w += term ? " ended" : ""; mc::describe(w);
    string p = put(elf_file(l, {eh_sec(l, fns, of, cies, term)})); char *msg = nullptr; struct sr_elf_fde *f = sr_elf_get_eh_frame(p.c_str(), &msg); mc::step(); string got, want; for (auto *x = f; x; x = x->next) got += fmt("%llx+%llx ", (unsigned long long)(x->exec_base + x->start_address), (unsigned long long)x->length); if (valid) for (auto &x : fns) want += fmt("%llx+%llx ", (unsigned long long)map_text(l, x.off), (unsigned long long)x.len); string m = S(msg); bool has = msg; g_free(msg); mc::validated();
    if (got != want) mc::fail("fdes|" + w, "read %s, expected %s (%s)", got.c_str(), want.c_str(), m.c_str()); if (valid && has) mc::fail("message|" + w, "%s", m.c_str()); if (!valid && (!has || m.empty())) mc::fail("no message|" + w, "rejected without a message");
    if (valid && l.segments < 2) for (auto &x : fns) { auto *o = sr_elf_find_fde_for_offset(f, x.off), *a = sr_elf_find_fde_for_address(f, l.base + x.off); if (!o || o != a) mc::fail("by offset|" + w, "offset %llx", (unsigned long long)x.off); } sr_elf_eh_frame_free(f); no_leak(p, w); mc::nontrivial(); mc::outcome(w);
}
// records with a 64-bit length, records too short for their addresses
MC_SCENARIO(eh_frame_records)
{
    Layout l{mc::choose(2) ? 0x400000ull : 0, mc::choose(3), true}; static const Enc *const use[] = {&encs[0], &encs[1], &encs[5], &encs[6], &encs[10]}; const Enc *e = mc::pick(use); int n = 1 + mc::choose(mc::thorough() ? 3 : 2); vector<Fn> fns; bool valid = true; string w = fmt("base %llx layout %d %s/%x", (unsigned long long)l.base, l.segments, e->aug, e->code), want; for (int i = 0; i < n; i++) { Fn f{TEXT + 0x20 * (uint64_t)i, 0x10 + (uint64_t)i, mc::flip(), mc::choose(2 * e->size + 2) - 1}; if (f.keep >= 0 && f.keep < 2 * e->size) valid = false; w += fmt(" %d/%d", f.wide, f.keep); fns.push_back(f); } mc::describe(w);
    string p = put(elf_file(l, {eh_sec(l, fns, vector<int>(n, 0), {e}, true)})), got; char *msg = nullptr; struct sr_elf_fde *f = sr_elf_get_eh_frame(p.c_str(), &msg); mc::step(); for (auto *x = f; x; x = x->next) got += fmt("%llx+%llx ", (unsigned long long)(x->exec_base + x->start_address), (unsigned long long)x->length); if (valid) for (auto &x : fns) want += fmt("%llx+%llx ", (unsigned long long)map_text(l, x.off), (unsigned long long)x.len); sr_elf_eh_frame_free(f); string m = S(msg); bool has = msg; g_free(msg); mc::validated();
    if (got != want) mc::fail("records|" + w, "read %s, expected %s (%s)", got.c_str(), want.c_str(), m.c_str()); if (valid ? has : !has || m.empty()) mc::fail("record message|" + w, "%s", m.c_str()); no_leak(p, w); mc::nontrivial(); mc::outcome(w);
}
// ---- .plt with its relocations
static string plt_elf(const Layout &l, const vector<int> &sym_of, int nsyms, const vector<int> &rel_of, int tail, bool rela = true, bool link = true)
{
    Bytes plt, rel, sym; string str(1, 0); vector<uint32_t> nm; for (int i = 0; i < nsyms; i++) { nm.push_back(str.size()); str += fmt("sym%d", i) + string(1, 0); } sym.s = string(24, 0); for (int i = 0; i < nsyms; i++) { sym.u32(nm[i]); sym.u8(0x12); sym.u8(0); sym.u16(0); sym.u64(0); sym.u64(0); } for (int s : sym_of) { rel.u64(0x1000); rel.u64(((uint64_t)(s + 1) << 32) | 7); rel.u64(0); } plt.s = string(16, '\x90'); for (int r : rel_of) { plt.u16(0x25ff); plt.u32(0); plt.u8(0x68); plt.u32(r); plt.u8(0xe9); plt.u32(0); } plt.s += string(tail, '\x90');
    vector<Sec> s; s.push_back({".plt", plt.s, SHT_PROGBITS, 0, 0, SHF_ALLOC | SHF_EXECINSTR, l.base + 0x240, 16}); s.push_back({".dynstr", str, SHT_STRTAB, 0, 0, SHF_ALLOC, 0, 0}); s.push_back({".dynsym", sym.s, SHT_DYNSYM, 2, 1, SHF_ALLOC, 0, 24}); if (rela) s.push_back({".rela.plt", rel.s, SHT_RELA, link ? 3u : 0u, 1, SHF_ALLOC, 0, 24}); return elf_file(l, s);
}
MC_SCENARIO(plt)
{
    Layout l{mc::choose(2) ? 0x400000ull : 0, 0, true}; int nsyms = mc::choose(3), nrel = mc::choose(3), n = mc::choose(mc::thorough() ? 4 : 3), tail = mc::choose(17); vector<int> so, ro; bool valid = true; string w = fmt("%llx syms %d rels", (unsigned long long)l.base, nsyms); for (int i = 0; i < nrel; i++) { so.push_back(mc::choose(4)); w += fmt(" %d", so[i]); } w += " slots"; for (int i = 0; i < n; i++) { static const int idx[] = {0, 1, 2, -1, 0x7fffffff}; ro.push_back(mc::pick(idx)); w += fmt(" %d", ro[i]); if (ro[i] < 0 || ro[i] >= nrel || so[ro[i]] >= nsyms) valid = false; } w += fmt(" tail %d", tail); mc::describe(w); if (tail == 16) mc::prune();
    string p = put(plt_elf(l, so, nsyms, ro, tail)); char *msg = nullptr; auto *e = sr_elf_get_procedure_linkage_table(p.c_str(), &msg); mc::step(); string got, want; for (auto *x = e; x; x = x->next) got += fmt("%llx=%s ", (unsigned long long)x->address, S(x->symbol_name).c_str()); if (valid) for (int i = 0; i < n; i++) want += fmt("%llx=sym%d ", (unsigned long long)(l.base + 0x240 + 16 + 16 * i), so[ro[i]]); sr_elf_procedure_linkage_table_free(e); string m = S(msg); bool has = msg; g_free(msg); mc::validated(); if (got != want) mc::fail("plt|" + w, "read %s, expected %s (%s)", got.c_str(), want.c_str(), m.c_str()); if (!valid && (!has || m.empty())) mc::fail("no message|" + w, "rejected without a message"); no_leak(p, w); mc::nontrivial(); mc::outcome(w);
}
// ---- damaged files: read to the end or rejected, never outside
static void both(const string &s, const string &w)
{
    string p = put(s); mc::describe(w); char *m = nullptr; { auto *f = sr_elf_get_eh_frame(p.c_str(), &m); int n = 0; for (auto *x = f; x; x = x->next) n++; if (f && m) mc::fail("message with result|" + w, "%s", m); if (m && !*m) mc::fail("empty message|" + w, "rejected without a message"); g_free(m); m = nullptr; sr_elf_eh_frame_free(f); mc::outcome(mc::hash(fmt("%d", n) + w)); } { auto *e = sr_elf_get_procedure_linkage_table(p.c_str(), &m); if (e && m) mc::fail("message with result|" + w, "%s", m); g_free(m); sr_elf_procedure_linkage_table_free(e); } no_leak(p, w); mc::step(2); mc::validated(); mc::nontrivial();
}
static const string &sample(int which)
{
    static string s[2]; if (s[0].empty()) { Layout l{0x400000, 1, true}; s[0] = elf_file(l, {eh_sec(l, {{TEXT, 0x10}, {TEXT + 0x10, 8}}, {0, 1}, {&encs[6], &encs[1]}, true)}); s[1] = plt_elf(l, {1, 0}, 2, {0, 1}, 0); } return s[which];
}
MC_SCENARIO(truncated) { int k = mc::choose(2); const string &s = sample(k); int cut = mc::choose((int)s.size() + 1); both(s.substr(0, cut), fmt("file %d cut to %d bytes", k, cut)); }
MC_SCENARIO(changed) { int k = mc::choose(2); string s = sample(k); int at = mc::choose((int)s.size()), v; static const int quick[] = {0, 1, 2, 0x7f, 0x80, 0xff}; v = mc::thorough() ? mc::choose(256) : mc::pick(quick); if ((unsigned char)s[at] == v) mc::prune(); s[at] = (char)v; both(s, fmt("file %d byte %d = %d", k, at, v)); }
MC_SCENARIO(foreign) { static const char *f[] = {"", "#!/bin/sh\n", "\x7f" "ELF", "\x7f" "ELF\1\1\1", "!<arch>\n", "text"}; string s = mc::pick(f); int pad = mc::choose(3); s += string(pad * 40, pad == 1 ? 0 : 'x'); both(s, quote(s)); char *m = nullptr; if (sr_elf_get_eh_frame("/nonexistent/file", &m) || !m) mc::fail("missing file", "accepted or no message"); g_free(m); m = nullptr; if (sr_elf_get_procedure_linkage_table("/nonexistent/file", &m) || !m) mc::fail("missing file plt", "accepted or no message"); g_free(m); }
