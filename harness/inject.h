// System call interposition: every system call made while armed is seen by the
// explorer (whatever libc function it comes from), which decides whether it is
// carried out, cut short, interrupted or fails.  Uses Syscall User Dispatch.
#ifndef INJECT_H
#define INJECT_H
#include "common.h"
#include <csignal>
#include <cerrno>
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
extern "C" {
extern char mc_sys_begin[], mc_sys_end[];
long mc_rawsys(long n, long a, long b, long c, long d, long e, long f);
void mc_sigreturn(void);
}
asm(R"(
    .text
    .globl mc_sys_begin
mc_sys_begin:
    .globl mc_rawsys
mc_rawsys:
    mov %rdi,%rax
    mov %rsi,%rdi
    mov %rdx,%rsi
    mov %rcx,%rdx
    mov %r8,%r10
    mov %r9,%r8
    mov 8(%rsp),%r9
    syscall
    ret
    .globl mc_sigreturn
mc_sigreturn:
    mov $15,%rax
    syscall
    nop
    nop
    .globl mc_sys_end
mc_sys_end:
)");
namespace inj {
// The decision for the n-th watched system call of a run: 0 carries it out, 1-5
// depend on the call (errors, an interruption, nothing, one byte, a half).
static const int MAXCALLS = 256;
static int codes[MAXCALLS];
static int transfer = 0;          // how the transfers of every call are split, besides the decisions
static bool unused_code = false;  // a decision that does not exist for the call it met
static volatile char selector = 0;
static bool armed = false, watch_all = false;
static int open_fds = 0;          // descriptors opened while armed and not closed
static bool opened[1024];
static int errors = 0, interrupts = 0, shorts = 0, eofs = 0, calls = 0, strange = 0; // what was injected in this run
static string *trace = nullptr;
static const char *prefix = nullptr; // only files below this path are interfered with
static char fd_name[1024][48];      // the file a descriptor was opened for
static const char *current = "";    // the file the system call concerns
static const char *base_of(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }
static void note(const char *call, const char *how) { if (trace && *how) { *trace += call; *trace += ":"; *trace += how; *trace += "("; *trace += current; *trace += ") "; } }
static int code(int limit) { int i = calls++, c = i < MAXCALLS ? codes[i] : 0; if (c > limit) { unused_code = true; c = 0; } return c; }
static int fails(const char *call, std::initializer_list<int> errs) { int k = code((int)errs.size()); if (!k) return 0; int e = *(errs.begin() + k - 1); if (e == EINTR) interrupts++; else errors++; note(call, strerrorname_np(e)); return e; }
static bool mine(const char *path) { return path && prefix && !strncmp(path, prefix, strlen(prefix)); }
static long split(long n) { static int turn = 0; if (n < 2 || !transfer) return n; turn++; return transfer == 1 ? 1 : transfer == 2 ? (turn & 1 ? 1 : n) : n / 2 + 1 < n ? n / 2 + 1 : 1; }
__attribute__((noinline)) static long decide(long nr, long a, long b, long c, long d, long e, long f)
{
    auto go = [&] { return mc_rawsys(nr, a, b, c, d, e, f); };
    auto known = [&](long fd) { bool k = fd >= 0 && fd < 1024 && opened[fd]; if (k) current = fd_name[fd]; return k; };
    switch (nr) {
    case SYS_open: case SYS_creat: case SYS_openat: {
        const char *path = (const char *)(nr == SYS_openat ? b : a); if (!mine(path)) return go(); current = base_of(path);
        if (int x = fails("open", {EACCES, EMFILE, EINTR})) return -x;
        long r = go(); if (r >= 0 && r < 1024) { opened[r] = true; open_fds++; snprintf(fd_name[r], sizeof fd_name[r], "%s", base_of(path)); } return r; }
    case SYS_read: case SYS_pread64: {
        if (!known(a)) return go(); long n = c; int k = code(n > 3 ? 5 : n > 1 ? 4 : n == 1 ? 3 : 0);
        if (k == 1) { errors++; note("read", "EIO"); return -EIO; } if (k == 2) { interrupts++; note("read", "EINTR"); return -EINTR; } if (k == 3) { eofs++; note("read", "nothing"); return 0; }
        if (k == 4) { shorts++; note("read", "1"); c = 1; } if (k == 5) { shorts++; note("read", "half"); c = n / 2; } if (!k) c = split(n); return go(); }
    case SYS_write: case SYS_pwrite64: {
        if (!known(a)) return go(); long n = c; int k = code(n > 3 ? 5 : n > 1 ? 4 : n == 1 ? 3 : 0);
        if (k == 1) { errors++; note("write", "EIO"); return -EIO; } if (k == 2) { interrupts++; note("write", "EINTR"); return -EINTR; } if (k == 3) { errors++; note("write", "ENOSPC"); return -ENOSPC; }
        if (k == 4) { shorts++; note("write", "1"); c = 1; } if (k == 5) { shorts++; note("write", "half"); c = n / 2; } if (!k) c = split(n); return go(); }
    case SYS_lseek: { if (!known(a)) return go(); if (int x = fails("lseek", {EOVERFLOW, ESPIPE})) return -x; return go(); }
    case SYS_close: {
        if (!known(a)) { if (a >= 0 && a < 1024 && !watch_all) { long r = go(); if (r == -EBADF) strange++; return r; } strange++; return -EBADF; }
        int x = fails("close", {EIO, EINTR}); opened[a] = false; open_fds--; long r = go(); return x ? -x : r; }
    case SYS_fstat: { if (!known(a)) return go(); if (int x = fails("fstat", {EIO, EOVERFLOW})) return -x; return go(); }
    case SYS_newfstatat: case SYS_statx: { bool m = b && *(const char *)b ? mine((const char *)b) : known(a); if (!m) return go(); if (int x = fails("stat", {EIO, EACCES})) return -x; return go(); }
    case SYS_stat: case SYS_lstat: { if (!mine((const char *)a)) return go(); if (int x = fails("stat", {EIO, EACCES})) return -x; return go(); }
    case SYS_ftruncate: case SYS_fsync: case SYS_fdatasync: { if (!known(a)) return go(); if (int x = fails("sync", {EIO})) return -x; return go(); }
    case SYS_rename: { if (!mine((const char *)a)) return go(); if (int x = fails("rename", {EACCES})) return -x; return go(); }
    default: return go();
    }
}
__attribute__((no_sanitize("address"))) static void handler(int, siginfo_t *si, void *uc)
{
    selector = 0; int saved = errno; greg_t *r = ((ucontext_t *)uc)->uc_mcontext.gregs;
    r[REG_RAX] = armed ? decide(si->si_syscall, r[REG_RDI], r[REG_RSI], r[REG_RDX], r[REG_R10], r[REG_R8], r[REG_R9]) : mc_rawsys(si->si_syscall, r[REG_RDI], r[REG_RSI], r[REG_RDX], r[REG_R10], r[REG_R8], r[REG_R9]);
    errno = saved; selector = armed ? 1 : 0;
    asm volatile("mov %0, %%rsp\n jmp mc_sigreturn" ::"r"(uc) : "memory");
}
static pid_t ready_pid = 0;
static void setup()
{
    if (ready_pid == getpid()) return; struct sigaction s; memset(&s, 0, sizeof s); s.sa_sigaction = handler; s.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &s, nullptr);
    if (prctl(59 /* PR_SET_SYSCALL_USER_DISPATCH */, 1, (unsigned long)mc_sys_begin, (unsigned long)(mc_sys_end - mc_sys_begin), &selector)) { fprintf(stderr, "Syscall User Dispatch is not available: %s\n", strerror(errno)); _exit(3); } ready_pid = getpid();
}
// chooses what happens to each of the first n watched calls, as deviations
static void plan(int n) { memset(codes, 0, sizeof codes); for (int i = 0; i < n && i < MAXCALLS; i++) codes[i] = mc::choose_dev(6); }
// runs f with every system call on files below `path` under control
template <class F> static string run(const char *path, F f)
{
    setup(); static string t; t.clear(); t.reserve(16384); trace = &t; prefix = path; unused_code = false; errors = interrupts = shorts = eofs = calls = strange = 0; open_fds = 0; memset(opened, 0, sizeof opened);
    armed = true; selector = 1; f(); selector = 0; armed = false; for (int i = 0; i < 1024; i++) if (opened[i]) close(i); for (int i = calls; i < MAXCALLS; i++) if (codes[i]) unused_code = true; if (unused_code) mc::prune(); return t;
}
}
#endif
