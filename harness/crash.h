// Crash points and faults: system calls that change the file system are trapped (seccomp, own process only), counted, and at the n-th one
// the process ends before it, after it, or half-way through a write, or the call fails with an errno.
#pragma once
#include <errno.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <fcntl.h>
#include <unistd.h>
#include "common.h"

extern "C" long vt_raw(long n, long a, long b, long c, long d, long e, long f);
extern "C" char vt_raw_ip;
asm(R"(
.text
.globl vt_raw
.type vt_raw,@function
vt_raw:
 mov %rdi,%rax
 mov %rsi,%rdi
 mov %rdx,%rsi
 mov %rcx,%rdx
 mov %r8,%r10
 mov %r9,%r8
 mov 8(%rsp),%r9
 syscall
.globl vt_raw_ip
vt_raw_ip:
 ret
)");

namespace vt {
namespace crash {

enum Mode { Before = 0, After = 1, Torn = 2, Fail = 3 };
struct Ctl {
    int armed, target, mode, err, count, hit;
};
inline Ctl*& ctl() {
    static Ctl* c = (Ctl*)mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return c;
}
static const int kCalls[] = {SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_open, SYS_openat, SYS_creat, SYS_rename, SYS_renameat, SYS_renameat2,
                             SYS_unlink, SYS_unlinkat, SYS_ftruncate, SYS_truncate, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_link, SYS_linkat, SYS_symlink,
                             SYS_fsync, SYS_fdatasync, SYS_fallocate, SYS_msync};

inline bool counts(long nr, long a0, long a1, long a2) {
    switch (nr) {
        case SYS_write:
        case SYS_writev:
        case SYS_pwrite64:
        case SYS_pwritev:
            return a0 > 2;
        case SYS_open:
            return (a1 & (O_CREAT | O_TRUNC)) != 0;
        case SYS_openat:
            return (a2 & (O_CREAT | O_TRUNC)) != 0;
        default:
            return true;
    }
}

inline void handler(int, siginfo_t* si, void* u) {
    auto* r = ((ucontext_t*)u)->uc_mcontext.gregs;
    long nr = si->si_syscall, a0 = r[REG_RDI], a1 = r[REG_RSI], a2 = r[REG_RDX];
    Ctl* c  = ctl();
    if (c->armed && counts(nr, a0, a1, a2)) {
        if (++c->count == c->target) {
            c->hit = nr + 1;
            switch (c->mode) {
                case Before:
                    vt_raw(SYS_exit_group, 77, 0, 0, 0, 0, 0);
                    break;
                case After:
                    vt_raw(nr, a0, a1, a2, r[REG_R10], r[REG_R8], r[REG_R9]);
                    vt_raw(SYS_exit_group, 77, 0, 0, 0, 0, 0);
                    break;
                case Torn:
                    if (nr == SYS_write || nr == SYS_pwrite64) {
                        vt_raw(nr, a0, a1, a2 / 2, r[REG_R10], 0, 0);
                    }
                    vt_raw(SYS_exit_group, 77, 0, 0, 0, 0, 0);
                    break;
                case Fail:
                    r[REG_RAX] = -c->err;
                    return;
            }
        }
    }
    r[REG_RAX] = vt_raw(nr, a0, a1, a2, r[REG_R10], r[REG_R8], r[REG_R9]);
}

// irrevocable for this process
inline void install() {
    ctl();
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = handler;
    sa.sa_flags     = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, nullptr);
    uintptr_t ip = (uintptr_t)&vt_raw_ip;
    std::vector<sock_filter> f;
    auto st = [&](unsigned short c, unsigned k) { f.push_back(sock_filter{c, 0, 0, k}); };
    auto jp = [&](unsigned k, unsigned char t, unsigned char e) { f.push_back(sock_filter{BPF_JMP | BPF_JEQ | BPF_K, t, e, k}); };
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer));
    jp((unsigned)ip, 0, 3);
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4);
    jp((unsigned)(ip >> 32), 0, 1);
    st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
    for (int n : kCalls) {
        jp(n, 0, 1);
        st(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    }
    st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    sock_fprog p = {(unsigned short)f.size(), f.data()};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) {
        _exit(99);
    }
}

inline void arm(int n, int mode, int err = EIO) {
    Ctl* c    = ctl();
    c->count  = 0;
    c->hit    = 0;
    c->target = n;
    c->mode   = mode;
    c->err    = err;
    c->armed  = 1;
}
inline void disarm() {
    ctl()->armed = 0;
}

// run fn (which returns a JSON result) in a child that dies at the n-th effect; its result, or ["crashed"]
inline std::string run(int n, int mode, const std::function<std::string()>& fn) {
    struct Res {
        long len;
        char buf[1 << 20];
    };
    static Res* res = (Res*)mmap(nullptr, sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    res->len        = -1;
    pid_t p         = fork();
    if (p == 0) {
        install();
        arm(n, mode);
        std::string r = fn();
        disarm();
        if (r.size() < sizeof(res->buf)) {
            memcpy(res->buf, r.data(), r.size());
            res->len = r.size();
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        return "[\"crashed\"]";
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
        return "[\"NOSECCOMP\"]";
    }
    if (res->len < 0) {
        return "[\"died\"," + std::to_string(st) + "]";
    }
    return std::string(res->buf, res->len);
}

}  // namespace crash
}  // namespace vt
