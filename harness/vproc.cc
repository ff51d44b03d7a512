#include "vproc.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/file.h>
#include <sys/ipc.h>
#include <sys/sem.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include "vsched.h"

namespace {
bool Points = false;
std::map<int, int>& procs() {
    static auto* m = new std::map<int, int>;
    return *m;
}
bool on() {
    return vsched::active() && vsched::self() >= 0;
}
void pt() {
    if (Points && on()) {
        vsched::yield_hint();
    }
}
template <class F>
F next(const char* n) {
    return (F)dlsym(RTLD_NEXT, n);
}
struct Lk {
    int proc;
    long from, to;  // [from, to)
    short type;
};
using Ino = std::pair<dev_t, ino_t>;
std::map<Ino, std::vector<Lk>>& locks() {
    static auto* m = new std::map<Ino, std::vector<Lk>>;
    return *m;
}
std::map<Ino, std::map<int, int>>& flocks() {  // inode -> fd -> LOCK_SH/LOCK_EX (per open description; fds are not duplicated here)
    static auto* m = new std::map<Ino, std::map<int, int>>;
    return *m;
}
bool inode(int fd, Ino& i) {
    struct stat s;
    if (::syscall(SYS_fstat, fd, &s) != 0) {
        return false;
    }
    i = Ino(s.st_dev, s.st_ino);
    return true;
}
const Lk* conflict(const Ino& i, int p, long from, long to, short type) {
    for (auto& l : locks()[i]) {
        if (l.proc != p && l.from < to && from < l.to && (type == F_WRLCK || l.type == F_WRLCK)) {
            return &l;
        }
    }
    return nullptr;
}
void setlk(const Ino& i, int p, long from, long to, short type) {
    auto& v = locks()[i];
    std::vector<Lk> n;
    for (auto& l : v) {
        if (l.proc != p || l.to <= from || to <= l.from) {
            n.push_back(l);
            continue;
        }
        if (l.from < from) {
            n.push_back(Lk{p, l.from, from, l.type});
        }
        if (to < l.to) {
            n.push_back(Lk{p, to, l.to, l.type});
        }
    }
    if (type != F_UNLCK) {
        n.push_back(Lk{p, from, to, type});
    }
    v.swap(n);
}
int lockop(int fd, int cmd, struct flock* f) {
    Ino i;
    if (!inode(fd, i)) {
        errno = EBADF;
        return -1;
    }
    long base = f->l_whence == SEEK_SET ? 0 : f->l_whence == SEEK_CUR ? ::syscall(SYS_lseek, fd, 0, SEEK_CUR) : 0;
    if (f->l_whence == SEEK_END) {
        struct stat s;
        ::syscall(SYS_fstat, fd, &s);
        base = s.st_size;
    }
    long from = base + f->l_start, to = f->l_len ? from + f->l_len : 0x7fffffffffffffffL;
    int p      = vproc::process();
    short type = f->l_type;
    vsched::yield_hint();
    if (cmd == F_GETLK) {
        const Lk* c = conflict(i, p, from, to, type);
        if (c) {
            f->l_type = c->type;
            f->l_pid  = 100000 + c->proc;
        }
        else {
            f->l_type = F_UNLCK;
        }
        return 0;
    }
    if (type != F_UNLCK) {
        if (cmd == F_SETLKW) {
            while (conflict(i, p, from, to, type)) {
                vsched::block_until([=] { return !conflict(i, p, from, to, type); }, "fcntl");
            }
        }
        else if (conflict(i, p, from, to, type)) {
            errno = EAGAIN;
            return -1;
        }
    }
    setlk(i, p, from, to, type);
    vsched::yield_hint();
    return 0;
}
struct Sem {
    std::vector<int> v;
};
std::map<int, Sem>& sems() {
    static auto* m = new std::map<int, Sem>;
    return *m;
}
std::map<key_t, int>& semkeys() {
    static auto* m = new std::map<key_t, int>;
    return *m;
}
bool semcan(int id, const std::vector<sembuf>& ops) {
    auto v = sems()[id].v;
    for (auto& o : ops) {
        if (o.sem_op == 0 ? v[o.sem_num] != 0 : v[o.sem_num] + o.sem_op < 0) {
            return false;
        }
        v[o.sem_num] += o.sem_op;
    }
    return true;
}
}  // namespace

namespace vproc {
long now = 0;
std::function<bool(const char*)> unwritable;
void process(int p) {
    procs()[vsched::self()] = p;
}
int process() {
    auto i = procs().find(vsched::self());
    return i == procs().end() ? 0 : i->second;
}
void points(bool b) {
    Points = b;
}
}  // namespace vproc

extern "C" {
static int fcntlimpl(int fd, int cmd, void* arg) {
    if (on() && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK)) {
        return lockop(fd, cmd, (struct flock*)arg);
    }
    static auto r = next<int (*)(int, int, void*)>("fcntl");
    return r(fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) {
    va_list a;
    va_start(a, cmd);
    void* p = va_arg(a, void*);
    va_end(a);
    return fcntlimpl(fd, cmd, p);
}
int fcntl64(int fd, int cmd, ...) {
    va_list a;
    va_start(a, cmd);
    void* p = va_arg(a, void*);
    va_end(a);
    return fcntlimpl(fd, cmd, p);
}
int flock(int fd, int op) {
    Ino i;
    if (!on() || !inode(fd, i)) {
        return ::syscall(SYS_flock, fd, op);
    }
    vsched::yield_hint();
    int want  = op & ~LOCK_NB;
    auto free = [=] {
        for (auto& x : flocks()[i]) {
            if (x.first != fd && (want == LOCK_EX || x.second == LOCK_EX)) {
                return false;
            }
        }
        return true;
    };
    if (want == LOCK_UN) {
        flocks()[i].erase(fd);
    }
    else {
        flocks()[i].erase(fd);
        while (!free()) {
            if (op & LOCK_NB) {
                errno = EWOULDBLOCK;
                return -1;
            }
            vsched::block_until(free, "flock");
        }
        flocks()[i][fd] = want;
    }
    vsched::yield_hint();
    return 0;
}
int close(int fd) {
    if (on()) {
        pt();
        Ino i;
        if (inode(fd, i)) {
            setlk(i, vproc::process(), 0, 0x7fffffffffffffffL, F_UNLCK);
            flocks()[i].erase(fd);
        }
    }
    return ::syscall(SYS_close, fd);
}
int semget(key_t k, int n, int fl) {
    if (!on()) {
        return ::syscall(SYS_semget, k, n, fl);
    }
    auto i = semkeys().find(k);
    int id = i == semkeys().end() ? 1 + int(semkeys().size()) : i->second;
    semkeys()[k] = id;
    sems()[id].v.resize(std::max<size_t>(n, sems()[id].v.size()));
    return id;
}
int semop(int id, struct sembuf* o, size_t n) {
    if (!on()) {
        return ::syscall(SYS_semop, id, o, n);
    }
    vsched::yield_hint();
    std::vector<sembuf> ops(o, o + n);
    bool nowait = false;
    for (auto& x : ops) {
        nowait |= (x.sem_flg & IPC_NOWAIT) != 0;
    }
    while (!semcan(id, ops)) {
        if (nowait) {
            errno = EAGAIN;
            return -1;
        }
        vsched::block_until([=] { return semcan(id, ops); }, "semop");
    }
    for (auto& x : ops) {
        sems()[id].v[x.sem_num] += x.sem_op;
    }
    vsched::yield_hint();
    return 0;
}
int semctl(int id, int n, int cmd, ...) {
    va_list a;
    va_start(a, cmd);
    long arg = va_arg(a, long);
    va_end(a);
    if (!on()) {
        return ::syscall(SYS_semctl, id, n, cmd, arg);
    }
    auto& v = sems()[id].v;
    if (cmd == SETVAL) {
        v[n] = int(arg);
        return 0;
    }
    if (cmd == GETVAL) {
        return v[n];
    }
    return 0;
}

#define OPENFN(name)                                              \
    int name(const char* p, int fl, ...) {                        \
        va_list a;                                                \
        va_start(a, fl);                                          \
        int m = va_arg(a, int);                                   \
        va_end(a);                                                \
        pt();                                                     \
        return ::syscall(SYS_openat, AT_FDCWD, p, fl, m);         \
    }
OPENFN(open)
OPENFN(open64)
ssize_t write(int fd, const void* b, size_t n) {
    pt();
    return ::syscall(SYS_write, fd, b, n);
}
ssize_t read(int fd, void* b, size_t n) {
    pt();
    return ::syscall(SYS_read, fd, b, n);
}
int rename(const char* a, const char* b) {
    pt();
    return ::syscall(SYS_rename, a, b);
}
int unlink(const char* a) {
    pt();
    return ::syscall(SYS_unlink, a);
}
time_t time(time_t* t) {
    static auto r = next<time_t (*)(time_t*)>("time");
    time_t v      = vproc::now ? vproc::now : r(nullptr);
    if (t) {
        *t = v;
    }
    return v;
}
int access(const char* a, int m) {
    pt();
    if (m == W_OK && vproc::unwritable && vproc::unwritable(a)) {
        errno = EACCES;
        return -1;
    }
    return ::syscall(SYS_access, a, m);
}
int ftruncate(int fd, off_t n) {
    pt();
    return ::syscall(SYS_ftruncate, fd, n);
}
int mkdir(const char* p, mode_t m) {
    pt();
    return ::syscall(SYS_mkdir, p, m);
}
int stat(const char* p, struct stat* s) {
    pt();
    return ::syscall(SYS_stat, p, s);
}
int stat64(const char* p, struct stat64* s) {
    pt();
    return ::syscall(SYS_stat, p, s);
}
FILE* fopen(const char* p, const char* m) {
    static auto r = next<FILE* (*)(const char*, const char*)>("fopen");
    pt();
    return r(p, m);
}
FILE* fopen64(const char* p, const char* m) {
    static auto r = next<FILE* (*)(const char*, const char*)>("fopen64");
    pt();
    return r(p, m);
}
int fclose(FILE* f) {
    static auto r = next<int (*)(FILE*)>("fclose");
    pt();
    if (on()) {
        Ino i;
        int fd = fileno(f);
        if (inode(fd, i)) {
            setlk(i, vproc::process(), 0, 0x7fffffffffffffffL, F_UNLCK);
            flocks()[i].erase(fd);
        }
    }
    return r(f);
}
}  // extern "C"
