// eckit::BTree driven by scripts.  cfg: instance lock offset
#include "common.h"
#include "eckit/container/BTree.h"
#include "eckit/types/FixedString.h"
#include "main_init.h"
#include <dirent.h>
#include <sys/file.h>

using namespace vt;
using namespace eckit;

static std::string ok(const std::string& v) {
    return "[\"ok\"," + v + "]";
}
static std::string ok(long v) {
    return ok(jnum(v));
}
// key types: the order of the keys is that of the numbers
template <class K>
struct Key;
template <>
struct Key<long> {
    static long in(long k) { return k - 3; }
    static long out(long k) { return k + 3; }
};
using F8 = FixedString<8>;
template <>
struct Key<F8> {
    static F8 in(long k) {
        char b[9];
        snprintf(b, 9, "%08ld", k);
        return F8(std::string(b));
    }
    static long out(const F8& k) { return atol(k.asString().c_str()); }
};
struct Big {
    long a;
    char pad[17];
    long v;
};
inline std::ostream& operator<<(std::ostream& s, const Big& b) {
    return s << b.v;
}
template <class V>
struct Val;
template <>
struct Val<long> {
    static long in(long v) { return v; }
    static long out(long v) { return v; }
};
template <>
struct Val<Big> {
    static Big in(long v) {
        Big b;
        memset(&b, int(v), sizeof b);
        b.a = -v;
        b.v = v;
        return b;
    }
    static long out(const Big& b) {
        for (char c : b.pad)
            if (c != char(b.v)) return -1;
        return b.a == -b.v ? b.v : -1;
    }
};

static std::string path;
static std::string child(const std::function<std::string()>& f) {
    int p[2];
    if (pipe(p)) abort();
    pid_t c = fork();
    if (!c) {
        std::string r;
        try {
            r = f();
        }
        catch (std::exception& e) {
            r = "[\"exc\"]";
        }
        if (write(p[1], r.data(), r.size()) < 0) {}
        _exit(0);
    }
    close(p[1]);
    std::string r;
    char b[4096];
    for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;) r.append(b, n);
    close(p[0]);
    waitpid(c, nullptr, 0);
    return r;
}
static void copyFile(const std::string& a, const std::string& b) {
    std::ifstream i(a, std::ios::binary);
    std::ofstream o(b, std::ios::binary);
    o << i.rdbuf();
}
template <class T>
struct Bt {
    using K = typename T::key_type;
    using V = typename T::value_type;
    T* t = nullptr;
    long off;
    std::string list(T& x, const K& a, const K& b) {
        std::vector<typename T::result_type> v(2);
        x.range(a, b, v);
        return jlist(v, [](const typename T::result_type& e) { return "[" + jnum(Key<K>::out(e.first)) + "," + jnum(Val<V>::out(e.second)) + "]"; });
    }
    std::string apply(const Op& o) {
        const std::string& n = o.name;
        if (n == "open") { t = new T(path, o.s(0) == "ro", off); return ok(0l); }
        if (!t) return "[\"badop\"]";
        if (n == "set") return ok(t->set(Key<K>::in(o.i(0)), Val<V>::in(o.i(1))));
        if (n == "get") {
            V v = Val<V>::in(77);
            bool f = t->get(Key<K>::in(o.i(0)), v);
            return f ? ok(Val<V>::out(v)) : Val<V>::out(v) == 77 ? "[\"none\"]" : "[\"changed\"]";
        }
        if (n == "range") return ok(list(*t, Key<K>::in(o.i(0)), Key<K>::in(o.i(1))));
        if (n == "count") return ok(t->count());
        if (n == "flush") { t->flush(); return ok(0l); }
        if (n == "sync") { t->sync(); return ok(0l); }
        if (n == "preload") { t->preload(); return ok(0l); }
        if (n == "view") return child([this] {
            copyFile(path, path + ".v");
            T v(path + ".v", false, off);
            return ok(list(v, Key<K>::in(0), Key<K>::in(9999)));
        });
        if (n == "close") { delete t; t = nullptr; return ok(0l); }
        if (n == "die") {
            t = nullptr;   // never destroyed: its descriptors are closed as the end of the process would
            std::vector<int> fds;
            DIR* d = opendir("/proc/self/fd");
            while (dirent* e = readdir(d)) {
                char b[4096];
                ssize_t k = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), b, sizeof b);
                if (k > 0 && std::string(b, k) == path) fds.push_back(atoi(e->d_name));
            }
            closedir(d);
            for (int f : fds) close(f);
            return ok(0l);
        }
        if (n == "flock") { t->flock(); return ok(0l); }
        if (n == "funlock") { t->funlock(); return ok(0l); }
        if (n == "lock") { t->lock(); return ok(0l); }
        if (n == "lockshared") { t->lockShared(); return ok(0l); }
        if (n == "unlock") { t->unlock(); return ok(0l); }
        if (n == "held") return child([] {
            int fd = open(path.c_str(), O_RDWR);
            std::string a = flock(fd, LOCK_EX | LOCK_NB) == 0 ? "none" : flock(fd, LOCK_SH | LOCK_NB) == 0 ? "sh" : "ex";
            struct flock l;
            memset(&l, 0, sizeof l);
            l.l_type   = F_WRLCK;
            l.l_whence = SEEK_SET;
            fcntl(fd, F_GETLK, &l);
            std::string b = l.l_type == F_UNLCK ? "none" : l.l_type == F_RDLCK ? "sh" : "ex";
            return ok("[" + jstr(a) + "," + jstr(b) + "]");
        });
        return "[\"badop\"]";
    }
};
template <class T>
static void run(const Script& s) {
    Bt<T> b;
    b.off = s.ci(2);
    for (auto& x : s.ops) {
        std::string r;
        try {
            r = b.apply(x);
        }
        catch (Exception& e) {
            r = "[\"exc\"]";
        }
        put(r);
    }
}

int main(int argc, char** argv) {
    vt_main();
    return seqmain(argc, argv, [](const Script& s) {
        static int n = 0;
        path = scratch() + "/bt" + std::to_string(getpid()) + "_" + std::to_string(n++);
        if (s.ci(2)) {
            std::ofstream o(path, std::ios::binary);
            o << std::string(s.ci(2), 'H');
        }
        int k = s.ci(0), l = s.ci(1);
        if (k == 0) l ? run<BTree<long, long, 128, BTreeLock>>(s) : run<BTree<long, long, 128>>(s);
        if (k == 1) l ? run<BTree<F8, Big, 300, BTreeLock>>(s) : run<BTree<F8, Big, 300>>(s);
        if (k == 2) l ? run<BTree<long, Big, 4096, BTreeLock>>(s) : run<BTree<long, Big, 4096>>(s);
        unlink(path.c_str());
        unlink((path + ".v").c_str());
    });
}
