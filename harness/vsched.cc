// NOT compiled with -fsanitize=thread.
#include "vsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace {

template <class F>
F real(const char* n) {
    void* p = dlsym(RTLD_NEXT, n);
    if (!p) {
        fprintf(stderr, "sched: no real %s\n", n);
        _exit(97);
    }
    return (F)p;
}

struct Th {
    int id = 0;
    std::atomic<int> baton{0};
    enum St { Run, Mutex, Cond, Join, Pred, Sleep, Done } st = Run;
    void* obj      = nullptr;
    bool timed     = false;
    bool timedout  = false;
    long deadline  = 0;
    std::function<bool()> pred;
    void* retval  = nullptr;
    bool detached = false;
    pthread_t pth{};
    long prio  = 0;
    int noyield = 0;
    const char* why = "";
    std::map<pthread_key_t, void*> tls;
    std::vector<std::string> crumbs;
};

struct Mtx {
    int owner = -1;
    int count = 0;
};
struct Rw {
    int writer  = -1;
    int readers = 0;
};
struct Once {
    bool running = false;
};

// All of this is touched only by the baton holder.
struct Sched {
    vsched::Config cfg;
    std::deque<Th*> ths;
    Th* cur = nullptr;
    std::map<void*, Mtx> mtx;
    std::map<void*, Rw> rw;
    std::map<void*, std::deque<int>> cond;  // waiters
    std::map<void*, bool> once;             // running
    std::map<void*, bool> guard;
    long steps = 0, switches = 0;
    long vtime = 0;
    uint64_t rng = 1;
    std::set<long> change;
    long nextlow = -1;
    std::function<void(const char*)> on_stuck;
    // dfs
    std::vector<int> prefix;
    std::vector<std::pair<int, int>> trail;  // chosen, options
    int preempt_used = 0;
};

Sched* S                 = nullptr;
std::atomic<bool> Active{false};
thread_local Th* Me      = nullptr;
thread_local int InSched = 0;

struct Shared {
    long len;
    long done;
    long steps;
    long switches;
    int threads;
    int ntrail;
    int trail[2 * 20000];
    char buf[16 << 20];
};
Shared* Sh = nullptr;

uint64_t rnd() {
    uint64_t& x = S->rng;
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return x * 0x2545F4914F6CDD1DULL;
}
int pick(int n) {
    return n <= 1 ? 0 : int((rnd() >> 33) % uint64_t(n));
}

void fwait(std::atomic<int>& a) {
    while (a.load() == 0) {
        syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
    a.store(0);
}
void fwake(std::atomic<int>& a) {
    a.store(1);
    syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

[[noreturn]] void finish(int rc) {
    Sh->steps    = S->steps;
    Sh->switches = S->switches;
    Sh->threads  = int(S->ths.size());
    Sh->ntrail   = 0;
    for (auto& p : S->trail) {
        if (Sh->ntrail >= 20000) {
            break;
        }
        Sh->trail[2 * Sh->ntrail]     = p.first;
        Sh->trail[2 * Sh->ntrail + 1] = p.second;
        Sh->ntrail++;
    }
    Sh->done = 1;
    fflush(stdout);
    _exit(rc);
}

bool runnable(Th* t) {
    switch (t->st) {
        case Th::Run: return true;
        case Th::Mutex: return S->mtx[t->obj].owner < 0;
        case Th::Pred: return t->pred();
        default: return false;
    }
}

// choose who runs next. forced: the current thread cannot continue. Returns nullptr if nobody can.
Th* choose(bool forced, bool sync) {
    Sched& s = *S;
    std::vector<Th*> r;
    for (Th* t : s.ths) {
        if (t != s.cur && runnable(t)) {
            r.push_back(t);
        }
    }
    bool meok = !forced && runnable(s.cur);
    if (r.empty() && !meok) {
        return nullptr;
    }
    if (s.cfg.mode == vsched::Dfs) {
        if (meok && (s.preempt_used >= s.cfg.preemptions || r.empty())) {
            return s.cur;
        }
        std::vector<Th*> o;
        if (meok) {
            o.push_back(s.cur);
        }
        for (Th* t : r) {
            o.push_back(t);
        }
        if (o.size() == 1) {
            return o[0];
        }
        size_t k = s.trail.size();
        int c    = k < s.prefix.size() ? s.prefix[k] : 0;
        if (c >= int(o.size())) {
            c = 0;
        }
        s.trail.push_back({c, int(o.size())});
        if (meok && c != 0) {
            s.preempt_used++;
        }
        return o[c];
    }
    if (s.cfg.mode == vsched::Pct) {
        Th* b = meok ? s.cur : nullptr;
        for (Th* t : r) {
            if (!b || t->prio > b->prio) {
                b = t;
            }
        }
        return b;
    }
    if (meok) {
        bool sw = sync ? pick(100) < s.cfg.switch_sync : pick(1000) < s.cfg.switch_mem;
        if (!sw || r.empty()) {
            return s.cur;
        }
    }
    return r[pick(int(r.size()))];
}

void switch_to(Th* t) {
    Sched& s = *S;
    Th* me   = s.cur;
    if (t == me) {
        return;
    }
    s.switches++;
    s.cur = t;
    fwake(t->baton);
    if (me->st == Th::Done) {
        return;
    }
    fwait(me->baton);
}

// wake the earliest sleeper / timed waiter; false if there is none
bool advance_time() {
    Th* b = nullptr;
    for (Th* t : S->ths) {
        if ((t->st == Th::Sleep || (t->st == Th::Cond && t->timed)) && (!b || t->deadline < b->deadline)) {
            b = t;
        }
    }
    if (!b) {
        return false;
    }
    if (b->deadline > S->vtime) {
        S->vtime = b->deadline;
    }
    if (b->st == Th::Cond) {
        auto& q = S->cond[b->obj];
        for (auto i = q.begin(); i != q.end(); ++i) {
            if (*i == b->id) {
                q.erase(i);
                break;
            }
        }
    }
    b->timedout = true;
    b->st       = Th::Run;
    return true;
}

// scheduling point; the current thread may be blocked (st != Run)
void point(bool sync) {
    Sched& s = *S;
    Th* me   = s.cur;
    bool forced = !runnable(me);
    if (!forced && me->noyield) {
        return;
    }
    s.steps++;
    if (s.steps > s.cfg.max_steps) {
        vsched::emit("{\"op\":\"limit\"}");
        finish(0);
    }
    if (s.cfg.mode == vsched::Pct && s.change.count(s.steps)) {
        me->prio = s.nextlow--;
    }
    if (s.cfg.mode != vsched::Dfs && sync) {
        // a sleeper or timed waiter may fire at any time
        if (pick(100) < 2) {
            advance_time();
        }
        if (s.cfg.spurious && pick(1000) < s.cfg.spurious) {
            std::vector<Th*> w;
            for (Th* t : s.ths) {
                if (t->st == Th::Cond) {
                    w.push_back(t);
                }
            }
            if (!w.empty()) {
                Th* t   = w[pick(int(w.size()))];
                auto& q = s.cond[t->obj];
                for (auto i = q.begin(); i != q.end(); ++i) {
                    if (*i == t->id) {
                        q.erase(i);
                        break;
                    }
                }
                t->st = Th::Run;
            }
        }
    }
    for (;;) {
        Th* t = choose(forced, sync);
        if (t) {
            if (s.cfg.mode == vsched::Pct && s.cfg.max_steps && s.steps % 4096 == 0) {
                t->prio = s.nextlow--;  // starvation guard for spin loops
            }
            switch_to(t);
            return;
        }
        if (!forced) {
            return;
        }
        if (advance_time()) {
            if (me->st == Th::Run) {
                forced = false;
            }
            continue;
        }
        s.on_stuck(me->why);
        finish(0);
    }
}

struct Guard {
    Guard() { InSched++; }
    ~Guard() { InSched--; }
};

bool on() {
    return Active.load(std::memory_order_relaxed) && Me && !InSched;
}

void mutex_lock(void* m, bool recursive, int* err) {
    Sched& s = *S;
    Th* me   = s.cur;
    point(true);
    for (;;) {
        Mtx& x = s.mtx[m];
        if (x.owner < 0) {
            x.owner = me->id;
            x.count = 1;
            return;
        }
        if (x.owner == me->id && recursive) {
            x.count++;
            return;
        }
        me->st  = Th::Mutex;
        me->obj = m;
        me->why = "mutex";
        int nn = me->noyield; me->noyield = 0;
        point(true);
        me->noyield = nn;
        me->st = Th::Run;
    }
}

bool mutex_unlock_raw(void* m) {
    Sched& s = *S;
    auto i   = s.mtx.find(m);
    if (i == s.mtx.end() || i->second.owner != s.cur->id) {
        return false;
    }
    if (--i->second.count == 0) {
        i->second.owner = -1;
    }
    return true;
}

int mkind(pthread_mutex_t* m) {
    return m->__data.__kind & 3;
}

int cond_wait(void* c, pthread_mutex_t* m, bool timed, long rel_ns) {
    Sched& s = *S;
    Th* me   = s.cur;
    point(true);
    Mtx save = s.mtx[m];
    s.mtx[m].owner = -1;
    s.mtx[m].count = 0;
    me->st       = Th::Cond;
    me->obj      = c;
    me->timed    = timed;
    me->timedout = false;
    me->deadline = s.vtime + (rel_ns > 0 ? rel_ns : 0);
    me->why      = "cond";
    s.cond[c].push_back(me->id);
    int nn = me->noyield; me->noyield = 0;
    point(true);
    me->noyield = nn;
    me->st    = Th::Run;
    me->timed = false;
    bool to   = me->timedout;
    for (;;) {
        Mtx& x = s.mtx[m];
        if (x.owner < 0) {
            x.owner = me->id;
            x.count = save.count > 0 ? save.count : 1;
            break;
        }
        me->st  = Th::Mutex;
        me->obj = m;
        me->why = "mutex";
        nn = me->noyield; me->noyield = 0;
        point(true);
        me->noyield = nn;
        me->st = Th::Run;
    }
    return to ? ETIMEDOUT : 0;
}

void cond_wake(void* c, bool all) {
    Sched& s = *S;
    auto i   = s.cond.find(c);
    if (i == s.cond.end() || i->second.empty()) {
        return;
    }
    auto& q = i->second;
    if (all) {
        for (int id : q) {
            s.ths[id]->st = Th::Run;
        }
        q.clear();
        return;
    }
    int k;
    if (s.cfg.mode == vsched::Dfs) {
        k = 0;
        if (q.size() > 1) {
            size_t p = s.trail.size();
            int c2   = p < s.prefix.size() ? s.prefix[p] : 0;
            if (c2 >= int(q.size())) {
                c2 = 0;
            }
            s.trail.push_back({c2, int(q.size())});
            k = c2;
        }
    }
    else {
        k = pick(int(q.size()));
    }
    int id = q[k];
    q.erase(q.begin() + k);
    s.ths[id]->st = Th::Run;
}

struct Start {
    void* (*fn)(void*);
    void* arg;
    Th* th;
};

void thread_end(Th* t) {
    Guard g;
    Sched& s = *S;
    // detach from scheduling: wake joiners
    t->st = Th::Done;
    for (Th* o : s.ths) {
        if (o->st == Th::Join && o->obj == t) {
            o->st = Th::Run;
        }
    }
    for (;;) {
        Th* n = choose(true, true);
        if (n) {
            switch_to(n);
            return;
        }
        if (advance_time()) {
            continue;
        }
        s.on_stuck("end");
        finish(0);
    }
}

// thread exit: TLS destructors run after start_routine returns, so the end of a thread is taken
// in a pthread key destructor that re-arms itself to be the last one.
pthread_key_t EndKey;
void end_dtor(void* p) {
    Th* t = (Th*)p;
    static thread_local int round = 0;
    if (++round < 3) {
        static auto r = real<int (*)(pthread_key_t, const void*)>("pthread_setspecific");
        r(EndKey, p);
        return;
    }
    thread_end(t);
    Me = nullptr;
}

void* trampoline(void* a) {
    Start st = *(Start*)a;
    free(a);
    InSched++;
    Me = st.th;
    pthread_setspecific(EndKey, st.th);
    fwait(st.th->baton);
    InSched--;
    void* r = st.fn(st.arg);
    st.th->retval = r;
    return r;
}

long rel(const struct timespec* abs, clockid_t clk) {
    struct timespec now;
    clock_gettime(clk, &now);
    return (abs->tv_sec - now.tv_sec) * 1000000000L + (abs->tv_nsec - now.tv_nsec);
}

void vsleep(long ns) {
    Guard g;
    Th* me       = S->cur;
    me->st       = Th::Sleep;
    me->deadline = S->vtime + ns;
    me->why      = "sleep";
    int nn = me->noyield; me->noyield = 0;
    point(true);
    me->noyield = nn;
    me->st = Th::Run;
}

void mem(bool write) {
    if (!on() || !S->cfg.mem || Me->noyield) {
        return;
    }
    Guard g;
    if (S->cfg.mode == vsched::Dfs) {
        return;
    }
    point(false);
}
void atom() {
    if (!on()) {
        return;
    }
    Guard g;
    point(true);
}

}  // namespace

//----------------------------------------------------------------------------------------------------------------------
namespace vsched {

int self() {
    return Me ? Me->id : -1;
}
bool active() {
    return Active.load();
}
void emit(const std::string& j) {
    if (!Sh) {
        return;
    }
    long n = long(j.size());
    if (Sh->len + n + 2 > long(sizeof(Sh->buf))) {
        return;
    }
    if (Sh->len) {
        Sh->buf[Sh->len++] = '\n';
    }
    memcpy(Sh->buf + Sh->len, j.data(), n);
    Sh->len += n;
}
void yield_hint() {
    if (on()) {
        Guard g;
        point(true);
    }
}
NoYield::NoYield() {
    if (Me) {
        Me->noyield++;
    }
}
NoYield::~NoYield() {
    if (Me) {
        Me->noyield--;
    }
}
void block_until(const std::function<bool()>& pred, const char* why) {
    if (!on()) {
        return;
    }
    Guard g;
    Th* me   = S->cur;
    me->st   = Th::Pred;
    me->pred = pred;
    me->why  = why;
    int nn = me->noyield; me->noyield = 0;
    point(true);
    me->noyield = nn;
    me->st = Th::Run;
}
Stats stats() {
    return {S ? S->steps : 0, S ? S->switches : 0, S ? int(S->ths.size()) : 0};
}

static std::vector<int> Prefix;

void run(const Config& c, const std::function<void()>& body, const std::function<void(const char*)>& on_stuck) {
    S           = new Sched;
    S->cfg      = c;
    S->rng      = c.seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    if (!S->rng) {
        S->rng = 88172645463325252ULL;
    }
    for (int i = 0; i < 8; i++) {
        rnd();
    }
    S->on_stuck = on_stuck;
    S->prefix   = Prefix;
    for (int i = 0; i < c.pct_depth; i++) {
        S->change.insert(1 + pick(int(c.steps_hint)));
    }
    pthread_key_create(&EndKey, end_dtor);
    Th* t   = new Th;
    t->id   = 0;
    t->prio = 1000 + pick(1000);
    S->ths.push_back(t);
    S->cur = t;
    Me     = t;
    Active = true;
    body();
    Active = false;
    finish(0);
}

long explore(const Explorer& x, const std::function<void()>& body, const std::function<void(const char*)>& on_stuck,
             const std::string& tag) {
    FILE* f = fopen(x.out.c_str(), "a");
    if (!f) {
        perror(x.out.c_str());
        exit(97);
    }
    Sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    long hint = 500;
    long count = 0;
    std::vector<int> prefix;
    bool dfs = x.mode == "dfs";
    uint64_t mx = 0;
    for (long i = x.first; i < x.first + x.n; i++) {
        Config c;
        c.seed      = x.seed * 1000003ULL + uint64_t(i) * 7919 + 1;
        c.max_steps = x.max_steps;
        c.mem       = x.mem;
        c.preemptions = x.preemptions;
        bool limitprone = false;
        if (dfs) {
            c.mode = Dfs;
            Prefix = prefix;
        }
        else {
            // everything derives from the schedule index, so that --first i --n 1 replays schedule i
            int k = int(i % 8);
            if (x.mode == "random") {
                k = int(i % 4);
            }
            if (x.mode == "pct") {
                k = 4 + int(i % 4);
            }
            static const long hints[] = {60, 200, 600, 2000, 8000};
            switch (k) {
                case 0: c.mode = Random; c.switch_sync = 50; c.switch_mem = 10; break;
                case 1: c.mode = Random; c.switch_sync = 20; c.switch_mem = 100; break;
                case 2: c.mode = Random; c.switch_sync = 80; c.switch_mem = 0; break;
                case 3: c.mode = Random; c.switch_sync = 10; c.switch_mem = 5; c.spurious = x.spurious; break;
                case 4: c.mode = Pct; c.pct_depth = 1; break;
                case 5: c.mode = Pct; c.pct_depth = 3; break;
                case 6: c.mode = Pct; c.pct_depth = 6; c.spurious = x.spurious; break;
                case 7: c.mode = Pct; c.pct_depth = 2; c.mem = false; break;
            }
            c.steps_hint = hints[(i / 8) % 5];
        }
        (void)limitprone;
        Sh->len = 0;
        Sh->done = 0;
        Sh->ntrail = 0;
        fflush(f);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            run(c, body, on_stuck);
        }
        int st = 0;
        bool timeout = false;
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        long spins = 0;
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) {
                break;
            }
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if (t1.tv_sec - t0.tv_sec > x.timeout_s) {
                timeout = true;
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                break;
            }
            struct timespec d = {0, spins++ < 200 ? 50000 : 2000000};
            syscall(SYS_nanosleep, &d, nullptr);
        }
        std::string buf(Sh->buf, Sh->len);
        std::string extra;
        if (timeout) {
            extra = "{\"op\":\"hang\"}";
        }
        else if (!Sh->done) {
            char b[100];
            snprintf(b, sizeof b, "{\"op\":\"crash\",\"sig\":%d,\"code\":%d}", WIFSIGNALED(st) ? WTERMSIG(st) : 0,
                     WIFEXITED(st) ? WEXITSTATUS(st) : -1);
            extra = b;
        }
        if (extra.size()) {
            if (buf.size()) {
                buf += "\n";
            }
            buf += extra;
        }
        for (auto& ch : buf) {
            if (ch == '\n') {
                ch = ',';
            }
        }
        fprintf(f, "{\"i\":%ld,\"tag\":\"%s\",\"steps\":%ld,\"sw\":%ld,\"ev\":[%s]}\n", i, tag.c_str(), Sh->steps,
                Sh->switches, buf.c_str());
        count++;
        hint = hint + (Sh->steps - hint) / 4;
        if (dfs) {
            // next prefix
            std::vector<std::pair<int, int>> tr;
            for (int k = 0; k < Sh->ntrail; k++) {
                tr.push_back({Sh->trail[2 * k], Sh->trail[2 * k + 1]});
            }
            while (!tr.empty() && tr.back().first + 1 >= tr.back().second) {
                tr.pop_back();
            }
            if (tr.empty()) {
                fprintf(f, "{\"complete\":true,\"tag\":\"%s\",\"n\":%ld}\n", tag.c_str(), count);
                break;
            }
            prefix.clear();
            for (auto& p : tr) {
                prefix.push_back(p.first);
            }
            prefix.back()++;
        }
    }
    fclose(f);
    (void)mx;
    return count;
}

}  // namespace vsched

//----------------------------------------------------------------------------------------------------------------------
// Interposed pthread API

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!on()) {
        static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
        if (Active.load(std::memory_order_relaxed)) {
            return 0;  // scheduler internals / ending threads: single baton holder
        }
        return r(m);
    }
    Guard g;
    int k = mkind(m);
    if (k == PTHREAD_MUTEX_ERRORCHECK && S->mtx[m].owner == S->cur->id) {
        return EDEADLK;
    }
    mutex_lock(m, k == PTHREAD_MUTEX_RECURSIVE, nullptr);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!on()) {
        static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
        if (Active.load(std::memory_order_relaxed)) {
            return 0;
        }
        return r(m);
    }
    Guard g;
    point(true);
    Mtx& x = S->mtx[m];
    if (x.owner < 0) {
        x.owner = S->cur->id;
        x.count = 1;
        return 0;
    }
    if (x.owner == S->cur->id && mkind(m) == PTHREAD_MUTEX_RECURSIVE) {
        x.count++;
        return 0;
    }
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!on()) {
        static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
        if (Active.load(std::memory_order_relaxed)) {
            return 0;
        }
        return r(m);
    }
    Guard g;
    if (!mutex_unlock_raw(m)) {
        // unlocked by a thread that does not own it: keep glibc's permissive behaviour for normal mutexes
        Mtx& x = S->mtx[m];
        x.owner = -1;
        x.count = 0;
    }
    point(true);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
    if (on()) {
        Guard g;
        int rc = 0;
        auto i = S->mtx.find(m);
        if (i != S->mtx.end()) {
            if (i->second.owner >= 0) {
                rc = EBUSY;
            }
            S->mtx.erase(i);
        }
        return rc;
    }
    return r(m);
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    static auto r = real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init");
    if (on()) {
        Guard g;
        S->mtx.erase(m);
    }
    return r(m, a);
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    static auto r = real<int (*)(pthread_cond_t*, const pthread_condattr_t*)>("pthread_cond_init");
    if (on()) {
        Guard g;
        S->cond.erase(c);
    }
    return r(c, a);
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (on()) {
        return 0;
    }
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
    return r(c);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!on()) {
        static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
        return r(c, m);
    }
    Guard g;
    return cond_wait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* abs) {
    if (!on()) {
        static auto r =
            real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
        return r(c, m, abs);
    }
    Guard g;
    return cond_wait(c, m, true, rel(abs, CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* abs) {
    if (!on()) {
        static auto r =
            real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
        return r(c, m, clk, abs);
    }
    Guard g;
    return cond_wait(c, m, true, rel(abs, clk));
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!on()) {
        static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
        if (Active.load(std::memory_order_relaxed)) {
            cond_wake(c, true);
            return 0;
        }
        return r(c);
    }
    Guard g;
    point(true);
    cond_wake(c, false);
    point(true);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!on()) {
        static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
        if (Active.load(std::memory_order_relaxed)) {
            cond_wake(c, true);
            return 0;
        }
        return r(c);
    }
    Guard g;
    point(true);
    cond_wake(c, true);
    point(true);
    return 0;
}

int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a) {
    static auto r = real<int (*)(pthread_rwlock_t*, const pthread_rwlockattr_t*)>("pthread_rwlock_init");
    if (on()) {
        Guard g;
        S->rw.erase(l);
    }
    return r(l, a);
}
static int rwlock(void* l, bool w) {
    Guard g;
    point(true);
    int me = S->cur->id;
    auto ok = [l, w, me]() {
        Rw& x = S->rw[l];
        return w ? (x.writer < 0 && x.readers == 0) : x.writer < 0;
    };
    while (!ok()) {
        Th* t   = S->cur;
        t->st   = Th::Pred;
        t->pred = ok;
        t->why  = "rwlock";
        int nn = t->noyield; t->noyield = 0;
        point(true);
        t->noyield = nn;
        t->st = Th::Run;
    }
    if (w) {
        S->rw[l].writer = me;
    }
    else {
        S->rw[l].readers++;
    }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!on()) {
        static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
        return Active.load() ? 0 : r(l);
    }
    return rwlock(l, false);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!on()) {
        static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
        return Active.load() ? 0 : r(l);
    }
    return rwlock(l, true);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!on()) {
        static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
        return Active.load() ? 0 : r(l);
    }
    Guard g;
    Rw& x = S->rw[l];
    if (x.writer >= 0) {
        x.writer = -1;
    }
    else if (x.readers > 0) {
        x.readers--;
    }
    point(true);
    return 0;
}

int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    static auto r =
        real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!on()) {
        return r(p, a, fn, arg);
    }
    Guard g;
    point(true);
    Th* t   = new Th;
    t->id   = int(S->ths.size());
    t->prio = 1000 + pick(1000);
    int det = 0;
    if (a) {
        pthread_attr_getdetachstate(a, &det);
        t->detached = det == PTHREAD_CREATE_DETACHED;
    }
    Start* st = (Start*)malloc(sizeof(Start));
    st->fn    = fn;
    st->arg   = arg;
    st->th    = t;
    S->ths.push_back(t);
    int rc = r(&t->pth, a, trampoline, st);
    if (rc) {
        S->ths.pop_back();
        return rc;
    }
    *p = t->pth;
    point(true);
    return 0;
}
static Th* find(pthread_t p) {
    for (auto i = S->ths.rbegin(); i != S->ths.rend(); ++i) {
        if ((*i)->id != 0 && pthread_equal((*i)->pth, p)) {
            return *i;
        }
    }
    return nullptr;
}
int pthread_join(pthread_t p, void** ret) {
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
    if (!on()) {
        return r(p, ret);
    }
    {
        Guard g;
        point(true);
        Th* t = find(p);
        if (!t) {
            return ESRCH;
        }
        Th* me = S->cur;
        while (t->st != Th::Done) {
            me->st  = Th::Join;
            me->obj = t;
            me->why = "join";
            int nn = me->noyield; me->noyield = 0;
            point(true);
            me->noyield = nn;
            me->st = Th::Run;
        }
        return r(p, ret);
    }
}
int pthread_detach(pthread_t p) {
    static auto r = real<int (*)(pthread_t)>("pthread_detach");
    return r(p);
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    static auto r = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
    if (!on()) {
        return r(o, fn);
    }
    {
        Guard g;
        point(true);
        if (*o == 2) {
            return 0;
        }
        Th* me = S->cur;
        while (S->once.count(o)) {
            me->st   = Th::Pred;
            me->pred = [o]() { return !S->once.count(o); };
            me->why  = "once";
            point(true);
            me->st = Th::Run;
            if (*o == 2) {
                return 0;
            }
        }
        S->once[o] = true;
    }
    fn();
    {
        Guard g;
        *o = 2;
        S->once.erase(o);
    }
    return 0;
}

int __cxa_guard_acquire(long long* gp) {
    char* b = (char*)gp;
    if (!on()) {
        if (Active.load(std::memory_order_relaxed)) {
            return b[0] ? 0 : 1;
        }
        static int (*r)(long long*) = nullptr;
        if (!r) {
            r = real<int (*)(long long*)>("__cxa_guard_acquire");
        }
        return r(gp);
    }
    Guard g;
    if (b[0]) {
        return 0;
    }
    Th* me = S->cur;
    while (S->guard.count(gp)) {
        me->st   = Th::Pred;
        me->pred = [gp]() { return !S->guard.count(gp); };
        me->why  = "guard";
        point(true);
        me->st = Th::Run;
        if (b[0]) {
            return 0;
        }
    }
    S->guard[gp] = true;
    return 1;
}
void __cxa_guard_release(long long* gp) {
    char* b = (char*)gp;
    if (Active.load(std::memory_order_relaxed)) {
        b[0] = 1;
        S->guard.erase(gp);
        return;
    }
    static void (*r)(long long*) = nullptr;
    if (!r) {
        r = real<void (*)(long long*)>("__cxa_guard_release");
    }
    r(gp);
}
void __cxa_guard_abort(long long* gp) {
    if (Active.load(std::memory_order_relaxed)) {
        S->guard.erase(gp);
        return;
    }
    static void (*r)(long long*) = nullptr;
    if (!r) {
        r = real<void (*)(long long*)>("__cxa_guard_abort");
    }
    r(gp);
}

int sched_yield() {
    if (on()) {
        Guard g;
        if (S->cfg.mode == vsched::Pct) {
            S->cur->prio = S->nextlow--;
        }
        point(true);
        return 0;
    }
    return int(syscall(SYS_sched_yield));
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (on()) {
        vsleep(a->tv_sec * 1000000000L + a->tv_nsec);
        return 0;
    }
    return int(syscall(SYS_nanosleep, a, b));
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* b) {
    if (on()) {
        long ns = (flags & TIMER_ABSTIME) ? rel(a, c) : a->tv_sec * 1000000000L + a->tv_nsec;
        vsleep(ns);
        return 0;
    }
    long rc = syscall(SYS_clock_nanosleep, c, flags, a, b);
    return rc ? errno : 0;
}
int usleep(useconds_t u) {
    struct timespec t = {time_t(u / 1000000), long(u % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) {
    struct timespec t = {time_t(s), 0};
    nanosleep(&t, nullptr);
    return 0;
}

//----------------------------------------------------------------------------------------------------------------------
// -fsanitize=thread instrumentation = preemption points

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                     \
    void __tsan_read##n(void*) { mem(false); }    \
    void __tsan_write##n(void*) { mem(true); }    \
    void __tsan_unaligned_read##n(void*) { mem(false); } \
    void __tsan_unaligned_write##n(void*) { mem(true); } \
    void __tsan_read_write##n(void*) { mem(true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
void __tsan_read_range(void*, unsigned long) { mem(false); }
void __tsan_write_range(void*, unsigned long) { mem(true); }
void __tsan_vptr_update(void**, void*) { mem(true); }
void __tsan_vptr_read(void**) { mem(false); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { mem(true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { mem(true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { mem(true); return memset(d, c, n); }

#define AT(bits, T)                                                                                              \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { atom(); return __atomic_load_n(a, 5); }              \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atom(); __atomic_store_n(a, v, 5); }              \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atom(); return __atomic_exchange_n(a, v, 5); }    \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atom(); return __atomic_fetch_add(a, v, 5); }    \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atom(); return __atomic_fetch_sub(a, v, 5); }    \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atom(); return __atomic_fetch_and(a, v, 5); }    \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atom(); return __atomic_fetch_or(a, v, 5); }      \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atom(); return __atomic_fetch_xor(a, v, 5); }    \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { atom(); return __atomic_fetch_nand(a, v, 5); }  \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) {                      \
        atom(); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); }                                          \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) {                        \
        atom(); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); }                                          \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) {                            \
        atom(); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
#undef AT
void __tsan_atomic_thread_fence(int) { atom(); }
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"
