// The seams: every nondeterministic call the real code (and the libraries under it) makes lands here.
// Symbols defined in the executable pre-empt the ones of libc / libstdc++ / libompl.
#include "core.h"

#include <ompl/util/RandomNumbers.h>

#include <cerrno>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <memory>
#include <new>
#include <pthread.h>
#include <random>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace sim;

template <class F>
static F realFn(F& slot, const char* name) {
    if (!slot) slot = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    return slot;
}
#define REAL(ret, name, ...) \
    typedef ret (*name##_t)(__VA_ARGS__); \
    static name##_t real_##name = nullptr;

// ================================================================ clock
static int64_t rawClock(clockid_t id) {
    struct timespec ts;
    syscall(SYS_clock_gettime, id, &ts);
    return int64_t(ts.tv_sec) * 1000000000LL + ts.tv_nsec;
}
static const long kWork = 300;  // allocations that make a stretch of work worth a step
static int64_t simClock(bool wall) {
    long idx = S.readN++;
    S.st.clockReads++;
    if (S.clockLimit >= 0 && S.st.clockReads > S.clockLimit && S.onBudget) S.onBudget();
    // Work costs time: the step and any stall are charged to the work done since the previous reading.
    // Two readings with (almost) no work between them are nanoseconds apart.
    if (S.allocN - S.allocsAtRead >= kWork) {
        long ph = S.phase++;
        S.mono += int64_t(S.stepHi > S.stepLo ? S.clockRng.logUni(S.stepLo, S.stepHi) : S.stepLo);
        for (auto& j : S.stalls)
            if (j.first == ph) { S.mono += int64_t(j.second * 1e9); S.st.fault[F_SLOW]++; }
    } else {
        S.mono += int64_t(S.clockRng.uni(20, 80));
    }
    S.allocsAtRead = S.allocN;
    for (auto& j : S.jumps)
        if (j.first == idx) { S.wallOffset += int64_t(j.second * 1e9); S.st.fault[F_CLOCK_JUMP]++; }
    int64_t v = S.mono + (wall ? S.wallBase + S.wallOffset : 1000000000000LL);
    if (S.granularity > 0) v -= v % S.granularity;
    ev(wall ? "wall" : "mono", uint64_t(v));
    if (S.onClock) { Quiet q; S.onClock(); }
    sched::yieldPoint("clock");
    return v;
}
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    return time_point(duration(seamOn() ? simClock(true) : rawClock(CLOCK_REALTIME)));
}
steady_clock::time_point steady_clock::now() noexcept {
    return time_point(duration(seamOn() ? simClock(false) : rawClock(CLOCK_MONOTONIC)));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std
extern "C" time_t time(time_t* t) {
    time_t v = time_t((seamOn() ? simClock(true) : rawClock(CLOCK_REALTIME)) / 1000000000LL);
    if (t) *t = v;
    return v;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
    int64_t v;
    if (!seamOn()) return int(syscall(SYS_clock_gettime, id, ts));
    v = simClock(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE);
    ts->tv_sec = v / 1000000000LL;
    ts->tv_nsec = v % 1000000000LL;
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
    int64_t v = seamOn() ? simClock(true) : rawClock(CLOCK_REALTIME);
    if (tv) { tv->tv_sec = v / 1000000000LL; tv->tv_usec = (v / 1000) % 1000000; }
    return 0;
}
extern "C" clock_t clock(void) {
    int64_t v = seamOn() ? simClock(false) : rawClock(CLOCK_PROCESS_CPUTIME_ID);
    return clock_t(v / 1000);
}

// ================================================================ randomness
namespace {
struct RandState { uint64_t s = 0; bool init = false; uint64_t rngCount = 0; };
RandState gRand[64];
RandState& rs() { return gRand[sched::self() & 63]; }
}  // namespace
namespace sim { void resetRand() { for (auto& r : gRand) r = RandState(); } }
extern "C" int rand(void) {
    if (!seamOn()) { static uint64_t q = 12345; q = mix64(q); return int(q >> 33); }
    RandState& r = rs();
    if (!r.init) { r.s = mix64(S.randSeed + uint64_t(sched::self()) * 77); r.init = true; }
    r.s += 0x9e3779b97f4a7c15ULL;
    uint64_t v = mix64(r.s);
    int out = int(v >> 33);
    if (S.randEdge > 0 && double((v & 0xffffff)) / 16777216.0 < S.randEdge) {
        out = (v & (1 << 25)) ? RAND_MAX : 0;
        S.st.fault[F_RAND_EDGE]++;
    }
    S.st.randDraws++;
    ev("rand", uint64_t(out));
    return out;
}
extern "C" void srand(unsigned s) {
    if (!seamOn()) return;
    RandState& r = rs();
    r.init = true;
    r.s = mix64(uint64_t(s) * 0x100000001b3ULL + 17);
    ev("srand", s);
}
extern "C" long random(void) { return rand(); }
extern "C" void srandom(unsigned s) { srand(s); }
static uint64_t nextStreamSeed() {
    RandState& r = rs();
    uint64_t v = mix64(S.randSeed ^ (uint64_t(sched::self()) << 40) ^ (++r.rngCount * 0x9e3779b1ULL));
    S.st.randDraws++;
    ev("seed", v);
    return v;
}
ompl::RNG::RNG()
    : RNG(std::uint_fast32_t((seamOn() ? nextStreamSeed() : 1) % 0x7fffffffULL + 1)) {}
unsigned int std::random_device::_M_getval() { return unsigned(seamOn() ? nextStreamSeed() : 4); }

// ================================================================ allocator
REAL(void*, malloc, size_t)
static void allocStep(size_t n, bool& fail) {
    fail = false;
    long idx = S.st.allocs++;
    S.allocN++;
    S.mono += int64_t(S.allocCost);
    if (S.allocFailAt >= 0 && idx >= S.allocFailAt && idx < S.allocFailAt + S.allocFailLen) {
        fail = true;
        S.st.fault[F_ALLOC]++;
        ev("allocfail", uint64_t(idx), n);
        return;
    }
    if (S.allocLimit >= 0 && idx >= S.allocLimit && S.onBudget) S.onBudget();
    if (S.preemptAlloc) sched::yieldPoint("alloc");
}
static void* newImpl(size_t n, size_t al, bool nothrow) {
    if (seamOn()) {
        bool fail;
        allocStep(n, fail);
        if (fail) {
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    void* p = nullptr;
    if (al <= 16) p = realFn(real_malloc, "malloc")(n ? n : 1);
    else if (posix_memalign(&p, al, n ? n : 1) != 0) p = nullptr;
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return newImpl(n, 0, false); }
void* operator new[](size_t n) { return newImpl(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return newImpl(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return newImpl(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return newImpl(n, size_t(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return newImpl(n, size_t(a), false); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
// malloc called directly by the code under test (Eigen's storage): linked with --wrap=malloc
extern "C" void* __wrap_malloc(size_t n) {
    if (seamOn()) {
        bool fail;
        allocStep(n, fail);
        if (fail) { errno = ENOMEM; return nullptr; }
    }
    return realFn(real_malloc, "malloc")(n);
}

// ================================================================ cooperative threads
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
REAL(int, pthread_join, pthread_t, void**)
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
REAL(int, pthread_cond_signal, pthread_cond_t*)
REAL(int, pthread_cond_broadcast, pthread_cond_t*)
REAL(int, nanosleep, const struct timespec*, struct timespec*)

namespace {
enum TS { T_RUN, T_MUTEX, T_COND, T_JOIN, T_SLEEP, T_DONE };
struct SThread {
    TS st = T_DONE;
    void* on = nullptr;      // mutex / cond / joined thread index
    int64_t wake = -1;       // simulated deadline (mono ns), -1 none
    bool timedOut = false;
    int baton = 0;           // futex word
    pthread_t real{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    int joinTarget = -1;
    ClockState clock;
};
SThread T[64];
int nT = 1;
int cur = 0;
uint64_t gOrder = 0;
thread_local int tSelf = 0;
std::vector<ClockState> gClocks;
thread_local bool tInSched = false;

void futexWait(int* w) {
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
void futexWake(int* w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
bool runnable(int i) {
    SThread& t = T[i];
    if (t.st == T_RUN) return true;
    if (t.st == T_JOIN && T[t.joinTarget].st == T_DONE) return true;
    if (t.wake >= 0 && t.wake <= S.mono && (t.st == T_SLEEP || t.st == T_COND)) return true;
    return false;
}
// choose and hand over; returns when this thread is scheduled again (unless finished)
void switchAway(bool finished) {
    int self = tSelf;
    for (;;) {
        int cand[64], n = 0;
        for (int i = 0; i < nT; ++i) if (runnable(i)) cand[n++] = i;
        if (n == 0) {
            int64_t best = -1;
            for (int i = 0; i < nT; ++i)
                if (T[i].st != T_DONE && T[i].wake >= 0 && (best < 0 || T[i].wake < best)) best = T[i].wake;
            if (best < 0) {  // deadlock
                if (S.onBudget) S.onBudget();
                _exit(79);
            }
            S.mono = best;  // nothing can run: jump to the next timer
            continue;
        }
        int pick = cand[S.schedRng.below(n)];
        SThread& t = T[pick];
        if (t.st == T_COND || t.st == T_SLEEP) { t.timedOut = true; }
        t.st = T_RUN;
        t.wake = -1;
        if (pick == self && !finished) return;
        S.st.switches++;
        gOrder = mix64(gOrder ^ uint64_t(pick + 1));
        ev("switch", uint64_t(pick));
        cur = pick;
        if (S.threadClocks) {
            Quiet q;
            T[self].clock = S;
            static_cast<ClockState&>(S) = T[pick].clock;
        }
        futexWake(&T[pick].baton);
        if (finished) return;
        futexWait(&T[self].baton);
        return;
    }
}
void* tramp(void* p) {
    SThread* t = static_cast<SThread*>(p);
    tSelf = int(t - T);
    futexWait(&t->baton);
    void* r = t->fn(t->arg);
    tInSched = true;
    t->st = T_DONE;
    switchAway(true);
    return r;
}
bool simThreads() { return S.active && !tInSched && seamOn(); }
struct InSched { InSched() { tInSched = true; } ~InSched() { tInSched = false; } };
}  // namespace
namespace sim {
namespace sched {
void reset() {
    for (auto& t : T) t = SThread();
    nT = 1; cur = 0; gOrder = 0; tSelf = 0;
    T[0].st = T_RUN;
    resetRand();
}
int self() { return tSelf; }
uint64_t order() { return gOrder; }
void yieldPoint(const char*) {
    if (nT <= 1 || !simThreads()) return;
    if (!S.schedRng.chance(S.preemptProb)) return;
    InSched g;
    S.st.fault[F_PREEMPT]++;
    switchAway(false);
}
static void* bodyTramp(void* p) { (*static_cast<std::function<void()>*>(p))(); return nullptr; }
void runThreads(const std::vector<std::function<void()>>& bodies) {
    std::vector<pthread_t> th(bodies.size());
    { Quiet q; }
    for (size_t i = 0; i < bodies.size(); ++i)
        pthread_create(&th[i], nullptr, bodyTramp, const_cast<std::function<void()>*>(&bodies[i]));
    for (auto& t : th) pthread_join(t, nullptr);
}
void runThreads(const std::vector<std::function<void()>>& bodies, const std::vector<ClockState>& clocks) {
    { Quiet q; gClocks.assign(1, ClockState()); gClocks.insert(gClocks.end(), clocks.begin(), clocks.end()); }
    S.threadClocks = true;
    runThreads(bodies);
    S.threadClocks = false;
    Quiet q;
    gClocks.clear();
}
}  // namespace sched
}  // namespace sim

extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    realFn(real_pthread_create, "pthread_create");
    if (!simThreads()) return real_pthread_create(t, a, f, arg);
    int id;
    {
        InSched g;
        id = nT++;
        if (id >= 64) _exit(80);
        T[id] = SThread();
        T[id].st = T_RUN;
        if (id < int(gClocks.size())) T[id].clock = gClocks[size_t(id)];
        T[id].fn = f;
        T[id].arg = arg;
        S.st.threads++;
        ev("thread", uint64_t(id));
        int rc = real_pthread_create(&T[id].real, a, tramp, &T[id]);
        if (rc) return rc;
        *t = T[id].real;
    }
    sched::yieldPoint("create");
    return 0;
}
extern "C" int pthread_join(pthread_t t, void** r) {
    realFn(real_pthread_join, "pthread_join");
    if (simThreads()) {
        int target = -1;
        for (int i = 1; i < nT; ++i) if (T[i].fn && pthread_equal(T[i].real, t)) target = i;
        if (target >= 0) {
            InSched g;
            if (T[target].st != T_DONE) {
                T[tSelf].st = T_JOIN;
                T[tSelf].joinTarget = target;
                switchAway(false);
            }
        }
    }
    return real_pthread_join(t, r);
}
static int simLock(pthread_mutex_t* m) {
    realFn(real_pthread_mutex_trylock, "pthread_mutex_trylock");
    for (;;) {
        int rc = real_pthread_mutex_trylock(m);
        if (rc != EBUSY) return rc;
        InSched g;
        T[tSelf].st = T_MUTEX;
        T[tSelf].on = m;
        switchAway(false);
    }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!simThreads() || nT <= 1) return realFn(real_pthread_mutex_lock, "pthread_mutex_lock")(m);
    sched::yieldPoint("lock");
    return simLock(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
    int rc = realFn(real_pthread_mutex_unlock, "pthread_mutex_unlock")(m);
    if (S.active && nT > 1) {
        for (int i = 0; i < nT; ++i) if (T[i].st == T_MUTEX && T[i].on == m) T[i].st = T_RUN;
        if (simThreads()) sched::yieldPoint("unlock");
    }
    return rc;
}
static int simCondWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t wake) {
    pthread_mutex_unlock(m);
    bool to;
    {
        InSched g;
        T[tSelf].st = T_COND;
        T[tSelf].on = c;
        T[tSelf].wake = wake;
        T[tSelf].timedOut = false;
        switchAway(false);
        to = T[tSelf].timedOut;
    }
    simLock(m);
    return to ? ETIMEDOUT : 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!simThreads() || nT <= 1) return realFn(real_pthread_cond_wait, "pthread_cond_wait")(c, m);
    return simCondWait(c, m, -1);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    int64_t v = int64_t(ts->tv_sec) * 1000000000LL + ts->tv_nsec;
    return simCondWait(c, m, v - S.wallBase - S.wallOffset);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
    int64_t v = int64_t(ts->tv_sec) * 1000000000LL + ts->tv_nsec;
    return simCondWait(c, m, id == CLOCK_MONOTONIC ? v - 1000000000000LL : v - S.wallBase - S.wallOffset);
}
static void condWake(pthread_cond_t* c, bool all) {
    int w[64], n = 0;
    for (int i = 0; i < nT; ++i) if (T[i].st == T_COND && T[i].on == c) w[n++] = i;
    if (!n) return;
    if (all) { for (int k = 0; k < n; ++k) { T[w[k]].st = T_RUN; T[w[k]].wake = -1; } }
    else { int k = w[S.schedRng.below(n)]; T[k].st = T_RUN; T[k].wake = -1; }
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) {
    if (!S.active || nT <= 1) return realFn(real_pthread_cond_signal, "pthread_cond_signal")(c);
    condWake(c, false);
    sched::yieldPoint("signal");
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!S.active || nT <= 1) return realFn(real_pthread_cond_broadcast, "pthread_cond_broadcast")(c);
    condWake(c, true);
    sched::yieldPoint("broadcast");
    return 0;
}
static int simSleep(int64_t ns) {
    if (ns < 0) ns = 0;
    InSched g;
    T[tSelf].st = T_SLEEP;
    T[tSelf].wake = S.mono + ns;
    ev("sleep", uint64_t(ns));
    switchAway(false);
    return 0;
}
extern "C" int nanosleep(const struct timespec* a, struct timespec* b) {
    if (!simThreads()) return int(syscall(SYS_nanosleep, a, b));
    return simSleep(int64_t(a->tv_sec) * 1000000000LL + a->tv_nsec);
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const struct timespec* a, struct timespec* b) {
    if (!simThreads()) return int(syscall(SYS_clock_nanosleep, id, flags, a, b));
    int64_t v = int64_t(a->tv_sec) * 1000000000LL + a->tv_nsec;
    if (flags & TIMER_ABSTIME) v -= (id == CLOCK_MONOTONIC ? 1000000000000LL : S.wallBase + S.wallOffset) + S.mono;
    return simSleep(v);
}
extern "C" int usleep(useconds_t us) {
    struct timespec ts = {time_t(us / 1000000), long(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
extern "C" int sched_yield(void) {
    if (simThreads() && nT > 1) { InSched g; switchAway(false); return 0; }
    return int(syscall(SYS_sched_yield));
}
// function-local statics: a second simulated thread must wait cooperatively, not in a real futex
extern "C" int __cxa_guard_acquire(char* g) {
    if (g[0]) return 0;
    while (g[1]) {
        if (nT > 1 && S.active && !tInSched) { InSched s; switchAway(false); }
        else break;
    }
    if (g[0]) return 0;
    g[1] = 1;
    return 1;
}
extern "C" void __cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; }
extern "C" void __cxa_guard_abort(char* g) { g[1] = 0; }

// ================================================================ virtual disk
namespace sim {
namespace vfs {
long opens = 0, reads = 0, writes = 0;
static std::map<std::string, std::string>& files() { static auto* f = new std::map<std::string, std::string>(); return *f; }
static std::vector<Fault>& faults() { static auto* f = new std::vector<Fault>(); return *f; }
struct H {
    FILE* f = nullptr;
    int fd = -1;
    std::string* path = nullptr;
    size_t pos = 0;
    bool wr = false, app = false, err = false, eof = false;
    size_t lim = size_t(-1);   // a torn copy of the file: what this handle sees of it
};
static H h[64];
void reset() { faults().clear(); opens = reads = writes = 0; for (auto& x : h) { if (x.f) { } x = H(); } }
void put(const std::string& p, const std::string& b) { Quiet q; files()[p] = b; }
bool exists(const std::string& p) { return files().count(p) != 0; }
std::string get(const std::string& p) { auto i = files().find(p); return i == files().end() ? std::string() : i->second; }
void remove(const std::string& p) { Quiet q; files().erase(p); }
void addFault(const Fault& f) { Quiet q; faults().push_back(f); }
void clearFaults() { Quiet q; faults().clear(); }
int openNow() { int n = 0; for (auto& x : h) n += x.f != nullptr; return n; }
long fired() { long n = 0; for (auto& f : faults()) n += f.done; return n; }
std::vector<std::string> list() { std::vector<std::string> v; for (auto& f : files()) v.push_back(f.first); return v; }
void loadReal(const std::string& rd, const std::string& sd) {
    Quiet q;
    DIR* d = opendir(rd.c_str());
    if (!d) return;
    std::vector<std::string> names;
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
        std::string p = rd + "/" + n;
        struct stat sb;
        if (stat(p.c_str(), &sb)) continue;
        if (S_ISDIR(sb.st_mode)) { loadReal(p, sd + "/" + n); continue; }
        if (sb.st_size > 4000000) continue;
        std::string bytes;
        int fd = int(syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0));
        if (fd < 0) continue;
        char buf[65536];
        long k;
        while ((k = syscall(SYS_read, fd, buf, sizeof buf)) > 0) bytes.append(buf, size_t(k));
        syscall(SYS_close, fd);
        files()[sd + "/" + n] = bytes;
    }
}
void dropVolatile(uint64_t) {}

// returns the kind of an armed fault that fires for this operation
static Fault* fire(const std::string& path, const char* op) {
    for (auto& f : faults()) {
        if (f.kind.compare(0, strlen(op), op) != 0) continue;
        if (!f.pathSub.empty() && f.pathSub != "*" && path.find(f.pathSub) == std::string::npos) continue;
        long n = f.seen++;
        bool persistent = f.arg < 0;
        if (n == f.nth || (persistent && n >= f.nth)) { f.done = true; return &f; }
    }
    return nullptr;
}
static H* byFile(FILE* f) { if (f) for (auto& x : h) if (x.f == f) return &x; return nullptr; }
static H* byFd(int fd) { if (fd >= 0) for (auto& x : h) if (x.f && x.fd == fd) return &x; return nullptr; }
static bool ours(const char* p) { return S.active && p && strncmp(p, "/simfs/", 7) == 0; }

static FILE* doOpen(const char* path, const char* mode, FILE* (*rf)(const char*, const char*)) {
    Quiet q;
    ++opens; ++S.st.ioOps;
    std::string p(path);
    ev("open", mix64(std::hash<std::string>()(p)), uint64_t(mode[0]));
    bool wr = strpbrk(mode, "wa+") != nullptr;
    if (Fault* f = fire(p, "open")) {
        if (f->kind == "open_emfile") { S.st.fault[F_OPEN_EMFILE]++; errno = EMFILE; }
        else { S.st.fault[F_OPEN_ENOENT]++; errno = ENOENT; }
        return nullptr;
    }
    bool there = files().count(p) != 0;
    if (!there && mode[0] == 'r') { errno = ENOENT; return nullptr; }
    if (!S.crashed) {
        if (mode[0] == 'w') files()[p] = "";
        else if (!there) files()[p] = "";
    }
    FILE* f = rf("/dev/null", "r+");
    if (!f) return nullptr;
    for (auto& x : h)
        if (!x.f) {
            x = H();
            x.f = f; x.fd = fileno(f); x.path = new std::string(p); x.wr = wr; x.app = mode[0] == 'a';
            if (!wr) if (Fault* t = fire(p, "torn")) { S.st.fault[F_TORN_FILE]++; x.lim = size_t(std::labs(t->arg)); ev("torn", x.lim); }
            if (x.app) x.pos = files()[p].size();
            return f;
        }
    _exit(81);
}
static ssize_t doRead(H* x, void* buf, size_t n, bool raw) {
    Quiet q;
    ++reads; ++S.st.ioOps;
    const std::string p = *x->path;
    auto it = files().find(p);
    const std::string empty;
    const std::string& d = it == files().end() ? empty : it->second;
    size_t all = std::min(d.size(), x->lim);
    size_t left = x->pos < all ? all - x->pos : 0;
    size_t k = n < left ? n : left;
    if (Fault* f = fire(p, "read")) {
        if (f->kind == "read_eio") { S.st.fault[F_READ_EIO]++; x->err = true; errno = EIO; ev("rd-eio", 0); return -1; }
        if (f->kind == "read_eintr" && raw) { S.st.fault[F_READ_EINTR]++; errno = EINTR; ev("rd-eintr", 0); return -1; }
        if (f->kind == "read_short" && k > 1) {
            S.st.fault[F_READ_SHORT]++;
            size_t lim = size_t(f->arg < 0 ? -f->arg : f->arg);
            if (raw || true) k = lim < 1 ? 1 : (lim < k ? lim : k);
        }
    }
    memcpy(buf, d.data() + x->pos, k);
    x->pos += k;
    if (k < n) x->eof = x->pos >= all;
    ev("read", k, x->pos);
    return ssize_t(k);
}
static ssize_t doWrite(H* x, const void* buf, size_t n) {
    Quiet q;
    ++writes; ++S.st.ioOps;
    const std::string p = *x->path;
    if (S.crashed) return ssize_t(n);
    size_t k = n;
    int err = 0;
    if (Fault* f = fire(p, "write")) {
        if (f->kind == "write_enospc") { S.st.fault[F_WRITE_ENOSPC]++; k = size_t(std::labs(f->arg)); if (k >= n) k = 0; if (k == 0) err = ENOSPC; else { f->nth = f->seen; f->arg = -1 ; } }
        else if (f->kind == "write_eio") { S.st.fault[F_WRITE_EIO]++; err = EIO; }
        else if (f->kind == "write_short") { S.st.fault[F_WRITE_SHORT]++; k = size_t(f->arg); if (k < 1) k = 1; if (k > n) k = n; }
        else if (f->kind == "write_crash") {
            S.st.fault[F_CRASH]++;
            k = size_t(f->arg) < n ? size_t(f->arg) : n;
            std::string& d = files()[p];
            d.resize(x->pos < d.size() ? x->pos : d.size());
            d.append(static_cast<const char*>(buf), k);
            x->pos += n;
            S.crashed = true;
            ev("crash", k);
            return ssize_t(n);
        }
    }
    if (err) { errno = err; x->err = true; ev("wr-err", uint64_t(err)); return -1; }
    std::string& d = files()[p];
    if (x->pos > d.size()) d.resize(x->pos, '\0');
    d.replace(x->pos, k, static_cast<const char*>(buf), k);
    x->pos += k;
    ev("write", k, x->pos);
    return ssize_t(k);
}
}  // namespace vfs
}  // namespace sim

REAL(FILE*, fopen, const char*, const char*)
REAL(FILE*, fopen64, const char*, const char*)
REAL(int, fclose, FILE*)
REAL(size_t, fread, void*, size_t, size_t, FILE*)
REAL(size_t, fwrite, const void*, size_t, size_t, FILE*)
REAL(int, fgetc, FILE*)
REAL(int, fseek, FILE*, long, int)
REAL(long, ftell, FILE*)
REAL(int, ferror, FILE*)
REAL(int, feof, FILE*)
REAL(int, fflush, FILE*)
REAL(int, rename, const char*, const char*)
REAL(int, unlink, const char*)
REAL(int, remove, const char*)
REAL(off_t, lseek, int, off_t, int)
using vfs::byFd; using vfs::byFile;

extern "C" FILE* fopen(const char* p, const char* m) {
    realFn(real_fopen, "fopen");
    return vfs::ours(p) && seamOn() ? vfs::doOpen(p, m, real_fopen) : real_fopen(p, m);
}
extern "C" FILE* fopen64(const char* p, const char* m) {
    realFn(real_fopen64, "fopen64");
    return vfs::ours(p) && seamOn() ? vfs::doOpen(p, m, real_fopen64) : real_fopen64(p, m);
}
extern "C" int fclose(FILE* f) {
    realFn(real_fclose, "fclose");
    int rc = 0;
    if (auto* x = byFile(f)) {
        Quiet q;
        ++S.st.ioOps;
        if (x->wr)
            if (vfs::fire(*x->path, "close")) { S.st.fault[F_CLOSE_ERR]++; rc = -1; }
        ev("close", uint64_t(rc + 1));
        delete x->path;
        *x = vfs::H();
        real_fclose(f);
        if (rc) errno = EIO;
        return rc;
    }
    return real_fclose(f);
}
extern "C" ssize_t read(int fd, void* b, size_t n) {
    if (auto* x = byFd(fd)) return vfs::doRead(x, b, n, true);
    return syscall(SYS_read, fd, b, n);
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
    if (auto* x = byFd(fd)) return vfs::doWrite(x, b, n);
    return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
    if (auto* x = byFd(fd)) {
        ssize_t tot = 0;
        for (int i = 0; i < c; ++i) {
            if (!v[i].iov_len) continue;
            ssize_t k = vfs::doWrite(x, v[i].iov_base, v[i].iov_len);
            if (k < 0) return tot ? tot : -1;
            tot += k;
            if (size_t(k) < v[i].iov_len) break;
        }
        return tot;
    }
    return syscall(SYS_writev, fd, v, c);
}
static off_t seekImpl(vfs::H* x, off_t o, int w) {
    size_t sz = std::min(vfs::get(*x->path).size(), x->lim);
    off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? off_t(x->pos) : off_t(sz);
    if (b + o < 0) { errno = EINVAL; return -1; }
    x->pos = size_t(b + o);
    x->eof = false;
    return off_t(x->pos);
}
extern "C" off_t lseek(int fd, off_t o, int w) {
    if (auto* x = byFd(fd)) return seekImpl(x, o, w);
    return syscall(SYS_lseek, fd, o, w);
}
extern "C" off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
extern "C" int fseek(FILE* f, long o, int w) {
    if (auto* x = byFile(f)) return seekImpl(x, o, w) < 0 ? -1 : 0;
    return realFn(real_fseek, "fseek")(f, o, w);
}
extern "C" int fseeko(FILE* f, off_t o, int w) { return fseek(f, o, w); }
extern "C" int fseeko64(FILE* f, off_t o, int w) { return fseek(f, o, w); }
extern "C" long ftell(FILE* f) {
    if (auto* x = byFile(f)) return long(x->pos);
    return realFn(real_ftell, "ftell")(f);
}
extern "C" off_t ftello(FILE* f) { return ftell(f); }
extern "C" off_t ftello64(FILE* f) { return ftell(f); }
extern "C" size_t fread(void* b, size_t s, size_t n, FILE* f) {
    if (auto* x = byFile(f)) {
        if (!s || !n) return 0;
        size_t want = s * n, got = 0;
        while (got < want) {  // stdio retries short reads
            ssize_t k = vfs::doRead(x, static_cast<char*>(b) + got, want - got, false);
            if (k <= 0) break;
            got += size_t(k);
            if (x->eof) break;
        }
        return got / s;
    }
    return realFn(real_fread, "fread")(b, s, n, f);
}
extern "C" size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
    if (auto* x = byFile(f)) {
        ssize_t k = vfs::doWrite(x, b, s * n);
        return k < 0 ? 0 : size_t(k) / (s ? s : 1);
    }
    return realFn(real_fwrite, "fwrite")(b, s, n, f);
}
extern "C" int fgetc(FILE* f) {
    if (auto* x = byFile(f)) {
        unsigned char c;
        return vfs::doRead(x, &c, 1, false) == 1 ? c : EOF;
    }
    return realFn(real_fgetc, "fgetc")(f);
}
extern "C" int ferror(FILE* f) {
    if (auto* x = byFile(f)) return x->err;
    return realFn(real_ferror, "ferror")(f);
}
extern "C" int feof(FILE* f) {
    if (auto* x = byFile(f)) return x->eof;
    return realFn(real_feof, "feof")(f);
}
extern "C" int fflush(FILE* f) {
    if (byFile(f)) return 0;
    return realFn(real_fflush, "fflush")(f);
}
extern "C" int rename(const char* a, const char* b) {
    if (vfs::ours(a)) {
        Quiet q;
        if (S.crashed) return 0;
        ++S.st.ioOps;
        if (!vfs::exists(a)) { errno = ENOENT; return -1; }
        vfs::put(b, vfs::get(a));
        vfs::remove(a);
        return 0;
    }
    return realFn(real_rename, "rename")(a, b);
}
extern "C" int unlink(const char* a) {
    if (vfs::ours(a)) { if (!S.crashed) vfs::remove(a); return 0; }
    return realFn(real_unlink, "unlink")(a);
}
extern "C" int remove(const char* a) {
    if (vfs::ours(a)) { if (!S.crashed) vfs::remove(a); return 0; }
    return realFn(real_remove, "remove")(a);
}
