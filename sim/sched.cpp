#include "sched.hpp"
#include "seams.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <algorithm>
#include <exception>
#include <cmath>

extern "C" char __data_start, _end;
namespace sim { namespace sched {
static const int MAXT = 8;
static bool active = false;
static thread_local int t_id = -1;
static int nthreads = 0, current = -1;
static sem_t sems[MAXT], exits[MAXT], doneSem;
static bool finished[MAXT];
static Policy pol; static Result* res = nullptr; static Rng rng(1);
static int prio[MAXT]; static std::vector<uint64_t> changes; static size_t nextChange = 0, nextList = 0;
static uint64_t acc = 0, leaveAt = ~0ull, backAt = ~0ull, own[MAXT];
static uintptr_t stackLo[MAXT], stackHi[MAXT];
// conflict table: who touched which 8-byte word last, and whether it was written by someone
struct Cell { uintptr_t key; int8_t last; bool written; uint16_t writes; int8_t writer; uint64_t at; };
static const size_t NC = 1 << 16; static Cell* cells = nullptr;

int self() { return t_id; }
bool managed() { return active && t_id >= 0; }

static int pickOther(int me) {
    int c[MAXT], n = 0;
    for (int i = 0; i < nthreads; ++i) if (i != me && !finished[i]) c[n++] = i;
    return n ? c[rng.below(n)] : -1;
}
static void switchTo(int to) {
    int me = t_id; if (to == me || to < 0) return;
    { SimScope s; res->switches.push_back({acc, to}); }
    current = to; sem_post(&sems[to]); 
    if (me >= 0 && !finished[me]) while (sem_wait(&sems[me])) {}
}
static int highest() {
    int b = -1; for (int i = 0; i < nthreads; ++i) if (!finished[i] && (b < 0 || prio[i] > prio[b])) b = i; return b;
}
static inline void point(uintptr_t a, bool w) {
    ++acc;
    int me = t_id;
    if (pol.kind == "list") {
        while (nextList < pol.list.size() && pol.list[nextList].first < acc) ++nextList;
        if (nextList < pol.list.size() && pol.list[nextList].first == acc) {
            int to = pol.list[nextList++].second; if (to < nthreads && !finished[to]) switchTo(to);
        }
        return;
    }
    bool conflict = false, hot = false; ++own[me];
    // only addresses which are the same in every run take part: program image, memory region, thread stacks
    if (a < 0x190000000000ull && (a < stackLo[me] || a >= stackHi[me])) {
        Cell& c = cells[((a >> 3) * 0x9E3779B97F4A7C15ull) >> 48];
        if (c.key == (a >> 3)) {
            if (c.last != me && (c.written || w)) { conflict = true; ++res->conflicts; }
            hot = c.written && c.writer != me && own[c.writer] - c.at < 20000;
            c.last = (int8_t)me; c.written |= w; if (w) { c.writer = (int8_t)me; c.at = own[me]; }
        } else c = {a >> 3, (int8_t)me, w, 0, (int8_t)me, own[me]};
        // a write to a variable of the program which is not the thread's own: somewhere soon after it the thread is left alone with it
        if (pol.kind == "global" && w && a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end && rng.chance(pol.prob * 16 / (16 + c.writes++))) leaveAt = acc + (rng.chance(.3) ? 1 : (uint64_t)exp(rng.below(1000) * .0085));
    }
    if (pol.kind == "pct") {
        if (nextChange < changes.size() && acc >= changes[nextChange]) { prio[me] = -(int)(++nextChange); int h = highest(); if (h != me) switchTo(h); }
        else if (conflict && rng.chance(pol.prob)) switchTo(pickOther(me));
        return;
    }
    if (pol.kind == "conflict") { if ((pol.depth % 2 ? hot : conflict) ? rng.chance(pol.prob) : rng.chance(0.00002)) switchTo(pickOther(me)); return; }
    if (pol.kind == "global") {
        if (acc >= leaveAt) { leaveAt = backAt = ~0ull; if (rng.chance(.5)) backAt = acc + (uint64_t)exp(rng.below(1000) * .013); switchTo(pickOther(me)); }
        else if (acc >= backAt || (hot && rng.chance(pol.prob))) { backAt = ~0ull; switchTo(pickOther(me)); }
        return;
    }
    if (pol.kind == "rand") { if (rng.chance(pol.prob)) switchTo(pickOther(me)); }
}
inline void access(uintptr_t a, bool w) {
    if (t_sut <= 0) return;
    if (++g_steps > g_budget) sim_on_budget();
    if (active && t_id >= 0) point(a, w);
}
static void leave() {          // the running thread is done
    int me = t_id; finished[me] = true;
    int to = -1;
    if (pol.kind == "pct") to = highest();
    else if (pol.kind == "list") {
        while (nextList < pol.list.size() && pol.list[nextList].first < acc) ++nextList;
        if (nextList < pol.list.size() && pol.list[nextList].first == acc && !finished[pol.list[nextList].second]) to = pol.list[nextList++].second;
        else for (int i = 0; i < nthreads; ++i) if (!finished[i]) { to = i; break; }
    } else to = pickOther(me);
    if (to < 0) for (int i = 0; i < nthreads; ++i) if (!finished[i]) { res->deadlock = true; to = -2; }
    if (to >= 0) { { SimScope s; res->switches.push_back({acc, to}); } current = to; sem_post(&sems[to]); }
    else { active = false; sem_post(&doneSem); }
}
struct Arg { int id; const std::function<void()>* f; };
static void* entry(void* v) {
    Arg* a = (Arg*)v; t_id = a->id;
    pthread_attr_t at; void* lo; size_t sz;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    stackLo[a->id] = (uintptr_t)lo; stackHi[a->id] = (uintptr_t)lo + sz; sem_post(&doneSem);
    while (sem_wait(&sems[a->id])) {}
    (*a->f)();
    leave(); t_id = -1;
    while (sem_wait(&exits[a->id])) {}        // thread-exit work of one thread at a time
    return nullptr;
}
Result run(const std::vector<std::function<void()>>& bodies, const Policy& p) {
    Result r; pol = p; res = &r; rng = Rng(p.seed); nthreads = (int)bodies.size(); acc = 0; nextChange = nextList = 0; leaveAt = backAt = ~0ull; memset(own, 0, sizeof own);
    if (!cells) cells = (Cell*)calloc(NC, sizeof(Cell)); else memset(cells, 0, NC * sizeof(Cell));
    changes.clear();
    for (int i = 0; i < nthreads; ++i) prio[i] = 100 + i;
    { std::vector<int> pr; for (int i = 0; i < nthreads; ++i) pr.push_back(100 + i); rng.shuffle(pr); for (int i = 0; i < nthreads; ++i) prio[i] = pr[i]; }
    for (int i = 0; i < p.depth; ++i) changes.push_back(1 + rng.below(p.horizon));
    std::sort(changes.begin(), changes.end());
    sem_init(&doneSem, 0, 0);
    pthread_t th[MAXT]; Arg ar[MAXT];
    for (int i = 0; i < nthreads; ++i) { sem_init(&sems[i], 0, 0); sem_init(&exits[i], 0, 0); finished[i] = false; ar[i] = {i, &bodies[i]}; }
    pthread_attr_t at; pthread_attr_init(&at); 
    for (int i = 0; i < nthreads; ++i) {        // stacks (and with them thread-local variables) at fixed addresses, one thread started at a time
        void* st = mmap((void*)(0x180000000000ull + (uintptr_t)i * (16 << 20)), 8 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        if (st == MAP_FAILED || pthread_attr_setstack(&at, st, 8 << 20) || pthread_create(&th[i], &at, entry, &ar[i])) _exit(97);
        while (sem_wait(&doneSem)) {}
    }
    int first = 0;
    if (p.kind == "pct") first = highest();
    else if (p.kind == "list") { if (!p.list.empty() && p.list[0].first == 0) { first = p.list[0].second; nextList = 1; } }
    else if (p.kind != "none") first = (int)rng.below(nthreads);
    r.switches.push_back({0, first});
    active = true; current = first; sem_post(&sems[first]);
    while (sem_wait(&doneSem)) {}
    for (int i = 0; i < nthreads; ++i) { sem_post(&exits[i]); pthread_join(th[i], nullptr); }
    r.accesses = acc; res = nullptr;
    return r;
}
// called when the running thread cannot go on until someone else did something
static void stall(const std::function<bool()>& ready) {
    int me = t_id; uint64_t at = ++acc; int idle = 0;      // a scheduling point of its own
    for (;;) {
        int to = -1;
        if (pol.kind == "list") {
            if (nextList < pol.list.size() && pol.list[nextList].first == acc) to = pol.list[nextList++].second;
            if (to < 0 || to == me || to >= nthreads || finished[to]) { to = -1; for (int k = 1; k < nthreads && to < 0; ++k) if (!finished[(me + k) % nthreads]) to = (me + k) % nthreads; }
        } else to = pickOther(me);
        if (to < 0 || (acc == at && ++idle > 2000)) { static const char m[] = "deadlock\n"; if (write(2, m, sizeof m - 1)) {} _exit(96); }
        if (acc != at) { at = acc; idle = 0; }
        switchTo(to);
        if (ready()) return;
    }
}

void yieldNow() {              // lets another thread go first, if there is one
    if (!managed()) return;
    bool other = false; for (int i = 0; i < nthreads; ++i) other = other || (i != t_id && !finished[i]);
    if (!other) return;
    int s = t_sut; t_sut = 0; stall([] { return true; }); t_sut = s;
}
// a thread which does nothing but look at one atomic variable waits for another one
static thread_local uintptr_t t_spinAt = 0; static thread_local uint64_t t_spinAcc = 0; static thread_local int t_spins = 0;
inline void spin(const volatile void* v) {
    if (t_sut <= 0 || !managed()) return;
    uintptr_t a = (uintptr_t)v;
    t_spins = a == t_spinAt && acc == t_spinAcc + 1 ? t_spins + 1 : 0; t_spinAt = a; t_spinAcc = acc;
    if (t_spins >= 100) { t_spins = 0; yieldNow(); }
}
void stallUntil(const std::function<bool()>& f) { int s = t_sut; t_sut = 0; stall(f); t_sut = s; }
}} // namespace

using namespace sim;
// ---------------------------------------------------------------- instrumentation callbacks (gcc -fsanitize=thread)
#define ACC(n, w) void __tsan_##n(void* a) { sched::access((uintptr_t)a, w); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
ACC(read1, false) ACC(read2, false) ACC(read4, false) ACC(read8, false) ACC(read16, false)
ACC(write1, true) ACC(write2, true) ACC(write4, true) ACC(write8, true) ACC(write16, true)
ACC(unaligned_read2, false) ACC(unaligned_read4, false) ACC(unaligned_read8, false) ACC(unaligned_read16, false)
ACC(unaligned_write2, true) ACC(unaligned_write4, true) ACC(unaligned_write8, true) ACC(unaligned_write16, true)
ACC(volatile_read1, false) ACC(volatile_read2, false) ACC(volatile_read4, false) ACC(volatile_read8, false) ACC(volatile_read16, false)
ACC(volatile_write1, true) ACC(volatile_write2, true) ACC(volatile_write4, true) ACC(volatile_write8, true) ACC(volatile_write16, true)
ACC(vptr_read, false)
void __tsan_vptr_update(void* a, void*) { sched::access((uintptr_t)a, true); }
void __tsan_read_range(void* a, unsigned long) { sched::access((uintptr_t)a, false); }
void __tsan_write_range(void* a, unsigned long) { sched::access((uintptr_t)a, true); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(N, T) \
T __tsan_atomic##N##_load(const volatile T* a, int) { sched::access((uintptr_t)a, false); sched::spin(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T* a, T v, int) { sched::access((uintptr_t)a, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { sched::access((uintptr_t)a, true); sched::spin(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { sched::access((uintptr_t)a, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { sched::access((uintptr_t)a, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { sched::access((uintptr_t)a, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { sched::access((uintptr_t)a, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { sched::access((uintptr_t)a, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { sched::access((uintptr_t)a, true); sched::spin(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { sched::access((uintptr_t)a, true); sched::spin(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)

// function-local statics: the guard must not block the only running thread
int __cxa_guard_acquire(long* g) {
    auto b = (volatile unsigned char*)g;             // byte 0: done (checked inline by the compiler), byte 1: in progress
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (!sched::managed()) { fprintf(stderr, "recursive static initialisation\n"); abort(); }
        sched::stallUntil([b] { return b[0] || !b[1]; });
    }
}
void __cxa_guard_release(long* g) { auto b = (volatile unsigned char*)g; b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(long* g) { auto b = (volatile unsigned char*)g; b[1] = 0; }

int pthread_mutex_lock(pthread_mutex_t* m) {
    typedef int (*t)(pthread_mutex_t*); static t r = nullptr, tr = nullptr;
    if (!r) { r = (t)dlsym(RTLD_NEXT, "pthread_mutex_lock"); tr = (t)dlsym(RTLD_NEXT, "pthread_mutex_trylock"); }
    if (!sched::managed()) return r(m);
    int e = tr(m);
    if (e != 16 /*EBUSY*/) return e;
    int got = 0;
    sched::stallUntil([&] { return (got = tr(m)) != 16; });
    return got;
}

// the other ways of waiting must not block the only running thread either
#define TRYLOOP(name, try_, T) int name(T* m) { \
    typedef int (*t)(T*); static t r = nullptr, tr = nullptr; \
    if (!r) { r = (t)dlsym(RTLD_NEXT, #name); tr = (t)dlsym(RTLD_NEXT, #try_); } \
    if (!sched::managed()) return r(m); \
    int e = tr(m); if (e != 16 /*EBUSY*/) return e; \
    sched::stallUntil([&] { return (e = tr(m)) != 16; }); return e; }
TRYLOOP(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
TRYLOOP(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)

int sched_yield() { if (sched::managed()) { sched::yieldNow(); return 0; } typedef int (*t)(); static t r = (t)dlsym(RTLD_NEXT, "sched_yield"); return r ? r() : 0; }

int pthread_once(pthread_once_t* o, void (*f)()) {
    typedef int (*t)(pthread_once_t*, void (*)()); static t r = nullptr; if (!r) r = (t)dlsym(RTLD_NEXT, "pthread_once");
    if (!sched::managed()) return r(o, f);
    static pthread_once_t* busy[64]; static int n = 0;                 // those whose routine is running
    auto running = [o] { for (int i = 0; i < n; ++i) if (busy[i] == o) return true; return false; };
    if (running()) sched::stallUntil([&] { return !running(); });
    if (n == 64) abort();
    busy[n++] = o;
    struct Out { pthread_once_t* o; ~Out() { for (int i = 0; i < n; ++i) if (busy[i] == o) { busy[i] = busy[--n]; return; } } } out{o};
    return r(o, f);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {        // woken up without reason each time someone else ran
    typedef int (*t)(pthread_cond_t*, pthread_mutex_t*); static t r = nullptr; if (!r) r = (t)dlsym(RTLD_NEXT, "pthread_cond_wait");
    if (!sched::managed()) return r(c, m);
    int e = pthread_mutex_unlock(m); if (e) return e;
    sched::stallUntil([] { return true; });
    return pthread_mutex_lock(m);
}
}
