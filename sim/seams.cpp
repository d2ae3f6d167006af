#include "seams.hpp"
#include <new>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <execinfo.h>
#include <time.h>
#include <clocale>
#include <locale>

namespace sim {
thread_local int t_sut = 0;
uint64_t g_steps = 0, g_budget = ~0ull;
void setBudget(uint64_t s) { g_budget = s ? g_steps + s : ~0ull; }

// ======================================================================= heap
namespace heap {
static bool on = false; static int mode = 0; static uint64_t seed = 0, serial = 0;
static thread_local long failAt = 0, count = 0, fired = 0; static thread_local bool persist = false, armed = false;
static long lives = 0, liveb = 0; static const char* corrupt = nullptr;
const int nFillModes = 6;
struct Head { uint64_t magic; uint64_t size; uint64_t serial; uint32_t off; uint32_t sut; };   // 32 bytes
static const uint64_t LIVE = 0x51AB1E51AB1E0001ull, DEAD = 0xDEADDEADDEAD0002ull;
static const size_t TAIL = 64;

static inline uint64_t word(uint64_t n) {
    switch (mode) {
    case 0: return 0;
    case 1: return ~0ull;
    case 2: return 0xA5A5A5A5A5A5A5A5ull;
    case 3: { double d = 1.0 + (double)((n * 7 + seed) % 1000); uint64_t u; memcpy(&u, &d, 8); return u; }
    case 4: return (n * 0x9E3779B97F4A7C15ull + seed) * 0xBF58476D1CE4E5B9ull;
    default: return 0x0000000100000001ull * (1 + (n + seed) % 7);
    }
}
static void fill(unsigned char* p, size_t n, uint64_t s) {
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t w = word(s + i); memcpy(p + i, &w, 8); }
    if (i < n) { uint64_t w = word(s + i); memcpy(p + i, &w, n - i); }
}
static bool same(const unsigned char* p, size_t n, uint64_t s) {
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t w = word(s + i); if (memcmp(p + i, &w, 8)) return false; }
    if (i < n) { uint64_t w = word(s + i); if (memcmp(p + i, &w, n - i)) return false; }
    return true;
}
// blocks come from a region at a fixed address, so that addresses are the same in every run
namespace pool {
static const size_t SIZE = 3ull << 30; static char* base = nullptr; static size_t top = 0; static int lock = 0;
struct Free { Free* next; }; static Free* bins[160];
struct Pre { uint64_t bin, total; };                        // 16 bytes before each block
static inline int binOf(size_t n, size_t& total) {          // multiples of 16 up to 1 KB, then four steps per doubling
    if (n <= 1024) { int b = (int)((n + 15) / 16); total = (size_t)b * 16; return b; }
    int b = 65; size_t d = 1024; for (;;) { for (int k = 1; k <= 4; ++k, ++b) { total = d + d / 4 * k; if (n <= total) return b; } d *= 2; }
}
static char* take(size_t n) {
    size_t total; int b = binOf(n, total); while (__atomic_exchange_n(&lock, 1, __ATOMIC_ACQUIRE)) {}
    if (!base) { void* p = mmap((void*)0x100000000000ull, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) { static const char m[] = "no memory region\n"; if (write(2, m, sizeof m - 1)) {} _exit(98); } base = (char*)p; }
    char* r = nullptr;
    if (b < 160 && bins[b]) { r = (char*)bins[b]; bins[b] = bins[b]->next; }
    else if (b < 160 && top + total + sizeof(Pre) <= SIZE) { auto p = (Pre*)(base + top); p->bin = b; p->total = total; top += total + sizeof(Pre); r = (char*)(p + 1); }
    __atomic_store_n(&lock, 0, __ATOMIC_RELEASE);
    if (!r && !on) { auto p = (Pre*)malloc(n + sizeof(Pre)); if (p) { p->bin = 999; r = (char*)(p + 1); } }
    return r;
}
static void give(char* v) {
    auto p = (Pre*)v - 1; if (p->bin == 999) { free(p); return; }
    while (__atomic_exchange_n(&lock, 1, __ATOMIC_ACQUIRE)) {}
    auto f = (Free*)v; f->next = bins[p->bin]; bins[p->bin] = f; __atomic_store_n(&lock, 0, __ATOMIC_RELEASE);
}
}
// quarantine of freed blocks
static const int NQ = 512; static Head* q[NQ]; static int qn = 0; static size_t qbytes = 0;
static void evict() {
    Head* h = q[qn % NQ];
    if (h) {
        auto p = (unsigned char*)(h + 1);
        if (h->magic != DEAD || !same(p, h->size, h->serial)) corrupt = "write to freed memory";
        qbytes -= h->size; q[qn % NQ] = nullptr; pool::give((char*)h - h->off);
    }
}
void scanQuarantine() {
    for (auto h : q) if (h && (h->magic != DEAD || !same((unsigned char*)(h + 1), h->size, h->serial))) corrupt = "write to freed memory";
}
void enable(int fillMode, uint64_t fillSeed) { mode = fillMode % nFillModes; seed = fillSeed; on = true; }
static bool jsonDtor() {      // nlohmann::json releases trees through a vector inside a noexcept destructor:
    void* pc[40]; int n = backtrace(pc, 40);      // a failure there ends any program using it, not ThermoFun's doing
    for (int i = 2; i < n; ++i) {
        Dl_info d;
        if (dladdr(pc[i], &d) && d.dli_sname && strstr(d.dli_sname, "nlohmann") && strstr(d.dli_sname, "json_value") && strstr(d.dli_sname, "destroy")) return true;
    }
    return false;
}
void armFailure(long nth, bool p) { failAt = nth; persist = p; count = 0; fired = 0; armed = nth > 0; }
long disarm() { armed = false; return fired; }
long opAllocations() { return count; }
void resetOp() { count = 0; }
long liveCount() { return lives; }
long liveBytes() { return liveb; }
const char* corruption() { return corrupt; }

static void* get(size_t n, size_t al) {
    bool sut = t_sut > 0;
    if (sut) {
        ++count;
        if (armed && (count == failAt || (fired && persist))) {
            if (jsonDtor()) { if (!fired) ++failAt; }
            else { ++fired; throw std::bad_alloc(); }
        }
    }
    size_t off = al > 16 ? al : 0;
    // room for the header in front of an aligned block
    char* raw = nullptr;
    if (n > (1ull << 30)) throw std::bad_alloc();
    size_t front = sizeof(Head);
    raw = pool::take(sizeof(Head) + n + TAIL + off);
    if (!raw) throw std::bad_alloc();
    if (off) { uintptr_t p = ((uintptr_t)raw + sizeof(Head) + al - 1) / al * al; front = p - (uintptr_t)raw; }
    Head* h = (Head*)(raw + front - sizeof(Head));
    h->magic = LIVE; h->size = n; h->serial = ++serial; h->off = (uint32_t)(front - sizeof(Head)); h->sut = sut;
    auto p = (unsigned char*)(h + 1);
    if (on) fill(p, n, h->serial * 31); 
    fill(p + n, TAIL, h->serial);
    if (sut) { ++lives; liveb += (long)n; }
    return p;
}
static void put(void* v) {
    if (!v) return;
    Head* h = (Head*)v - 1; auto p = (unsigned char*)v;
    if (h->magic != LIVE) { corrupt = h->magic == DEAD ? "double release" : "release of a foreign or corrupted block"; return; }
    if (h->sut) { --lives; liveb -= (long)h->size; }
    if (!on) { pool::give((char*)h - h->off); return; }
    // tails written before enable() use another pattern; only check blocks made under the current one
    if (h->sut && !same(p + h->size, TAIL, h->serial)) corrupt = "write behind the end of a block";
    h->magic = DEAD; fill(p, h->size, h->serial);
    if (h->size > 65536) { pool::give((char*)h - h->off); return; }
    evict(); q[qn % NQ] = h; qn++; qbytes += h->size;
}
} // namespace heap

__attribute__((noinline)) void scribbleStack() {
    const size_t N = 192 * 1024;
    volatile unsigned char* p = (volatile unsigned char*)__builtin_alloca(N);
    static uint64_t n = 0; ++n;
    for (size_t i = 0; i < N; i += 8) { uint64_t w = heap::word(n * 131 + i); memcpy((void*)(p + i), &w, 8); }
    __asm__ volatile("" ::"r"(p) : "memory");
}

// ======================================================================= files
namespace io {
static thread_local std::vector<Fault>* fl = nullptr; static Stats st;
static const int MAXFD = 256; static char roleOf[MAXFD];       // 0 none, 'd' data, 'c' csv, 'l' log
std::vector<Fault>& list() { SimScope s; if (!fl) fl = new std::vector<Fault>; return *fl; }
void clear() { list().clear(); }
void add(const Fault& f) { SimScope s; list().push_back(f); }
Stats& stats() { return st; }
void resetStats() { st = Stats(); }
static char roleChar(const char* path) {
    if (!path) return 0;
    if (strstr(path, ".csv")) return 'c';
    if (strstr(path, ".json")) return 'd';
    if (strstr(path, ".log") || strstr(path, "log.") ) return 'l';
    return 0;
}
// returns the fault to apply to this call, or nullptr
static Fault* hit(char role, const char* call) {
    if (!role || t_sut <= 0 || !fl) return nullptr;
    for (auto& f : *fl) {
        if (f.role[0] != role || f.call != call) continue;
        ++f.seen;
        if (f.seen == f.nth || (f.persistent && f.seen > f.nth)) { ++f.fired; return &f; }
    }
    return nullptr;
}
static int err(const Fault* f) {
    static const struct { const char* n; int v; } t[] = {{"ENOSPC", ENOSPC}, {"EIO", EIO}, {"EACCES", EACCES}, {"EMFILE", EMFILE}, {"ENOENT", ENOENT}, {"EINTR", EINTR}, {"EDQUOT", EDQUOT}, {"EROFS", EROFS}, {"EISDIR", EISDIR}};
    for (auto& e : t) if (f->action == e.n) return e.v;
    return EIO;
}
long openDescriptors() {
    long n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1;
    while (readdir(d)) ++n; closedir(d); return n;
}
} // namespace io

// ======================================================================= time and identity
namespace timesim {
static int64_t ns = 1700000000ll * 1000000000ll, elapsed = 0; static long readings = 0, jumps = 0;
void jump(int64_t d) { ns += d; ++jumps; }
int64_t simulatedNs() { return elapsed; }
long reads() { return readings; }
static int64_t now() { ++readings; ns += 1000000; elapsed += 1000000; return ns; }     // each reading takes one simulated millisecond
}

namespace locales {
int g_host = 0;
namespace {
struct Comma : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
};
thread_local int t_depth = 0;
}
bool available() { SimScope s; bool ok = setlocale(LC_NUMERIC, "comma"); setlocale(LC_NUMERIC, "C"); return ok; }
Scope::Scope() : counted(g_host), on(g_host && t_depth++ == 0) {
    if (!on) return; SimScope s;
    if (g_host & 1) { static const std::locale german(std::locale::classic(), new Comma); std::locale::global(german); }
    if (g_host & 2) setlocale(LC_NUMERIC, "comma");
}
Scope::~Scope() {
    if (counted) --t_depth;
    if (!on) return; SimScope s;
    std::locale::global(std::locale::classic()); setlocale(LC_NUMERIC, "C");
}
}
} // namespace sim

using namespace sim;
void* operator new(size_t n) { return heap::get(n, 0); }
void* operator new[](size_t n) { return heap::get(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return heap::get(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return heap::get(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return heap::get(n, 0); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return heap::get(n, 0); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { heap::put(p); }
void operator delete[](void* p) noexcept { heap::put(p); }
void operator delete(void* p, size_t) noexcept { heap::put(p); }
void operator delete[](void* p, size_t) noexcept { heap::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { heap::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heap::put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { heap::put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { heap::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap::put(p); }

// ---- interposed libc calls (the executable's definitions win over libc's for libstdc++ and libspdlog)
template <class F> static F real(const char* n, F& slot) { if (!slot) slot = (F)dlsym(RTLD_NEXT, n); return slot; }
#define REAL(name, type) static type slot_##name = nullptr; auto r_##name = real(#name, slot_##name)

static inline char fdRole(int fd) { return fd >= 0 && fd < io::MAXFD ? io::roleOf[fd] : 0; }
static inline void setRole(int fd, char c) { if (fd >= 0 && fd < io::MAXFD) io::roleOf[fd] = c; }

typedef FILE* (*fopen_t)(const char*, const char*);
static FILE* doFopen(const char* path, const char* mode, fopen_t r) {
    char c = io::roleChar(path);
    if (c && t_sut > 0) { ++io::st.opens; if (auto f = io::hit(c, "open")) { errno = io::err(f); return nullptr; } }
    FILE* p = r(path, mode);
    if (p) setRole(fileno(p), c);
    return p;
}
extern "C" {
FILE* fopen(const char* path, const char* mode) { REAL(fopen, fopen_t); return doFopen(path, mode, r_fopen); }
FILE* fopen64(const char* path, const char* mode) { REAL(fopen64, fopen_t); return doFopen(path, mode, r_fopen64); }
static int doOpen(const char* path, int flags, int mode, int (*r)(const char*, int, ...)) {
    char c = io::roleChar(path);
    if (c && t_sut > 0) { ++io::st.opens; if (auto f = io::hit(c, "open")) { errno = io::err(f); return -1; } }
    int fd = r(path, flags, mode); if (fd >= 0) setRole(fd, c); return fd;
}
typedef int (*open_t)(const char*, int, ...);
int open(const char* path, int flags, ...) { va_list a; va_start(a, flags); int m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); REAL(open, open_t); return doOpen(path, flags, m, r_open); }
int open64(const char* path, int flags, ...) { va_list a; va_start(a, flags); int m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); REAL(open64, open_t); return doOpen(path, flags, m, r_open64); }
ssize_t read(int fd, void* b, size_t n) {
    typedef ssize_t (*t)(int, void*, size_t); REAL(read, t); char c = fdRole(fd);
    if (c && t_sut > 0) { ++io::st.reads;
        if (auto f = io::hit(c, "read")) {
            if (f->action == "short") n = n < (size_t)f->arg ? n : (size_t)f->arg;
            else if (f->action == "eof") return 0;
            else { errno = io::err(f); return -1; } } }
    return r_read(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
    typedef ssize_t (*t)(int, const void*, size_t); REAL(write, t); char c = fdRole(fd);
    if (c && t_sut > 0) { ++io::st.writes;
        if (auto f = io::hit(c, "write")) {
            if (f->action == "short") n = n < (size_t)f->arg ? n : (size_t)f->arg;
            else { errno = io::err(f); return -1; } } }
    return r_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int k) {
    typedef ssize_t (*t)(int, const struct iovec*, int); REAL(writev, t); char c = fdRole(fd);
    if (c && t_sut > 0) { ++io::st.writes;
        if (auto f = io::hit(c, "write")) {
            if (f->action == "short") {
                size_t want = (size_t)f->arg; ssize_t done = 0;
                typedef ssize_t (*w_t)(int, const void*, size_t); REAL(write, w_t);
                for (int i = 0; i < k && want; ++i) { size_t m = v[i].iov_len < want ? v[i].iov_len : want; if (!m) continue; ssize_t r = r_write(fd, v[i].iov_base, m); if (r < 0) return done ? done : -1; done += r; want -= m; }
                return done;
            }
            errno = io::err(f); return -1; } }
    return r_writev(fd, v, k);
}
int fclose(FILE* p) {
    typedef int (*t)(FILE*); REAL(fclose, t); int fd = p ? fileno(p) : -1; char c = fdRole(fd); int e = 0;
    if (c && t_sut > 0) { ++io::st.closes; if (auto f = io::hit(c, "close")) e = io::err(f); }
    setRole(fd, 0); int r = r_fclose(p);
    if (e) { errno = e; return EOF; }
    return r;
}
int close(int fd) {
    typedef int (*t)(int); REAL(close, t); char c = fdRole(fd); int e = 0;
    if (c && t_sut > 0) { ++io::st.closes; if (auto f = io::hit(c, "close")) e = io::err(f); }
    setRole(fd, 0); int r = r_close(fd);
    if (e) { errno = e; return -1; }
    return r;
}
static size_t doFwrite(const void* b, size_t s, size_t n, FILE* p, size_t (*r)(const void*, size_t, size_t, FILE*)) {
    char c = p ? fdRole(fileno(p)) : 0;
    if (c && t_sut > 0) { ++io::st.writes;
        if (auto f = io::hit(c, "write")) {
            if (f->action == "short") { size_t tot = s * n, m = tot < (size_t)f->arg ? tot : (size_t)f->arg; if (m) r(b, 1, m, p); errno = ENOSPC; return s ? m / s : 0; }
            errno = io::err(f); return 0; } }
    return r(b, s, n, p);
}
typedef size_t (*fwrite_t)(const void*, size_t, size_t, FILE*);
size_t fwrite(const void* b, size_t s, size_t n, FILE* p) { REAL(fwrite, fwrite_t); return doFwrite(b, s, n, p, r_fwrite); }
size_t fwrite_unlocked(const void* b, size_t s, size_t n, FILE* p) { REAL(fwrite_unlocked, fwrite_t); return doFwrite(b, s, n, p, r_fwrite_unlocked); }
int fflush(FILE* p) {
    typedef int (*t)(FILE*); REAL(fflush, t); char c = p ? fdRole(fileno(p)) : 0;
    if (c && t_sut > 0) if (auto f = io::hit(c, "flush")) { errno = io::err(f); return EOF; }
    return r_fflush(p);
}
int rename(const char* a, const char* b) {
    typedef int (*t)(const char*, const char*); REAL(rename, t);
    if (t_sut > 0) if (auto f = io::hit(io::roleChar(a), "rename")) { errno = io::err(f); return -1; }
    return r_rename(a, b);
}
int clock_gettime(clockid_t c, struct timespec* t) {
    typedef int (*f)(clockid_t, struct timespec*); REAL(clock_gettime, f);
    if (t_sut > 0) { int64_t n = timesim::now(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
    return r_clock_gettime(c, t);
}
static int doSleep(const struct timespec* q) { timesim::jump((int64_t)q->tv_sec * 1000000000ll + q->tv_nsec); return 0; }
int nanosleep(const struct timespec* q, struct timespec* m) {
    typedef int (*f)(const struct timespec*, struct timespec*); REAL(nanosleep, f); return t_sut > 0 ? doSleep(q) : r_nanosleep(q, m);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* q, struct timespec* m) {
    typedef int (*f)(clockid_t, int, const struct timespec*, struct timespec*); REAL(clock_nanosleep, f); return t_sut > 0 && !fl ? doSleep(q) : r_clock_nanosleep(c, fl, q, m);
}
long syscall(long n, ...) {
    va_list a; va_start(a, n); long x[6]; for (auto& v : x) v = va_arg(a, long); va_end(a);
    typedef long (*f)(long, ...); REAL(syscall, f);
    if (n == 186 /*gettid*/) return 4242;
    return r_syscall(n, x[0], x[1], x[2], x[3], x[4], x[5]);
}
int mkdir(const char* a, unsigned m) {
    typedef int (*t)(const char*, unsigned); REAL(mkdir, t);
    if (t_sut > 0) if (auto f = io::hit(io::roleChar(a), "mkdir")) { errno = io::err(f); return -1; }
    return r_mkdir(a, m);
}
} // extern "C"
