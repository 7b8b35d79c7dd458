// Controlled scheduler: real threads, one of which runs at a time.
//
// Ferret is compiled with clang's -fsanitize=thread instrumentation, but no sanitizer runtime is
// linked: this file supplies the hooks.  Every mutex operation, every file operation and every
// access at a program point that takes part in a data race is a scheduling point at which the
// explorer decides which thread goes on.  Between such points threads only touch data that is
// private or ordered by synchronisation, so other interleavings give the same results.
//   * races: vector clocks per thread and mutex, last accesses per 8 byte word
//   * memory: accesses to freed memory are reported (freed blocks are quarantined)
//   * deadlock: all unfinished threads wait for a mutex
#ifndef SCHED_HPP
#define SCHED_HPP
#include "mc.hpp"
#include <unordered_map>
#include <pthread.h>
#include <semaphore.h>
#include <malloc.h>
#include <stdarg.h>
#include <sys/uio.h>
#include <execinfo.h>
#include <fcntl.h>

namespace sched {
typedef uintptr_t uptr;
enum { MAXT = 2, MAXPC = 512 };
struct Racy { int n; uptr pc[MAXPC]; };           // shared with the process that looks for races
struct Thread { sem_t sem; pthread_t th; std::function<void()> f; bool done = false, started = false; const void *waits = nullptr; bool asleep = false; uptr lo = 0, hi = 0; uint32_t vc[MAXT] = {0}; };
struct Mutex { int owner = -1, count = 0, acq = -1, span = -1; uint32_t vc[MAXT] = {0}; };   // acq: segment of the acquisition; span: last segment in which a section begun in an earlier segment ended
struct Cell { uint32_t used; uint32_t w[MAXT], r[MAXT]; uint8_t wm[MAXT], rm[MAXT]; uptr wpc[MAXT], rpc[MAXT]; int ws[MAXT], rs[MAXT]; };
enum { PAGES = 1 << 13 };
struct PageId { uptr id; int at; };

struct World {
    mc::Path *p = nullptr; bool on = false; int n = 0, cur = 0, bound = 0, used = 0; Thread t[MAXT]; sem_t finished;
    std::unordered_map<const void *, Mutex> mx; Racy *racy = nullptr, *found = nullptr; uint64_t points = 0, switches = 0, accesses = 0;
    Cell *cells = nullptr; PageId *pages = nullptr; int npages = 0; int runstart = 0, vict = -1, x = -1, at = -1, conf = -1; bool watch = false, napped = false; int *skip = nullptr;
};
static World W;
static __thread int me = -1;              // thread number, -1 outside of controlled threads
static __thread int inside = 0;           // the scheduler itself runs

struct In { In() { inside++; } ~In() { inside--; } };
static inline bool active() { return W.on && me >= 0 && !inside; }

// shadow memory: pages of 512 words, found by hashing the page number
static Cell *page(uptr id, bool make) {
    size_t i = (size_t)((id * 0x9E3779B97F4A7C15ull) >> 45) & (PAGES - 1);
    for (int k = 0; k < PAGES; k++, i = (i + 1) & (PAGES - 1)) {
        if (W.pages[i].id == id) return W.cells + (size_t)W.pages[i].at * 512;
        if (!W.pages[i].id) { if (!make) return NULL; if (W.npages == PAGES / 2) break; W.pages[i].id = id; W.pages[i].at = W.npages++; return W.cells + (size_t)W.pages[i].at * 512; }
    }
    fprintf(stderr, "internal: shadow memory is full\n"); _exit(98);
}
static Cell *cell(uptr key) { return page((key >> 9) + 1, true) + (key & 511); }
static void forget(uptr a, size_t n) {     // fresh memory: no history
    if (!W.on || !n) return;
    for (uptr k = a >> 3, e = (a + n - 1) >> 3; k <= e; ) { uptr last = std::min(e, k | 511); if (Cell *c = page((k >> 9) + 1, false)) for (uptr j = k; j <= last; j++) { Cell *d = c + (j & 511); if (d->used) memset(d, 0, sizeof *d); } k = last + 1; }
}
// Reduction.  A schedule whose last preemption is at point k of thread v, by thread x, is equivalent to the ones that
// preempt at k' < k when nothing v does between k' and k conflicts with what x does then.  Segment s of a thread is what
// it does between the choices s and s+1.
static int draws() { return W.p->s->drawn; }
static int seg() { return draws() - 1; }
static void conflict(int s) { if (s > W.conf) W.conf = s; }
static void touch(uptr key, bool wr) {      // objects other than memory
    Cell *c = cell(key | (1ull << 62)); int s = seg(); c->used = 1;
    if (W.watch && me == W.x) { conflict(c->ws[W.vict] - 1); if (wr) conflict(c->rs[W.vict] - 1); }
    if (wr) c->ws[me] = s + 1; else c->rs[me] = s + 1;
}
static bool is_racy(uptr pc) { Racy *r = W.racy; if (!r) return false; for (int i = 0; i < r->n; i++) if (r->pc[i] == pc) return true; return false; }
static void add_racy(uptr pc) { Racy *r = W.found; if (!r) return; for (int i = 0; i < r->n; i++) if (r->pc[i] == pc) return; if (r->n < MAXPC) r->pc[r->n++] = pc; }

static void grab(int who) {               // hand the baton over and wait for it to come back
    if (who == me) return;
    if (me == W.x) W.watch = false;
    W.cur = who; W.switches++;
    sem_post(&W.t[who].sem);
    while (sem_wait(&W.t[me].sem)) { }
    W.runstart = draws();
}
static bool runnable(int i) { return !W.t[i].done && !W.t[i].waits; }
[[noreturn]] static void stuck() {
    std::string s;
    for (int i = 0; i < W.n; i++) if (!W.t[i].done) s += mc::fmt(" thread %d waits for a mutex held by thread %d;", i, W.t[i].waits ? W.mx[W.t[i].waits].owner : -1);
    W.p->fail("deadlock:%s", s.c_str());
}
// the thread can go on, but may be preempted here
static void point() {
    In in; W.points++;
    if (W.points > 2000000) W.p->fail("no end: a thread does not finish");
    if (W.used >= W.bound) return;
    int o[MAXT], n = 0;
    for (int i = 0; i < W.n; i++) if (i != me && runnable(i) && !W.t[i].asleep) o[n++] = i;
    if (!n) return;
    int c = W.p->choose(n + 1);
    if (c) {
        if (getenv("SCHED_TRACE")) { void *b[24]; int k = backtrace(b, 24); for (int i = 1; i < k; i++) fprintf(stderr, "%lx ", (long)b[i]); fprintf(stderr, "-> %d\n", o[c - 1]); }
        W.used++;
        if (W.used == W.bound) { W.vict = me; W.x = o[c - 1]; W.at = seg(); W.conf = W.runstart - 1; W.watch = n == 1; if (n != 1) conflict(W.at); }
        grab(o[c - 1]);
    }
}
// the thread cannot go on (it waits, sleeps or has finished): any other may run
static void leave() {
    In in; int o[MAXT], n = 0;
    for (int i = 0; i < W.n; i++) if (i != me && runnable(i) && !W.t[i].asleep) o[n++] = i;
    if (!n) for (int i = 0; i < W.n; i++) if (i != me && runnable(i)) o[n++] = i;
    if (!n) {
        if (runnable(me)) return;
        bool all = true; for (int i = 0; i < W.n; i++) if (!W.t[i].done) all = false;
        if (!all) stuck();
        sem_post(&W.finished); return;
    }
    int c = n > 1 ? W.p->choose(n) : 0;
    if (W.t[me].done) { W.cur = o[c]; W.switches++; sem_post(&W.t[o[c]].sem); }
    else grab(o[c]);
}
static void nap() { if (!active()) return; W.napped = true; W.t[me].asleep = true; leave(); W.t[me].asleep = false; }
static void wake_all() { for (int i = 0; i < W.n; i++) W.t[i].asleep = false; }

static void lock(pthread_mutex_t *m) {
    Mutex &x = W.mx[m];
    if (active()) {
        point();
        for (;;) {
            In in;
            if (W.watch && me == W.x) conflict(x.owner == W.vict ? x.acq : x.span);
            if (x.owner < 0) break;
            if (x.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) break;
            if (x.owner == me) W.p->fail("deadlock: thread %d locks a mutex it already holds", me);
            W.t[me].waits = m; leave();
        }
        for (int i = 0; i < MAXT; i++) W.t[me].vc[i] = std::max(W.t[me].vc[i], x.vc[i]);
    }
    if (me >= 0 && !x.count) x.acq = seg();
    x.owner = me < 0 ? 99 : me; x.count++;
}
static bool trylock(pthread_mutex_t *m) {
    if (active()) point();
    Mutex &x = W.mx[m];
    if (W.watch && me == W.x) conflict(x.owner == W.vict ? x.acq : x.span);
    if (x.owner >= 0 && !(x.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) return false;
    if (me >= 0) for (int i = 0; i < MAXT; i++) W.t[me].vc[i] = std::max(W.t[me].vc[i], x.vc[i]);
    if (me >= 0 && !x.count) x.acq = seg();
    x.owner = me < 0 ? 99 : me; x.count++; return true;
}
static void unlock(pthread_mutex_t *m) {
    Mutex &x = W.mx[m];
    if (x.count > 0) x.count--;
    if (x.count) return;
    x.owner = -1;
    if (me >= 0 && W.on) {
        if (seg() != x.acq) x.span = seg();
        for (int i = 0; i < MAXT; i++) x.vc[i] = std::max(x.vc[i], W.t[me].vc[i]);
        W.t[me].vc[me]++;
        for (int i = 0; i < W.n; i++) if (W.t[i].waits == m) W.t[i].waits = nullptr;
    }
}
static void check_freed(uptr a, size_t n);
static void access(uptr a, size_t n, bool wr, uptr pc) {
    if (!active()) return;
    Thread &t = W.t[me];
    if (a >= t.lo && a < t.hi) return;
    In in; W.accesses++;
    check_freed(a, n);
    if (W.racy && W.racy->n && is_racy(pc)) { inside--; point(); inside++; check_freed(a, n); }
    for (uptr k = a >> 3; k <= (a + n - 1) >> 3; k++) {
        uptr b = std::max(a, k << 3), e = std::min(a + n, (k + 1) << 3);
        uint8_t m = (uint8_t)(((1u << (e - b)) - 1) << (b & 7));
        Cell *c = cell(k); c->used = 1;
        if (W.watch && me == W.x) { conflict(c->ws[W.vict] - 1); if (wr) conflict(c->rs[W.vict] - 1); }
        if (wr) c->ws[me] = seg() + 1; else c->rs[me] = seg() + 1;
        for (int i = 0; i < W.n; i++) if (i != me) {
            if (c->w[i] > t.vc[i] && (c->wm[i] & m)) { add_racy(pc); add_racy(c->wpc[i]); }
            if (wr && c->r[i] > t.vc[i] && (c->rm[i] & m)) { add_racy(pc); add_racy(c->rpc[i]); }
        }
        if (wr) { if (c->w[me] == t.vc[me]) c->wm[me] |= m; else { c->w[me] = t.vc[me]; c->wm[me] = m; } c->wpc[me] = pc; }
        else { if (c->r[me] == t.vc[me]) c->rm[me] |= m; else { c->r[me] = t.vc[me]; c->rm[me] = m; } c->rpc[me] = pc; }
    }
}
static void *entry(void *arg) {
    long i = (long)arg; Thread &t = W.t[i];
    pthread_attr_t at; void *sp; size_t sz; inside++; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &sp, &sz); pthread_attr_destroy(&at);
    t.lo = (uptr)sp; t.hi = t.lo + sz;
    me = (int)i;
    while (sem_wait(&t.sem)) { }
    inside--;
    t.f();
    inside++; t.done = true; leave();
    return nullptr;
}
// run the threads to their end under every schedule with at most `bound` preemptions (one schedule per call)
static void run(mc::Path &p, std::vector<std::function<void()>> fs, int bound, Racy *racy, Racy *found) {
    W.p = &p; W.n = (int)fs.size(); W.bound = bound; W.used = 0; W.racy = racy; W.found = found; W.points = W.switches = W.accesses = 0;
    if (W.cells) { fprintf(stderr, "internal: one execution per process\n"); _exit(98); }
    W.cells = (Cell *)mmap(NULL, sizeof(Cell) * 512 * PAGES / 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); W.pages = (PageId *)calloc(PAGES, sizeof(PageId));
    sem_init(&W.finished, 0, 0);
    for (auto &m : W.mx) memset(m.second.vc, 0, sizeof m.second.vc);
    for (int i = 0; i < W.n; i++) { Thread &t = W.t[i]; sem_init(&t.sem, 0, 0); t.f = fs[i]; t.done = t.asleep = false; t.waits = nullptr; memset(t.vc, 0, sizeof t.vc); t.vc[i] = 1; }
    for (long i = 0; i < W.n; i++) pthread_create(&W.t[i].th, NULL, entry, (void *)i);
    W.vict = W.x = W.at = W.conf = -1; W.watch = W.napped = false; for (auto &m : W.mx) m.second.acq = m.second.span = -1;
    int first = p.choose(W.n); W.runstart = draws();
    W.on = true; W.cur = first; sem_post(&W.t[first].sem);
    while (sem_wait(&W.finished)) { }
    for (int i = 0; i < W.n; i++) pthread_join(W.t[i].th, NULL);
    W.on = false;
    if (W.skip) { W.skip[0] = W.at; W.skip[1] = W.napped || W.at < 0 ? W.at : W.conf + 1; }
}
// freed blocks: remembered until the end of the execution, so that a later access is noticed
struct Freed { uptr a; size_t n; uptr pc; };
static std::map<uptr, std::pair<size_t, uptr>> *freed;
static void check_freed(uptr a, size_t n) {
    if (!freed || freed->empty()) return;
    auto it = freed->upper_bound(a + n - 1);
    if (it == freed->begin()) return;
    --it;
    if (a < it->first + it->second.first) W.p->fail("thread %d uses freed memory (%zu bytes at offset %zu of a block of %zu bytes)", me, n, (size_t)(a - it->first), it->second.first);
}
} // namespace sched

extern "C" {
#define PC ((sched::uptr)__builtin_return_address(0))
#define RW(n) void __tsan_read##n(void *a) { sched::access((sched::uptr)a, n, false, PC); } void __tsan_write##n(void *a) { sched::access((sched::uptr)a, n, true, PC); } \
  void __tsan_unaligned_read##n(void *a) { sched::access((sched::uptr)a, n, false, PC); } void __tsan_unaligned_write##n(void *a) { sched::access((sched::uptr)a, n, true, PC); } \
  void __tsan_read_write##n(void *a) { sched::access((sched::uptr)a, n, true, PC); } void __tsan_unaligned_read_write##n(void *a) { sched::access((sched::uptr)a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { sched::access((sched::uptr)a, n, false, PC); } void __tsan_volatile_write##n(void *a) { sched::access((sched::uptr)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { sched::access((sched::uptr)s, n, false, PC); sched::access((sched::uptr)d, n, true, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { sched::access((sched::uptr)s, n, false, PC); sched::access((sched::uptr)d, n, true, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) sched::access((sched::uptr)d, n, true, PC); return memset(d, c, n); }
// atomics: synchronise through a per-address clock and are scheduling points
static void atomic_sync(const volatile void *a) { if (!sched::active()) return; sched::point(); sched::In in; sched::touch((sched::uptr)a, true); auto &x = sched::W.mx[(const void *)a]; auto &t = sched::W.t[sched::me]; for (int i = 0; i < sched::MAXT; i++) { uint32_t m = std::max(x.vc[i], t.vc[i]); x.vc[i] = t.vc[i] = m; } t.vc[sched::me]++; }
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T *a, int) { atomic_sync(a); return *a; } \
 void __tsan_atomic##B##_store(volatile T *a, T v, int) { atomic_sync(a); *a = v; } \
 T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { atomic_sync(a); T o = *a; *a = v; return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { atomic_sync(a); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { atomic_sync(a); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { atomic_sync(a); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { atomic_sync(a); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { atomic_sync(a); T o = *a; *a = o ^ v; return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { atomic_sync(a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { atomic_sync(a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int, int) { atomic_sync(a); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}

int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { sched::lock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return sched::trylock(m) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { sched::unlock(m); return 0; }
int __real_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { { sched::In in; sched::W.mx.erase(m); } return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { if (sched::active()) atomic_sync(o); if (!*(int *)o) { *(int *)o = 2; f(); } return 0; }
int __wrap_usleep(unsigned) { sched::nap(); return 0; }
int __wrap_select(int, void *, void *, void *, void *) { sched::nap(); return 0; }
unsigned __wrap_sleep(unsigned) { sched::nap(); return 0; }

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p && sched::active()) { sched::In in; sched::forget((sched::uptr)p, n); } return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p && sched::active()) { sched::In in; sched::forget((sched::uptr)p, a * b); } return p; }
void __wrap_free(void *p) {
    if (!p) return;
    if (!sched::active()) {       // blocks freed under control are never given back
        if (sched::freed && sched::freed->count((sched::uptr)p)) { fprintf(stderr, "double free\n"); if (sched::W.p) sched::W.p->fail("a block is freed twice"); }
        __real_free(p); return;
    }
    sched::In in; sched::uptr a = (sched::uptr)p; size_t n = malloc_usable_size(p);
    if (!sched::freed) sched::freed = new std::map<sched::uptr, std::pair<size_t, sched::uptr>>;
    if (sched::freed->count(a)) sched::W.p->fail("thread %d frees a block which is already free", sched::me);
    { sched::inside--; sched::access(a, n < 4096 ? n : 4096, true, PC); sched::inside++; }
    (*sched::freed)[a] = { n, PC };
}
void *__wrap_realloc(void *p, size_t n) {
    if (!sched::active()) return __real_realloc(p, n);
    void *q = __wrap_malloc(n);
    if (p) { size_t o = malloc_usable_size(p); sched::access((sched::uptr)p, o < n ? o : n, false, PC); memcpy(q, p, o < n ? o : n); __wrap_free(p); }
    return q;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; sched::access((sched::uptr)s, n, false, PC); char *d = (char *)__wrap_malloc(n); memcpy(d, s, n); return d; }
size_t __real_strlen(const char *);
int __real_strcmp(const char *, const char *); char *__real_strcpy(char *, const char *);
int __wrap_strcmp(const char *a, const char *b) { if (sched::active()) { size_t x = strlen(a) + 1, y = strlen(b) + 1; sched::access((sched::uptr)a, x, false, PC); sched::access((sched::uptr)b, y, false, PC); } return __real_strcmp(a, b); }
char *__wrap_strcpy(char *d, const char *s) { if (sched::active()) { size_t x = strlen(s) + 1; sched::access((sched::uptr)s, x, false, PC); sched::access((sched::uptr)d, x, true, PC); } return __real_strcpy(d, s); }
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (n && sched::active()) { sched::access((sched::uptr)a, n, false, PC); sched::access((sched::uptr)b, n, false, PC); } return __real_memcmp(a, b, n); }

// file operations are scheduling points (other threads and processes can see them)
#define IOP(fd, wr) do { if (sched::active()) { sched::wake_all(); sched::point(); sched::In in_; if (fd >= 0) sched::touch(0x1000 + fd, true); sched::touch(1, wr); } } while (0)
int __real_open(const char *, int, ...); int __real_close(int); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
off64_t __real_lseek64(int, off64_t, int); int __real_unlink(const char *); int __real_remove(const char *); int __real_rename(const char *, const char *); int __real_creat64(const char *, mode_t); int __real_open64(const char *, int, ...);
int __wrap_open(const char *f, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); IOP(-1, (fl & O_ACCMODE) != O_RDONLY); return __real_open(f, fl, m); }
int __wrap_open64(const char *f, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); IOP(-1, (fl & O_ACCMODE) != O_RDONLY); return __real_open64(f, fl, m); }
int __wrap_close(int fd) { IOP(fd, false); return __real_close(fd); }
ssize_t __wrap_read(int fd, void *b, size_t n) { IOP(fd, false); ssize_t r = __real_read(fd, b, n); if (r > 0) sched::access((sched::uptr)b, r, true, PC); return r; }
ssize_t __wrap_write(int fd, const void *b, size_t n) { IOP(fd, true); return __real_write(fd, b, n); }
off64_t __wrap_lseek64(int fd, off64_t o, int w) { IOP(fd, false); return __real_lseek64(fd, o, w); }
ssize_t __real_pread64(int, void *, size_t, off64_t);
ssize_t __wrap_pread64(int fd, void *b, size_t n, off64_t o) { IOP(-1, false); ssize_t r = __real_pread64(fd, b, n, o); if (r > 0) sched::access((sched::uptr)b, r, true, PC); return r; }
int __wrap_unlink(const char *f) { IOP(-1, true); return __real_unlink(f); }
int __wrap_remove(const char *f) { IOP(-1, true); return __real_remove(f); }
int __wrap_rename(const char *a, const char *b) { IOP(-1, true); return __real_rename(a, b); }
// what libc allocates inside of these calls is not seen by the malloc wrappers
struct dirent; typedef struct __dirstream DIRX;
DIRX *__real_opendir(const char *); int __real_closedir(DIRX *);
DIRX *__wrap_opendir(const char *f) { IOP(-1, false); DIRX *d = __real_opendir(f); if (d && sched::active()) { sched::In in; sched::forget((sched::uptr)d, malloc_usable_size(d)); } return d; }
int __wrap_closedir(DIRX *d) { IOP(-1, false); return __real_closedir(d); }
#undef PC
}
void *operator new(size_t n) { void *p = __wrap_malloc(n); if (!p) abort(); return p; }
void *operator new[](size_t n) { void *p = __wrap_malloc(n); if (!p) abort(); return p; }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
#define SCHED_WRAPS "see checks.json ldflags"
#endif
