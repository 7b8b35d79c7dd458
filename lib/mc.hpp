// Bounded exhaustive explorer (stateless model checking driver).
//
// A scenario body draws all of its nondeterminism from Path::choose(n).  The
// driver enumerates every choice vector by depth-first search.  A body first
// draws its plan (pure code), then calls Path::mine(): plans are dealt out to
// the worker processes round robin; choices made after mine() (thread
// schedules, fault positions found while running) are explored by the same
// worker.  Workers are separate processes, so crashes, sanitizer reports and
// hangs are observed as violations too.  Every failure is replayed in a fresh
// process before it is reported.
#ifndef MC_HPP
#define MC_HPP
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

typedef uint64_t u64;

inline u64 fnv(const void *p, size_t n, u64 h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline u64 fnv(const std::string &s, u64 h = 1469598103934665603ull) {
    u64 n = s.size();
    h = fnv(&n, sizeof n, h);
    return fnv(s.data(), s.size(), h);
}
inline u64 fnv(u64 v, u64 h) { return fnv(&v, sizeof v, h * 0x9E3779B97F4A7C15ull + 0x51ed270b); }

inline std::string vfmt(const char *f, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    va_list ap; va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}
inline std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += (char)c;
    }
    return r;
}

enum { MAX_CHOICES = 60000, NOTE_MAX = 16384, MSG_MAX = 8192, TABLE = 1 << 22 };

struct Slot {
    volatile int active;          // a case is running
    int n;                        // length of the choice stack
    unsigned short choice[MAX_CHOICES];
    unsigned short fan[MAX_CHOICES];
    int drawn;                    // choices drawn so far in the current case
    int mine_depth;
    int mine_yes;
    u64 ordinal;                  // plan ordinal of this case
    char note[NOTE_MAX]; int note_len;
    char msg[MSG_MAX];            // explicit failure message
    int failed;
    int incomplete;
};

struct Shared {
    std::atomic<u64> plans, cases, steps, nstates, noutcomes, pruned, evals;
    std::atomic<u64> table[TABLE];
    std::atomic<u64> otable[TABLE / 16];
    char samples[8][1024];
    std::atomic<int> nsamples;
    Slot slot[64];
};

inline bool table_add(std::atomic<u64> *t, size_t cap, u64 h, std::atomic<u64> &cnt) {
    if (h == 0) h = 1;
    size_t i = (size_t)(h * 0x9E3779B97F4A7C15ull >> 20) % cap;
    for (int k = 0; k < 64; k++) {
        u64 cur = t[i].load(std::memory_order_relaxed);
        if (cur == h) return false;
        if (cur == 0) {
            if (t[i].compare_exchange_strong(cur, h)) { cnt++; return true; }
            if (cur == h) return false;
        }
        i = (i + 1) % cap;
    }
    return false;
}

struct Options {
    std::string tier = "quick", evidence, replay_dir = ".", known, scratch = "/tmp", prop = "C00", replay, only;
    int workers = 8; double budget = 420; bool thorough = false; int verbose = 0; long seed = 1;
};
extern Options opt;
extern Shared *sh;

class Path {
  public:
    Slot *s; int worker, nworkers; bool replaying = false;
    u64 &ordinal_ctr; bool fresh_plan;
    Path(Slot *sl, int w, int nw, u64 &oc) : s(sl), worker(w), nworkers(nw), ordinal_ctr(oc), fresh_plan(true) {}
    int choose(int n) {
        if (n <= 0) { fail("internal: choose(%d)", n); }
        int d = s->drawn++;
        if (d >= MAX_CHOICES) fail("internal: choice depth exceeded");
        if (d >= s->n) { s->choice[d] = 0; s->n = d + 1; }
        s->fan[d] = (unsigned short)n;
        if (s->choice[d] >= n) {
            fail("internal: nondeterministic harness: choice %d of %d at depth %d", s->choice[d], n, d);
        }
        return s->choice[d];
    }
    bool flag() { return choose(2) != 0; }
    // plan complete: is this worker to execute it?
    bool mine() {
        s->mine_depth = s->drawn;
        if (fresh_plan) {
            u64 o = ordinal_ctr++;
            s->ordinal = o;
            s->mine_yes = replaying || (int)(o % (u64)nworkers) == worker;
            if (worker == 0 && !replaying) sh->plans++;
        }
        if (s->mine_yes && !replaying) sh->cases++;
        return s->mine_yes;
    }
    void prune() { if (worker == 0) sh->pruned++; }
    void note(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, f);
        int room = NOTE_MAX - 1 - s->note_len;
        if (room > 0) {
            int k = vsnprintf(s->note + s->note_len, room, f, ap);
            s->note_len += k < room ? k : room - 1;
        }
        va_end(ap);
    }
    void step(u64 k = 1) { sh->steps += k; }
    void eval(u64 k = 1) { sh->evals += k; }
    void state(u64 h) { table_add(sh->table, TABLE, h, sh->nstates); }
    // first visit of a state whose checks depend on nothing else (shared by all workers)?
    bool fresh(u64 h) { if (replaying) return true; return table_add(sh->table, TABLE, h, sh->nstates); }
    void outcome(u64 h) { table_add(sh->otable, TABLE / 16, h, sh->noutcomes); }
    void outcome(const std::string &x) { outcome(fnv(x)); }
    void fail(const char *f, ...) __attribute__((format(printf, 2, 3), noreturn)) {
        va_list ap; va_start(ap, f);
        vsnprintf(s->msg, MSG_MAX, f, ap);
        va_end(ap);
        s->failed = 1;
        fflush(NULL);
        _exit(99);
    }
};
#define MC_CHECK(p, cond, ...) do { if (!(cond)) (p).fail(__VA_ARGS__); } while (0)

struct Scenario {
    std::string name;
    std::string bounds;               // human readable bounds
    std::function<void(Path &)> body;
    int case_timeout = 30;            // seconds
    bool thorough_only = false;
};

struct Meta {
    std::string level = "model_checking", rule;
    std::vector<std::string> assumptions;
};

int run(int argc, char **argv, const Meta &meta, std::vector<Scenario> scenarios);

} // namespace mc
#endif
