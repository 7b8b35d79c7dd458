// All public ferret headers, usable from C++ (the library's C `bool` is an
// unsigned int, so the struct layouts need the same width here).
#ifndef FERRET_HPP
#define FERRET_HPP
#include "mc.hpp"
#include <math.h>
#include <limits.h>
#include <setjmp.h>
#include <stdarg.h>
#include <wchar.h>
#include <wctype.h>
#include <pthread.h>
#include <errno.h>
#include <assert.h>
#include <dirent.h>
#include <memory>
#include <sstream>
#include <deque>
#include <unordered_map>
#include <unordered_set>
typedef unsigned int frt_cbool;
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wregister"
#define bool frt_cbool
extern "C" {
#include "global.h"
#include "except.h"
#include "hash.h"
#include "hashset.h"
#include "array.h"
#include "mempool.h"
#include "bitvector.h"
#include "priorityqueue.h"
#include "multimapper.h"
#include "helper.h"
#include "similarity.h"
#include "store.h"
#include "document.h"
#include "analysis.h"
#include "index.h"
#include "search.h"
#include "field_index.h"
#include "ind.h"
#include "symbol.h"
}
#undef bool
#undef true
#undef false
#undef min
#undef max
#pragma GCC diagnostic pop

static struct FerretInit { FerretInit() { static bool done; if (!done) { done = true; frt_symbol_init(); } } } ferret_init_;

// Run f; returns "" or a description of the ferret exception it raised.
template <class F> static std::string guarded(F f) {
    std::string err;
    volatile int code = 0;
    static thread_local char msgbuf[2048];
    FRT_TRY
        f();
        break;
    default:
        code = xcontext.excode;
        snprintf(msgbuf, sizeof msgbuf, "%s", xcontext.msg ? xcontext.msg : "");
        FRT_HANDLED();
    FRT_XENDTRY
    if (code) { err = mc::fmt("exception %d: %s", code, msgbuf); }
    return err;
}
static inline int err_code(const std::string &e) { return e.empty() ? 0 : atoi(e.c_str() + 10); }
static inline frt_uchar *UC(const char *s) { return (frt_uchar *)s; }
static inline FrtSymbol SYM(const char *s) { return frt_intern(s); }
static inline FrtSymbol SYM(const std::string &s) { return frt_intern(s.c_str()); }

// Run f in a child process; crashes, failures and hangs of the child become those of this case.
template <class F> static void forked(int timeout, F f) {
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) { alarm(timeout); f(); _exit(0); }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); pause(); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
}

struct ScratchDir {            // a private directory, removed with its files
    std::string path;
    explicit ScratchDir(const std::string &tag) {
        static int n = 0;
        path = mc::opt.scratch + mc::fmt("/d%d-%d-%s", (int)getpid(), n++, tag.c_str());
        if (mkdir(path.c_str(), 0700) && errno == EEXIST) { rm(path); mkdir(path.c_str(), 0700); }     // left by a process of the same number
    }
    static void rm(const std::string &d) {
        DIR *dp = opendir(d.c_str());
        if (!dp) return;
        while (struct dirent *de = readdir(dp)) {
            if (!strcmp(de->d_name, ".") || !strcmp(de->d_name, "..")) continue;
            std::string f = d + "/" + de->d_name;
            if (unlink(f.c_str()) && errno == EISDIR) rm(f);
        }
        closedir(dp);
        rmdir(d.c_str());
    }
    ~ScratchDir() { rm(path); }
};
#endif
