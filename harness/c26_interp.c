/* C26: runs a program of nested try blocks with the library's own macros, and logs what happens. */
#include "global.h"
#include "except.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "c26_prog.h"
static __thread struct c26_log *L;
static void add(int ev, int id, int code, const char *msg) { if (L->n < C26_MAXLOG) { L->e[L->n].ev = ev; L->e[L->n].id = id; L->e[L->n].code = code; const char *p = code && msg ? strstr(msg, "M#") : NULL; L->e[L->n].msg = p ? atoi(p + 2) : 0; L->n++; } else L->over = 1; if (c26_step_hook) c26_step_hook(); }
void (*c26_step_hook)(void);
static void body(const struct c26_prog *P, const int *s);
static void raise_it(int code) { int m = ++L->raised; if (c26_step_hook) c26_step_hook(); FRT_RAISE(code, "M#%d raised", m); add('C', 0, 0, NULL); }
#define SEEN() (xcontext.handled ? 0 : xcontext.excode), (xcontext.handled ? "" : xcontext.msg)
static void blk_f(const struct c26_prog *P, const struct c26_stmt *s) {
    FRT_TRY
        body(P, s->slot[0]);
        if (s->early) { FRT_RETURN_EARLY(); return; }
    FRT_XFINALLY
        add('F', s->id, SEEN());
        if (s->handled) { FRT_HANDLED(); }
        body(P, s->slot[2]);
    FRT_XENDTRY
    add('A', s->id, 0, NULL);
}
static void blk_c(const struct c26_prog *P, const struct c26_stmt *s) {
    FRT_TRY
        body(P, s->slot[0]);
        if (s->early) { FRT_RETURN_EARLY(); return; }
    FRT_XCATCHALL
        add('K', s->id, SEEN());
        if (s->handled) { FRT_HANDLED(); }
        body(P, s->slot[1]);
    FRT_XENDTRY
    add('A', s->id, 0, NULL);
}
static void blk_s(const struct c26_prog *P, const struct c26_stmt *s) {
    FRT_TRY
        body(P, s->slot[0]);
        if (s->early) { FRT_RETURN_EARLY(); return; }
        break;
    case FRT_IO_ERROR:
        add('H', s->id, SEEN());
        if (s->handled) { FRT_HANDLED(); }
        body(P, s->slot[1]);
        break;
    case FRT_FINALLY:
        add('F', s->id, SEEN());
        body(P, s->slot[2]);
    FRT_ENDTRY
    add('A', s->id, 0, NULL);
}
static void blk_d(const struct c26_prog *P, const struct c26_stmt *s) {
    FRT_TRY
        body(P, s->slot[0]);
        if (s->early) { FRT_RETURN_EARLY(); return; }
        break;
    case FRT_IO_ERROR:
        add('H', s->id, SEEN());
        if (s->handled) { FRT_HANDLED(); }
        body(P, s->slot[1]);
        break;
    default:
        add('D', s->id, SEEN());
        if (s->handled) { FRT_HANDLED(); }
        break;
    case FRT_FINALLY:
        add('F', s->id, SEEN());
        body(P, s->slot[2]);
    FRT_ENDTRY
    add('A', s->id, 0, NULL);
}
static void body(const struct c26_prog *P, const int *s) {
    for (; *s >= 0; s++) { const struct c26_stmt *t = &P->st[*s]; switch (t->kind) { case 'R': raise_it(t->code); break; case 'F': blk_f(P, t); break; case 'C': blk_c(P, t); break; case 'S': blk_s(P, t); break; case 'D': blk_d(P, t); break; } }
}
void c26_run(const struct c26_prog *P, struct c26_log *log) {
    L = log; log->n = log->raised = log->over = 0;
    FRT_TRY
        body(P, P->top);
        add('A', -1, 0, NULL);
    FRT_XCATCHALL
        add('T', -1, SEEN());
        FRT_HANDLED();
    FRT_XENDTRY
    add('E', -1, 0, NULL);
}
