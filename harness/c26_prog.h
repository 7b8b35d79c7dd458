#ifndef C26_PROG_H
#define C26_PROG_H
enum { C26_MAXLOG = 200, C26_MAXST = 24 };
struct c26_stmt { int kind, code, id, handled, early; int slot[3][4]; };      /* slots: body, handler, finally; lists of statement numbers ended by -1 */
struct c26_prog { struct c26_stmt st[C26_MAXST]; int n; int top[4]; };
struct c26_ev { int ev, id, code, msg; };
struct c26_log { struct c26_ev e[C26_MAXLOG]; int n, raised, over; };
#ifdef __cplusplus
extern "C" {
#endif
void c26_run(const struct c26_prog *P, struct c26_log *log);
extern void (*c26_step_hook)(void);
#ifdef __cplusplus
}
#endif
#endif
