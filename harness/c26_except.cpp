// C26: errors unwind cleanly through every nesting of try, catch and finally blocks.
#include "ferret.hpp"
#include "c26_prog.h"
#include <semaphore.h>
using namespace mc;
typedef std::vector<int> B; // a list of statements, as indexes into the pool
struct S { int kind, code = 0, handled = 0, early = 0; B b, h, f; };
static std::vector<S> pool;
// --- the reference: what each nesting must do -------------------------------------------------------------------------
struct Err { int code = 0, msg = 0; };
struct Ctx { bool fin = false, handled = true; Err p; };
struct Diverges {};
struct Ref {
    std::vector<c26_ev> log; int raised = 0, loops = 0, ids = 0;
    void add(int ev, int id, const Ctx *c = NULL) { bool pend = c && !c->handled; log.push_back({ev, id, pend ? c->p.code : 0, pend ? c->p.msg : 0}); if (log.size() > C26_MAXLOG - 5) throw Diverges(); }
    bool give(Ctx &c, const Err &e) { if (!c.fin) return true; if (c.handled) { c.handled = false; c.p = e; } return false; } // true: control leaves
    bool list(const struct c26_prog &P, const int *s, Ctx &c, Err &out) { for (; *s >= 0; s++) if (stmt(P, P.st[*s], c, out)) return true; return false; }
    bool stmt(const struct c26_prog &P, const c26_stmt &s, Ctx &c, Err &out) {
        if (s.kind == 'R') { Err e; e.code = s.code; e.msg = ++raised; if (give(c, e)) { out = e; return true; } add('C', 0); return false; }
        Ctx n; Err e; bool r = list(P, s.slot[0], n, e); if (!r && s.early) return false;
        if (s.kind == 'F') { if (r) { n.handled = false; n.p = e; } n.fin = true; add('F', s.id, &n); if (s.handled) n.handled = true; list(P, s.slot[2], n, e); }
        else if (s.kind == 'C') { if (r) { n.handled = false; n.p = e; n.fin = true; add('K', s.id, &n); if (s.handled) n.handled = true; list(P, s.slot[1], n, e); } }
        else { while (r) { if (++loops > 6) throw Diverges(); n.handled = false; n.p = e; if (e.code == FRT_IO_ERROR) { add('H', s.id, &n); if (s.handled) n.handled = true; r = list(P, s.slot[1], n, e); } else { if (s.kind == 'D') { add('D', s.id, &n); if (s.handled) n.handled = true; } r = false; } }
            n.fin = true; add('F', s.id, &n); list(P, s.slot[2], n, e); }
        if (!n.handled) { Err q = n.p; if (give(c, q)) { out = q; return true; } }
        add('A', s.id); return false; }
    void run(const struct c26_prog &P) { Ctx t; Err e; if (list(P, P.top, t, e)) { t.handled = false; t.p = e; add('T', -1, &t); } else add('A', -1); add('E', -1); }
};
static int emit(c26_prog &P, int s) {
    if (P.n >= C26_MAXST) { fprintf(stderr, "program too long\n"); abort(); }
    int at = P.n++; const S &x = pool[s]; c26_stmt &t = P.st[at]; t.kind = x.kind; t.code = x.code; t.id = at; t.handled = x.handled; t.early = x.early; const B *bs[3] = {&x.b, &x.h, &x.f};
    for (int k = 0; k < 3; k++) { int i = 0; for (int q : *bs[k]) { int id = emit(P, q); P.st[at].slot[k][i++] = id; } P.st[at].slot[k][i] = -1; } return at; }
static std::string show(const c26_prog &P, const int *s) { std::string r; for (; *s >= 0; s++) { const c26_stmt &t = P.st[*s]; if (t.kind == 'R') r += fmt("raise%d;", t.code); else { r += fmt("%c%d%s%s{", t.kind, t.id, t.handled ? "!" : "", t.early ? "<" : ""); for (int k = 0; k < 3; k++) r += show(P, t.slot[k]) + (k < 2 ? "|" : "}"); } } return r; }
static std::string show(const c26_ev *e, int n) { std::string r; for (int i = 0; i < n; i++) { r += fmt(" %c%d", e[i].ev, e[i].id); if (e[i].code) r += fmt("(%d #%d)", e[i].code, e[i].msg); } return r; }
static long nprog, nev, ndiv;
static void check(Path &p, const B &top) {
    c26_prog P; P.n = 0; int i = 0; for (int s : top) P.top[i++] = emit(P, s); P.top[i] = -1; Ref r; try { r.run(P); } catch (Diverges &) { ndiv++; return; } // a handler raising its own error for ever: not a program
    static c26_log L; c26_run(&P, &L); nprog++; nev += L.n; bool ok = L.n == (int)r.log.size() && !L.over; for (int k = 0; ok && k < L.n; k++) ok = !memcmp(&L.e[k], &r.log[k], sizeof(c26_ev));
    if (!ok) p.fail("%s\ndoes %s\nnot  %s", show(P, P.top).c_str(), show(L.e, L.n).c_str(), show(r.log.data(), (int)r.log.size()).c_str()); }
static int R_IO, R_ARG;
static std::vector<B> lists0(bool two) { std::vector<B> r = {{}, {R_IO}, {R_ARG}}; if (two) { r.push_back({R_IO, R_ARG}); r.push_back({R_ARG, R_IO}); } return r; }
static void base() { if (pool.size()) return; S s; s.kind = 'R'; s.code = FRT_IO_ERROR; R_IO = 0; pool.push_back(s); s.code = FRT_ARG_ERROR; R_ARG = 1; pool.push_back(s); }
// all blocks of a kind whose slots come from the given lists
static void blocks(const std::vector<B> &bs, const std::vector<B> &hs, const std::vector<B> &fs, std::vector<int> &out, bool early) {
    for (int kind : {'F', 'C', 'S', 'D'}) for (int hd = 0; hd < 2; hd++) for (int ea = 0; ea < (early ? 2 : 1); ea++) for (auto &b : bs) for (auto &h : kind == 'F' ? std::vector<B>{{}} : hs) for (auto &f : kind == 'C' ? std::vector<B>{{}} : fs) { S s; s.kind = kind; s.handled = hd; s.early = ea; s.b = b; s.h = h; s.f = f; pool.push_back(s); out.push_back((int)pool.size() - 1); } }
static std::vector<B> wrap(const std::vector<int> &st, bool more) { std::vector<B> r; for (int s : st) { r.push_back({s}); if (more) { r.push_back({s, R_ARG}); r.push_back({s, R_IO}); } } return r; }
static std::vector<int> &level1() { static std::vector<int> v; if (v.empty()) { base(); blocks(lists0(true), lists0(true), lists0(true), v, true); } return v; }
static std::vector<int> &level1s() { static std::vector<int> v; if (v.empty()) { base(); blocks(lists0(false), lists0(false), lists0(false), v, false); } return v; }
static void done(Path &p) { p.eval(nev); for (long i = 0; i < nprog; i++) {} p.note("%ld programs", nprog); nprog = nev = 0; }
// one block, and two blocks in a row
static void sc_flat(Path &p) { auto &v = level1(); int k = p.choose((int)v.size()); if (!p.mine()) return; p.state(k); check(p, {v[k]}); check(p, {v[k], R_IO}); for (int s : level1s()) check(p, {v[k], s}); done(p); }
// one block inside any one slot of another
static void sc_nest2(Path &p) {
    auto &v = level1(); int k = p.choose((int)v.size()), slot = p.choose(3), tail = p.choose(3); if (!p.mine()) return; p.state((k * 4L + slot) * 4 + tail); B in = {v[k]}; if (tail) in.push_back(tail == 1 ? R_ARG : R_IO);
    for (int kind : {'F', 'C', 'S', 'D'}) { if ((slot == 1 && kind == 'F') || (slot == 2 && kind == 'C')) continue; for (int hd = 0; hd < 2; hd++) for (int ea = 0; ea < 2; ea++) for (auto &a : lists0(true)) for (auto &b : lists0(true)) { S s; s.kind = kind; s.handled = hd; s.early = ea; B *sl[3] = {&s.b, &s.h, &s.f}; int q = 0; bool dup = false; for (int x = 0; x < 3; x++) { if (x == slot) *sl[x] = in; else { *sl[x] = q++ ? b : a; if ((x == 1 && kind == 'F') || (x == 2 && kind == 'C')) { if (sl[x]->size()) dup = true; } } } if (dup) continue; pool.push_back(s); check(p, {(int)pool.size() - 1}); pool.pop_back(); } }
    done(p); }
// blocks inside the body and the finally (or handler) of another, and chains of three
static void sc_nest2x2(Path &p) {
    auto &v = level1s(); int k = p.choose((int)v.size()), other = p.choose(2); if (!p.mine()) return; p.state(k * 2L + other);
    for (int l : v) for (int kind : {'F', 'C', 'S', 'D'}) { if (kind == (other ? 'F' : 'C')) continue; for (int hd = 0; hd < 2; hd++) for (int r = 0; r < 3; r++) { S s; s.kind = kind; s.handled = hd; s.b = {v[k]}; if (r) s.b.push_back(r == 1 ? R_IO : R_ARG); (other ? s.h : s.f) = {l}; pool.push_back(s); check(p, {(int)pool.size() - 1}); pool.pop_back(); } }
    done(p); }
static void sc_nest3(Path &p) {
    auto &v = level1s(); int k = p.choose((int)v.size()), s1 = p.choose(3), s2 = p.choose(3); if (!p.mine()) return; p.state((k * 4L + s1) * 4 + s2); auto l0 = lists0(false);
    std::function<void(int, int, std::function<void(int)>)> around = [&](int in, int slot, std::function<void(int)> f) { for (int kind : {'F', 'C', 'S', 'D'}) { if ((slot == 1 && kind == 'F') || (slot == 2 && kind == 'C')) continue; for (int hd = 0; hd < 2; hd++) for (int t = 0; t < 2; t++) for (size_t a = 0; a < l0.size(); a++) { S s; s.kind = kind; s.handled = hd; B *sl[3] = {&s.b, &s.h, &s.f}; *sl[slot] = {in}; if (t) sl[slot]->push_back(R_ARG); int need = slot == 0 ? (kind == 'F' ? 2 : 1) : 0; *sl[need] = l0[a]; if (slot == 0 && kind == 'S' && a) s.f = l0[(a + 1) % 3]; pool.push_back(s); int id = (int)pool.size() - 1; f(id); pool.pop_back(); } } };
    around(v[k], s1, [&](int id) { around(id, s2, [&](int id2) { check(p, {id2}); }); });
    done(p); }
// two threads: every interleaving of the steps of two small programs; each behaves as when alone
static c26_prog TP[2]; static c26_log TL[2]; static sem_t go[2], back; static __thread int me = -1;
static void hook() { if (me < 0) return; sem_post(&back); sem_wait(&go[me]); }
static volatile int tdone[2];
static void *thr(void *a) { me = (int)(long)a; sem_wait(&go[me]); c26_run(&TP[me], &TL[me]); tdone[me] = 1; sem_post(&back); return NULL; }
static void sc_threads(Path &p) {
    auto &v = level1s(); static std::vector<int> pick; if (pick.empty()) for (int s : v) if (pool[s].b.size() && (pool[s].kind == 'F' || pool[s].kind == 'S') && pool[s].handled == 0 && pool[s].h.empty() && pool[s].f.size() < 2) { if (pick.size() < 12) pick.push_back(s); }
    int a = p.choose((int)pick.size()), b = p.choose((int)pick.size()); int wrapk = p.choose(2); if (!p.mine()) return; p.state((a * 100L + b) * 2 + wrapk); long n = 0;
    Ref r[2]; for (int t = 0; t < 2; t++) { int s = pick[t ? b : a]; S o; o.kind = wrapk ? 'C' : 'F'; o.handled = 1; o.b = {s}; pool.push_back(o); TP[t].n = 0; TP[t].top[0] = emit(TP[t], (int)pool.size() - 1); TP[t].top[1] = -1; pool.pop_back(); r[t].run(TP[t]); }
    std::vector<int> sched; // 0/1 choices, enumerated depth first
    for (;;) { n++; sem_init(&go[0], 0, 0); sem_init(&go[1], 0, 0); sem_init(&back, 0, 0); tdone[0] = tdone[1] = 0; c26_step_hook = hook; pthread_t th[2]; for (long t = 0; t < 2; t++) pthread_create(&th[t], NULL, thr, (void *)t); size_t at = 0; std::string tr; int cur = 0, used = 0;
        while (!tdone[0] || !tdone[1]) { int c; if (tdone[0]) c = 1; else if (tdone[1]) c = 0; else { if (at == sched.size()) sched.push_back(0); int sw = sched[at++]; used += sw; c = cur ^ sw; } cur = c; tr += '0' + c; sem_post(&go[c]); sem_wait(&back); }
        for (int t = 0; t < 2; t++) pthread_join(th[t], NULL); c26_step_hook = NULL;
        for (int t = 0; t < 2; t++) { bool ok = TL[t].n == (int)r[t].log.size(); for (int k = 0; ok && k < TL[t].n; k++) ok = !memcmp(&TL[t].e[k], &r[t].log[k], sizeof(c26_ev)); if (!ok) p.fail("schedule %s: thread %d: %s\ndoes %s\nnot  %s", tr.c_str(), t, show(TP[t], TP[t].top).c_str(), show(TL[t].e, TL[t].n).c_str(), show(r[t].log.data(), (int)r[t].log.size()).c_str()); }
        sched.resize(at); while (sched.size() && (sched.back() == 1 || std::count(sched.begin(), sched.end(), 1) >= (opt.thorough ? 5 : 3))) { if (sched.back() == 1) used--; sched.pop_back(); } if (sched.empty()) break; sched.back() = 1; }
    p.eval(n); }
int main(int argc, char **argv) { Meta m; m.rule = "every nesting of try blocks logs the same events, error codes and messages as the reference semantics"; return run(argc, argv, m, {
    {"flat", "every block (4 kinds x handled x early return x bodies, handlers, finally blocks of up to 2 raises), alone and followed by another", sc_flat, 30, false},
    {"nest2", "every block inside every slot of every block", sc_nest2, 30, false},
    {"nest2x2", "blocks in the body and in the finally or handler of a block", sc_nest2x2, 60, false},
    {"nest3", "chains of three nested blocks through every combination of slots", sc_nest3, 60, false},
    {"threads", "two threads with small programs, every interleaving of their steps with at most 3 (thorough 5) switches", sc_threads, 60, false},
}); }
