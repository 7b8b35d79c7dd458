// C23: objects shared between threads: every schedule gives the results of some one-at-a-time order of the calls.
#include "sched.hpp"
#include "query_model.hpp"
#include "stores.hpp"
#include <ind.h>
using namespace mc;
static const bool races_only = getenv("C23_RACES") != NULL;
struct Ctx {
    StoreBox *box = nullptr; FrtIndexReader *ir = nullptr; FrtSearcher *sea = nullptr; FrtIndexWriter *iw = nullptr; FrtIndex *ix = nullptr; FrtQParser *qp = nullptr;
    FrtFilter *filt = nullptr; FrtQuery *q[4] = {0}; FrtSort *sort = nullptr; FrtAnalyzer *an = nullptr; FrtInStream *is = nullptr; FrtLock *lk[2] = {0}; std::string path; FrtSymbol sym[2];
};
typedef std::function<std::string(Ctx &, int)> Fn;                    // (objects, thread) -> what the caller sees
struct Op { const char *name; Fn f; Fn pre = nullptr; };              // pre: a first step of f that others may see by itself
struct Setup { std::function<void(Ctx &)> make; Fn final; bool again = false; };    // again: make it anew for every execution (what forked processes share is modified)
static const bool no_skip = getenv("C23_NOSKIP") != NULL;
static int *skip;
static Slot *dslot; static char *dbuf; enum { DBUF = 1 << 20 };
static void shared_init() {
    if (dslot) return;
    dslot = (Slot *)mmap(NULL, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    dbuf = (char *)mmap(NULL, DBUF + sizeof(sched::Racy) + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    skip = (int *)(dbuf + DBUF + sizeof(sched::Racy));
}
static std::string run_op(const Op &o, Ctx &c, int t) { std::string r; std::string e = guarded([&] { r = o.f(c, t); }); return e.empty() ? r : "<" + e.substr(0, e.find('\n')).substr(0, 60) + ">"; }
static void drop(Ctx &c) { if (c.box && c.box->dir) ScratchDir::rm(c.box->dir->path); }
static std::string outcome_of(const std::vector<std::vector<std::string>> &res, const std::string &fin) { std::string s; for (size_t i = 0; i < res.size(); i++) { s += fmt("T%zu:", i); for (auto &r : res[i]) s += " [" + r + "]"; s += " "; } return s + "end: " + fin; }
static void orders(std::vector<int> left, std::vector<int> cur, std::vector<std::vector<int>> &out) { bool any = false; for (size_t i = 0; i < left.size(); i++) if (left[i]) { any = true; auto l = left; l[i]--; auto c = cur; c.push_back((int)i); orders(l, c, out); } if (!any) out.push_back(cur); }
static void one_run(Path &p, const Setup &S, Ctx *c, const std::vector<std::vector<Op>> &prog, int bound, sched::Racy *racy, sched::Racy *found, const std::set<std::string> &ok) {
    if (!c) { c = new Ctx; S.make(*c); }
    std::vector<std::vector<std::string>> res(prog.size()); std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < prog.size(); t++) { res[t].resize(prog[t].size()); fs.push_back([&, t] { for (size_t i = 0; i < prog[t].size(); i++) { std::string r = run_op(prog[t][i], *c, (int)t); sched::In in; res[t][i] = r; } }); }
    sched::run(p, fs, bound, racy, found);
    std::string o = outcome_of(res, S.final ? run_op({"", S.final}, *c, 0) : "");
    if (S.again) drop(*c);
    p.step(sched::W.points + sched::W.switches); p.outcome(o);
    if (!ok.count(o)) { std::string all; int k = 0; for (auto &x : ok) if (k++ < 3) all += "\n  " + x; p.fail("the threads got\n  %s\nwhich no order of the calls gives; one at a time they give%s%s", o.c_str(), all.c_str(), ok.size() > 3 ? "\n  ..." : ""); }
}
static bool next_choice(Slot *s) { int i = s->n - 1; while (i >= 0 && (s->choice[i] + 1 >= s->fan[i] || (!no_skip && i >= skip[1] && i < skip[0]))) i--; if (i < 0) return false; s->choice[i]++; s->n = i + 1; return true; }
static std::string schedule() { std::string s; for (int i = 0; i < dslot->n; i++) if (dslot->choice[i]) s += fmt(" %d@%d", dslot->choice[i], i); return s.empty() ? " none" : s; }
// all schedules with up to `bound` preemptions
static void schedules(Path &p, const Setup &S, Ctx *c, const std::vector<std::vector<Op>> &prog, int bound, sched::Racy *racy, sched::Racy *found, const std::set<std::string> &ok) {
    memset(dslot, 0, sizeof *dslot);
    do {
        skip[0] = skip[1] = -1; sched::W.skip = skip;
        dslot->drawn = 0; dslot->failed = 0; dslot->note_len = 0; u64 ord = 0; dslot->msg[0] = 0;
        fflush(NULL); pid_t pid = fork();
        if (pid == 0) { alarm(20); Path dp(dslot, 63, 64, ord); dp.replaying = true; one_run(dp, S, S.again ? NULL : c, prog, bound, racy, found, ok); _exit(0); }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
        sh->cases++;
        if (races_only) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 99) p.fail("%s\n(choices other than the first:%s)", dslot->msg, schedule().c_str());
        if (!WIFEXITED(st) || WEXITSTATUS(st)) p.fail("the threads crash or do not end (signal %d, exit %d)\n(choices other than the first:%s)", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0, schedule().c_str());
        p.eval();
    } while (next_choice(dslot));
}
static void explore(Path &p, const std::string &key, const Setup &S, const std::vector<std::vector<Op>> &prog, int bound) {
    shared_init(); p.note("%s", key.c_str());
    forked(600, [&] {
        std::vector<int> left; for (auto &t : prog) { int n = 0; for (auto &o : t) n += o.pre ? 2 : 1; left.push_back(n); } std::vector<std::vector<int>> os; orders(left, {}, os);
        Ctx *c = NULL; if (!S.again) { c = new Ctx; S.make(*c); }
        std::set<std::string> ok;
        for (auto &o : os) {
            dbuf[0] = 0;
            forked(20, [&] { Ctx *d = c; if (!d) { d = new Ctx; S.make(*d); } std::vector<std::vector<std::string>> res(prog.size()); std::vector<char> half(prog.size()); for (int t : o) { const Op &q = prog[t][res[t].size()]; if (q.pre && !half[t]) { half[t] = 1; run_op({"", q.pre}, *d, t); } else { half[t] = 0; res[t].push_back(run_op(q, *d, t)); } } std::string r = outcome_of(res, S.final ? run_op({"", S.final}, *d, 0) : ""); if (S.again) drop(*d); snprintf(dbuf, DBUF, "%s", r.c_str()); });
            ok.insert(dbuf);
        }
        sched::Racy *found = (sched::Racy *)(dbuf + DBUF); memset(found, 0, sizeof *found);
        schedules(p, S, c, prog, bound, NULL, found, ok);
        if (races_only) { std::string l = "RACY " + key; for (int i = 0; i < found->n; i++) l += fmt(" %lx", (long)found->pc[i]); l += "\n"; FILE *f = fopen(getenv("C23_RACES"), "a"); fputs(l.c_str(), f); fclose(f); }
        else if (found->n) { p.note("[%d racy program points] ", found->n); sched::Racy r = *found; schedules(p, S, c, prog, bound, &r, NULL, ok); }
        if (c) drop(*c);
        p.state(fnv(key));
    });
}
// ---- results
static std::string hits(FrtTopDocs *td, bool scores = true) { std::string s = fmt("%d:", td->total_hits); for (int i = 0; i < td->size; i++) s += scores ? fmt(" %d*%.4g", td->hits[i]->doc, td->hits[i]->score) : fmt(" %d", td->hits[i]->doc); frt_td_destroy(td); return s; }
static std::string search(FrtSearcher *s, FrtQuery *q, FrtFilter *f = NULL, FrtSort *so = NULL) { std::string r = hits(s->search(s, q, 0, 10, f, so, NULL, 0)); frt_q_deref(q); return r; }
static MSchema schema() { MSchema sc; FOpt o; o.tv = (FrtTermVectorValue)FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS; sc.def = o; FOpt u; u.index = FRT_INDEX_UNTOKENIZED; FOpt z; z.store = FRT_STORE_COMPRESS; sc.fields = {{"id", u}, {"i", u}, {"z", z}, {"f", o}}; return sc; }
static MDoc doc(const char *id, const char *f, const char *i = NULL) { MDoc d; d.f = {{"id", {id}}, {"f", {f}}}; if (i) d.f.push_back({"i", {i}}); d.f.push_back({"z", {std::string("packed ") + id}}); return d; }
static FrtAnalyzer *ws() { return frt_whitespace_analyzer_new(false); }
static FrtConfig config() { FrtConfig c = frt_default_config; c.max_buffered_docs = 2; c.merge_factor = 3; c.use_compound_file = 1; return c; }
// three segments and a deletion
static void build_index(FrtStore *s, bool compound = true, int docs = 5) {
    MSchema sc = schema(); FrtFieldInfos *fis = sc.make(); frt_index_create(s, fis); frt_fis_deref(fis);
    FrtConfig cf = config(); cf.use_compound_file = compound; cf.merge_factor = 10;
    FrtIndexWriter *iw = frt_iw_open(s, ws(), &cf); static const char *T[] = {"x y z", "y x x", "z w", "x w y", "y z"}, *I[] = {"3", "1", "2", "5", "4"};
    for (int k = 0; k < docs; k++) add_doc(iw, doc(fmt("%d", k).c_str(), T[k % 5], I[k % 5]));
    frt_iw_close(iw);
}
static std::string stored(FrtDocument *d) { std::string s = doc_line(d); frt_doc_destroy(d); return s; }
static std::string content(FrtStore *s) { FrtIndexReader *ir = frt_ir_open(s); std::string r = fmt("%d/%d", ir->num_docs(ir), ir->max_doc(ir)); for (int i = 0; i < ir->max_doc(ir); i++) if (!ir->is_deleted(ir, i)) { FrtDocument *d = ir->get_doc(ir, i); FrtDocField *df = frt_doc_get_field(d, SYM("id")); r += df ? fmt(" %s", df->data[0]) : " ?"; frt_doc_destroy(d); } 
    FrtTermEnum *te = frt_ir_terms(ir, SYM("f")); if (te) { while (te->next(te)) { r += fmt(" %s", te->curr_term); FrtTermDocEnum *td = frt_ir_term_positions_for(ir, SYM("f"), te->curr_term); while (td->next(td)) { r += fmt(":%d", td->doc_num(td)); for (int k = 0; k < td->freq(td); k++) r += fmt("@%d", td->next_position(td)); } td->close(td); } te->close(te); } frt_ir_close(ir); return r; }
// ---- one reader and searcher
static std::vector<Op> READ = {
 {"term", [](Ctx &c, int) { return search(c.sea, frt_tq_new(SYM("f"), "x")); }},
 {"phrase", [](Ctx &c, int) { FrtQuery *q = frt_phq_new(SYM("f")); frt_phq_add_term(q, "x", 0); frt_phq_add_term(q, "y", 1); return search(c.sea, q); }},
 {"boolean", [](Ctx &c, int) { FrtQuery *b = frt_bq_new(0); frt_bq_add_query_nr(b, frt_tq_new(SYM("f"), "y"), FRT_BC_MUST); frt_bq_add_query_nr(b, frt_tq_new(SYM("f"), "w"), FRT_BC_SHOULD); return search(c.sea, b); }},
 {"prefix", [](Ctx &c, int) { return search(c.sea, frt_prefixq_new(SYM("id"), "")); }},
 {"filtered", [](Ctx &c, int) { return search(c.sea, frt_tq_new(SYM("f"), "y"), c.filt); }},
 {"sorted by number", [](Ctx &c, int) { FrtSort *s = frt_sort_new(); frt_sort_add_sort_field(s, frt_sort_field_new(SYM("i"), FRT_SORT_TYPE_INTEGER, 0)); std::string r = search(c.sea, frt_maq_new(), NULL, s); frt_sort_destroy(s); return r; }},
 {"sorted by text", [](Ctx &c, int) { FrtSort *s = frt_sort_new(); frt_sort_add_sort_field(s, frt_sort_field_new(SYM("i"), FRT_SORT_TYPE_STRING, 1)); std::string r = search(c.sea, frt_maq_new(), NULL, s); frt_sort_destroy(s); return r; }},
 {"document", [](Ctx &c, int t) { return stored(c.ir->get_doc(c.ir, t ? 0 : 1)); }},
 {"lazy document", [](Ctx &c, int t) { FrtLazyDoc *d = c.ir->get_lazy_doc(c.ir, t ? 0 : 1); std::string s = lazy_line(d); frt_lazy_doc_close(d); return s; }},
 {"term vector", [](Ctx &c, int t) { FrtTermVector *tv = c.ir->term_vector(c.ir, t ? 0 : 1, SYM("f")); std::string s; if (tv) { for (int i = 0; i < tv->term_cnt; i++) s += fmt("%s@%d ", tv->terms[i].text, tv->terms[i].positions ? tv->terms[i].positions[0] : -1); frt_tv_destroy(tv); } return s; }},
 {"terms", [](Ctx &c, int) { std::string s; FrtTermEnum *te = frt_ir_terms(c.ir, SYM("f")); while (te->next(te)) s += fmt("%s*%d ", te->curr_term, te->curr_ti.doc_freq); te->close(te); return s; }},
 {"positions", [](Ctx &c, int t) { std::string s; FrtTermDocEnum *td = frt_ir_term_positions_for(c.ir, SYM("f"), t ? "x" : "y"); while (td->next(td)) { s += fmt("%d", td->doc_num(td)); for (int k = 0; k < td->freq(td); k++) s += fmt("@%d", td->next_position(td)); s += ' '; } td->close(td); return s; }},
 {"doc_freq", [](Ctx &c, int t) { return t ? fmt("%d", frt_ir_doc_freq(c.ir, SYM("f"), "x")) : fmt("%d", frt_ir_doc_freq(c.ir, SYM("id"), "3")); }},
 {"norms", [](Ctx &c, int) { std::string s; frt_uchar *n = frt_ir_get_norms(c.ir, SYM("f")); for (int i = 0; i < c.ir->max_doc(c.ir); i++) s += fmt("%d ", n[i]); return s; }},
 {"no norms", [](Ctx &c, int) { std::string s; frt_uchar *n = frt_ir_get_norms(c.ir, SYM("nothing")); for (int i = 0; i < c.ir->max_doc(c.ir); i++) s += fmt("%d ", n[i]); return s; }},
 {"explain", [](Ctx &c, int) { FrtQuery *q = frt_tq_new(SYM("f"), "x"); FrtExplanation *e = c.sea->explain(c.sea, q, 0); std::string s = fmt("%.4g", e->value); frt_expl_destroy(e); frt_q_deref(q); return s; }},
 {"highlight", [](Ctx &c, int) { FrtQuery *q = frt_tq_new(SYM("f"), "x"); char **h = frt_searcher_highlight(c.sea, q, 3, SYM("f"), 100, 1, "<", ">", ".."); std::string s; if (h) { for (int i = 0; i < frt_ary_size(h); i++) s += h[i]; frt_ary_destroy_i((void **)h, (frt_free_ft)free); } frt_q_deref(q); return s; }},
 {"is_latest", [](Ctx &c, int) { return fmt("%d", !!frt_ir_is_latest(c.ir)); }},
 {"counts", [](Ctx &c, int) { return fmt("%d/%d", c.ir->num_docs(c.ir), c.ir->max_doc(c.ir)); }},
};
static Setup reader_setup(int kind, bool compound, int docs) { return { [=](Ctx &c) { c.box = new StoreBox(kind); build_index(c.box->s, compound, docs); c.ir = frt_ir_open(c.box->s); c.sea = frt_isea_new(c.ir); c.filt = frt_qfilt_new_nr(frt_tq_new(SYM("f"), "x")); },
    [](Ctx &c, int) { c.sea->close(c.sea); return std::string("closed"); } }; }
static const char *SEG[] = {"one segment", "three segments"};
static bool pick(Path &p, int n, int &a, int &b) { a = p.choose(n); b = p.choose(n); if (b < a) { p.prune(); return false; } return p.mine(); }
static void reading(Path &p, int bound, bool all) {
    static const int CFG[8][3] = {{0, 1, 1}, {1, 0, 0}, {0, 0, 1}, {1, 1, 0}, {0, 0, 0}, {1, 0, 1}, {0, 1, 0}, {1, 1, 1}};
    const int *g = CFG[p.choose(all ? 8 : 4)]; int a, b; if (!pick(p, (int)READ.size(), a, b)) return;
    explore(p, fmt("%s store, %s%s: T0 %s, T1 %s ", KIND[g[0]], SEG[g[1]], g[2] ? ", compound" : "", READ[a].name, READ[b].name), reader_setup(g[0], g[2], g[1] ? 5 : 2), {{READ[a]}, {READ[b]}}, bound);
}
// two calls in one thread
static void reading2(Path &p, int bound) {
    static const int SUB[] = {1, 6, 11, 0, 3, 4, 7, 10}; const int N = opt.thorough ? 8 : 3;
    int kind = p.choose(2), a = p.choose(N), b = p.choose(N), c = p.choose(N); if (!p.mine()) return;
    explore(p, fmt("%s store: T0 %s, %s; T1 %s ", KIND[kind], READ[SUB[a]].name, READ[SUB[b]].name, READ[SUB[c]].name), reader_setup(kind, kind, 5), {{READ[SUB[a]], READ[SUB[b]]}, {READ[SUB[c]]}}, bound);
}
// what a reader shows, whatever its segments
static std::string view(FrtIndexReader *ir) {
    std::vector<std::string> ids; std::string r = fmt("%d", ir->num_docs(ir));
    for (int i = 0; i < ir->max_doc(ir); i++) { std::string id = "-"; if (!ir->is_deleted(ir, i)) { FrtDocument *d = ir->get_doc(ir, i); FrtDocField *df = frt_doc_get_field(d, SYM("id")); id = df ? df->data[0] : "?"; r += " " + id; frt_doc_destroy(d); } ids.push_back(id); }
    FrtTermEnum *te = frt_ir_terms(ir, SYM("f")); std::vector<std::string> ts; if (te) { while (te->next(te)) ts.push_back(te->curr_term); te->close(te); }
    for (auto &t : ts) { std::string l; FrtTermDocEnum *td = frt_ir_term_positions_for(ir, SYM("f"), t.c_str()); while (td->next(td)) { l += " " + ids.at(td->doc_num(td)); for (int k = 0; k < td->freq(td); k++) l += fmt("@%d", td->next_position(td)); } td->close(td); if (l.size()) r += ", " + t + l; }
    return r;
}
static std::string open_view(FrtStore *s) { FrtIndexReader *ir = frt_ir_open(s); std::string r; std::string e = guarded([&] { r = view(ir); }); frt_ir_close(ir); return e.empty() ? r : "<" + e + ">"; }
static std::string ok(std::function<void()> f) { f(); return "ok"; }
// ---- one writer
static const Fn COMMIT = [](Ctx &c, int) { frt_iw_commit(c.iw); return std::string(); };      // documents added before are committed first
static std::vector<Op> WRITE = {
 {"add", [](Ctx &c, int t) { return ok([&] { add_doc(c.iw, doc(t ? "t1" : "t0", t ? "x q" : "y r")); }); }},
 {"delete", [](Ctx &c, int t) { return ok([&] { frt_iw_delete_term(c.iw, SYM("id"), t ? "1" : "0"); }); }, COMMIT},
 {"delete added", [](Ctx &c, int t) { return ok([&] { frt_iw_delete_term(c.iw, SYM("id"), t ? "t0" : "t1"); }); }, COMMIT},
 {"commit", [](Ctx &c, int) { return ok([&] { frt_iw_commit(c.iw); }); }},
 {"optimize", [](Ctx &c, int) { return ok([&] { frt_iw_optimize(c.iw); }); }},
 {"doc_count", [](Ctx &c, int) { return fmt("%d", frt_iw_doc_count(c.iw)); }},
 {"open a reader", [](Ctx &c, int) { return open_view(c.box->s); }},
 {"is_latest", [](Ctx &c, int) { return fmt("%d", !!frt_ir_is_latest(c.ir)); }},
 {"old reader", [](Ctx &c, int) { return view(c.ir); }},
};
static Setup writer_setup(int kind, int buffered, bool cmpd) { return { [=](Ctx &c) { c.box = new StoreBox(kind); build_index(c.box->s, cmpd, 3); c.ir = frt_ir_open(c.box->s); FrtConfig cf = config(); cf.max_buffered_docs = 2; cf.use_compound_file = cmpd; c.iw = frt_iw_open(c.box->s, ws(), &cf); if (buffered) add_doc(c.iw, doc("b", "x b")); },
    [](Ctx &c, int) { frt_ir_close(c.ir); frt_iw_close(c.iw); return open_view(c.box->s); }, kind == 1 }; }
static void writing(Path &p, int bound, bool all) {
    int kind = p.choose(2), buf = p.choose(2), a, b; int cm = all ? p.choose(2) : kind; if (!pick(p, (int)WRITE.size(), a, b)) return;
    explore(p, fmt("one writer, %s store, %d document buffered%s: T0 %s, T1 %s ", KIND[kind], buf, cm ? ", compound" : "", WRITE[a].name, WRITE[b].name), writer_setup(kind, buf, cm), {{WRITE[a]}, {WRITE[b]}}, bound);
}
static void writing2(Path &p, int bound) {
    const int N = opt.thorough ? 7 : 4; int buf = p.choose(2), a = p.choose(N), b = p.choose(N), c = p.choose(N), d = opt.thorough ? p.choose(N + 1) - 1 : -1; if (!p.mine()) return;
    std::vector<Op> t1 = {WRITE[c]}; if (d >= 0) t1.push_back(WRITE[d]);
    explore(p, fmt("one writer, ram store, %d buffered: T0 %s, %s; T1 %s%s%s ", buf, WRITE[a].name, WRITE[b].name, WRITE[c].name, d >= 0 ? ", " : "", d >= 0 ? WRITE[d].name : ""), writer_setup(0, buf, false), {{WRITE[a], WRITE[b]}, t1}, bound);
}
// ---- one reader which also modifies the index
static std::vector<Op> MODIFY = {
 {"delete", [](Ctx &c, int t) { return ok([&] { frt_ir_delete_doc(c.ir, t ? 1 : 0); }); }},
 {"delete the same", [](Ctx &c, int) { return ok([&] { frt_ir_delete_doc(c.ir, 2); }); }},
 {"set_norm", [](Ctx &c, int t) { return ok([&] { frt_ir_set_norm(c.ir, 3, SYM("f"), t ? 77 : 99); }); }},
 {"undelete", [](Ctx &c, int) { return ok([&] { frt_ir_undelete_all(c.ir); }); }},
 {"commit", [](Ctx &c, int) { return ok([&] { frt_ir_commit(c.ir); }); }},
 {"num_docs", [](Ctx &c, int) { return fmt("%d", c.ir->num_docs(c.ir)); }},
 {"has_deletions", [](Ctx &c, int) { return fmt("%d", !!c.ir->has_deletions(c.ir)); }},
 {"is_deleted", [](Ctx &c, int) { return fmt("%d", !!c.ir->is_deleted(c.ir, 1)); }},
 {"is_latest", [](Ctx &c, int) { return fmt("%d", !!frt_ir_is_latest(c.ir)); }},
 {"open a reader", [](Ctx &c, int) { return open_view(c.box->s); }},
 {"norms", [](Ctx &c, int) { return fmt("%d", frt_ir_get_norms(c.ir, SYM("f"))[3]); }},
 {"search", [](Ctx &c, int) { return search(c.sea, frt_tq_new(SYM("id"), "1")); }},
};
static Setup modifier_setup(int kind, int multi) { return { [=](Ctx &c) { c.box = new StoreBox(kind); build_index(c.box->s, kind, multi ? 5 : 2); if (!multi) { FrtConfig cf = config(); FrtIndexWriter *iw = frt_iw_open(c.box->s, ws(), &cf); for (const char *i : {"2", "3"}) add_doc(iw, doc(i, "z w")); frt_iw_optimize(iw); frt_iw_close(iw); } c.ir = frt_ir_open(c.box->s); c.sea = frt_isea_new(c.ir); },
    [](Ctx &c, int) { std::string n = fmt("norm %d; ", frt_ir_get_norms(c.ir, SYM("f"))[3]), v = view(c.ir); c.sea->close(c.sea); return n + v + "; committed: " + open_view(c.box->s); }, kind == 1 }; }
static void modifying(Path &p, int bound) {
    int kind = p.choose(2), multi = p.choose(2), a, b; if (!pick(p, (int)MODIFY.size(), a, b)) return;
    explore(p, fmt("one reader, %s store, %s: T0 %s, T1 %s ", KIND[kind], SEG[multi], MODIFY[a].name, MODIFY[b].name), modifier_setup(kind, multi), {{MODIFY[a]}, {MODIFY[b]}}, bound);
}
// ---- the all-in-one index object; calls which do not lock it are made with its mutex held
static FrtDocument *idoc(const char *id, const char *t) { FrtDocument *d = frt_doc_new(); for (auto &x : {std::make_pair("id", id), std::make_pair("f", t)}) { FrtDocField *f = frt_df_new(SYM(x.first)); f->destroy_data = true; frt_df_add_data(f, frt_estrdup(x.second)); frt_doc_add_field(d, f); } return d; }
static std::string held(FrtIndex *ix, std::function<std::string()> f) { pthread_mutex_lock(&ix->mutex); std::string r; std::string e = guarded([&] { r = f(); }); pthread_mutex_unlock(&ix->mutex); return e.empty() ? r : "<" + e + ">"; }
static std::vector<Op> INDEX = {
 {"add", [](Ctx &c, int t) { return ok([&] { FrtDocument *d = idoc(t ? "t1" : "t0", "x"); frt_index_add_doc(c.ix, d); frt_doc_destroy(d); }); }},
 {"add keyed", [](Ctx &c, int t) { return ok([&] { FrtDocument *d = idoc("0", t ? "x t1" : "x t0"); frt_index_add_doc(c.ix, d); frt_doc_destroy(d); }); }},
 {"add_string", [](Ctx &c, int) { return ok([&] { char s[] = "x y"; frt_index_add_string(c.ix, s); }); }},
 {"delete_id", [](Ctx &c, int) { return ok([&] { frt_index_delete_id(c.ix, "0"); }); }},
 {"delete", [](Ctx &c, int) { return ok([&] { frt_index_delete(c.ix, 1); }); }},
 {"delete_query", [](Ctx &c, int) { return ok([&] { FrtQuery *q = frt_tq_new(SYM("f"), "x"); frt_index_delete_query(c.ix, q, NULL, NULL); frt_q_deref(q); }); }},
 {"optimize", [](Ctx &c, int) { return ok([&] { frt_index_optimize(c.ix); }); }},
 {"flush", [](Ctx &c, int) { return held(c.ix, [&] { frt_index_flush(c.ix); return std::string("ok"); }); }},
 {"size", [](Ctx &c, int) { return fmt("%d", frt_index_size(c.ix)); }},
 {"search_str", [](Ctx &c, int) { return held(c.ix, [&] { char s[] = "f:x"; FrtTopDocs *td = frt_index_search_str(c.ix, s, 0, 10, NULL, NULL, NULL); std::string r = fmt("%d", td->total_hits); frt_td_destroy(td); return r; }); }},
 {"get_doc_id", [](Ctx &c, int) { FrtDocument *d = frt_index_get_doc_id(c.ix, "0"); return d ? stored(d) : std::string("none"); }},
 {"get_doc_ts", [](Ctx &c, int) { return stored(frt_index_get_doc_ts(c.ix, 0)); }},
 {"is_deleted", [](Ctx &c, int) { return fmt("%d", !!frt_index_is_deleted(c.ix, 1)); }},
 {"explain", [](Ctx &c, int) { FrtQuery *q = frt_tq_new(SYM("f"), "y"); FrtExplanation *e = frt_index_explain(c.ix, q, 0); std::string s = fmt("%d", e->value > 0); frt_expl_destroy(e); frt_q_deref(q); return s; }},
};
static Setup index_setup(int kind, int key, bool af) { return { [=](Ctx &c) { c.box = new StoreBox(kind); FrtHashSet *df = frt_hs_new_str(NULL); frt_hs_add(df, (char *)SYM("f")); FrtAnalyzer *a = ws(); c.ix = frt_index_new(c.box->s, a, df, true); frt_a_deref(a); frt_hs_destroy(df); c.ix->auto_flush = af; c.ix->def_field = SYM("f"); if (key) { c.ix->key = frt_hs_new_str(NULL); frt_hs_add(c.ix->key, (char *)SYM("id")); }
        const char *T[] = {"x y", "y", "x"}; for (int i = 0; i < 3; i++) { FrtDocument *d = idoc(fmt("%d", i).c_str(), T[i]); frt_index_add_doc(c.ix, d); frt_doc_destroy(d); } },
    [](Ctx &c, int) { frt_index_destroy(c.ix); return open_view(c.box->s); }, kind == 1 }; }
static void indexing(Path &p, int bound) {
    int kind = p.choose(2), cfg = p.choose(2), a, b; if (!pick(p, (int)INDEX.size(), a, b)) return;
    explore(p, fmt("one index object, %s store%s: T0 %s, T1 %s ", KIND[kind], cfg ? ", key, auto_flush" : "", INDEX[a].name, INDEX[b].name), index_setup(kind, cfg, cfg), {{INDEX[a]}, {INDEX[b]}}, bound);
}
// ---- one store: readers come and go while a writer works; plain files; locks
static std::string collect(FrtStore *s) { std::vector<std::string> v; s->each(s, [](const char *f, void *a) { ((std::vector<std::string> *)a)->push_back(f); }, &v); std::sort(v.begin(), v.end()); std::string r; for (auto &x : v) r += x + " "; return r; }
static std::vector<Op> STORE = {
 {"open a reader", [](Ctx &c, int) { return open_view(c.box->s); }},
 {"open a writer and add", [](Ctx &c, int) { return ok([&] { FrtConfig cf = config(); FrtIndexWriter *iw = frt_iw_open(c.box->s, ws(), &cf); add_doc(iw, doc("n", "x n")); frt_iw_close(iw); }); }},
 {"open a writer and optimize", [](Ctx &c, int) { return ok([&] { FrtConfig cf = config(); FrtIndexWriter *iw = frt_iw_open(c.box->s, ws(), &cf); frt_iw_optimize(iw); frt_iw_close(iw); }); }},
 {"delete through a reader", [](Ctx &c, int) { return ok([&] { FrtIndexReader *ir = frt_ir_open(c.box->s); frt_ir_delete_doc(ir, 0); frt_ir_close(ir); }); }},
 {"write a file", [](Ctx &c, int t) { return ok([&] { write_file(c.box->s, t ? "t1" : "t0", t ? "one" : "zero"); }); }},
 {"read a file", [](Ctx &c, int) { return slurp_file(c.box->s, "seed"); }},
 {"exists", [](Ctx &c, int t) { return fmt("%d", !!c.box->s->exists(c.box->s, t ? "seed" : "t1")); }},
 {"remove", [](Ctx &c, int) { return fmt("%d", c.box->s->remove(c.box->s, "seed2")); }},
 {"rename", [](Ctx &c, int t) { return ok([&] { c.box->s->rename(c.box->s, t ? "ra" : "rb", t ? "ra2" : "rb2"); }); }},
 {"lock", [](Ctx &c, int) { FrtLock *l = c.box->s->open_lock_i(c.box->s, (char *)"own"); std::string r = fmt("%d", !!l->obtain(l)); l->release(l); frt_close_lock(l); return r; }},
 {"list", [](Ctx &c, int) { std::string l = collect(c.box->s); return fmt("%d%d", l.find("seed ") != std::string::npos, l.find("seed2 ") != std::string::npos); }},
 {"another store object", [](Ctx &c, int) { if (!c.box->dir) return std::string("-"); FrtStore *s = frt_open_fs_store(c.box->dir->path.c_str()); std::string r = slurp_file(s, "seed"); frt_store_deref(s); return r; }},
 {"copy to RAM", [](Ctx &c, int) { FrtStore *s = frt_open_ram_store_and_copy(c.box->s, false); std::string r = slurp_file(s, "seed"); frt_store_deref(s); return r; }},
};
static Setup store_setup(int kind) { return { [=](Ctx &c) { c.box = new StoreBox(kind); build_index(c.box->s, kind, 3); for (const char *f : {"seed", "seed2", "ra", "rb"}) write_file(c.box->s, f, std::string("data of ") + f); },
    [](Ctx &c, int) { std::string l; for (const char *f : {"seed", "seed2", "ra", "rb", "ra2", "rb2", "t0", "t1"}) if (c.box->s->exists(c.box->s, f)) l += std::string(f) + "=" + slurp_file(c.box->s, f) + " "; return l + open_view(c.box->s); }, kind == 1 }; }
static void storing(Path &p, int bound) {
    int kind = p.choose(2), a, b; if (!pick(p, (int)STORE.size(), a, b)) return;
    auto modifies = [](int k) { return k >= 1 && k <= 3; };
    if ((modifies(a) && modifies(b)) || (a == 9 && b == 9) || (a == 12 || b == 12) * (modifies(a) || modifies(b) || (a >= 4 && a != 5 && a != 6 && a != 9 && a != 12))) { p.prune(); return; }    // lock conflicts are answered with errors; a copy is no single step
    explore(p, fmt("one %s store: T0 %s, T1 %s ", KIND[kind], STORE[a].name, STORE[b].name), store_setup(kind), {{STORE[a]}, {STORE[b]}}, bound);
}
// ---- nothing shared but what is global
static std::vector<Op> OWN = {
 {"index of its own", [](Ctx &, int t) { FrtStore *s = frt_open_ram_store(); build_index(s, t, 1); std::string r = open_view(s); frt_store_deref(s); return r; }},
 {"symbols", [](Ctx &, int t) { std::string r; for (int i = 0; i < 3; i++) { FrtSymbol a = frt_intern(fmt("own%d", i).c_str()), b = frt_intern(fmt(t ? "own%d" : "other%d", i).c_str()); r += fmt("%s%s ", FRT_S(a), FRT_S(b)); } return r; }},
 {"one symbol", [](Ctx &c, int t) { FrtSymbol a = frt_intern("shared symbol"); sched::In in; if (t) c.sym[1] = a; else c.sym[0] = a; return std::string("interned"); }},
 {"hash tables", [](Ctx &, int) { std::string r; FrtHash *h[3]; for (int k = 0; k < 3; k++) { h[k] = frt_h_new_str(NULL, NULL); for (int i = 0; i < 10; i++) frt_h_set(h[k], "abcdefghij" + i, (void *)(long)(i + 1)); } for (int k = 0; k < 3; k++) { for (int i = 0; i < 10; i++) r += fmt("%ld", (long)frt_h_get(h[k], "abcdefghij" + i)); frt_h_destroy(h[k]); } return r; }},
 {"errors", [](Ctx &, int t) { std::string r; FrtStore *s = frt_open_ram_store(); for (int i = 0; i < 2; i++) { std::string f = fmt("thread%dfile%d", t, i), e = guarded([&] { s->open_input(s, f.c_str()); }); if (e.find(f) == std::string::npos) r += e; } frt_store_deref(s); return r.empty() ? std::string("own errors") : r; }},
 {"parser of its own", [](Ctx &, int) { FrtQParser *qp = frt_qp_new(ws()); frt_qp_add_field(qp, SYM("f"), true, true); char s[] = "a +b \"c d\"~2 x* [a b]"; FrtQuery *q = frt_qp_parse(qp, s); char *z = q->to_s(q, SYM("f")); std::string r = z; free(z); frt_q_deref(q); frt_qp_destroy(qp); return r; }},
 {"shared parser", [](Ctx &c, int t) { char s[2][24] = {"a +b \"c d\"~2", "f:(x OR -y*) [a b]"}; FrtQuery *q = frt_qp_parse(c.qp, s[t]); char *z = q->to_s(q, SYM("f")); std::string r = z; free(z); frt_q_deref(q); return r; }},
 {"shared parser, error", [](Ctx &c, int) { char s[] = "a (( b"; FrtQuery *q = frt_qp_parse(c.qp, s); frt_q_deref(q); return std::string("parsed"); }},
 {"tokens", [](Ctx &, int t) { std::string r; FrtAnalyzer *a = frt_standard_analyzer_new(true); char s[] = "The quick AT&T foo@bar.com"; char s2[] = "Some other words of mine"; FrtTokenStream *ts = frt_a_get_ts(a, SYM("f"), t ? s2 : s); FrtToken *k; while ((k = frt_ts_next(ts))) r += fmt("%s ", k->text); frt_ts_deref(ts); frt_a_deref(a); return r; }},
 {"stems", [](Ctx &, int) { std::string r; char s[] = "running dogs barked"; FrtTokenStream *ts = frt_stem_filter_new(frt_whitespace_tokenizer_new(), "english", "UTF_8"); ts->reset(ts, s); FrtToken *k; while ((k = ts->next(ts))) r += fmt("%s ", k->text); frt_ts_deref(ts); return r; }},
 {"similarity", [](Ctx &, int) { FrtSimilarity *s = frt_sim_create_default(); std::string r = fmt("%.4g %.4g", frt_sim_tf(s, 3.0f), frt_sim_decode_norm(s, 100)); return r; }},
};
static Setup own_setup() { return { [=](Ctx &c) { c.qp = frt_qp_new(ws()); frt_qp_add_field(c.qp, SYM("f"), true, true); c.qp->handle_parse_errors = false; c.sym[0] = c.sym[1] = 0; }, [](Ctx &c, int) { FrtSymbol a = frt_intern("shared symbol"); return fmt("%d%d", !c.sym[0] || c.sym[0] == a, !c.sym[1] || c.sym[1] == a); } }; }
static void owning(Path &p, int bound) { int a, b; if (!pick(p, (int)OWN.size(), a, b)) return; if (a == 0 && b == 0) { p.prune(); return; } explore(p, fmt("T0 %s, T1 %s ", OWN[a].name, OWN[b].name), own_setup(), {{OWN[a]}, {OWN[b]}}, bound); }
int main(int argc, char **argv) {
    mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 1 << 30);
    Meta m; m.level = "model_checking"; m.rule = "distinct states are thread programs, distinct_outcomes the results observed; transitions are scheduling points and context switches; every execution runs the real code under a controlled scheduler";
    m.assumptions = {"preemptions happen at mutex operations, atomic operations, file operations and accesses that take part in a data race; sequential consistency", "of schedules that differ only by swapping steps without common data one is run", "calls of the index object that do not lock it are made with its mutex held"};
    return run(argc, argv, m, {
        {"reading", "2 threads x 1 of 19 read operations on one reader; RAM and file store; 1 or 3 segments; compound or not (4 of the 8 combinations; thorough: all); 1 preemption", [](Path &p) { reading(p, 1, opt.thorough); }, 60},
        {"reading-more", "one thread with 2, the other with 1 of 3 (8) read operations on one reader; 1 preemption", [](Path &p) { reading2(p, 1); }, 60},
        {"writing", "2 threads x 1 of 9 operations on one writer and its store; 1 preemption", [](Path &p) { writing(p, 1, opt.thorough); }, 60},
        {"writing-more", "one thread with 2, the other with 1 of 4 (7; then also 2) operations on one writer; 1 preemption", [](Path &p) { writing2(p, 1); }, 60},
        {"modifying", "2 threads x 1 of 12 operations on one reader that modifies the index; 1 (2) preemptions", [](Path &p) { modifying(p, opt.thorough ? 2 : 1); }, 60},
        {"indexing", "2 threads x 1 of 14 operations on one index object; 1 preemption", [](Path &p) { indexing(p, 1); }, 60},
        {"storing", "2 threads x 1 of 13 operations on one store; 1 preemption", [](Path &p) { storing(p, 1); }, 60},
        {"global", "2 threads x 1 of 11 operations sharing nothing but a parser; 1 (2) preemptions", [](Path &p) { owning(p, opt.thorough ? 2 : 1); }, 60},
    });
}
