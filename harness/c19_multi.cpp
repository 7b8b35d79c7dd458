// C19: a multi-reader / multi-searcher over the parts of a collection behaves like one index of the whole collection.
#include "query_model.hpp"
#include <cmath>
using namespace mc;
static const std::vector<std::string> FIELDS = {"f", "g", "h"};
static FOpt tvopt() { FOpt o; o.tv = FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS; return o; }
struct C { std::string f, g, h, s; float boost; };
static std::vector<std::vector<C>> collections() {
    return {
        {{"a b", "x", "", "3", 1}, {"a", "", "u", "1", 1}, {"b a a", "y x", "", "2", 2}, {"c", "x", "u u", "1", 1}},
        {{"a1 b", "", "", "2", 1}, {"a2 b", "", "u", "2", 1}, {"a1 a2 b", "x", "", "1", 1}, {"b", "x y", "", "3", 0.5f}},
        {{"", "x", "", "1", 1}, {"a b c", "", "", "2", 1}, {"", "", "u", "3", 1}, {"a c", "y", "", "", 1}},
        {{"b b a", "x", "u", "9", 1}, {"b b a", "x", "u", "9", 1}, {"b a", "x", "u", "10", 3}, {"b b a", "x", "u", "9", 1}},
    };
}
static MDoc cdoc(const C &c, int i) { MDoc d; d.boost = c.boost; d.f.push_back({"id", {fmt("%d", i)}}); if (c.f.size()) d.f.push_back({"f", {c.f}}); if (c.g.size()) d.f.push_back({"g", {c.g}}); if (c.h.size()) d.f.push_back({"h", {c.h}}); if (c.s.size()) d.f.push_back({"s", {c.s}}); return d; }
// fields: 0 all declared in the same order, 1 declared in another order in odd parts, 2 only those of the part's documents, in order of use
static MSchema schema(int kind, int part, const std::vector<MDoc> &ds) {
    MSchema sc; sc.def = tvopt(); FOpt u; u.index = FRT_INDEX_UNTOKENIZED; std::vector<std::pair<std::string, FOpt>> all = {{"id", u}, {"f", tvopt()}, {"g", tvopt()}, {"h", tvopt()}, {"s", u}};
    if (kind == 2) { for (auto &d : ds) for (auto &f : d.f) { bool have = false; for (auto &x : sc.fields) have |= x.first == f.name; if (!have) for (auto &x : all) if (x.first == f.name) sc.fields.push_back(x); } bool hs = false; for (auto &x : sc.fields) hs |= x.first == "s"; if (!hs) sc.fields.push_back(all[4]); }
    else { sc.fields = all; if (kind == 1 && part % 2) std::reverse(sc.fields.begin(), sc.fields.end()); }
    return sc;
}
static void build_index(FrtStore *s, const MSchema &sc, const std::vector<MDoc> &ds, int commit_at) {
    MConfig c; c.compound = false; c.chunk = 0x4000; c.merge_factor = 100; c.skip_interval = 2; c.index_interval = 2; FrtConfig fc = make_config(c);
    FrtFieldInfos *fis = sc.make(); frt_index_create(s, fis); frt_fis_deref(fis); FrtIndexWriter *iw = open_writer(s, &fc); int i = 0; for (auto &d : ds) { if (i++ == commit_at) frt_iw_commit(iw); add_doc(iw, d); } frt_iw_close(iw);
}
static std::vector<std::pair<std::string, std::function<FrtQuery *()>>> queries(bool ranges) {
    std::vector<std::pair<std::string, std::function<FrtQuery *()>>> r; auto add = [&](const QNode &n) { r.push_back({show(n), [n] { return build(n); }}); };
    auto A = qterm("f", "a"), B = qterm("f", "b"), X = qterm("g", "x"), U = qterm("h", "u"), Z = qterm("z", "q"), M = qterm("f", "missing");
    for (auto &q : {A, B, X, U, Z, M, qall(), qterm("f", "b", 3)}) add(q);
    add(qbool({{MUST, A}, {SHOULD, X}})); add(qbool({{SHOULD, A}, {SHOULD, U}, {SHOULD, Z}})); add(qbool({{MUST, B}, {MUST_NOT, X}})); add(qbool({{MUST_NOT, A}})); add(qbool({{SHOULD, A}, {SHOULD, B}}, 2, true)); add(qbool({{MUST, qbool({{SHOULD, A}, {SHOULD, X}})}, {SHOULD, B}})); add(qbool({{MUST, A}, {MUST, qall()}}));
    add(qphrase("f", {{0, {"a"}}, {1, {"b"}}})); add(qphrase("f", {{0, {"b"}}, {1, {"a", "b"}}})); add(qphrase("f", {{0, {"a"}}, {1, {"b"}}}, 2)); add(qphrase("f", {{0, {"b"}}})); add(qcsq(A)); add(qcsq(U, 2)); add(qfiltered(B, X)); add(qmterm("f", {{"a", 1}, {"b", 2}, {"a1", 1}}));
    auto fn = [&](const char *n, std::function<FrtQuery *()> f) { r.push_back({n, f}); };
    fn("f:a*", [] { return frt_prefixq_new(SYM("f"), "a"); }); fn("f:a?", [] { return frt_wcq_new(SYM("f"), "a?"); }); fn("f:a1~", [] { return frt_fuzq_new_conf(SYM("f"), "a1", 0.3f, 0, 10); }); fn("g:*", [] { return frt_wcq_new(SYM("g"), "*"); }); fn("z:a*", [] { return frt_prefixq_new(SYM("z"), "a"); }); fn("h:u~", [] { return frt_fuzq_new_conf(SYM("h"), "u", 0.3f, 0, 10); });
    fn("+f:b -f:a*", [] { FrtQuery *q = frt_bq_new(false); frt_bq_add_query_nr(q, frt_tq_new(SYM("f"), "b"), FRT_BC_MUST); frt_bq_add_query_nr(q, frt_prefixq_new(SYM("f"), "a"), FRT_BC_MUST_NOT); return q; });
    fn("f:b f:a* g:x", [] { FrtQuery *q = frt_bq_new(false); frt_bq_add_query_nr(q, frt_tq_new(SYM("f"), "b"), FRT_BC_SHOULD); frt_bq_add_query_nr(q, frt_prefixq_new(SYM("f"), "a"), FRT_BC_SHOULD); frt_bq_add_query_nr(q, frt_tq_new(SYM("g"), "x"), FRT_BC_SHOULD); return q; });
    fn("f:a*^2 nocoord", [] { FrtQuery *q = frt_bq_new(true); FrtQuery *k = frt_prefixq_new(SYM("f"), "a"); k->boost = 2; frt_bq_add_query_nr(q, k, FRT_BC_SHOULD); frt_bq_add_query_nr(q, frt_wcq_new(SYM("g"), "?"), FRT_BC_SHOULD); return q; });
    fn("+g:? -h:*", [] { FrtQuery *q = frt_bq_new(false); frt_bq_add_query_nr(q, frt_wcq_new(SYM("g"), "?"), FRT_BC_MUST); frt_bq_add_query_nr(q, frt_wcq_new(SYM("h"), "*"), FRT_BC_MUST_NOT); return q; });
    if (ranges) { fn("f:[a1 b]", [] { return frt_rq_new(SYM("f"), "a1", "b", true, true); }); fn("s:[2 3] typed", [] { return frt_trq_new(SYM("s"), "2", "9", true, true); }); }
    fn("span f:b", [] { return frt_spantq_new(SYM("f"), "b"); }); fn("span near b a", [] { FrtQuery *q = frt_spannq_new(2, false); frt_spannq_add_clause_nr(q, frt_spantq_new(SYM("f"), "b")); frt_spannq_add_clause_nr(q, frt_spantq_new(SYM("f"), "a")); return q; }); fn("span first", [] { return frt_spanfq_new_nr(frt_spantq_new(SYM("f"), "a"), 1); });
    fn("span prefix", [] { return frt_spanprq_new(SYM("f"), "a"); });
    fn("span not", [] { return frt_spanxq_new_nr(frt_spantq_new(SYM("f"), "b"), frt_spantq_new(SYM("f"), "a")); });
    return r;
}
static bool near_eq(double a, double b) { return fabs(a - b) <= 2e-5 * std::max({fabs(a), fabs(b), 1e-9}); }
struct Run { std::vector<std::pair<int, float>> hits; int total; float mx; };
static Run search(FrtSearcher *s, FrtQuery *q, int first, int num, FrtFilter *f, FrtSort *so) { FrtTopDocs *td = s->search(s, q, first, num, f, so, NULL, false); Run r; r.total = td->total_hits; r.mx = td->max_score; for (int i = 0; i < td->size; i++) r.hits.push_back({td->hits[i]->doc, td->hits[i]->score}); frt_td_destroy(td); return r; }
static std::string rshow(const Run &r) { std::string s = fmt("%d hits, best %g:", r.total, r.mx); for (auto &h : r.hits) s += fmt(" %d(%g)", h.first, h.second); return s; }
// scores are sums of floats whose order of addition may differ, so that equal scores may differ in the last bits: documents may change places if their scores (and sv, the values sorted by before) are equal
static bool same(const Run &a, const Run &b, const std::map<int, float> *score = NULL, const std::vector<C> *sv = NULL) {
    if (score) { std::set<int> seen; for (auto &h : b.hits) { auto i = score->find(h.first); if (!seen.insert(h.first).second || i == score->end() || !near_eq(i->second, h.second)) return false; } } if (a.total != b.total || !near_eq(a.mx, b.mx) || a.hits.size() != b.hits.size()) return false; for (size_t i = 0; i < a.hits.size(); i++) if (!near_eq(a.hits[i].second, b.hits[i].second) || (a.hits[i].first != b.hits[i].first && (!score || (sv && (*sv)[a.hits[i].first].s != (*sv)[b.hits[i].first].s)))) return false; return true; }
static FrtSort *mksort(int k) {
    FrtSort *s = frt_sort_new(); auto add = [&](FrtSortField *f) { frt_sort_add_sort_field(s, f); };
    switch (k) { case 0: add(frt_sort_field_int_new(SYM("s"), false)); break; case 1: add(frt_sort_field_string_new(SYM("s"), true)); add(frt_sort_field_score_new(false)); break; case 2: add(frt_sort_field_score_new(true)); add(frt_sort_field_float_new(SYM("s"), true)); break; case 3: add(frt_sort_field_doc_new(true)); break; case 4: add(frt_sort_field_string_new(SYM("s"), false)); add(frt_sort_field_doc_new(true)); break; case 5: add(frt_sort_field_int_new(SYM("s"), true)); add(frt_sort_field_score_new(true)); break; case 6: add(frt_sort_field_byte_new(SYM("s"), false)); break; }
    return s;
}
struct Parts {                                                               // the collection as one index and in parts
    StoreBox whole; std::vector<std::unique_ptr<StoreBox>> parts; std::vector<MDoc> docs; std::vector<int> starts; MSchema sc; std::vector<MSchema> psc;
    FrtIndexReader *ir = NULL; std::vector<FrtIndexReader *> irs;
    Parts(const std::vector<C> &col, const std::vector<int> &cuts, int kind, int segs) : whole(0) {
        for (size_t i = 0; i < col.size(); i++) docs.push_back(cdoc(col[i], i)); sc = schema(0, 0, docs); build_index(whole.s, sc, docs, -1);
        int b = 0; for (size_t i = 0; i <= cuts.size(); i++) { int e = i < cuts.size() ? cuts[i] : (int)docs.size(); std::vector<MDoc> ds(docs.begin() + b, docs.begin() + e); parts.emplace_back(new StoreBox(0)); psc.push_back(schema(kind, i, ds)); build_index(parts.back()->s, psc.back(), ds, segs ? 1 : -1); starts.push_back(b); b = e; }
    }
    void open() { ir = frt_ir_open(whole.s); for (auto &p : parts) irs.push_back(frt_ir_open(p->s)); }
    int part_of(int d) { int k = 0; for (size_t i = 0; i < starts.size(); i++) if (starts[i] <= d) k = i; return k; }
    FrtIndexReader *multi() { FrtIndexReader **rs = (FrtIndexReader **)malloc(irs.size() * sizeof *rs); for (size_t i = 0; i < irs.size(); i++) rs[i] = irs[i]; return frt_mr_open(rs, irs.size()); }
    FrtSearcher *msea() { FrtSearcher **ss = (FrtSearcher **)malloc(irs.size() * sizeof *ss); for (size_t i = 0; i < irs.size(); i++) ss[i] = frt_isea_new(irs[i]); return frt_msea_new(ss, irs.size(), true); }
    FrtSearcher *nested() { FrtSearcher **in = (FrtSearcher **)malloc((irs.size() - 1) * sizeof *in), **out = (FrtSearcher **)malloc(2 * sizeof *out); for (size_t i = 1; i < irs.size(); i++) in[i - 1] = frt_isea_new(irs[i]); out[0] = frt_isea_new(irs[0]); out[1] = frt_msea_new(in, irs.size() - 1, true); return frt_msea_new(out, 2, true); }
};
static void same_search(Path &p, FrtSearcher *S, FrtSearcher *M, int N, const std::string &what, bool sorts, bool ranges, bool byte, const std::vector<C> *col) {
    MC_CHECK(p, S->max_doc(S) == M->max_doc(M), "%s: max_doc %d, whole %d", what.c_str(), M->max_doc(M), S->max_doc(S));
    for (auto &f : {"f", "g", "z"}) for (auto &t : {"a", "b", "x", "a1", "missing"}) { int a = S->doc_freq(S, SYM(f), t), b = M->doc_freq(M, SYM(f), t); MC_CHECK(p, a == b, "%s: doc_freq of %s:%s is %d, whole %d", what.c_str(), f, t, b, a); }
    for (auto &qd : queries(ranges)) {
        if (byte && qd.first != "*") continue;
        FrtQuery *q1 = qd.second(), *q2 = qd.second(); const char *n = qd.first.c_str(); std::map<int, float> sc; { std::vector<std::pair<int, float>> each; S->search_each(S, q1, NULL, NULL, collect_fn, &each); for (auto &e : each) sc[e.first] = e.second; }
        for (int first = 0; first <= (byte ? 0 : 2); first++) for (int num : {1, 3, 10}) { Run a = search(S, q1, first, num, NULL, NULL), b = search(M, q2, first, num, NULL, NULL); p.step(2); if (!same(a, b, &sc)) p.fail("%s: %s from %d, at most %d: %s; whole: %s", what.c_str(), n, first, num, rshow(b).c_str(), rshow(a).c_str()); }
        if (sorts) for (int k = byte ? 6 : 0; k < (byte ? 7 : 6); k++) for (int first : {0, 1}) { FrtSort *s1 = mksort(k), *s2 = mksort(k); Run a = search(S, q1, first, 2 + first * 8, NULL, s1), b = search(M, q2, first, 2 + first * 8, NULL, s2); p.step(2); if (!same(a, b, k == 1 || k == 2 || k == 5 ? &sc : NULL, k == 2 ? NULL : col)) p.fail("%s: %s with sort %d from %d: %s; whole: %s", what.c_str(), n, k, first, rshow(b).c_str(), rshow(a).c_str()); frt_sort_destroy(s1); frt_sort_destroy(s2); }
        { FrtFilter *f1 = frt_qfilt_new_nr(frt_tq_new(SYM("g"), "x")), *f2 = frt_qfilt_new_nr(frt_tq_new(SYM("g"), "x")); Run a = search(S, q1, 0, 10, f1, NULL), b = search(M, q2, 0, 10, f2, NULL); p.step(2); if (!same(a, b, &sc)) p.fail("%s: %s filtered: %s; whole: %s", what.c_str(), n, rshow(b).c_str(), rshow(a).c_str()); frt_filt_deref(f1); frt_filt_deref(f2); }
        std::vector<std::pair<int, float>> ea, eb; S->search_each(S, q1, NULL, NULL, collect_fn, &ea); M->search_each(M, q2, NULL, NULL, collect_fn, &eb); p.step(2); bool ok = ea.size() == eb.size(); for (size_t i = 0; ok && i < ea.size(); i++) ok = ea[i].first == eb[i].first && near_eq(ea[i].second, eb[i].second); if (!ok) p.fail("%s: search_each of %s differs from the whole", what.c_str(), n);
        for (int off = 0; off <= N; off++) for (int lim : {1, 2, 10}) { int ba[16], bb[16]; int na = S->search_unscored(S, q1, ba, lim, off), nb = M->search_unscored(M, q2, bb, lim, off); p.step(2); if (na != nb || memcmp(ba, bb, na * sizeof(int))) p.fail("%s: unscored search of %s from %d, at most %d: %s; whole: %s", what.c_str(), n, off, lim, ints(std::vector<int>(bb, bb + nb)).c_str(), ints(std::vector<int>(ba, ba + na)).c_str()); }
        for (int d = 0; d < N; d++) { FrtExplanation *x = S->explain(S, q1, d), *y = M->explain(M, q2, d); p.step(2); if (!near_eq(x->value, y->value)) p.fail("%s: %s explains document %d by %g, whole: %g", what.c_str(), n, d, y->value, x->value); frt_expl_destroy(x); frt_expl_destroy(y); }
        { FrtWeight *w = M->create_weight(M, q2); FrtTopDocs *td = M->search_w(M, w, 0, 10, NULL, NULL, NULL, false); Run b; b.total = td->total_hits; b.mx = td->max_score; for (int i = 0; i < td->size; i++) b.hits.push_back({td->hits[i]->doc, td->hits[i]->score}); frt_td_destroy(td); w->destroy(w); Run a = search(S, q1, 0, 10, NULL, NULL); p.step(); if (!same(a, b, &sc)) p.fail("%s: %s through create_weight: %s; whole: %s", what.c_str(), n, rshow(b).c_str(), rshow(a).c_str()); }
        frt_q_deref(q1); frt_q_deref(q2);
    }
}
static void same_docs(Path &p, FrtSearcher *S, FrtSearcher *M, int N, const std::string &what, unsigned del) {
    for (int d = 0; d < N; d++) {
        if (!(del >> d & 1)) { FrtDocument *a = S->get_doc(S, d), *b = M->get_doc(M, d); std::string x = doc_line(a), y = doc_line(b); frt_doc_destroy(a); frt_doc_destroy(b); if (x != y) p.fail("%s: document %d is%s, whole:%s", what.c_str(), d, y.c_str(), x.c_str());
            FrtLazyDoc *la = S->get_lazy_doc(S, d), *lb = M->get_lazy_doc(M, d); x = lazy_line(la); y = lazy_line(lb); frt_lazy_doc_close(la); frt_lazy_doc_close(lb); if (x != y) p.fail("%s: lazy document %d is%s, whole:%s", what.c_str(), d, y.c_str(), x.c_str()); p.step(4); }
        else { std::string x = guarded([&] { frt_doc_destroy(M->get_doc(M, d)); }); if (x.empty()) p.fail("%s: deleted document %d can be read", what.c_str(), d); }
        for (auto &f : FIELDS) { FrtTermVector *a = S->get_term_vector(S, d, SYM(f)), *b = M->get_term_vector(M, d, SYM(f)); bool ok = !a == !b && (!a || (a->term_cnt == b->term_cnt && a->offset_cnt == b->offset_cnt)); if (ok && a) for (int t = 0; t < a->term_cnt; t++) ok &= !strcmp(a->terms[t].text, b->terms[t].text) && a->terms[t].freq == b->terms[t].freq && !memcmp(a->terms[t].positions, b->terms[t].positions, a->terms[t].freq * sizeof(int)); if (!ok) p.fail("%s: term vector of %s in document %d differs", what.c_str(), f.c_str(), d); if (a) frt_tv_destroy(a); if (b) frt_tv_destroy(b); p.step(2); }
    }
}
static std::vector<int> pick_cuts(Path &p, int N) { int k = p.choose(3); std::vector<int> c; if (k == 1) c = {p.choose(N + 1)}; if (k == 2) { int a = p.choose(N + 1); c = {a, a + p.choose(N + 1 - a)}; } return c; }
static std::string cshow(const std::vector<int> &c) { std::string s; for (int x : c) s += fmt(" %d", x); return s.empty() ? " none" : s; }
static void readers(Path &p) {
    auto cols = collections(); int ci = p.choose(cols.size()), N = 4; auto cuts = pick_cuts(p, N); int kind = p.choose(3), segs = p.choose(2), how = p.choose(2); unsigned del = p.choose(16); if (!p.mine()) return;
    p.note("[collection %d, cut at%s, fields %d, segments %d, deleted %x %s] ", ci, cshow(cuts).c_str(), kind, segs, del, how ? "through the multi-reader" : "in the parts");
    std::string e = guarded([&] {
        Parts P(cols[ci], cuts, kind, segs); P.open();
        if (!how) for (int d = 0; d < N; d++) if (del >> d & 1) frt_ir_delete_doc(P.irs[P.part_of(d)], d - P.starts[P.part_of(d)]);
        for (int d = 0; d < N; d++) if (del >> d & 1) frt_ir_delete_doc(P.ir, d);
        FrtIndexReader *m = P.multi(); if (how) for (int d = 0; d < N; d++) if (del >> d & 1) { frt_ir_delete_doc(m, d); MC_CHECK(p, m->num_docs(m) < N && m->is_deleted(m, d), "document %d was deleted but is still there", d); }
        std::vector<std::string> fs = {"id", "f", "g", "h", "s"}; Lines a = dump_reader(P.ir, P.sc, fs), b = dump_reader(m, P.sc, fs); std::string df = diff(b, a); MC_CHECK(p, df.empty(), "multi-reader: %s", df.c_str()); p.step(a.size());
        MC_CHECK(p, m->max_doc(m) == N, "max_doc %d", m->max_doc(m));
        for (auto &f : fs) { int n1 = frt_fis_get_field_num(P.ir->fis, SYM(f)), n2 = frt_fis_get_field_num(m->fis, SYM(f)); if (n2 < 0) continue; frt_uchar w1[8] = {0}, w2[8], *g1 = P.ir->get_norms(P.ir, n1), *g2; memset(w2, 0x5a, sizeof w2); frt_ir_get_norms_into(m, SYM(f), w2); if (g1) memcpy(w1, g1, N); g2 = frt_ir_get_norms(m, SYM(f)); if (memcmp(w1, w2, N) || (g2 && g1 && memcmp(w1, g2, N))) p.fail("norms of %s differ from the whole", f.c_str());
            for (auto &t : {"a", "b", "x", "u", "1"}) for (int skip = 0; skip <= N; skip++) { FrtTermDocEnum *x = frt_ir_term_positions_for(P.ir, SYM(f), t), *y = frt_ir_term_positions_for(m, SYM(f), t); bool mx = x->skip_to(x, skip), my = y->skip_to(y, skip); if (mx != my || (mx && (x->doc_num(x) != y->doc_num(y) || x->freq(x) != y->freq(y) || x->next_position(x) != y->next_position(y)))) p.fail("skipping to %d in %s:%s differs from the whole", skip, f.c_str(), t); x->close(x); y->close(y); p.step(2); } }
        // deletions made through the multi-reader reach the parts
        frt_ir_commit(m); frt_ir_close(m);
        for (size_t i = 0; i < P.parts.size(); i++) { FrtIndexReader *r = frt_ir_open(P.parts[i]->s); int end = i + 1 < P.starts.size() ? P.starts[i + 1] : N; for (int d = P.starts[i]; d < end; d++) if (!!r->is_deleted(r, d - P.starts[i]) != !!(del >> d & 1)) p.fail("document %d %s deleted in part %zu", d, del >> d & 1 ? "is not" : "is", i); frt_ir_close(r); }
        frt_ir_close(P.ir);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(fnv(fmt("%d%s %d %d %x %d", ci, cshow(cuts).c_str(), kind, segs, del, how))); p.eval();
}
static void searchers(Path &p) {
    auto cols = collections(); int ci = p.choose(cols.size()), N = 4; auto cuts = pick_cuts(p, N); int kind = p.choose(3); static const unsigned DM[] = {0, 1, 8, 6, 15, 7}; unsigned del = DM[p.choose(opt.thorough ? 6 : 4)]; int mode = p.choose(3); if (mode == 2 && cuts.size() < 2) mode = 1; if (!p.mine()) return;
    p.note("[collection %d, cut at%s, fields %d, deleted %x, %s] ", ci, cshow(cuts).c_str(), kind, del, mode == 0 ? "multi-reader" : mode == 1 ? "multi-searcher" : "nested multi-searcher");
    std::string e = guarded([&] {
        Parts P(cols[ci], cuts, kind, ci & 1); P.open(); for (int d = 0; d < N; d++) if (del >> d & 1) { frt_ir_delete_doc(P.irs[P.part_of(d)], d - P.starts[P.part_of(d)]); frt_ir_delete_doc(P.ir, d); }
        FrtSearcher *S = frt_isea_new(P.ir), *M = mode == 0 ? frt_isea_new(P.multi()) : mode == 1 ? P.msea() : P.nested(); const char *w = mode == 0 ? "multi-reader" : "multi-searcher";
        same_docs(p, S, M, N, w, del); same_search(p, S, M, N, w, true, true, false, &cols[ci]); M->close(M); S->close(S);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(fnv(fmt("%d%s %d %x %d", ci, cshow(cuts).c_str(), kind, del, mode))); p.eval();
}
// many parts and many documents
static void sizes(Path &p) {
    static const int ND[] = {9, 17, 33, 70}, NP[] = {2, 3, 5, 8, 9, 16, 17, 33}; int N = ND[p.choose(4)], k = NP[p.choose(8)], kind = p.choose(3), del = p.choose(2), mode = p.choose(3); if (!opt.thorough && N == 70 && k != 3 && k != 33) return; if (!p.mine()) return;
    p.note("[%d documents in %d parts, fields %d, deleted %x, %s] ", N, k, kind, del ? 0x125 : 0, mode == 0 ? "multi-reader" : mode == 1 ? "multi-searcher" : "nested multi-searcher");
    std::string e = guarded([&] {
        auto cols = collections(); std::vector<C> col; for (int i = 0; i < N; i++) { C c = cols[i / 2 % 4][i * 3 % 4]; if (i % 7 == 3) c.f += " a1 a2"; if (c.s.size()) c.s = fmt("%d", (i * 13) % 29 - 4); col.push_back(c); }
        std::vector<int> cuts; for (int i = 1; i < k; i++) cuts.push_back(std::min(N, i * N / k + (i % 3 == 1 && N / k > 2)));
        unsigned dm = del ? 0x125 : 0; Parts P(col, cuts, kind, N == 17); P.open(); for (int d = 0; d < N && d < 32; d++) if (dm >> d & 1) { int pt = P.part_of(d); frt_ir_delete_doc(P.irs[pt], d - P.starts[pt]); frt_ir_delete_doc(P.ir, d); }
        FrtSearcher *S = frt_isea_new(P.ir), *M = mode == 0 ? frt_isea_new(P.multi()) : mode == 1 ? P.msea() : P.nested(); const char *w = mode == 0 ? "multi-reader" : "multi-searcher";
        for (int d = 0; d < N; d++) if (!(d < 32 && (dm >> d & 1))) { FrtDocument *a = S->get_doc(S, d), *b = M->get_doc(M, d); std::string x = doc_line(a), y = doc_line(b); frt_doc_destroy(a); frt_doc_destroy(b); if (x != y) p.fail("%s: document %d is%s, whole:%s", w, d, y.c_str(), x.c_str()); p.step(); }
        same_search(p, S, M, N, w, true, true, false, &col); M->close(M); S->close(S);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(fnv(fmt("%d %d %d %d %d", N, k, kind, del, mode))); p.eval();
}
static void byte_sort(Path &p) {
    auto cols = collections(); int ci = p.choose(cols.size()), N = 4; auto cuts = pick_cuts(p, N); if (!p.mine()) return; p.note("[collection %d, cut at%s] ", ci, cshow(cuts).c_str());
    std::string e = guarded([&] { Parts P(cols[ci], cuts, 0, 0); P.open(); FrtSearcher *S = frt_isea_new(P.ir), *M = P.msea(); same_search(p, S, M, N, "multi-searcher", true, false, true, &cols[ci]); M->close(M); S->close(S); });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(fnv(fmt("%d%s", ci, cshow(cuts).c_str()))); p.eval();
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = (collection, split, field layout, segments, deletions); transition = one read or search done on both the multi object and one index of the whole collection; every result compared";
    return run(argc, argv, m, {
        {"readers", "4 collections of 4 documents x all splits into 1 to 3 parts (empty ones included) x 3 field layouts x 1 or 2 segments per part x all deletions, made in the parts or through the multi-reader: full content, norms, skipping; deletions reach the parts", readers, 60},
        {"searchers", "4 collections x all splits x 3 field layouts x 4 (thorough 6) deletion sets x multi-reader, multi-searcher and nested multi-searcher: documents, term vectors, 41 queries paged, sorted 6 ways, filtered, unscored, explained", searchers, 120},
        {"sizes", "9..70 documents in 2..33 parts x 3 field layouts x deletions x multi-reader, multi-searcher and nested multi-searcher: documents and all searches", sizes, 120},
        {"byte_sort", "sorting by term order (byte) through a multi-searcher", byte_sort, 60},
    });
}
