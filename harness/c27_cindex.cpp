// C27: the all-in-one C index object behaves like the collection of documents its history describes.
#include "query_model.hpp"
#include "stores.hpp"
using namespace mc;
struct D { std::string n, id; std::vector<std::string> t; bool has(const std::string &w) const { for (auto &x : t) { std::istringstream is(x); std::string y; while (is >> y) if (y == w) return true; } return false; } };
// key: 0 none, 1 id, 2 id and t
struct World {
    Path &p; int kind, key; bool af, chk, reader_first; StoreBox box; FrtIndex *ix = NULL; std::vector<D> m, seen; bool dirty = false; int serial = 0; std::string trace; bool twoids = false;
    World(Path &p_, int kind_, int key_, bool af_, bool chk_) : p(p_), kind(kind_), key(key_), af(af_), chk(chk_), box(kind_) {}
    void bad(const std::string &w) { p.fail("after%s: %s", trace.c_str(), w.c_str()); }
    FrtIndex *open(bool create) {
        FrtHashSet *df = frt_hs_new_str(NULL); frt_hs_add(df, (char *)SYM("t")); FrtAnalyzer *a = frt_whitespace_analyzer_new(false); FrtIndex *i = frt_index_new(box.s, a, df, create); frt_a_deref(a); frt_hs_destroy(df);
        i->auto_flush = af; i->def_field = SYM("t"); i->check_latest = chk; if (key) { i->key = frt_hs_new_str(NULL); frt_hs_add(i->key, (char *)SYM("id")); if (key == 2) frt_hs_add(i->key, (char *)SYM("t")); }
        return i; }
    void wrote() { dirty = !af; if (af) seen = m; }
    void add(FrtIndex *i, const D &d) { FrtDocument *doc = frt_doc_new(); auto f = [&](const char *n, const std::vector<std::string> &v) { FrtDocField *x = frt_df_new(SYM(n)); x->destroy_data = true; for (auto &s : v) frt_df_add_data(x, frt_estrdup(s.c_str())); frt_doc_add_field(doc, x); }; if (d.n.size()) f("n", {d.n}); if (d.id.size()) f("id", {d.id}); if (d.t.size()) f("t", d.t); frt_index_add_doc(i, doc); frt_doc_destroy(doc); madd(d); }
    void madd(const D &d) { if (key == 1 && d.id.size()) drop([&](const D &x) { return x.id == d.id; }); if (key == 2) drop([&](const D &x) { return x.id == d.id && x.t == d.t; }); m.push_back(d); }
    template <class F> void drop(F f) { std::vector<D> r; for (auto &x : m) if (!f(x)) r.push_back(x); m = r; }
    static D read(FrtDocument *d) { D r; FrtDocField *f; if ((f = frt_doc_get_field(d, SYM("n")))) r.n = f->data[0]; if ((f = frt_doc_get_field(d, SYM("id")))) r.id = f->data[0]; if ((f = frt_doc_get_field(d, SYM("t")))) for (int i = 0; i < f->size; i++) r.t.push_back(f->data[i]); frt_doc_destroy(d); return r; }
    static bool same(const D &a, const D &b) { return a.n == b.n && a.id == b.id && a.t == b.t; }
    static std::string show1(const D &d) { std::string s = d.n + ":" + d.id + ":"; for (auto &x : d.t) s += "[" + x + "]"; return s; }
    static std::string show(const std::vector<D> &v) { std::string s; for (auto &d : v) s += " " + show1(d); return s; }
    static bool same(const std::vector<D> &a, const std::vector<D> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
    std::vector<D> list(FrtIndexReader *ir) { std::vector<D> r; for (int i = 0; i < ir->max_doc(ir); i++) if (!ir->is_deleted(ir, i)) r.push_back(read(ir->get_doc(ir, i))); return r; }
    void others_see() { FrtIndexReader *ir = frt_ir_open(box.s); auto l = list(ir); frt_ir_close(ir); if (!same(l, seen)) bad("another reader sees" + show(l) + ", not" + show(seen)); }
    int nth(int k) { frt_ensure_reader_open(ix); int mx = ix->ir->max_doc(ix->ir), at = -1; for (int i = 0; i < mx; i++) if (!frt_index_is_deleted(ix, i) && ++at == k) return i; bad(fmt("document %d of %zu not found", k, m.size())); return -1; }
    void search(const std::string &q, std::function<bool(const D &)> f) { std::string s = q; FrtTopDocs *td = frt_index_search_str(ix, &s[0], 0, 100, NULL, NULL, NULL); std::vector<std::string> g, w; for (int i = 0; i < td->size; i++) g.push_back(show1(read(frt_index_get_doc(ix, td->hits[i]->doc)))); int tot = td->total_hits; frt_td_destroy(td); for (auto &x : m) if (f(x)) w.push_back(show1(x)); std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); if (g != w || tot != (int)w.size()) bad("the search for " + q + fmt(" finds %d:", tot) + [&] { std::string r; for (auto &x : g) r += " " + x; return r; }() + ", not" + [&] { std::string r; for (auto &x : w) r += " " + x; return r; }()); }
    void lookup(const std::string &id) { const D *w = NULL; for (auto &x : m) if (x.id == id) { w = &x; break; } FrtDocument *d = frt_index_get_doc_id(ix, id.c_str()); if (!d) { if (w) bad("no document of id " + id); return; } D g = read(d); if (!w || !same(g, *w)) bad("id " + id + " gives " + show1(g)); int n = frt_index_term_id(ix, SYM("id"), id.c_str()); if (n < 0 || !same(read(frt_index_get_doc_ts(ix, n)), *w)) bad(fmt("document number %d of id %s", n, id.c_str())); }
    void all() { int sz = frt_index_size(ix); if (sz != (int)m.size()) bad(fmt("size %d, not", sz) + show(m)); std::vector<D> l; frt_ensure_reader_open(ix); bool gap = false; for (int i = 0, mx = ix->ir->max_doc(ix->ir); i < mx; i++) { if (!frt_index_is_deleted(ix, i)) l.push_back(read(frt_index_get_doc(ix, i))); else gap = true; } if (!same(l, m)) bad("the documents are" + show(l) + ", not" + show(m)); if (!!frt_index_has_del(ix) != gap) bad("has_del"); search("x", [](const D &d) { return d.has("x"); }); search("id:b OR y", [](const D &d) { return d.id == "b" || d.has("y"); }); search("*:a", [](const D &d) { return d.id == "a" || d.has("a"); }); lookup("a"); lookup("b"); lookup("c"); if (frt_index_term_id(ix, SYM("id"), "zz") >= 0 || frt_index_get_doc_term(ix, SYM("zz"), "a")) bad("a missing term has a document"); }
    enum { NOPS = 22 };
    static const char *opname(int o) { static const char *N[] = {"add(a,x)", "add(b,y)", "add(a,x y)", "add_string", "add_array", "delete_id(a)", "delete_id(b)", "delete_term(x)", "delete_query_str(y)", "delete_query(id:b)", "delete(first)", "delete(last)", "delete(99)", "flush", "optimize", "size", "search", "get_doc_id(a)", "reopen", "other adds", "get_doc(99)", "explain"}; return N[o]; }
    bool op(int o) {
        trace += std::string(" ") + opname(o); std::string e = guarded([&] { op1(o); }); if (e == "!skip") return false; if (e.size()) bad("error " + e); if (chk || !dirty) {} return true; }
    void op1(int o) {
        switch (o) {
        case 0: add(ix, {fmt("%d", serial++), "a", {"x"}}); wrote(); break; case 1: add(ix, {fmt("%d", serial++), "b", {"y"}}); wrote(); break; case 2: add(ix, {fmt("%d", serial++), "a", {key == 2 ? "y" : "x y"}}); wrote(); break;
        case 3: if (key < 2) { char s[] = "x a"; frt_index_add_string(ix, s); m.push_back({"", "", {"x a"}}); wrote(); } break;
        case 4: if (key < 2) { char **a = (char **)frt_ary_new(); frt_ary_push(a, (char *)"y"); frt_ary_push(a, (char *)"b"); frt_index_add_array(ix, a); frt_ary_free(a); m.push_back({"", "", {"y", "b"}}); wrote(); } break;
        case 5: case 6: { const char *id = o == 5 ? "a" : "b"; frt_index_delete_id(ix, id); drop([&](const D &d) { return d.id == id; }); wrote(); break; }
        case 7: frt_index_delete_term(ix, SYM("t"), "x"); drop([](const D &d) { return d.has("x"); }); wrote(); break;
        case 8: { char q[] = "t:y"; frt_index_delete_query_str(ix, q, NULL, NULL); drop([](const D &d) { return d.has("y"); }); wrote(); break; }
        case 9: { FrtQuery *q = frt_tq_new(SYM("id"), "b"); frt_index_delete_query(ix, q, NULL, NULL); frt_q_deref(q); drop([](const D &d) { return d.id == "b"; }); wrote(); break; }
        case 10: case 11: if (m.size()) { int k = o == 10 ? 0 : (int)m.size() - 1; frt_index_delete(ix, nth(k)); m.erase(m.begin() + k); wrote(); } break;
        case 12: frt_index_delete(ix, 99); wrote(); break;
        case 13: frt_index_flush(ix); dirty = false; seen = m; break;
        case 14: frt_index_optimize(ix); wrote(); break;
        case 15: if (frt_index_size(ix) != (int)m.size()) bad(fmt("size %d", frt_index_size(ix))); break;
        case 16: search("x", [](const D &d) { return d.has("x"); }); break;
        case 17: lookup("a"); break;
        case 18: frt_index_destroy(ix); seen = m; dirty = false; others_see(); ix = open(false); break;
        case 19: if (!dirty && !ix->iw) { FrtIndex *o2 = open(false); add(o2, {fmt("%d", serial++), "a", {"x"}}); frt_index_destroy(o2); seen = m; if (!chk) { frt_index_destroy(ix); ix = open(false); } } break;
        case 20: { std::string e = guarded([&] { FrtDocument *d = frt_index_get_doc_ts(ix, 99); if (d) frt_doc_destroy(d); }); if (e.empty()) bad("document 99 was read"); break; }
        case 21: { FrtQuery *q = frt_tq_new(SYM("t"), "x"); for (size_t k = 0; k < m.size(); k++) { FrtExplanation *x = frt_index_explain(ix, q, nth((int)k)); if ((x->value > 0) != m[k].has("x")) bad("explanation"); frt_expl_destroy(x); } frt_q_deref(q); break; }
        } }
};
static void seqs(Path &p, int depth, int nk, bool all_cfg) {
    int kind = p.choose(2), key = p.choose(nk), af = p.choose(2), chk = all_cfg ? p.choose(2) : 1, o0 = p.choose(World::NOPS), o1 = depth > 2 ? p.choose(World::NOPS) : -1; if (!p.mine()) return; p.note("[%s key=%d auto_flush=%d check_latest=%d] ", KIND[kind], key, af, chk); p.state(((((long)kind * 4 + key) * 4 + af * 2 + chk) * 32 + o0) * 32 + o1 + 1); int n = 0; std::vector<int> ops;
    auto run1 = [&] { n++; World w(p, kind, key, af, chk); w.ix = w.open(true); w.seen.clear(); for (int o : ops) { w.op(o); if (o == 13 || w.af) { w.seen = w.m; w.trace += "!"; std::string e = guarded([&] { w.others_see(); }); if (e.size()) w.bad("another reader: " + e); } else { std::string e = guarded([&] { if (!w.dirty) w.others_see(); }); if (e.size()) w.bad("another reader: " + e); } }
        w.trace += " [end]"; std::string e = guarded([&] { w.all(); w.seen = w.m; w.trace += " destroy"; frt_index_destroy(w.ix); w.others_see(); }); if (e.size()) w.bad("error " + e); };
    std::function<void(int)> rec = [&](int d) { if (!d) { run1(); return; } for (int o = 0; o < World::NOPS; o++) { ops.push_back(o); rec(d - 1); ops.pop_back(); } };
    ops = {o0}; if (o1 >= 0) ops.push_back(o1); rec(depth - (int)ops.size()); p.eval(n);
}
static void sc_seq2(Path &p) { seqs(p, 2, 3, true); }
static void sc_seq3(Path &p) { seqs(p, 3, 3, false); }
static void sc_seq4(Path &p) { seqs(p, 4, 3, false); }
// a small alphabet to a greater depth: writes, deletes and reads that switch between the writer and the reader
static void sc_deep(Path &p) {
    static const int A[] = {0, 1, 5, 8, 10, 15, 13, 19, 7}; enum { NA = 9 }; int key = p.choose(2), af = p.choose(2), a0 = p.choose(NA), a1 = p.choose(NA); if (!p.mine()) return; int depth = opt.thorough ? 6 : 5; p.note("[key=%d auto_flush=%d] ", key, af); p.state(((key * 2 + af) * 16 + a0) * 16 + a1); int n = 0; std::vector<int> ops;
    auto run1 = [&] { n++; World w(p, 0, key, af, true); w.ix = w.open(true); for (int o : ops) { w.op(A[o]); if (A[o] == 13 || w.af) w.seen = w.m; if (!w.dirty) { std::string e = guarded([&] { w.others_see(); }); if (e.size()) w.bad(e); } } w.trace += " [end]"; std::string e = guarded([&] { w.all(); w.seen = w.m; frt_index_destroy(w.ix); w.others_see(); }); if (e.size()) w.bad(e); };
    std::function<void(int)> rec = [&](int d) { if (!d) { run1(); return; } for (int o = 0; o < NA; o++) { ops.push_back(o); rec(d - 1); ops.pop_back(); } };
    ops = {a0, a1}; rec(depth - 2); p.eval(n);
}
// a key declared on an index that already holds duplicates: one key field replaces them all; several refuse the addition, and the index stays usable
static void sc_dups(Path &p) {
    int kind = p.choose(2), key = p.choose(2) + 1, dup = p.choose(4), af = p.choose(2), fl = p.choose(2), then = p.choose(World::NOPS); if (!p.mine()) return; p.note("[%s key=%d dups=%d auto_flush=%d] ", KIND[kind], key, dup, af); p.state(((((long)kind * 4 + key) * 4 + dup) * 4 + af * 2 + fl) * 32 + then);
    World w(p, kind, 0, af, true); w.ix = w.open(true); for (int i = 0; i < dup; i++) w.op(0); w.op(1); if (fl) w.op(13); w.key = key; w.ix->key = frt_hs_new_str(NULL); frt_hs_add(w.ix->key, (char *)SYM("id")); if (key == 2) frt_hs_add(w.ix->key, (char *)SYM("t"));
    if (key == 2 && dup > 1) { auto m = w.m; w.trace += " refused add"; std::string e = guarded([&] { w.add(w.ix, {"9", "a", {"x"}}); }); if (err_code(e) != FRT_ARG_ERROR) w.bad("a key that is not unique: " + e); w.m = m; } else w.op(0);
    if (!(key == 2 && dup > 1 && (then == 0 || then == 19))) w.op(then); std::string e = guarded([&] { w.all(); w.seen = w.m; frt_index_destroy(w.ix); w.others_see(); }); if (e.size()) w.bad(e); p.eval(1);
}
int main(int argc, char **argv) { Meta m; m.rule = "every operation sequence of the all-in-one index object is replayed against a list of documents"; return run(argc, argv, m, {
    {"seq2", "all sequences of 2 of 22 operations x RAM/fs x no key/one/two key fields x auto-flush x check-latest", sc_seq2, 30, false},
    {"seq3", "all sequences of 3 of 22 operations x RAM/fs x no key/one/two key fields x auto-flush", sc_seq3, 60, false},
    {"deep", "all sequences of 5 (thorough 6) of 9 operations, RAM, without and with key, with and without auto-flush", sc_deep, 120, false},
    {"dups", "0-3 duplicates of a key declared later x one/two key fields x following operation", sc_dups, 30, false},
    {"seq4", "all sequences of 4 of 22 operations x RAM/fs x keys x auto-flush", sc_seq4, 600, true},
}); }
