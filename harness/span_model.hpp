// Span query trees: built as real queries; their reported spans per document.
#ifndef SPAN_MODEL_HPP
#define SPAN_MODEL_HPP
#include "query_model.hpp"
using namespace mc;
// --- spans
enum ST { S_T, S_M, S_F, S_O, S_N, S_X, S_P };
struct SN { ST t; std::vector<std::string> w; int end = 0, slop = 0; bool ord = false; std::vector<SN> k; };
static SN st(const std::string &w) { return {S_T, {w}}; }
static SN sm(std::vector<std::string> w) { return {S_M, w}; }
static SN sp(const std::string &w) { return {S_P, {w}}; }
static SN sf(const SN &m, int e) { SN n{S_F, {}}; n.end = e; n.k = {m}; return n; }
static SN so(std::vector<SN> k) { SN n{S_O, {}}; n.k = k; return n; }
static SN sn(std::vector<SN> k, int slop, bool ord) { SN n{S_N, {}}; n.k = k; n.slop = slop; n.ord = ord; return n; }
static SN sx(const SN &a, const SN &b) { SN n{S_X, {}}; n.k = {a, b}; return n; }
static FrtQuery *sbuild(const SN &n) {
    FrtQuery *q = NULL;
    switch (n.t) {
    case S_T: return frt_spantq_new(SYM("f"), n.w[0].c_str());
    case S_M: q = frt_spanmtq_new(SYM("f")); for (auto &w : n.w) frt_spanmtq_add_term(q, w.c_str()); return q;
    case S_P: return frt_spanprq_new(SYM("f"), n.w[0].c_str());
    case S_F: return frt_spanfq_new_nr(sbuild(n.k[0]), n.end);
    case S_O: q = frt_spanoq_new(); for (auto &k : n.k) frt_spanoq_add_clause_nr(q, sbuild(k)); return q;
    case S_N: q = frt_spannq_new(n.slop, n.ord); for (auto &k : n.k) frt_spannq_add_clause_nr(q, sbuild(k)); return q;
    case S_X: return frt_spanxq_new_nr(sbuild(n.k[0]), sbuild(n.k[1]));
    }
    return q;
}
static std::string sshow(const SN &n) {
    std::string s;
    switch (n.t) {
    case S_T: return n.w[0]; case S_P: return n.w[0] + "*";
    case S_M: s = "{"; for (auto &w : n.w) s += w + " "; return s + "}";
    case S_F: return sshow(n.k[0]) + fmt("[<%d]", n.end);
    case S_O: s = "or("; break; case S_N: s = fmt("near%d%s(", n.slop, n.ord ? "o" : "u"); break;
    case S_X: return "not(" + sshow(n.k[0]) + ", " + sshow(n.k[1]) + ")";
    }
    for (size_t i = 0; i < n.k.size(); i++) s += (i ? ", " : "") + sshow(n.k[i]);
    return s + ")";
}
typedef std::pair<int, int> Sp; typedef std::vector<Sp> Spans;
static bool uniform(const SN &n) { switch (n.t) { case S_T: case S_M: case S_P: return true; case S_F: case S_X: return uniform(n.k[0]); case S_O: for (auto &k : n.k) if (!uniform(k)) return false; return true; default: return n.k.size() == 1 && uniform(n.k[0]); } }
// spans reported by the real query, per document
static std::vector<Spans> reported(Path &p, QIndex &X, const SN &n) {
    std::vector<Spans> r(X.n()); FrtQuery *q0 = sbuild(n), *q = q0->rewrite(q0, X.ir); FrtSpanEnum *e = ((FrtSpanQuery *)q)->get_spans(q, X.ir);
    int ld = -1, ls = -1;
    while (e->next(e)) {
        int d = e->doc(e), s = e->start(e), en = e->end(e);
        MC_CHECK(p, d >= 0 && d < X.n() && s >= 0 && en > s, "%s: span %d-%d of document %d", sshow(n).c_str(), s, en, d);
        MC_CHECK(p, d > ld || (d == ld && s >= ls), "%s: span at %d of document %d after %d of %d", sshow(n).c_str(), s, d, ls, ld);
        r[d].push_back({s, en}); ld = d; ls = s;
    }
    e->destroy(e); frt_q_deref(q); frt_q_deref(q0); return r;
}
static std::string spans_s(const Spans &v) { std::string s = "{"; for (auto &x : v) s += fmt(" %d-%d", x.first, x.second); return s + " }"; }
static std::string dtext(QIndex &X, int i) { return X.docs[i].f.size() ? X.docs[i].f[0].vals[0] : ""; }
#endif
