// Query trees: built as real queries and evaluated on model documents.
#ifndef QUERY_MODEL_HPP
#define QUERY_MODEL_HPP
#include "index_model.hpp"
enum QType { Q_TERM, Q_BOOL, Q_PHRASE, Q_CSQ, Q_FILTERED, Q_ALL, Q_MTERM };
enum { SHOULD = FRT_BC_SHOULD, MUST = FRT_BC_MUST, MUST_NOT = FRT_BC_MUST_NOT };
struct QNode {
    QType t = Q_ALL; std::string field, text; float boost = 1; bool coord_disabled = false; int slop = 0;
    std::vector<std::pair<int, QNode>> kids;                             // BOOL: occur, clause; CSQ: {0, filter query}; FILTERED: query, filter query
    std::vector<std::pair<int, std::vector<std::string>>> phrase;        // position, alternatives
    std::vector<std::pair<std::string, float>> mterms; int max_terms = 256; float min_score = 0;
};
static inline QNode qterm(const std::string &f, const std::string &t, float b = 1) { QNode n; n.t = Q_TERM; n.field = f; n.text = t; n.boost = b; return n; }
static inline QNode qall(float b = 1) { QNode n; n.boost = b; return n; }
static inline QNode qbool(std::vector<std::pair<int, QNode>> k, float b = 1, bool cd = false) { QNode n; n.t = Q_BOOL; n.kids = k; n.boost = b; n.coord_disabled = cd; return n; }
static inline QNode qcsq(const QNode &f, float b = 1) { QNode n; n.t = Q_CSQ; n.kids = {{0, f}}; n.boost = b; return n; }
static inline QNode qfiltered(const QNode &a, const QNode &f) { QNode n; n.t = Q_FILTERED; n.kids = {{0, a}, {0, f}}; return n; }
static inline QNode qphrase(const std::string &f, std::vector<std::pair<int, std::vector<std::string>>> ph, int slop = 0, float b = 1) { QNode n; n.t = Q_PHRASE; n.field = f; n.phrase = ph; n.slop = slop; n.boost = b; return n; }
static inline QNode qmterm(const std::string &f, std::vector<std::pair<std::string, float>> ts, float b = 1) { QNode n; n.t = Q_MTERM; n.field = f; n.mterms = ts; n.boost = b; return n; }

static inline FrtQuery *build(const QNode &n) {
    FrtQuery *q = NULL;
    switch (n.t) {
    case Q_TERM: q = frt_tq_new(SYM(n.field), n.text.c_str()); break;
    case Q_ALL: q = frt_maq_new(); break;
    case Q_BOOL: q = frt_bq_new(n.coord_disabled); for (auto &k : n.kids) frt_bq_add_query_nr(q, build(k.second), (FrtBCType)k.first); break;
    case Q_CSQ: q = frt_csq_new_nr(frt_qfilt_new_nr(build(n.kids[0].second))); break;
    case Q_FILTERED: q = frt_fq_new(build(n.kids[0].second), frt_qfilt_new_nr(build(n.kids[1].second))); break;
    case Q_PHRASE: q = frt_phq_new(SYM(n.field)); for (auto &p : n.phrase) { frt_phq_add_term_abs(q, p.second[0].c_str(), p.first); for (size_t i = 1; i < p.second.size(); i++) frt_phq_append_multi_term(q, p.second[i].c_str()); } frt_phq_set_slop(q, n.slop); break;
    case Q_MTERM: q = frt_multi_tq_new_conf(SYM(n.field), n.max_terms, n.min_score); for (auto &t : n.mterms) frt_multi_tq_add_term_boost(q, t.first.c_str(), t.second); break;
    }
    q->boost = n.boost;
    return q;
}
static inline std::string show(const QNode &n) {
    std::string s; static const char *OC[] = {"", "+", "-"};
    switch (n.t) {
    case Q_TERM: s = n.field + ":" + n.text; break;
    case Q_ALL: s = "*"; break;
    case Q_BOOL: s = n.coord_disabled ? "nocoord(" : "("; for (size_t i = 0; i < n.kids.size(); i++) s += std::string(i ? " " : "") + OC[n.kids[i].first] + show(n.kids[i].second); s += ")"; break;
    case Q_CSQ: s = "const(" + show(n.kids[0].second) + ")"; break;
    case Q_FILTERED: s = "filtered(" + show(n.kids[0].second) + " by " + show(n.kids[1].second) + ")"; break;
    case Q_PHRASE: s = n.field + ":\""; for (auto &p : n.phrase) { s += mc::fmt(" %d=", p.first); for (auto &t : p.second) s += t + "|"; } s += "\""; if (n.slop) s += mc::fmt("~%d", n.slop); break;
    case Q_MTERM: s = n.field + ":{"; for (auto &t : n.mterms) s += t.first + (t.second != 1 ? mc::fmt("^%g ", t.second) : " "); s += "}"; break;
    }
    if (n.boost != 1) s += mc::fmt("^%g", n.boost);
    return s;
}
typedef std::map<std::string, std::vector<Tok>> TDoc;                     // tokens per field
static inline TDoc tokens_of(const MDoc &d) { TDoc t; for (auto &f : d.f) t[f.name] = field_tokens(f, FOpt(), 10000, ws_tokens); return t; }
static inline int tf(const TDoc &d, const std::string &f, const std::string &t) { auto i = d.find(f); if (i == d.end()) return 0; int n = 0; for (auto &k : i->second) n += k.t == t; return n; }
static inline int exact_phrase_freq(const QNode &n, const TDoc &d) {
    auto it = d.find(n.field); if (it == d.end() || n.phrase.empty()) return 0;
    int cnt = 0;
    std::set<int> starts; for (auto &k : it->second) for (auto &t : n.phrase[0].second) if (k.t == t) starts.insert(k.pos);
    for (int s : starts) {
        bool all = true;
        for (auto &p : n.phrase) { bool one = false; for (auto &k : it->second) if (k.pos == s + p.first - n.phrase[0].first) for (auto &t : p.second) if (k.t == t) one = true; if (!one) { all = false; break; } }
        cnt += all;
    }
    return cnt;
}
static inline bool matches(const QNode &n, const TDoc &d) {
    switch (n.t) {
    case Q_TERM: return tf(d, n.field, n.text) > 0;
    case Q_ALL: return true;
    case Q_CSQ: return matches(n.kids[0].second, d);
    case Q_FILTERED: return matches(n.kids[0].second, d) && matches(n.kids[1].second, d);
    case Q_PHRASE: return exact_phrase_freq(n, d) > 0;                    // slop 0 only
    case Q_MTERM: for (auto &t : n.mterms) if (tf(d, n.field, t.first)) return true; return false;
    case Q_BOOL: {
        bool req = false, any = false, pos = false;
        for (auto &k : n.kids) {
            bool m = matches(k.second, d);
            if (k.first == MUST_NOT) { if (m) return false; continue; }
            pos = true;
            if (k.first == MUST) { req = true; if (!m) return false; } else any |= m;
        }
        return n.kids.size() && (!pos || req || any); }
    }
    return false;
}
// A small index: texts of field f (and g) per document, layout, deletions
struct QIndex {
    StoreBox a, b; FrtIndexReader *ir = NULL; FrtSearcher *sea = NULL; std::vector<MDoc> docs; std::vector<TDoc> toks; std::vector<bool> del; MSchema sc;
    QIndex() : a(0), b(0) { sc.fields = {{"f", FOpt()}, {"g", FOpt()}}; }
    ~QIndex() { if (sea) sea->close(sea); else if (ir) frt_ir_close(ir); }
    int n() const { return (int)docs.size(); }
    // layout 0: one segment; 1: two segments; 2: multi-reader
    void make(const std::vector<MDoc> &ds, int layout, int split, unsigned delmask, const MConfig *conf = NULL) {
        docs = ds; for (auto &d : ds) toks.push_back(tokens_of(d));
        MConfig c; if (conf) c = *conf; else { c.compound = false; c.chunk = 0x4000; c.merge_factor = 100; c.skip_interval = 2; c.index_interval = 2; } FrtConfig fc = make_config(c);
        auto create = [&](FrtStore *s, const MSchema &m) { FrtFieldInfos *fis = m.make(); frt_index_create(s, fis); frt_fis_deref(fis); };
        create(a.s, sc); FrtIndexWriter *iw = open_writer(a.s, &fc), *w2 = NULL;
        for (int i = 0; i < n(); i++) {
            if (i == split && layout == 1 && i) frt_iw_commit(iw);
            if (i == split && layout == 2) { MSchema m2 = sc; std::reverse(m2.fields.begin(), m2.fields.end()); create(b.s, m2); w2 = open_writer(b.s, &fc); }
            add_doc(w2 ? w2 : iw, docs[i]);
        }
        frt_iw_close(iw); if (w2) frt_iw_close(w2);
        if (w2) { FrtIndexReader **rs = (FrtIndexReader **)malloc(2 * sizeof *rs); rs[0] = frt_ir_open(a.s); rs[1] = frt_ir_open(b.s); ir = frt_mr_open(rs, 2); }
        else ir = frt_ir_open(a.s);
        sea = frt_isea_new(ir); del.assign(n(), false);
        for (int i = 0; i < n(); i++) if (delmask >> i & 1) { del[i] = true; frt_ir_delete_doc(ir, i); }
        if (delmask) { frt_ir_commit(ir); }
    }
    std::vector<int> expect(const QNode &q) const { std::vector<int> r; for (int i = 0; i < n(); i++) if (!del[i] && matches(q, toks[i])) r.push_back(i); return r; }
};
static inline MDoc text_doc(const std::string &f, const std::string &g = "") { MDoc d; if (f.size()) d.f.push_back({"f", {f}}); if (g.size()) d.f.push_back({"g", {g}}); return d; }
static inline std::string ints(const std::vector<int> &v) { std::string s = "["; for (int i : v) s += mc::fmt(s.size() > 1 ? " %d" : "%d", i); return s + "]"; }
static inline std::vector<int> hits_of(FrtTopDocs *td) { std::vector<int> r; for (int i = 0; i < td->size; i++) r.push_back(td->hits[i]->doc); return r; }
static void collect_fn(FrtSearcher *, int doc, float score, void *arg) { ((std::vector<std::pair<int, float>> *)arg)->push_back({doc, score}); }
#endif
