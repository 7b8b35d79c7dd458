// C17: scores follow the similarity formula; explanations agree with them; norms encode consistently.
#include "query_model.hpp"
#include <cmath>
using namespace mc;
extern "C" { float frt_byte2float(unsigned char b); unsigned char frt_float2byte(float f); }
struct Sc {                                                     // the formula, in double precision
    QIndex &X; Sc(QIndex &x) : X(x) {}
    int df(const std::string &f, const std::string &t) { int n = 0; for (auto &d : X.toks) n += tf(d, f, t) > 0; return n; }
    double idf(int df) { return (float)(log((float)X.n() / (float)(df + 1)) + 1.0); }
    double norm(const std::string &f, int d) { const MField *m = X.docs[d].get(f); if (!m) return 0; auto it = X.toks[d].find(f); if (it == X.toks[d].end() || it->second.empty()) return 0; for (auto &s : X.sc.fields) if (s.first == f && (s.second.index & 4)) return 0; return frt_byte2float(frt_float2byte(X.docs[d].boost * m->boost * (float)(1.0 / sqrt((double)it->second.size())))); }
    double nidf(const QNode &n) {
        switch (n.t) {
        case Q_TERM: return idf(df(n.field, n.text));
        case Q_PHRASE: { if (n.phrase.size() == 1) { int s = 0; for (auto &t : n.phrase[0].second) s += df(n.field, t); return idf(s); } double s = 0; for (auto &p : n.phrase) for (auto &t : p.second) s += idf(df(n.field, t)); return s; }
        case Q_MTERM: { int s = 0; for (auto &t : n.mterms) s += df(n.field, t.first); return idf(s); }
        default: return 1;
        }
    }
    static bool only_not(const QNode &n) { if (n.kids.empty()) return false; for (auto &k : n.kids) if (k.first != MUST_NOT) return false; return true; }
    double sumsq(const QNode &n) {
        if (n.t == Q_FILTERED) return sumsq(n.kids[0].second) * n.boost * n.boost;
        if (n.t == Q_BOOL) { double s = 0; for (auto &k : n.kids) if (k.first != MUST_NOT) s += sumsq(k.second); if (only_not(n)) s += 1; return s * n.boost * n.boost; }
        double w = nidf(n) * n.boost; return w * w;
    }
    double value(const QNode &n, int d, double qn) {            // 0 when the document does not match
        if (!matches(n, X.toks[d])) return 0;
        switch (n.t) {
        case Q_ALL: case Q_CSQ: return n.boost * qn;
        case Q_FILTERED: return value(n.kids[0].second, d, qn * n.boost);
        case Q_BOOL: { double s = 0; int c = 0, m = 0; for (auto &k : n.kids) if (k.first != MUST_NOT) { m++; if (matches(k.second, X.toks[d])) { c++; s += value(k.second, d, qn * n.boost); } } if (only_not(n)) return n.boost * qn; return s * (n.coord_disabled ? 1 : (double)c / m); }
        default: {
            double i = nidf(n), t = 0;
            if (n.t == Q_TERM) t = sqrt((double)tf(X.toks[d], n.field, n.text));
            else if (n.t == Q_MTERM) for (auto &m : n.mterms) t += sqrt((double)tf(X.toks[d], n.field, m.first)) * m.second;
            else if (n.phrase.size() == 1) for (auto &m : n.phrase[0].second) t += sqrt((double)tf(X.toks[d], n.field, m));
            else t = sqrt((double)exact_phrase_freq(n, X.toks[d]));
            return i * i * n.boost * qn * t * norm(n.field, d); }
        }
    }
    double score(const QNode &n, int d) { return value(n, d, 1.0 / sqrt(sumsq(n))); }
};
static bool near_eq(double a, double b) { return fabs(a - b) <= 1e-4 * std::max({fabs(a), fabs(b), 1e-9}); }
static void check_explain(Path &p, QIndex &X, FrtQuery *q, const std::string &name, std::map<int, float> &got, bool zero_ok = false) {
    for (int d = 0; d < X.n(); d++) {
        FrtExplanation *e = X.sea->explain(X.sea, q, d); double v = e->value;
        char *s = frt_expl_to_s(e); char *h = frt_expl_to_html(e); int ul = 0, lu = 0; for (char *c = h; *c; c++) { ul += !strncmp(c, "<ul>", 4); lu += !strncmp(c, "</ul>", 5); } int lines = 0; for (char *c = s; *c; c++) lines += *c == '\n';
        MC_CHECK(p, ul == lu && ul == lines, "the html form of the explanation of %s for document %d has %d lists, %d ends; the text form %d lines", name.c_str(), d, ul, lu, lines);
        free(s); free(h); frt_expl_destroy(e); p.step();
        auto g = got.find(d);
        if (g == got.end()) MC_CHECK(p, v == 0, "%s does not match document %d but is explained as %g", name.c_str(), d, v);
        else MC_CHECK(p, near_eq(v, g->second) || (zero_ok && g->second == 0 && v == 0), "%s scores document %d with %g but explains %g", name.c_str(), d, g->second, v);
    }
}
static std::map<int, float> scores(QIndex &X, FrtQuery *q) { std::vector<std::pair<int, float>> each; X.sea->search_each(X.sea, q, NULL, NULL, collect_fn, &each); std::map<int, float> r; for (auto &e : each) r[e.first] = e.second; return r; }
static void check_fresh(Path &p, QIndex &X, FrtQuery *q, const std::string &name, std::map<int, float> &got) {      // score independent of the way to the document
    for (auto &g : got) {
        FrtWeight *w = frt_q_weight(q, X.sea); FrtScorer *s = w->scorer(w, X.ir); bool ok = s && s->skip_to(s, g.first);
        MC_CHECK(p, ok && s->doc == g.first, "%s: cannot skip to the hit %d", name.c_str(), g.first); float v = s->score(s);
        MC_CHECK(p, near_eq(v, g.second), "%s scores document %d with %g when visiting all, %g when going there directly", name.c_str(), g.first, g.second, v);
        s->destroy(s); w->destroy(w); p.step();
    }
    FrtTopDocs *td = X.sea->search(X.sea, q, 0, X.n() + 1, NULL, NULL, NULL, 0); float mx = 0;
    for (int i = 0; i < td->size; i++) { MC_CHECK(p, got.count(td->hits[i]->doc) && near_eq(td->hits[i]->score, got[td->hits[i]->doc]), "%s: hit %d has score %g, %g when collected", name.c_str(), td->hits[i]->doc, td->hits[i]->score, got[td->hits[i]->doc]); mx = std::max(mx, td->hits[i]->score); }
    MC_CHECK(p, td->max_score == mx, "%s: maximum score %g, best hit %g", name.c_str(), td->max_score, mx); frt_td_destroy(td);
}
static void check_scores(Path &p, QIndex &X, const QNode &n) {
    FrtQuery *q = build(n); Sc S(X); std::map<int, float> got = scores(X, q); std::string name = show(n);
    for (int round = 0; round < 2; round++) {
        for (int d = 0; d < X.n(); d++) {
            bool m = !X.del[d] && matches(n, X.toks[d]); MC_CHECK(p, m == (got.count(d) > 0), "%s: document %d %s", name.c_str(), d, m ? "missing" : "unexpected");
            if (m) { double w = S.score(n, d); MC_CHECK(p, near_eq(w, got[d]), "%s (search %d): document %d scores %.7g, the formula gives %.7g", name.c_str(), round + 1, d, got[d], w); p.step(); }
        }
        if (round == 0) { check_explain(p, X, q, name, got); check_fresh(p, X, q, name, got); got = scores(X, q); }      // and again: searching does not change the query
    }
    frt_q_deref(q); p.eval();
}
static MDoc sdoc(const std::string &f, const std::string &g = "", float db = 1, float fb = 1) { MDoc d = text_doc(f, g); d.boost = db; if (d.f.size()) d.f[0].boost = fb; return d; }
static std::vector<std::vector<MDoc>> &corpora() {
    static std::vector<std::vector<MDoc>> C = {
        {sdoc("a b c", "z"), sdoc("a a a b", "", 2), sdoc("c"), sdoc("", "a b"), sdoc("b c b c b", "a", 1, 4), sdoc("a b a b")},
        {sdoc("a"), sdoc("a b"), sdoc("x y z a b c a", "", 0.5f), sdoc("b a", "z z"), sdoc("d", "a"), sdoc("c a a a a a a a a a", "", 1, 0.25f), sdoc("b")},
        {sdoc("b b a", "q", 8), sdoc("c c"), sdoc("a c b c"), sdoc("a b a a b"), sdoc("", "z")}};
    return C;
}
static void with_corpus(Path &p, const std::function<void(QIndex &, int)> &f, int parts) {
    int c = p.choose((int)corpora().size()), layout = p.choose(3), del = p.choose(2), part = p.choose(parts); if (!p.mine()) return;
    p.note("[corpus %d layout %d%s] ", c, layout, del ? " deletions" : "");
    std::string e = guarded([&] { QIndex X; auto &ds = corpora()[c]; X.make(ds, layout, (int)ds.size() / 2, del ? 5 : 0); p.state(fnv(fmt("%d %d %d", c, layout, del))); f(X, part); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static std::vector<QNode> leaves() {
    std::vector<QNode> v = {qterm("f", "a"), qterm("f", "b", 2.5f), qterm("f", "c"), qterm("g", "z"), qterm("f", "none"), qterm("nofield", "a"), qall(), qall(3), qcsq(qterm("f", "a")), qcsq(qterm("f", "c"), 0.5f), qphrase("f", {{0, {"a"}}, {1, {"b"}}}), qphrase("f", {{0, {"b"}}, {1, {"a", "c"}}}, 0, 2), qphrase("nofield", {{0, {"a"}}, {1, {"b"}}}), qphrase("f", {{0, {"a"}}}, 0, 3), qphrase("f", {{0, {"a", "c"}}}), qmterm("f", {{"a", 1}, {"c", 0.5f}}), qmterm("f", {{"none", 1}}), qmterm("f", {{"b", 1}, {"none", 2}}, 4), qfiltered(qterm("f", "a"), qterm("f", "b"))};
    QNode fb = qfiltered(qterm("f", "b"), qterm("f", "a")); fb.boost = 2; v.push_back(fb); return v;
}
static void flat(Path &p) {
    static std::vector<QNode> Q;
    if (Q.empty()) {
        auto L = leaves(); for (auto &l : L) { Q.push_back(l); for (int o = 0; o < 3; o++) for (float b : {1.0f, 3.0f}) Q.push_back(qbool({{o, l}}, b)); }
        for (auto &x : L) for (auto &y : L) for (int o = 0; o < 9; o++) { Q.push_back(qbool({{o % 3, x}, {o / 3, y}})); if ((x.t + y.t) % 2 == 0 && o % 2 == 0) Q.push_back(qbool({{o % 3, x}, {o / 3, y}}, 2, o % 4 == 0)); }
        Q.push_back(qbool({}));
    }
    with_corpus(p, [&](QIndex &X, int part) { for (size_t i = part; i < Q.size(); i += 4) check_scores(p, X, Q[i]); }, 4);
}
static void nested(Path &p) {
    static std::vector<QNode> Q;
    if (Q.empty()) {
        std::vector<QNode> T = {qterm("f", "a"), qterm("f", "b", 2.5f), qterm("f", "c"), qphrase("nofield", {{0, {"a"}}, {1, {"b"}}}), qmterm("f", {{"a", 1}, {"c", 0.5f}}), qall(2)}, S;
        for (size_t i = 0; i < T.size(); i++) for (size_t j = 0; j < T.size(); j++) for (int o : {0, 1, 3, 4, 2, 8}) S.push_back(qbool({{o % 3, T[i]}, {o / 3, T[j]}}, (i + j) % 3 ? 1 : 2, (i * j + o) % 4 == 3));
        for (size_t i = 0; i < T.size(); i++) for (int o = 0; o < 3; o++) { S.push_back(qbool({{o, T[i]}}, 2)); S.push_back(qbool({{o, qbool({{o, T[i]}}, 3)}}, 2)); }
        for (size_t i = 0; i < S.size(); i++) for (int o = 0; o < 3; o++) { Q.push_back(qbool({{o, S[i]}}, 1.5f)); for (size_t j = 0; j < T.size(); j++) for (int u = 0; u < (opt.thorough ? 3 : 2); u++) { Q.push_back(qbool({{o, S[i]}, {u, T[j]}})); if (o != 2 && opt.thorough) Q.push_back(qbool({{u, T[j]}, {o, S[i]}, {0, T[(i + j) % T.size()]}}, 0.5f)); } }
        for (auto &x : T) for (auto &y : T) for (auto &z : T) for (int o = 0; o < 27; o++) if (opt.thorough || (o * 7 + x.t + y.t) % 3 == 0) Q.push_back(qbool({{o % 3, x}, {o / 3 % 3, y}, {o / 9, z}}));
    }
    with_corpus(p, [&](QIndex &X, int part) { for (size_t i = part; i < Q.size(); i += 16) check_scores(p, X, Q[i]); }, 16);
}
// rewritten multi-term queries score as the term lists they stand for
static void rewritten(Path &p) {
    with_corpus(p, [&](QIndex &X, int) {
        std::set<std::string> terms; for (auto &d : X.toks) { auto it = d.find("f"); if (it != d.end()) for (auto &t : it->second) terms.insert(t.t); }
        Sc S(X);
        auto cmp = [&](FrtQuery *q, const QNode &n, const std::string &name) {
            auto got = scores(X, q);
            for (int d = 0; d < X.n(); d++) { bool m = !X.del[d] && matches(n, X.toks[d]); MC_CHECK(p, m == (got.count(d) > 0), "%s: document %d %s", name.c_str(), d, m ? "missing" : "unexpected"); if (m) { double w = S.score(n, d); MC_CHECK(p, near_eq(w, got[d]), "%s: document %d scores %.7g, the formula gives %.7g", name.c_str(), d, got[d], w); } p.step(); }
            check_explain(p, X, q, name, got); check_fresh(p, X, q, name, got); frt_q_deref(q); p.eval();
        };
        for (float b : {1.0f, 2.0f, 0.25f}) for (int in = 0; in < 3; in++) {
            auto wrap = [&](FrtQuery *q, QNode n, std::string name) {
                q->boost = b; n.boost = b; name += fmt("^%g", b);
                if (in) { FrtQuery *o = frt_bq_new(false); frt_bq_add_query_nr(o, q, in == 1 ? FRT_BC_SHOULD : FRT_BC_MUST); frt_bq_add_query_nr(o, frt_tq_new(SYM("f"), "a"), FRT_BC_SHOULD); q = o; n = qbool({{in == 1 ? SHOULD : MUST, n}, {SHOULD, qterm("f", "a")}}); name = "bool(" + name + ")"; }
                cmp(q, n, name);
            };
            auto list = [&](const std::function<float(const std::string &)> &f) { std::vector<std::pair<std::string, float>> v; for (auto &t : terms) if (f(t) > 0) v.push_back({t, f(t)}); return qmterm("f", v); };
            for (auto pre : {"a", "", "zz", "c"}) wrap(frt_prefixq_new(SYM("f"), pre), list([&](const std::string &t) { return t.compare(0, strlen(pre), pre) == 0 ? 1.f : 0.f; }), std::string("prefix ") + pre);
            wrap(frt_wcq_new(SYM("f"), "?"), list([&](const std::string &t) { return t.size() == 1 ? 1.f : 0.f; }), "wildcard ?");
            wrap(frt_wcq_new(SYM("f"), "b*"), list([&](const std::string &t) { return t[0] == 'b' ? 1.f : 0.f; }), "wildcard b*");
            wrap(frt_wcq_new(SYM("f"), "none*"), list([&](const std::string &) { return 0.f; }), "wildcard none*");
            wrap(frt_wcq_new(SYM("f"), "a"), qterm("f", "a"), "wildcard a");
            wrap(frt_wcq_new(SYM("nofield"), "a*"), qmterm("nofield", {}), "wildcard nofield");
            wrap(frt_fuzq_new_conf(SYM("f"), "a", 0.5f, 0, 0), list([&](const std::string &t) { return t == "a" ? 1.f : 0.f; }), "fuzzy a");
            wrap(frt_fuzq_new_conf(SYM("f"), "a", 0.5f, 1, 0), qterm("f", "a"), "fuzzy a prefix 1");
            if (in == 0) wrap(frt_fuzq_new(SYM("nofield"), "a"), qmterm("nofield", {}), "fuzzy nofield");
            auto range = [&](const char *lo, const char *up) { std::vector<std::pair<int, QNode>> k; for (auto &t : terms) if (t >= lo && t <= up) k.push_back({SHOULD, qterm("f", t)}); return qcsq(qbool(k)); };
            wrap(frt_rq_new(SYM("f"), "b", "c", true, true), range("b", "c"), "range b..c");
            wrap(frt_trq_new(SYM("f"), "b", "c", true, true), range("b", "c"), "typed range b..c");
            wrap(frt_csq_new_nr(frt_rfilt_new(SYM("f"), "b", "c", true, true)), range("b", "c"), "const range b..c");
        }
    }, 1);
}
// sloppy phrases and spans: explanation and fresh scorer agree; spans by the spans they report
static void positional(Path &p) {
    with_corpus(p, [&](QIndex &X, int) {
        Sc S(X);
        for (float b : {1.0f, 2.0f}) {
            for (int sl : {1, 3}) for (auto ph : std::vector<QNode>{qphrase("f", {{0, {"a"}}, {1, {"b"}}}, sl, b), qphrase("f", {{0, {"b"}}, {1, {"a"}}}, sl, b), qphrase("f", {{0, {"a"}}, {1, {"a"}}}, sl, b), qphrase("f", {{0, {"a", "c"}}, {1, {"b"}}, {2, {"c"}}}, sl, b), qphrase("f", {}, sl, b), qphrase("f", {{0, {"none"}}, {1, {"a"}}}, sl, b)}) {
                FrtQuery *q = build(ph); auto g = scores(X, q); check_explain(p, X, q, show(ph), g); check_fresh(p, X, q, show(ph), g);
                for (auto &h : g) { double one = S.nidf(ph) * S.norm("f", h.first); MC_CHECK(p, h.second > 0 && h.second <= one * sqrt(10.0) * 1.001, "%s: score %g", show(ph).c_str(), h.second); }      // query norm cancels idf and boost once
                frt_q_deref(q); p.eval();
            }
            FrtQuery *e = build(qphrase("f", {}, 0, b)); auto ge = scores(X, e); check_explain(p, X, e, "empty phrase", ge); frt_q_deref(e);
            auto T = [&](const char *t) { return frt_spantq_new(SYM("f"), t); };
            for (int k = 0; k < 9; k++) {
                FrtQuery *q = NULL; std::vector<std::string> ts; std::string name = fmt("span query %d^%g", k, b);
                switch (k) {
                case 0: q = T("a"); ts = {"a"}; break;
                case 1: q = frt_spanfq_new_nr(T("a"), 2); ts = {"a"}; break;
                case 2: q = frt_spannq_new(1, true); frt_spannq_add_clause_nr(q, T("a")); frt_spannq_add_clause_nr(q, T("b")); ts = {"a", "b"}; break;
                case 3: q = frt_spannq_new(2, false); frt_spannq_add_clause_nr(q, T("c")); frt_spannq_add_clause_nr(q, T("a")); ts = {"a", "c"}; break;
                case 4: q = frt_spanoq_new(); frt_spanoq_add_clause_nr(q, T("a")); frt_spanoq_add_clause_nr(q, T("c")); ts = {"a", "c"}; break;
                case 5: q = frt_spanxq_new_nr(T("b"), T("a")); ts = {"b"}; break;
                case 6: q = frt_spanmtq_new(SYM("f")); frt_spanmtq_add_term(q, "a"); frt_spanmtq_add_term(q, "b"); ts = {"a", "b"}; break;
                case 7: q = frt_spanprq_new(SYM("f"), "b"); ts = {"b"}; break;
                case 8: q = T("none"); ts = {"none"}; break;
                }
                q->boost = b; std::map<int, double> freq; FrtQuery *r = q->rewrite(q, X.ir); FrtSpanEnum *en = ((FrtSpanQuery *)r)->get_spans(r, X.ir); while (en->next(en)) freq[en->doc(en)] += 1.0 / (en->end(en) - en->start(en) + 1); en->destroy(en); frt_q_deref(r);
                double idf = 0; for (auto &t : ts) idf += S.idf(S.df("f", t));
                auto g = scores(X, q);
                for (auto &h : g) { double w = idf * sqrt(freq[h.first]) * S.norm("f", h.first); MC_CHECK(p, near_eq(h.second, w), "%s: document %d scores %g, the formula gives %g", name.c_str(), h.first, h.second, w); }
                check_explain(p, X, q, name, g); check_fresh(p, X, q, name, g); frt_q_deref(q); p.eval();
            }
        }
    }, 1);
}
// fields without norms: every kind of query still works and explains itself
static void no_norms(Path &p) {
    int k = p.choose(8), layout = p.choose(2); if (!p.mine()) return; p.note("[query %d on a field without norms, layout %d] ", k, layout);
    std::string e = guarded([&] {
        QIndex X; X.sc.fields[0].second.index = FRT_INDEX_YES_OMIT_NORMS; X.make({text_doc("a b"), text_doc("b a b"), text_doc("c", "a")}, layout, 1, 0); FrtQuery *q = NULL;
        switch (k) { case 0: q = frt_tq_new(SYM("f"), "a"); break; case 1: q = build(qphrase("f", {{0, {"a"}}, {1, {"b"}}})); break; case 2: q = build(qphrase("f", {{0, {"a"}}, {1, {"b"}}}, 2)); break; case 3: q = frt_spantq_new(SYM("f"), "a"); break; case 4: q = frt_prefixq_new(SYM("f"), "b"); break; case 5: q = build(qbool({{MUST, qterm("f", "a")}, {SHOULD, qterm("f", "b")}})); break; case 6: q = frt_spannq_new(2, true); frt_spannq_add_clause_nr(q, frt_spantq_new(SYM("f"), "a")); frt_spannq_add_clause_nr(q, frt_spantq_new(SYM("f"), "b")); break; case 7: q = build(qmterm("f", {{"a", 2}, {"b", 1}})); break; }
        auto g = scores(X, q); MC_CHECK(p, g.size() == (k == 1 ? 2u : 2u), "%zu hits, expected 2", g.size()); check_explain(p, X, q, fmt("query %d", k), g, true); frt_q_deref(q);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(k * 2 + layout); p.eval();
}
// frequencies, document counts, clause counts and field lengths across every cache and table size
static void sizes(Path &p) {
    static const int ND[] = {1, 2, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 90, 130}; int N = ND[p.choose(14)], shift = p.choose(4), layout = p.choose(3), del = p.choose(2); if (!p.mine()) return;
    p.note("[%d documents, frequencies from %d, layout %d%s] ", N, shift * 16, layout, del ? ", deletions" : "");
    std::string e = guarded([&] {
        std::vector<MDoc> ds; for (int i = 0; i < N; i++) { std::string t; int a = i % 7 == 6 ? 0 : (i + shift * 16) % 80 + 1, b = i % 3; for (int k = 0; k < std::max(a, b); k++) { if (k < a) t += " a"; if (k < b) t += " b"; } if (i % 5 == 0) t += " c d" + std::string(i % 2 ? " e" : ""); if (i % 11 == 4) for (int k = 0; k < i * 9; k++) t += " x"; ds.push_back(sdoc(t.empty() ? "y" : t.substr(1), i % 4 ? "" : "a", i % 6 == 5 ? 3 : 1, i % 8 == 3 ? 0.2f : 1)); }
        QIndex X; X.make(ds, layout, N / 2, del ? 0x5a : 0); p.state(fnv(fmt("%d %d %d %d", N, shift, layout, del)));
        auto A = qterm("f", "a"), Bq = qterm("f", "b", 2), C = qterm("f", "c"), E = qterm("f", "e"); auto ph = qphrase("f", {{0, {"a"}}, {1, {"b"}}}), ph2 = qphrase("f", {{0, {"c"}}, {1, {"d"}}});
        for (auto &n : std::vector<QNode>{A, Bq, C, E, qterm("f", "x"), qall(), ph, ph2, qphrase("f", {{0, {"a", "x"}}}), qmterm("f", {{"a", 1}, {"b", 0.5f}, {"x", 2}}), qcsq(A), qbool({{0, A}, {0, C}}), qbool({{1, A}, {1, Bq}}), qbool({{1, A}, {0, C}, {0, E}}), qbool({{0, A}, {2, C}}), qbool({{1, C}, {1, E}, {0, A}, {0, Bq}}), qbool({{0, ph}, {0, ph2}, {0, qmterm("f", {{"c", 1}, {"x", 1}})}})}) check_scores(p, X, n);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void clause_counts(Path &p) {
    int k = 1 + p.choose(opt.thorough ? 66 : 34), mode = p.choose(4), layout = p.choose(2); if (!p.mine()) return; p.note("[%d clauses, mode %d, layout %d] ", k, mode, layout);
    std::string e = guarded([&] {
        std::vector<MDoc> ds; for (int i = 0; i < 24; i++) { std::string t; for (int j = 0; j < k; j++) if (i == 0 || (j * (i + 3) / 2 + i) % (i % 5 + 2) == 0) t += fmt(" w%d", j); ds.push_back(text_doc(t.empty() ? "y" : t.substr(1))); }
        QIndex X; X.make(ds, layout, 11, 0); p.state(fnv(fmt("%d %d %d", k, mode, layout)));
        std::vector<std::pair<int, QNode>> kids; for (int j = 0; j < k; j++) kids.push_back({mode == 0 ? SHOULD : mode == 1 ? MUST : mode == 2 ? (j % 3 == 2 ? MUST_NOT : j % 2 ? SHOULD : MUST) : (j ? SHOULD : MUST), qterm("f", fmt("w%d", j), j % 4 == 3 ? 2 : 1)});
        check_scores(p, X, qbool(kids)); check_scores(p, X, qbool(kids, 2, true)); check_scores(p, X, qbool({{SHOULD, qbool(kids)}, {MUST, qall()}}));
        std::vector<std::pair<std::string, float>> mt; for (int j = 0; j < k; j++) mt.push_back({fmt("w%d", j), j % 3 + 0.5f}); check_scores(p, X, qmterm("f", mt));
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void norms(Path &p) {
    int part = p.choose(8); if (!p.mine()) return; p.note("[norm bytes, part %d] ", part);
    float prev = -1; for (int b = 0; b < 256; b++) { float f = frt_byte2float((unsigned char)b); MC_CHECK(p, f > prev, "byte %d decodes to %g, byte %d to %g", b, f, b - 1, prev); prev = f; MC_CHECK(p, frt_float2byte(f) == b, "byte %d decodes to %g which encodes to %d", b, f, frt_float2byte(f)); p.step(); }
    // every float with a coarse mantissa (thorough: every float), in increasing order, encodes monotonically and to the largest byte not above it (or the smallest non-zero one)
    uint32_t stepw = opt.thorough ? 1 : 1u << 9, lo = (uint32_t)part * (0x7f800000u / 8), hi = part == 7 ? 0x7f800000u : lo + 0x7f800000u / 8; int pb = lo ? -1 : 0; uint64_t cnt = 0;
    static float dec[257]; for (int b = 0; b < 256; b++) dec[b] = frt_byte2float((unsigned char)b); dec[256] = INFINITY;
    for (uint32_t i = lo + (lo ? 0 : 1); i < hi; i += stepw) {
        float f; memcpy(&f, &i, 4); int b = frt_float2byte(f); cnt++;
        if (b < pb || (f >= dec[1] && !(dec[b] <= f && f < dec[b + 1])) || (f < dec[1] && b != 1)) p.fail("%.9g encodes to byte %d (%.9g), the byte before was %d", f, b, dec[b], pb);
        pb = b;
    }
    MC_CHECK(p, frt_float2byte(0) == 0 && frt_float2byte(-1) == 0, "zero and negative norms"); p.step(cnt); p.state(part); p.eval();
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = (corpus, layout, deletions); transition = one score or explanation obtained; every score compared with the formula evaluated in double precision on the model documents (relative tolerance 1e-4), every explanation with the score";
    return run(argc, argv, m, {
        {"flat", "20 kinds of leaf queries with boosts alone, as single clauses, and as all pairs in a boolean query x all clause kinds, boosts and coordination on or off; 3 corpora with boosts x 3 layouts x deletions; every document explained", flat, 120},
        {"nested", "booleans of booleans and three-clause booleans with boosts and coordination; 3 corpora x 3 layouts x deletions", nested, 240},
        {"rewritten", "prefix, wildcard, fuzzy, range and typed range queries with boosts, alone and inside booleans", rewritten, 60},
        {"positional", "sloppy phrases and 9 span queries with boosts", positional, 60},
        {"no_norms", "every query kind on a field without norms", no_norms, 30},
        {"sizes", "14 document counts 1..130 x term frequencies 1..80 and fields of up to 1200 tokens x 3 layouts x deletions x 17 queries", sizes, 120},
        {"clause_counts", "1..34 (thorough 66) clauses x 4 mixes of kinds x 2 layouts, plain, boosted without coordination, nested; lists of as many terms", clause_counts, 120},
        {"norms", "all 256 norm bytes; all floats with 14 bits of mantissa (thorough: all floats)", norms, 300},
    });
}
