// C15: phrase and span queries match exactly the word positions they ask for.
#include "query_model.hpp"
#include "span_model.hpp"
using namespace mc;
static const char *F = "f";
// --- scorers: every strictly advancing sequence of next/skip_to visits the expected documents, with the same score
static void scorer_walks(Path &p, QIndex &X, FrtQuery *q, const std::vector<int> &want, const std::string &name, int depth) {
    int N = X.n(); std::map<int, float> score;
    { std::vector<std::pair<int, float>> each; X.sea->search_each(X.sea, q, NULL, NULL, collect_fn, &each); for (auto &e : each) score[e.first] = e.second; }
    std::function<void(std::vector<int> &, int)> go = [&](std::vector<int> &seq, int) {
        FrtWeight *w = frt_q_weight(q, X.sea); FrtScorer *s = w->scorer(w, X.ir);
        if (!s) { MC_CHECK(p, want.empty(), "%s has no scorer, expected %s", name.c_str(), ints(want).c_str()); w->destroy(w); return; }
        bool more = true; int at = -1; std::string what;
        auto say = [&] { what = name; for (int t : seq) what += t < 0 ? " next" : fmt(" skip_to(%d)", t); return what.c_str(); };
        for (int t : seq) {
            int wd = INT_MAX; for (int d : want) if (d > at && d >= t) { wd = d; break; }
            more = t < 0 ? s->next(s) : s->skip_to(s, t);
            if (wd == INT_MAX) { MC_CHECK(p, !more, "%s: doc %d, expected the end", say(), s->doc); break; }
            MC_CHECK(p, more && s->doc == wd, "%s: %s %d, expected %d", say(), more ? "doc" : "the end", s->doc, wd);
            float sc = s->score(s); MC_CHECK(p, sc == score[wd], "%s: score %g of doc %d, but %g in a search", say(), sc, wd, score[wd]);
            at = wd;
        }
        s->destroy(s); w->destroy(w); p.step();
        if (!more || (int)seq.size() >= depth) return;
        seq.push_back(-1); go(seq, at); seq.pop_back();
        for (int t = at + 1; t <= N; t++) { seq.push_back(t); go(seq, at); seq.pop_back(); }
    };
    std::vector<int> seq; go(seq, -1);
}
static std::vector<int> found(QIndex &X, FrtQuery *q) { std::vector<std::pair<int, float>> each; X.sea->search_each(X.sea, q, NULL, NULL, collect_fn, &each); std::vector<int> r; for (auto &e : each) r.push_back(e.first); return r; }
// --- phrases
struct Slop { bool must, may; };
static Slop sloppy(const QNode &n, const TDoc &d) {         // must: a placement with distinct positions exists; may: equal to must
    auto it = d.find(n.field); Slop r = {false, false}; if (it == d.end() || n.phrase.empty()) return r;
    size_t k = n.phrase.size(); std::vector<std::vector<int>> ps(k);
    for (size_t i = 0; i < k; i++) for (auto &t : it->second) for (auto &w : n.phrase[i].second) if (t.t == w && (ps[i].empty() || ps[i].back() != t.pos)) ps[i].push_back(t.pos);
    std::vector<int> c(k);
    std::function<bool(size_t)> go = [&](size_t i) {
        if (i == k) { int lo = INT_MAX, hi = INT_MIN; for (size_t j = 0; j < k; j++) { int v = c[j] - n.phrase[j].first; lo = std::min(lo, v); hi = std::max(hi, v); } return hi - lo <= n.slop; }
        for (int x : ps[i]) { bool ok = true; for (size_t j = 0; j < i; j++) if (c[j] == x && n.phrase[j].first != n.phrase[i].first) ok = false; if (!ok) continue; c[i] = x; if (go(i + 1)) return true; }
        return false;
    };
    r.must = r.may = go(0); return r;
}
static bool repeats(const QNode &n) { std::set<std::string> s; for (auto &p : n.phrase) for (auto &t : p.second) if (!s.insert(t).second) return true; return false; }
static float qsc_freq(QIndex &X, FrtQuery *q, int doc) {     // phrase frequency as reported by the scorer's explanation
    FrtWeight *w = frt_q_weight(q, X.sea); FrtScorer *s = w->scorer(w, X.ir); FrtExplanation *e = s->explain(s, doc);
    const char *t = strstr(e->description, "freq"); t = t ? strpbrk(t, "=(") : NULL; float v = t ? strtof(t + 1, NULL) : -1;
    frt_expl_destroy(e); s->destroy(s); w->destroy(w); return v;
}
static void check_phrase(Path &p, QIndex &X, const QNode &n, bool freq, int walk) {
    FrtQuery *q = build(n); std::vector<int> want, got = found(X, q);
    if (n.slop == 0) want = X.expect(n);
    else {
        bool rep = repeats(n);
        for (int i = 0; i < X.n(); i++) if (!X.del[i]) {
            bool m = sloppy(n, X.toks[i]).must, g = std::binary_search(got.begin(), got.end(), i);
            MC_CHECK(p, m || !g, "%s matches document '%s' although no placement of the words within the slop exists", show(n).c_str(), X.docs[i].f.size() ? X.docs[i].f[0].vals[0].c_str() : "");
            MC_CHECK(p, g || !m || rep, "%s does not match document '%s' although its words are within the slop", show(n).c_str(), X.docs[i].f.size() ? X.docs[i].f[0].vals[0].c_str() : "");
            if (g) want.push_back(i);
        }
    }
    if (got != want) for (int i = 0; i < X.n(); i++) { bool w = std::binary_search(want.begin(), want.end(), i), g = std::binary_search(got.begin(), got.end(), i); MC_CHECK(p, w == g, "%s %s document '%s'", show(n).c_str(), g ? "matches" : "does not match", X.docs[i].f.size() ? X.docs[i].f[0].vals[0].c_str() : ""); }
    MC_CHECK(p, got == want, "%s: %s, expected %s", show(n).c_str(), ints(got).c_str(), ints(want).c_str());
    FrtTopDocs *td = X.sea->search(X.sea, q, 0, X.n() + 1, NULL, NULL, NULL, 0); MC_CHECK(p, td->total_hits == (int)want.size(), "%s: %d hits in a search, %zu in a collection", show(n).c_str(), td->total_hits, want.size()); frt_td_destroy(td);
    if (freq && n.slop == 0 && n.phrase.size() > 1) for (int d : want) { float f = qsc_freq(X, q, d); int m = exact_phrase_freq(n, X.toks[d]); MC_CHECK(p, fabs(f - m) < 1e-4, "%s occurs %g times in '%s', expected %d", show(n).c_str(), f, X.docs[d].f[0].vals[0].c_str(), m); p.step(); }
    if (walk) scorer_walks(p, X, q, want, show(n), walk);
    frt_q_deref(q); p.step(X.n()); p.eval();
}
static std::vector<QNode> phrases(int slop, bool rich) {
    std::vector<QNode> r; const char *W = "abc";
    std::vector<std::vector<std::string>> alts = {{"a"}, {"b"}, {"c"}}; if (rich) { alts.push_back({"a", "b"}); alts.push_back({"a", "none"}); alts.push_back({"none"}); }
    (void)W;
    for (auto &x : alts) for (auto &y : alts) for (int g : {1, 2, 0, -1}) r.push_back(qphrase(F, {{0, x}, {g, y}}, slop));
    for (int i = 0; i < 27; i++) { std::vector<std::string> a = {std::string(1, 'a' + i % 3)}, b = {std::string(1, 'a' + i / 3 % 3)}, c = {std::string(1, 'a' + i / 9)}; for (auto g : {std::pair<int, int>{1, 2}, {1, 3}, {2, 3}, {2, 1}}) r.push_back(qphrase(F, {{0, a}, {g.first, b}, {g.second, c}}, slop)); }
    if (rich) { for (auto &x : alts) { r.push_back(qphrase(F, {{0, x}, {1, {"b"}}, {2, x}}, slop)); r.push_back(qphrase(F, {{0, x}}, slop)); r.push_back(qphrase(F, {{3, x}, {4, {"b"}}}, slop)); r.push_back(qphrase(F, {{7, {"c"}}, {5, x}, {6, {"b"}}}, slop)); }
        r.push_back(qphrase(F, {}, slop)); r.push_back(qphrase("nofield", {{0, {"a"}}, {1, {"b"}}}, slop));
        for (int i = 0; i < 16; i++) r.push_back(qphrase(F, {{0, {i & 1 ? "a" : "b"}}, {1, {i & 2 ? "a" : "b"}}, {2, {i & 4 ? "a" : "b"}}, {3, {i & 8 ? "a" : "c"}}}, slop)); }
    return r;
}
static std::vector<std::string> texts(int len) { std::vector<std::string> r = {""}, cur = {""}; for (int k = 1; k <= len; k++) { std::vector<std::string> nx; for (auto &s : cur) for (char c : {'a', 'b', 'c'}) nx.push_back(s + (s.size() ? " " : "") + c); r.insert(r.end(), nx.begin(), nx.end()); cur = nx; } return r; }
static void all_texts(QIndex &X, int len, int layout, bool del) {
    std::vector<MDoc> ds; for (auto &t : texts(len)) { ds.push_back(text_doc(t)); }
    X.make(ds, layout, (int)ds.size() / 3, del ? 0x20442 : 0);
}
static void phrase_all(Path &p) {
    static const auto E = phrases(0, true), S1 = phrases(1, true), S2 = phrases(2, true), S3 = phrases(3, true), S5 = phrases(5, true);
    int slop = p.choose(5), layout = p.choose(3), part = p.choose(8); if (!p.mine()) return;
    const auto &Q = slop == 0 ? E : slop == 1 ? S1 : slop == 2 ? S2 : slop == 3 ? S3 : S5;
    p.note("[all texts of up to %d words, layout %d] ", opt.thorough ? 7 : 6, layout);
    std::string e = guarded([&] { QIndex X; all_texts(X, opt.thorough ? 7 : 6, layout, layout == 1); p.state(fnv(fmt("%d %d", slop, layout))); for (size_t i = part; i < Q.size(); i += 8) { check_phrase(p, X, Q[i], layout != 1, 0); } });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static const std::vector<std::string> &pool() { static std::vector<std::string> v = {"", "a", "a b", "b a", "a a", "a b a", "a c b", "b a b a", "c", "a b a b"}; return v; }
static void phrase_docs(Path &p) {
    static std::vector<QNode> Q; if (Q.empty()) for (int s : {0, 1, 3}) { for (auto g : {1, 2}) { Q.push_back(qphrase(F, {{0, {"a"}}, {g, {"b"}}}, s)); Q.push_back(qphrase(F, {{0, {"a", "c"}}, {g, {"b"}}}, s)); Q.push_back(qphrase(F, {{0, {"a"}}, {g, {"a"}}}, s)); } Q.push_back(qphrase(F, {{0, {"a"}}, {1, {"b"}}, {2, {"a"}}}, s)); Q.push_back(qphrase(F, {{0, {"a"}}, {1, {"none"}}}, s)); }
    int nd = opt.thorough ? 4 : 3; std::vector<MDoc> ds; std::string key; for (int i = 0; i < nd; i++) { int k = p.choose((int)pool().size()); ds.push_back(text_doc(pool()[k])); key += "'" + pool()[k] + "' "; }
    if (!p.mine()) return;
    p.note("[docs %s] ", key.c_str());
    std::string e = guarded([&] { QIndex X; X.make(ds, 0, 0, 0); p.state(fnv(key)); for (auto &n : Q) check_phrase(p, X, n, true, 3); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
// --- spans
static std::vector<Spans> check_spans(Path &p, QIndex &X, const SN &n) {
    std::vector<std::vector<Spans>> kid; for (auto &k : n.k) kid.push_back(check_spans(p, X, k));
    std::vector<Spans> got = reported(p, X, n); p.step(X.n());
    for (int i = 0; i < X.n(); i++) {
        std::set<Sp> g(got[i].begin(), got[i].end()), w; bool del = X.del[i];
        if (del) { MC_CHECK(p, g.empty(), "%s reports spans of a deleted document", sshow(n).c_str()); continue; }
        auto fit = X.toks[i].find(F);
        switch (n.t) {
        case S_T: case S_M: case S_P: if (fit != X.toks[i].end()) for (auto &t : fit->second) for (auto &x : n.w) if (n.t == S_P ? t.t.compare(0, x.size(), x) == 0 : t.t == x) w.insert({t.pos, t.pos + 1}); break;
        case S_F: for (auto &s : kid[0][i]) if (s.second <= n.end) w.insert(s); break;
        case S_O: for (auto &k : kid) w.insert(k[i].begin(), k[i].end()); break;
        case S_X: for (auto &s : kid[0][i]) { bool hit = false; for (auto &x : kid[1][i]) hit |= x.second > s.first && x.first < s.second; if (!hit) w.insert(s); } break;
        case S_N: {
            std::map<int, int> least; std::set<Sp> all; size_t k = n.k.size(); std::vector<Sp> c(k);
            std::function<void(size_t)> go = [&](size_t j) {
                if (j == k) { int lo = INT_MAX, hi = 0, sum = 0; for (auto &s : c) { lo = std::min(lo, s.first); hi = std::max(hi, s.second); sum += s.second - s.first; } if (n.ord) { lo = c[0].first; hi = c[k - 1].second; } if (hi - lo - sum <= n.slop) { all.insert({lo, hi}); auto f = least.find(lo); if (f == least.end() || f->second > hi) least[lo] = hi; } return; }
                for (auto &s : kid[j][i]) { if (n.ord && j && (s.first < c[j - 1].first || (s.first == c[j - 1].first && s.second < c[j - 1].second))) continue; c[j] = s; go(j + 1); }
            };
            if (k) go(0);
            for (auto &s : g) MC_CHECK(p, all.count(s), "%s reports the span %d-%d of '%s', which no placement of its clauses gives", sshow(n).c_str(), s.first, s.second, dtext(X, i).c_str());
            bool uni = true; for (auto &x : n.k) uni &= uniform(x);
            if (uni) for (auto &s : least) MC_CHECK(p, g.count(s), "%s reports %s of '%s' and not %d-%d", sshow(n).c_str(), spans_s(got[i]).c_str(), dtext(X, i).c_str(), s.first, s.second);
            continue; }
        }
        MC_CHECK(p, g == w, "%s reports %s of '%s', expected %s", sshow(n).c_str(), spans_s(got[i]).c_str(), dtext(X, i).c_str(), spans_s(Spans(w.begin(), w.end())).c_str());
    }
    p.eval(); return got;
}
static void check_span_query(Path &p, QIndex &X, const SN &n, int walk) {
    std::vector<Spans> sp = check_spans(p, X, n); std::vector<int> want; for (int i = 0; i < X.n(); i++) if (sp[i].size()) want.push_back(i);
    FrtQuery *q = sbuild(n); std::vector<int> got = found(X, q);
    MC_CHECK(p, got == want, "%s: documents %s, expected %s", sshow(n).c_str(), ints(got).c_str(), ints(want).c_str());
    if (walk) {
        scorer_walks(p, X, q, want, sshow(n), walk);
        // the enumeration continues from a skip as the full enumeration does
        FrtQuery *rq = q->rewrite(q, X.ir); std::vector<std::pair<int, Sp>> all; for (int i = 0; i < X.n(); i++) for (auto &s : sp[i]) all.push_back({i, s});
        for (int pre = 0; pre <= 3; pre++) for (int t = 0; t <= X.n(); t++) {
            if (pre > (int)all.size() || (pre && all[pre - 1].first >= t)) continue;
            FrtSpanEnum *e = ((FrtSpanQuery *)rq)->get_spans(rq, X.ir); for (int i = 0; i < pre; i++) e->next(e);
            std::vector<std::pair<int, Sp>> rest, wr; if (e->skip_to(e, t)) do rest.push_back({e->doc(e), {e->start(e), e->end(e)}}); while (e->next(e));
            e->destroy(e); for (auto &a : all) if (a.first >= t) wr.push_back(a);
            MC_CHECK(p, rest == wr, "%s after %d times next and skip_to(%d): %zu spans from document %d, expected %zu from %d", sshow(n).c_str(), pre, t, rest.size(), rest.empty() ? -1 : rest[0].first, wr.size(), wr.empty() ? -1 : wr[0].first);
            p.step();
        }
        frt_q_deref(rq);
    }
    frt_q_deref(q); p.eval();
}
static std::vector<SN> span_queries(int size) {
    std::vector<SN> leaf = {st("a"), st("b"), st("c"), st("none")}, r = leaf, mid;
    for (auto m : {sm({"a", "b"}), sm({"a", "none", "c"}), sm({"none"}), sp("a"), sp(""), sp("zz")}) r.push_back(m);
    for (auto &x : {st("a"), sm({"a", "b"})}) for (int e : {0, 1, 2, 4}) r.push_back(sf(x, e));
    for (auto &x : leaf) for (auto &y : leaf) {
        r.push_back(so({x, y})); r.push_back(sx(x, y));
        for (int s : {0, 1, 3}) for (bool o : {false, true}) { r.push_back(sn({x, y}, s, o)); if (s < 2) for (auto &z : leaf) if (size > 0 || z.w[0] != "none") r.push_back(sn({x, y, z}, s, o)); }
    }
    // compositions
    std::vector<SN> comp = {so({st("a"), st("b")}), so({st("c"), st("none")}), sm({"a", "c"}), sf(st("a"), 2), sx(st("a"), sf(st("a"), 1)), sn({st("a"), st("b")}, 0, true), sn({st("a"), st("b")}, 1, false), sp("b"), so({sn({st("a"), st("b")}, 0, true), st("c")}), sn({st("a")}, 0, true), so({st("b")})};
    for (auto &x : comp) {
        for (int e : {1, 2, 3}) r.push_back(sf(x, e));
        for (auto &y : comp) { r.push_back(so({x, y})); r.push_back(sx(x, y)); for (int s : {0, 2}) for (bool o : {false, true}) r.push_back(sn({x, y}, s, o)); }
        for (auto &y : leaf) { r.push_back(sn({x, y}, 1, true)); r.push_back(sn({y, x}, 0, false)); r.push_back(sx(y, x)); r.push_back(sx(x, y)); r.push_back(sn({y, x, y}, 1, false)); }
    }
    return r;
}
static void span_all(Path &p) {
    static const auto Q = span_queries(1);
    int layout = p.choose(3), part = p.choose(16); if (!p.mine()) return;
    int len = opt.thorough ? 6 : 5; p.note("[all texts of up to %d words, layout %d] ", len, layout);
    std::string e = guarded([&] { QIndex X; all_texts(X, len, layout, layout == 1); p.state(fnv(fmt("%d %d", part, layout))); for (size_t i = part; i < Q.size(); i += 16) check_span_query(p, X, Q[i], 0); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void span_docs(Path &p) {
    static const auto Q = span_queries(0);
    static const std::vector<std::string> P = {"", "a", "b a", "a b", "a c b", "b a b a"};
    int nd = 3; std::vector<MDoc> ds; std::string key; for (int i = 0; i < nd; i++) { int k = p.choose((int)P.size()); ds.push_back(text_doc(P[k])); key += "'" + P[k] + "' "; }
    if (!p.mine()) return;
    p.note("[docs %s] ", key.c_str());
    std::string e = guarded([&] { QIndex X; X.make(ds, 0, 0, 0); p.state(fnv(key)); for (size_t i = 0; i < Q.size(); i++) check_span_query(p, X, Q[i], opt.thorough ? 3 : 2); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
// --- sizes: every size up to a bound, so that each growing buffer is passed
static void sizes(Path &p) {
    int max = opt.thorough ? 70 : 36, n = 1 + p.choose(max), layout = p.choose(3), part = p.choose(3); if (!p.mine()) return;
    p.note("[size %d, layout %d] ", n, layout);
    std::string e = guarded([&] {
        QIndex X; std::vector<MDoc> ds; std::vector<std::string> w; for (int i = 0; i < n; i++) w.push_back(fmt("w%d", i));
        std::string up, down, ab, run, far; for (int i = 0; i < n; i++) { up += w[i] + " "; down = w[i] + " " + down; ab += "a b "; run += "a "; far += "x "; }
        ds = {text_doc(up), text_doc(down), text_doc(ab), text_doc(run + "b"), text_doc("b " + run), text_doc("a " + far + "b"), text_doc("b " + far + "a"), text_doc("a b")};
        for (int i = 0; i < n; i++) ds.push_back(text_doc(i % 3 == 0 ? "a b" : i % 3 == 1 ? "b a c" : "w0 c"));
        X.make(ds, layout, (int)ds.size() / 2, layout == 1 ? 0x84 : 0); p.state(fnv(fmt("%d %d %d", n, layout, part)));
        if (part == 0) {
            std::vector<std::pair<int, std::vector<std::string>>> ph, alt; for (int i = 0; i < n; i++) ph.push_back({i, {w[i]}});
            std::vector<std::string> any = w; any.push_back("a"); any.push_back("b"); std::vector<QNode> Q = {qphrase(F, ph)};
            Q.push_back(qphrase(F, {{0, any}, {1, any}})); Q.push_back(qphrase(F, {{0, w}, {1, {w[n / 2]}}})); Q.push_back(qphrase(F, {{0, {"a", "b"}}, {1, {"a", "b"}}, {2, {"b", "c", "a"}}}));
            Q.push_back(qphrase(F, {{0, {"a"}}, {n + 1, {"b"}}})); Q.push_back(qphrase(F, {{0, {"a"}}, {n, {"b"}}}));
            for (int i = 0; i < n; i++) alt.push_back({i, any}); Q.push_back(qphrase(F, alt));
            for (auto &q : Q) check_phrase(p, X, q, true, 0);
        } else if (part == 1) {
            for (int s : {n - 1, n, n + 1, n + 2}) { check_phrase(p, X, qphrase(F, {{0, {"a"}}, {1, {"b"}}}, s), false, 0); check_phrase(p, X, qphrase(F, {{0, {"a"}}, {1, {"b", "c"}}}, s), false, 0); }
        } else {
            std::vector<SN> ts, Q; for (auto &x : w) ts.push_back(st(x)); std::vector<std::string> ab2 = w; ab2.push_back("a"); ab2.push_back("b");
            Q = {so(ts), sn(ts, 0, true), sn(ts, 0, false), sm(w), sm(ab2), sp("w"), sp(""), sf(sm(ab2), n), sn({st("a"), st("b")}, n - 1, true), sn({st("a"), st("b")}, n, true), sn({st("a"), st("b")}, n, false), sx(st("a"), st("b")), sx(sm(ab2), sf(sm(ab2), n / 2))};
            for (auto &q : Q) check_span_query(p, X, q, 0);
        }
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
// --- reuse of one query object on changing indexes, and rejected clauses
static void reuse(Path &p) {
    static const std::vector<SN> Q = {sp("b"), so({sp("b"), st("a")}), sn({st("a"), sp("b")}, 1, true), sf(sp("b"), 2), sx(sp("b"), st("a")), sx(st("a"), sp("b")), so({so({sp("b")}), st("none")})};
    int k = p.choose((int)Q.size()), first = p.choose(3); if (!p.mine()) return;
    p.note("[%s, index %d first] ", sshow(Q[k]).c_str(), first);
    std::string e = guarded([&] {
        FrtQuery *q = sbuild(Q[k]);
        std::vector<std::vector<MDoc>> sets = {{text_doc("a"), text_doc("c b")}, {text_doc("a bb"), text_doc("b a"), text_doc("a c bc")}, {text_doc("bd"), text_doc("a bd")}};
        for (int r = 0; r < 3; r++) {
            QIndex X; X.make(sets[(first + r) % 3], 0, 0, 0); auto sp = check_spans(p, X, Q[k]); std::vector<int> want; for (int i = 0; i < X.n(); i++) if (sp[i].size()) want.push_back(i);
            auto got = found(X, q); MC_CHECK(p, got == want, "search %d with the same query object: %s, expected %s", r + 1, ints(got).c_str(), ints(want).c_str()); p.step();
        }
        frt_q_deref(q); p.state(fnv(fmt("%d %d", k, first)));
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.eval();
}
static void rejected(Path &p) {
    int outer = p.choose(3), bad = p.choose(3), pre = p.choose(3); if (!p.mine()) return;
    if (outer == 2 && bad == 2) { p.prune(); return; }
    p.note("[%s, %d clauses, then %s] ", outer == 0 ? "or" : outer == 1 ? "near" : "not", pre, bad == 0 ? "another field" : bad == 1 ? "another field inside" : "not a span query");
    std::string e = guarded([&] {
        QIndex X; X.make({text_doc("a b"), text_doc("a"), text_doc("b")}, 0, 0, 0);
        FrtQuery *b = bad == 0 ? frt_spantq_new(SYM("g"), "a") : bad == 1 ? frt_spanfq_new_nr(frt_spantq_new(SYM("g"), "a"), 3) : frt_tq_new(SYM(F), "a"); std::string er;
        if (outer == 2) { FrtQuery *inc = frt_spantq_new(SYM(F), "a"), *q = NULL; er = guarded([&] { q = frt_spanxq_new(inc, b); }); MC_CHECK(p, er.size(), "a not query over two fields is accepted"); if (q) frt_q_deref(q); frt_q_deref(inc); /* references taken by the refused constructor are the caller's to drop */ if (inc->ref_cnt > 0) frt_q_deref(inc), frt_q_deref(b); frt_q_deref(b); return; }
        FrtQuery *q = outer ? frt_spannq_new(2, false) : frt_spanoq_new(); SN n = outer ? sn({}, 2, false) : so({});
        for (int i = 0; i < std::max(pre, 1); i++) { SN c = st(i ? "b" : "a"); n.k.push_back(c); if (outer) frt_spannq_add_clause_nr(q, sbuild(c)); else frt_spanoq_add_clause_nr(q, sbuild(c)); }
        er = guarded([&] { if (outer) frt_spannq_add_clause_nr(q, b); else frt_spanoq_add_clause_nr(q, b); });
        MC_CHECK(p, er.size(), "an unsuitable clause is accepted"); frt_q_deref(b);
        auto sp = check_spans(p, X, n); std::vector<int> want; for (int i = 0; i < X.n(); i++) if (sp[i].size()) want.push_back(i);
        auto got = found(X, q); MC_CHECK(p, got == want, "after a refused clause: %s, expected %s", ints(got).c_str(), ints(want).c_str()); frt_q_deref(q); p.step();
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(fnv(fmt("%d %d %d", outer, bad, pre))); p.eval();
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = (index, phrase or span query); transition = one document decided, one scorer walk or one enumeration step; matches, phrase frequencies and reported spans compared with a brute-force search over all placements of the words";
    return run(argc, argv, m, {
        {"phrase_all", "every text of up to 6 words over 3 words x phrases of 1..4 positions with gaps, alternatives, equal and reversed positions x slop 0,1,2,3,5 x 3 index layouts", phrase_all, 120},
        {"phrase_docs", "every 3-document index over 10 texts x phrases x every next/skip_to sequence of length <= 3 on the scorer", phrase_docs, 60},
        {"span_all", "every text of up to 5 words over 3 words x term, multi-term, prefix, first, or, near (ordered or not, 3 slops), not, and their pairwise compositions x 3 index layouts", span_all, 240},
        {"span_docs", "every 3-document index over 6 texts x span queries x every next/skip_to sequence of length <= 2 on scorer and enumeration", span_docs, 120},
        {"sizes", "phrases, alternatives, slops, occurrences, postings and span clauses of every size 1..36 (thorough 70) x 3 index layouts", sizes, 120},
        {"reuse", "one query object searched on three different indexes in every rotation", reuse, 30},
        {"rejected", "clauses of another field or kind refused, the query staying usable", rejected, 30},
    });
}
