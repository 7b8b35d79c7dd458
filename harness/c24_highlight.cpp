// C24: highlighting marks exactly the matched words and returns text of the field otherwise unchanged.
#include "span_model.hpp"
using namespace mc;
static const char *F = "f";
typedef std::pair<int, int> R;                                             // first and last position of a match
struct HL {                                                                // one index, one field with stored text and term vectors
    QIndex X; std::vector<std::string> text;
    void make(const std::vector<MDoc> &ds, int layout, FrtTermVectorValue tv = FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS, FrtStoreValue st = FRT_STORE_YES) {
        FOpt o; o.tv = tv; o.store = st; X.sc.fields = {{"f", o}, {"g", o}}; X.make(ds, layout, (int)ds.size() / 2, 0);
        for (auto &d : ds) { std::string t; if (auto *f = d.get(F)) for (size_t i = 0; i < f->vals.size(); i++) t += (i ? " " : "") + f->vals[i]; text.push_back(t); }
    }
    const std::vector<Tok> &tk(int i) { static const std::vector<Tok> none; auto it = X.toks[i].find(F); return it == X.toks[i].end() ? none : it->second; }
};
static void add(std::vector<R> &r, int a, int b) { r.push_back({a, b}); }
// match ranges of a query tree in one document (slop 0)
static void ranges(const QNode &n, const std::vector<Tok> &t, std::vector<R> &r) {
    switch (n.t) {
    case Q_TERM: if (n.field == F) for (auto &k : t) if (k.t == n.text) add(r, k.pos, k.pos); break;
    case Q_MTERM: if (n.field == F) for (auto &k : t) for (auto &w : n.mterms) if (k.t == w.first) add(r, k.pos, k.pos); break;
    case Q_PHRASE: {
        if (n.field != F || n.phrase.empty()) break;
        int lo = INT_MAX, hi = INT_MIN; for (auto &p : n.phrase) { lo = std::min(lo, p.first); hi = std::max(hi, p.first); }
        int last = t.empty() ? -1 : t.back().pos;
        for (int s = 0; s <= last; s++) { bool all = true; for (auto &p : n.phrase) { bool one = false; for (auto &k : t) if (k.pos == s + p.first - lo) for (auto &w : p.second) one |= k.t == w; all &= one; } if (all) add(r, s, s + hi - lo); }
        break; }
    case Q_BOOL: for (auto &k : n.kids) if (k.first != MUST_NOT) ranges(k.second, t, r); break;
    default: break;
    }
}
static std::string rs(const std::vector<R> &v) { std::string s; for (auto &x : v) s += x.first == x.second ? fmt(" %d", x.first) : fmt(" %d-%d", x.first, x.second); return "{" + s + " }"; }
struct M { int a, b; long s, e; double n; };                               // merged match: positions, offsets, number of matches in it
static std::vector<M> merged(std::vector<R> r, const std::vector<Tok> &t) {
    std::vector<M> m; std::sort(r.begin(), r.end());
    std::map<int, const Tok *> at; for (auto &k : t) at[k.pos] = &k;
    for (auto &x : r) if (!m.empty() && x.first <= m.back().b) { m.back().b = std::max(m.back().b, x.second); m.back().n++; } else m.push_back({x.first, x.second, 0, 0, 1});
    for (auto &x : m) { x.s = at[x.a]->s; x.e = at[x.b]->e; }
    return m;
}
static std::vector<R> vec(FrtMatchVector *mv) { std::vector<R> r; for (int i = 0; i < mv->size; i++) r.push_back({mv->matches[i].start, mv->matches[i].end}); std::sort(r.begin(), r.end()); return r; }
static std::vector<R> match_vector(HL &h, FrtSearcher *s, FrtQuery *q, int doc) { FrtMatchVector *mv = frt_searcher_get_match_vector(s, q, doc, SYM(F)); auto r = vec(mv); frt_matchv_destroy(mv); (void)h; return r; }
static bool highlight(FrtSearcher *s, FrtQuery *q, int doc, int len, int num, const char *pre, const char *post, const char *ell, std::vector<std::string> &out) {
    out.clear(); char **x = frt_searcher_highlight(s, q, doc, SYM(F), len, num, pre, post, ell); if (!x) return false;
    for (int i = 0; i < frt_ary_size(x); i++) out.push_back(x[i]);
    frt_ary_destroy_i((void **)x, &free); return true;
}
static std::string tagged(const std::string &t, const std::vector<M> &m, const std::string &a, const std::string &b) { std::string r; long at = 0; for (auto &x : m) { r += t.substr(at, x.s - at) + a + t.substr(x.s, x.e - x.s) + b; at = x.e; } return r + t.substr(at); }
static void check_whole(Path &p, HL &h, FrtQuery *q, const std::string &name, int doc, const std::vector<R> &want) {
    auto got = match_vector(h, h.X.sea, q, doc); std::vector<R> w = want; std::sort(w.begin(), w.end());
    MC_CHECK(p, got == w, "%s in '%s' matches at %s, expected %s", name.c_str(), h.text[doc].c_str(), rs(got).c_str(), rs(w).c_str());
    auto m = merged(want, h.tk(doc)); std::vector<std::string> out;
    for (auto &tg : {std::pair<const char *, const char *>{"<b>", "</b>"}, {"[", ""}}) {
        bool ok = highlight(h.X.sea, q, doc, 1000, 1, tg.first, tg.second, "...", out), can = !h.tk(doc).empty();
        MC_CHECK(p, ok == can, "%s: highlighting '%s' gives %s", name.c_str(), h.text[doc].c_str(), ok ? "a result" : "nothing");
        if (!ok) return;
        MC_CHECK(p, out.size() == 1 && out[0] == tagged(h.text[doc], m, tg.first, tg.second), "%s: '%s' becomes '%s', expected '%s'", name.c_str(), h.text[doc].c_str(), out.empty() ? "(no excerpt)" : out[0].c_str(), tagged(h.text[doc], m, tg.first, tg.second).c_str());
    }
    p.step(2);
}
// --- excerpts
struct Ex { bool pre, post; std::string t; std::vector<std::pair<long, long>> tags; };      // text between the ellipses without tags; tags relative to it
static const char *PRE = "{", *POST = "}", *ELL = "~~";
static bool parse(std::string s, const std::string &ell, Ex &e) {
    e = {false, false, "", {}}; if (ell.size() && s == ell) { e.post = true; return true; }      // nothing of the start of the text fits
    if (ell.size()) { if (s.compare(0, ell.size(), ell) == 0) { e.pre = true; s = s.substr(ell.size()); } if (s.size() >= ell.size() && s.compare(s.size() - ell.size(), ell.size(), ell) == 0) { e.post = true; s.resize(s.size() - ell.size()); } }
    long open = -1;
    for (char c : s) { if (c == '{') { if (open >= 0) return false; open = (long)e.t.size(); } else if (c == '}') { if (open < 0) return false; e.tags.push_back({open, (long)e.t.size()}); open = -1; } else if (c == '~') return false; else e.t += c; }
    return open < 0;
}
static std::string joined(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += "'" + x + "' "; return s; }
static void check_excerpts(Path &p, HL &h, FrtQuery *q, const std::string &name, int doc, int len, int num, const std::vector<R> &want, const char *ell = ELL) {
    const std::string &t = h.text[doc]; const auto &tk = h.tk(doc); auto m = merged(want, tk); std::vector<std::string> out; long el = (long)strlen(ell);
    std::string what = fmt("%s in '%s', %d excerpts of %d", name.c_str(), t.c_str(), num, len);
    bool ok = highlight(h.X.sea, q, doc, len, num, PRE, POST, ell, out); p.step();
    if (tk.empty()) { MC_CHECK(p, !ok, "%s: a result for a field without words", what.c_str()); return; }
    if ((long)t.size() < (long)len * num) { MC_CHECK(p, ok && out.size() == 1 && out[0] == tagged(t, m, PRE, POST), "%s: %s, expected the whole field '%s'", what.c_str(), joined(out).c_str(), tagged(t, m, PRE, POST).c_str()); return; }
    if (m.empty()) { MC_CHECK(p, !ok, "%s: %s although nothing matches", what.c_str(), joined(out).c_str()); return; }
    MC_CHECK(p, ok && out.size() >= (num ? 1u : 0u) && (int)out.size() <= num, "%s: %zu excerpts", what.c_str(), out.size());
    if (!num) return;
    std::vector<Ex> ex; for (auto &o : out) { Ex e; MC_CHECK(p, parse(o, ell, e), "%s: malformed excerpt '%s'", what.c_str(), o.c_str()); ex.push_back(e); }
    long longest = 0; for (auto &x : m) longest = std::max(longest, x.e - x.s);
    double best = 0; for (size_t i = 0; i < m.size(); i++) if (m[i].e - m[i].s <= len) { double c = m[i].n; for (size_t j = i + 1; j < m.size() && m[j].e - m[i].s <= len; j++) c += m[j].n; best = std::max(best, c); }
    std::vector<long> pos(ex.size()); std::string why = "its excerpts are not parts of the text in order";
    auto good = [&] {
        double top = 0; std::set<long> shown; long total = 0;
        for (size_t i = 0; i < ex.size(); i++) { double c = 0; long s = pos[i], e = s + (long)ex[i].t.size(); for (auto &x : m) if (x.s >= s && x.e <= e) { c += x.n; shown.insert(x.s); } top = std::max(top, c); total += e - s; }
        if (longest <= len && total > (long)len * num + el) { why = fmt("%ld bytes in all", total); return false; }
        if (top < best) { why = fmt("at most %g matches in an excerpt although one could have %g", top, best); return false; }
        if (shown.size() < std::min(m.size(), (size_t)num)) { why = fmt("only %zu of %zu matches", shown.size(), m.size()); return false; }
        if (num == 1) {                                                     // as long as possible
            long s = pos[0], e = s + (long)ex[0].t.size(); const Tok *b = NULL, *a = NULL; for (auto &k : tk) { if (k.e <= s) b = &k; if (k.s >= e && !a) a = &k; }
            if (b && e - b->s < len) { why = "it could start earlier"; return false; }
            if (a && a->e - s < len) { why = "it could end later"; return false; }
        }
        return true;
    };
    // some placement of the excerpts in the text, in order and (unless a match is longer than an excerpt) disjoint, satisfies everything
    std::function<bool(size_t, long)> place = [&](size_t i, long from) {
        if (i == ex.size()) return good();
        for (long s = from; s + (long)ex[i].t.size() <= (long)t.size(); s++) {
            if (t.compare(s, ex[i].t.size(), ex[i].t)) continue;
            long e = s + (long)ex[i].t.size();
            if (el && (ex[i].pre != (s > 0) || ex[i].post != (e < (long)t.size()))) { why = "an ellipsis is missing or too many"; continue; }
            bool bs = s == 0, be = e == (long)t.size(); for (auto &k : tk) { bs |= k.s == s; be |= k.e == e; } if (!bs || (!be && ex[i].t.size())) { why = "an excerpt cuts a word"; continue; }
            std::vector<std::pair<long, long>> w; for (auto &x : m) if (x.s >= s && x.e <= e) w.push_back({x.s - s, x.e - s});
            if (w != ex[i].tags) { why = "the marked words are not the matched ones"; continue; }
            pos[i] = s; if (place(i + 1, longest <= len ? e : s)) return true;
        }
        return false;
    };
    MC_CHECK(p, place(0, 0), "%s: %s: %s", what.c_str(), joined(out).c_str(), why.c_str());
    p.state(fnv(joined(out)));
}
// --- query sets
struct NQ { std::string name; std::function<FrtQuery *()> make; std::function<void(const std::vector<Tok> &, std::vector<R> &)> want; };
static NQ of(const QNode &n) { return {show(n), [n] { return build(n); }, [n](const std::vector<Tok> &t, std::vector<R> &r) { ranges(n, t, r); }}; }
static NQ words(const std::string &name, std::function<FrtQuery *()> mk, std::function<bool(const std::string &)> is) { return {name, mk, [is](const std::vector<Tok> &t, std::vector<R> &r) { for (auto &k : t) if (is(k.t)) add(r, k.pos, k.pos); }}; }
static std::vector<NQ> queries() {
    std::vector<NQ> r; std::vector<QNode> base = {qterm(F, "a"), qterm(F, "b"), qterm(F, "none"), qterm("g", "a"), qmterm(F, {{"a", 1}, {"c", 2}}), qmterm(F, {{"none", 1}}), qmterm("g", {{"a", 1}}),
        qphrase(F, {{0, {"a"}}, {1, {"b"}}}), qphrase(F, {{0, {"a"}}, {1, {"a"}}}), qphrase(F, {{1, {"b"}}, {0, {"a"}}}), qphrase(F, {{0, {"a"}}, {2, {"b", "c"}}}), qphrase(F, {{0, {"a"}}, {1, {"b"}}, {2, {"a"}}}), qphrase(F, {{0, {"a", "b"}}, {1, {"b", "c"}}}),
        qphrase(F, {{0, {"a"}}, {1, {"none"}}}), qphrase(F, {{3, {"a"}}}), qphrase(F, {{2, {"a", "c"}}}), qphrase(F, {}), qphrase("g", {{0, {"a"}}, {1, {"b"}}}), qphrase(F, {{2, {"c"}}, {0, {"a"}}, {1, {"b"}}}), qphrase(F, {{5, {"a"}}, {4, {"b"}}})};
    for (auto &n : base) r.push_back(of(n));
    for (auto &x : {base[0], base[4], base[7], base[14], base[3]}) for (auto &y : {base[1], base[8], base[12], base[2]}) for (int o : {SHOULD, MUST, MUST_NOT}) for (int o2 : {SHOULD, MUST_NOT}) if (o != MUST_NOT || o2 != MUST_NOT) r.push_back(of(qbool({{o, x}, {o2, y}})));
    for (auto &x : {base[0], base[7]}) { r.push_back(of(qbool({{MUST, x}}))); r.push_back(of(qbool({{SHOULD, qbool({{MUST, x}, {SHOULD, base[1]}})}, {MUST, base[9]}}))); }
    FrtSymbol f = SYM(F);
    auto pre = words("prefix a", [f] { return frt_prefixq_new(f, "a"); }, [](const std::string &w) { return w[0] == 'a'; });
    r.push_back(pre);
    r.push_back(words("prefix", [f] { return frt_prefixq_new(f, ""); }, [](const std::string &) { return true; }));
    r.push_back(words("wild ?", [f] { return frt_wcq_new(f, "?"); }, [](const std::string &w) { return w.size() == 1; }));
    r.push_back(words("wild b*", [f] { return frt_wcq_new(f, "b*"); }, [](const std::string &w) { return w[0] == 'b'; }));
    r.push_back(words("wild none*", [f] { return frt_wcq_new(f, "none*"); }, [](const std::string &) { return false; }));
    for (int lo = 0; lo < 4; lo++) for (int hi = 0; hi < 4; hi++) for (int inc = 0; inc < 4; inc++) {
        std::string l = lo ? std::string(1, 'a' + lo - 1) : "", u = hi ? std::string(1, 'a' + hi - 1) : ""; if ((!lo && !hi) || (lo && hi && lo > hi) || (!lo && (inc & 1)) || (!hi && (inc & 2)) || (lo && lo == hi && inc != 3)) continue;
        auto in = [l, u, inc](const std::string &w) { return (l.empty() || (inc & 1 ? w >= l : w > l)) && (u.empty() || (inc & 2 ? w <= u : w < u)); };
        r.push_back(words(fmt("range %s,%s,%d", l.c_str(), u.c_str(), inc), [=] { return frt_rq_new(f, l.empty() ? NULL : l.c_str(), u.empty() ? NULL : u.c_str(), !!(inc & 1), !!(inc & 2)); }, in));
        r.push_back(words(fmt("typed range %s,%s,%d", l.c_str(), u.c_str(), inc), [=] { return frt_trq_new(f, l.empty() ? NULL : l.c_str(), u.empty() ? NULL : u.c_str(), !!(inc & 1), !!(inc & 2)); }, in));
    }
    // rewritten clauses inside a boolean query
    for (int o : {SHOULD, MUST, MUST_NOT}) { NQ y = of(base[1]); r.push_back({fmt("bool(b, %d prefix a)", o), [=] { FrtQuery *q = frt_bq_new(false); frt_bq_add_query_nr(q, y.make(), FRT_BC_SHOULD); frt_bq_add_query_nr(q, pre.make(), (FrtBCType)o); return q; }, [=](const std::vector<Tok> &t, std::vector<R> &v) { y.want(t, v); if (o != MUST_NOT) pre.want(t, v); }}); }
    return r;
}
static std::vector<std::string> texts(int len, const std::string &al) { std::vector<std::string> r = {""}, cur = {""}; for (int k = 1; k <= len; k++) { std::vector<std::string> nx; for (auto &s : cur) for (char c : al) nx.push_back(s + (s.size() ? " " : "") + c); r.insert(r.end(), nx.begin(), nx.end()); cur = nx; } return r; }
static void whole(Path &p) {
    static const auto Q = queries(); int layout = p.choose(3), part = p.choose(16); if (!p.mine()) return;
    p.note("[texts of up to %d words, layout %d] ", opt.thorough ? 6 : 5, layout);
    std::string e = guarded([&] { HL h; std::vector<MDoc> ds; for (auto &t : texts(opt.thorough ? 6 : 5, "abc")) ds.push_back(text_doc(t, "a b")); h.make(ds, layout);
        for (size_t i = part; i < Q.size(); i += 16) { FrtQuery *q = Q[i].make(); char *before = q->to_s(q, NULL); unsigned long hash = q->hash(q); for (int d = 0; d < h.X.n(); d++) { std::vector<R> w; Q[i].want(h.tk(d), w); check_whole(p, h, q, Q[i].name, d, w); }
            char *after = q->to_s(q, NULL); MC_CHECK(p, !strcmp(before, after) && hash == q->hash(q), "%s: highlighting changes the query to %s", before, after); free(before); free(after); frt_q_deref(q); p.eval(); p.state(fnv(Q[i].name)); } });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void typed(Path &p) {      // numeric ranges
    static const std::vector<std::string> W = {"1", "2", "10", "-3", "2.5", "x", "1x"}; int a = p.choose((int)W.size()), b = p.choose((int)W.size()), c = p.choose((int)W.size()); if (!p.mine()) return;
    p.note("[text '%s %s %s'] ", W[a].c_str(), W[b].c_str(), W[c].c_str());
    std::string e = guarded([&] { HL h; h.make({text_doc(W[a] + " " + W[b] + " " + W[c])}, 0); p.state(fnv(h.text[0]));
        auto num = [](const std::string &s, double &v) { char *x; v = strtod(s.c_str(), &x); return *x == 0; };
        for (double lo : {-5., 1., 2., 2.5, 1e9}) for (double hi : {-5., 1., 2., 2.5, 1e9}) for (int inc = 0; inc < 4; inc++) if ((lo < 1e9 || hi < 1e9) && lo <= hi + (hi == 1e9 ? 0 : 0) && !(lo == hi && inc != 3) && !(lo == 1e9 && (inc & 1)) && !(hi == 1e9 && (inc & 2))) {
            std::string l = lo == 1e9 ? "" : fmt("%g", lo), u = hi == 1e9 ? "" : fmt("%g", hi);
            FrtQuery *q = frt_trq_new(SYM(F), l.empty() ? NULL : l.c_str(), u.empty() ? NULL : u.c_str(), !!(inc & 1), !!(inc & 2)); std::vector<R> w;
            for (auto &k : h.tk(0)) { double v; if (num(k.t, v) && (l.empty() || (inc & 1 ? v >= lo : v > lo)) && (u.empty() || (inc & 2 ? v <= hi : v < hi))) add(w, k.pos, k.pos); }
            check_whole(p, h, q, fmt("typed range %s..%s %d", l.c_str(), u.c_str(), inc), 0, w); frt_q_deref(q); p.eval(); } });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void sloppy_phrases(Path &p) {
    static const std::vector<QNode> Q = [] { std::vector<QNode> r; for (int s : {1, 2, 4}) { for (int g : {1, 2, -1}) r.push_back(qphrase(F, {{0, {"a"}}, {g, {"b"}}}, s)); r.push_back(qphrase(F, {{0, {"a"}}, {1, {"b"}}, {2, {"c"}}}, s)); r.push_back(qphrase(F, {{0, {"a", "c"}}, {1, {"b"}}}, s)); r.push_back(qphrase(F, {{0, {"a"}}}, s)); r.push_back(qphrase(F, {{0, {"a"}}, {1, {"none"}}}, s)); r.push_back(qphrase(F, {}, s)); } return r; }();
    int qi = p.choose((int)Q.size()); if (!p.mine()) return; const QNode &n = Q[qi]; p.note("[%s] ", show(n).c_str());
    std::string e = guarded([&] { HL h; std::vector<MDoc> ds; for (auto &t : texts(opt.thorough ? 7 : 6, "abc")) ds.push_back(text_doc(t)); h.make(ds, 0); FrtQuery *q = build(n); p.state(fnv(show(n)));
        for (int d = 0; d < h.X.n(); d++) {
            std::set<R> ok; size_t k = n.phrase.size(); std::vector<int> c(k); const auto &t = h.tk(d);
            std::function<void(size_t)> go = [&](size_t i) {
                if (i == k) { int lo = INT_MAX, hi = INT_MIN, a = INT_MAX, b = INT_MIN; for (size_t j = 0; j < k; j++) { lo = std::min(lo, c[j] - n.phrase[j].first); hi = std::max(hi, c[j] - n.phrase[j].first); a = std::min(a, c[j]); b = std::max(b, c[j]); } if (hi - lo <= n.slop) ok.insert({a, b}); return; }
                for (auto &x : t) for (auto &w : n.phrase[i].second) if (x.t == w) { c[i] = x.pos; go(i + 1); }
            };
            if (k) go(0);
            auto got = match_vector(h, h.X.sea, q, d); p.step();
            for (auto &g : got) MC_CHECK(p, ok.count(g), "%s in '%s' matches at %s, which is no placement within the slop", show(n).c_str(), h.text[d].c_str(), rs({g}).c_str());
            MC_CHECK(p, got.empty() == ok.empty(), "%s in '%s' is not marked", show(n).c_str(), h.text[d].c_str());
            // the tags follow the match vector
            check_whole(p, h, q, show(n), d, got); check_excerpts(p, h, q, show(n), d, 3, 2, got);
        }
        frt_q_deref(q); p.eval(); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void sterms(const SN &n, std::set<std::string> &s, const std::vector<Tok> &t) { switch (n.t) { case S_T: case S_M: for (auto &w : n.w) s.insert(w); break; case S_P: for (auto &k : t) if (k.t.compare(0, n.w[0].size(), n.w[0]) == 0) s.insert(k.t); break; case S_X: case S_F: sterms(n.k[0], s, t); break; default: for (auto &k : n.k) sterms(k, s, t); } }
static std::vector<SN> span_queries() {
    std::vector<SN> leaf = {st("a"), st("b"), st("none")}, r = leaf;
    for (auto m : {sm({"a", "b"}), sm({"a", "none", "c"}), sm({"none"}), sp("a"), sp(""), sp("zz"), sf(st("a"), 2), sf(sm({"b", "a"}), 1)}) r.push_back(m);
    std::vector<SN> comp = {so({st("a"), st("b")}), sm({"a", "c"}), sf(st("a"), 2), sx(st("a"), sf(st("a"), 1)), sn({st("a"), st("b")}, 0, true), sn({st("a"), st("b")}, 1, false), sp("b"), sm({"none"}), sn({st("a"), sm({"b", "c"}), st("a")}, 2, false)};
    comp.insert(comp.end(), leaf.begin(), leaf.end());
    for (auto &x : comp) { r.push_back(x); r.push_back(sf(x, 3)); for (auto &y : comp) { r.push_back(so({x, y})); r.push_back(sx(x, y)); for (int s : {0, 2}) for (bool o : {false, true}) r.push_back(sn({x, y}, s, o)); } }
    return r;
}
static void spans(Path &p) {
    static const auto Q = span_queries(); int part = p.choose(32), layout = p.choose(2); if (!p.mine()) return;
    std::string e = guarded([&] { HL h; std::vector<MDoc> ds; for (auto &t : texts(opt.thorough ? 6 : 5, "abc")) ds.push_back(text_doc(t)); h.make(ds, layout ? 2 : 0);
        for (size_t i = part; i < Q.size(); i += 32) { auto sp = reported(p, h.X, Q[i]); FrtQuery *q = sbuild(Q[i]); std::string name = sshow(Q[i]); p.state(fnv(name));
            for (int d = 0; d < h.X.n(); d++) { std::set<std::string> tm; sterms(Q[i], tm, h.tk(d)); std::vector<R> w; for (auto &k : h.tk(d)) { bool in = false; for (auto &s : sp[d]) in |= k.pos >= s.first && k.pos < s.second; if (in && tm.count(k.t)) add(w, k.pos, k.pos); } check_whole(p, h, q, name, d, w); }
            frt_q_deref(q); p.eval(); } });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
// excerpts: every pattern of matched and other words, excerpt length and number
static void patterns(Path &p) {
    int n = opt.thorough ? 12 : 10, k = p.choose(n) + 1, hi = p.choose(4), filler = p.choose(3); if (k < 3 && hi) return; if (!p.mine()) return;
    p.note("[%d words, filler %d] ", k, filler); static const char *FL[] = {"x", "yyy", "wwwwwwww"};
    std::string e = guarded([&] { HL h; std::vector<MDoc> ds; int per = k < 3 ? 1 << k : 1 << (k - 2), base = k < 3 ? 0 : hi << (k - 2);
        for (int b = 0; b < per; b++) { std::string t; for (int i = 0; i < k; i++) t += std::string(i ? " " : "") + ((base + b) >> i & 1 ? "a" : filler == 2 && i % 2 ? "x" : FL[filler]); ds.push_back(text_doc(t)); }
        h.make(ds, 0); FrtQuery *q = build(qterm(F, "a")); static const int L[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 20};
        for (int d = 0; d < h.X.n(); d++) { std::vector<R> w; ranges(qterm(F, "a"), h.tk(d), w); for (int len : L) for (int num = 0; num <= 4; num++) { check_excerpts(p, h, q, "a", d, len, num, w); if (num == 2) check_excerpts(p, h, q, "a", d, len, num, w, ""); if (num == 1) check_excerpts(p, h, q, "a", d, len, num, w, "~"); } p.eval(); }
        frt_q_deref(q); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void long_matches(Path &p) {
    static const std::vector<QNode> Q = {qphrase(F, {{0, {"a"}}, {1, {"b"}}}), qphrase(F, {{0, {"a"}}, {2, {"a"}}}), qphrase(F, {{0, {"a"}}, {1, {"b"}}, {2, {"a"}}}), qbool({{SHOULD, qphrase(F, {{0, {"a"}}, {1, {"b"}}})}, {SHOULD, qterm(F, "a")}}), qbool({{SHOULD, qphrase(F, {{0, {"a"}}, {1, {"a"}}})}, {SHOULD, qterm(F, "b")}}), qmterm(F, {{"a", 1}, {"b", 1}})};
    int qi = p.choose((int)Q.size()), layout = p.choose(2), sp = p.choose(2); if (!p.mine()) return; const QNode &n = Q[qi]; p.note("[%s] ", show(n).c_str());
    std::string e = guarded([&] { HL h; std::vector<MDoc> ds; for (auto &t : texts(opt.thorough ? 7 : 6, "abx")) { std::string u; for (char c : t) u += c == 'x' ? "xxxx" : c == ' ' && sp ? "   " : std::string(1, c); ds.push_back(text_doc(sp ? "  " + u + "  " : u)); } h.make(ds, layout ? 2 : 0); FrtQuery *q = build(n);
        for (int d = 0; d < h.X.n(); d++) { std::vector<R> w; ranges(n, h.tk(d), w); for (int len : {0, 1, 3, 4, 6, 9, 14}) for (int num : {1, 2, 3}) check_excerpts(p, h, q, show(n), d, len, num, w); p.eval(); }
        frt_q_deref(q); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void values(Path &p) {    // several values, multi-byte words, words in the middle of white space
    static const std::vector<std::string> V = {"", "a", "b a", " a  b ", "a b a", "\xc3\xa9 a \xe2\x82\xac"}; int n = p.choose(4); std::vector<std::string> v; for (int i = 0; i < n; i++) v.push_back(V[p.choose((int)V.size())]); int lay = p.choose(2); if (!p.mine()) return;
    std::string key; for (auto &x : v) key += "'" + x + "' "; p.note("[values %s] ", key.c_str());
    std::string e = guarded([&] { MDoc d; d.f.push_back({F, v}); if (!n) d.f.clear(); HL h; h.make({text_doc("zz a"), d, text_doc("", "a")}, lay); p.state(fnv(key));
        for (auto &n : {qterm(F, "a"), qterm(F, "\xc3\xa9"), qphrase(F, {{0, {"a"}}, {1, {"b"}}}), qphrase(F, {{0, {"a"}}, {1, {"a"}}}), qbool({{SHOULD, qterm(F, "b")}, {SHOULD, qterm("g", "a")}})}) { FrtQuery *q = build(n); for (int i = 0; i < 3; i++) { std::vector<R> w; ranges(n, h.tk(i), w); check_whole(p, h, q, show(n), i, w); for (int len : {2, 5}) for (int num : {1, 2}) check_excerpts(p, h, q, show(n), i, len, num, w); } frt_q_deref(q); p.eval(); } });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void options(Path &p) {   // what the field keeps decides what can be shown; extreme sizes
    static const FrtTermVectorValue TV[] = {FRT_TERM_VECTOR_NO, FRT_TERM_VECTOR_YES, FRT_TERM_VECTOR_WITH_POSITIONS, FRT_TERM_VECTOR_WITH_OFFSETS, FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS};
    int tv = p.choose(5), st = p.choose(2); if (!p.mine()) return; p.note("[term vector %d stored %d] ", tv, st);
    std::string e = guarded([&] { HL h; h.make({text_doc("a b a"), text_doc("", "a"), text_doc("b")}, 0, TV[tv], st ? FRT_STORE_YES : FRT_STORE_NO); p.state(fnv(fmt("%d %d", tv, st)));
        for (auto &n : {qterm(F, "a"), qphrase(F, {{0, {"a"}}, {1, {"b"}}})}) { FrtQuery *q = build(n);
            for (int d = 0; d < 3; d++) { std::vector<R> w; if (TV[tv] & 2) ranges(n, h.tk(d), w); auto got = match_vector(h, h.X.sea, q, d); MC_CHECK(p, got == w, "%s: matches at %s, expected %s", show(n).c_str(), rs(got).c_str(), rs(w).c_str());
                std::vector<std::string> out; bool can = st && tv == 4 && h.tk(d).size();
                for (int len : {1000, INT_MAX, INT_MAX / 2}) for (int num : {1, 2, 3, 1000}) { bool ok = highlight(h.X.sea, q, d, len, num, "{", "}", "~~", out); MC_CHECK(p, ok == can, "%s: %s", show(n).c_str(), ok ? "a result" : "nothing"); if (ok) { auto m = merged(w, h.tk(d)); MC_CHECK(p, out.size() == 1 && out[0] == tagged(h.text[d], m, "{", "}"), "%s, %d excerpts of %d: %s", show(n).c_str(), num, len, joined(out).c_str()); } p.step(); }
                if (can) for (int num : {1, 5}) for (int len : {1, 2}) check_excerpts(p, h, q, show(n), d, len, num, w);
            }
            frt_q_deref(q); p.eval(); } });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void multi(Path &p) {     // through a multi-searcher
    static const std::vector<std::string> T = {"a", "b a", "c", "a b a"}; int i = p.choose(4), j = p.choose(4), k = p.choose(4); if (!p.mine()) return; p.note("['%s' | '%s' '%s'] ", T[i].c_str(), T[j].c_str(), T[k].c_str());
    std::string e = guarded([&] { HL a, b; a.make({text_doc(T[i])}, 0); b.make({text_doc(T[j]), text_doc(T[k])}, 0); FrtSearcher **ss = (FrtSearcher **)malloc(2 * sizeof *ss); ss[0] = a.X.sea; ss[1] = b.X.sea; FrtSearcher *ms = frt_msea_new(ss, 2, false); p.state(fnv(T[i] + T[j] + T[k]));
        for (auto &n : queries()) { FrtQuery *q = n.make(); for (int d = 0; d < 3; d++) { HL &h = d ? b : a; int l = d ? d - 1 : 0; std::vector<R> w; n.want(h.tk(l), w); auto got = match_vector(h, ms, q, d); std::sort(w.begin(), w.end()); MC_CHECK(p, got == w, "%s in '%s' matches at %s, expected %s", n.name.c_str(), h.text[l].c_str(), rs(got).c_str(), rs(w).c_str());
            std::vector<std::string> out; bool ok = highlight(ms, q, d, 100, 1, "{", "}", "~~", out); MC_CHECK(p, ok && out.size() == 1 && out[0] == tagged(h.text[l], merged(w, h.tk(l)), "{", "}"), "%s: %s", n.name.c_str(), joined(out).c_str()); p.step(); } frt_q_deref(q); p.eval(); }
        ms->close(ms); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
int main(int argc, char **argv) {
    Meta m; m.rule = "a violation is a highlighted field whose text, without the tags and ellipses, is not the field's text (or, for excerpts, ordered pieces of it cut at words), or whose marked ranges are not exactly the words the query matches there";
    return run(argc, argv, m, {
        {"whole-field", "every text of up to 5 (6) words over {a b c}, about 180 queries (terms, multi-terms, exact phrases with gaps and alternatives, booleans, prefixes, wildcards, string and typed ranges, rewritten clauses in booleans), one segment, two segments and a multi-reader: match vector and highlighted text against a token model; the query is unchanged", whole, 300, false},
        {"typed-ranges", "every text of 3 words over 7 numbers and non-numbers and all typed ranges over 4 bounds and open ends", typed, 300, false},
        {"sloppy", "every text of up to 6 (7) words over {a b c}, 24 sloppy phrases: marked ranges are placements within the slop, some are marked whenever one exists, tags and excerpts follow them", sloppy_phrases, 300, false},
        {"spans", "every text of up to 5 (6) words over {a b c}, about 900 span queries: the query's words inside its spans are marked, no others", spans, 300, false},
        {"excerpts", "every pattern of matched and other words (three kinds of filler) of up to 10 (12) words, 12 excerpt lengths, 0 to 4 excerpts, three ellipses: pieces, marks, order, sizes, best window, number of matches shown, maximal extent", patterns, 300, false},
        {"long-matches", "every text of up to 6 (7) words over {a b x}, 6 queries with matches of several words, 7 excerpt lengths shorter and longer than a match, 1 to 3 excerpts", long_matches, 300, false},
        {"values", "up to 3 values from 6 (empty, padded, multi-byte), two layouts, 5 queries, whole fields and excerpts", values, 300, false},
        {"options", "every term vector and storage option, missing fields, excerpt lengths up to the largest integer", options, 300, false},
        {"multi-searcher", "three documents over 4 texts in two searchers, the same queries through a multi-searcher", multi, 300, false},
    });
}
