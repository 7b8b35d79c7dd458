// C16: multi-term queries (prefix, wildcard, fuzzy, ranges, term lists) match exactly the documents holding a qualifying term.
#include "query_model.hpp"
using namespace mc;
typedef std::function<bool(const std::string &)> Pred;
static std::vector<int> found(QIndex &X, FrtQuery *q, FrtFilter *f = NULL) { std::vector<std::pair<int, float>> each; X.sea->search_each(X.sea, q, f, NULL, collect_fn, &each); std::vector<int> r; for (auto &e : each) r.push_back(e.first); return r; }
static std::vector<int> expect(QIndex &X, const Pred &ok, const char *field = "f") { std::vector<int> r; for (int i = 0; i < X.n(); i++) if (!X.del[i]) { bool m = false; auto it = X.toks[i].find(field); if (it != X.toks[i].end()) for (auto &t : it->second) m |= ok(t.t); if (m) r.push_back(i); } return r; }
static void diff(Path &p, QIndex &X, const std::string &what, const std::vector<int> &got, const std::vector<int> &want) {
    p.step(); p.eval();
    if (got == want) return;
    for (int i = 0; i < X.n(); i++) { bool g = std::binary_search(got.begin(), got.end(), i), w = std::binary_search(want.begin(), want.end(), i); if (g != w) { std::string t; for (auto &f : X.docs[i].f) t += f.name + "='" + f.vals[0] + "' "; p.fail("%s %s document %d (%s%s)", what.c_str(), g ? "matches" : "does not match", i, t.c_str(), X.del[i] ? ", deleted" : ""); } }
    p.fail("%s: wrong documents %s, expected %s", what.c_str(), ints(got).c_str(), ints(want).c_str());
}
static std::vector<std::string> words(const std::string &alpha, int maxlen, int minlen = 1) { std::vector<std::string> r, cur = {""}; if (!minlen) r.push_back(""); for (int k = 1; k <= maxlen; k++) { std::vector<std::string> nx; for (auto &s : cur) for (char c : alpha) nx.push_back(s + c); if (k >= minlen) r.insert(r.end(), nx.begin(), nx.end()); cur = nx; } return r; }
// one document per word, then documents with pairs of words; every 5th document has no f
static std::vector<MDoc> word_docs(const std::vector<std::string> &ws, int order) {
    std::vector<MDoc> ds; size_t n = ws.size();
    for (size_t i = 0; i < n; i++) { size_t k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7 + 3) % n; ds.push_back(i % 5 == 4 ? text_doc("", ws[k]) : text_doc(ws[k])); }
    for (size_t i = 0; i < n; i += 2) ds.push_back(text_doc(ws[i] + " " + ws[(i * 5 + 2) % n] + " " + ws[i]));
    return ds;
}
static void with_index(Path &p, const std::vector<std::string> &ws, const std::function<void(QIndex &)> &f) {
    int layout = p.choose(3), order = p.choose(opt.thorough ? 3 : 2), del = p.choose(2); order = order ? 3 - order : 0; if (!p.mine()) return;
    p.note("[%zu words, layout %d, order %d%s] ", ws.size(), layout, order, del ? ", deletions" : "");
    std::string e = guarded([&] { auto ds = word_docs(ws, order); QIndex X; X.make(ds, layout, (int)ds.size() / 2, del ? 0x12491 : 0); p.state(fnv(fmt("%d %d %d", layout, order, del))); f(X); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static bool wild(const char *p, const char *t) { if (*p == '*') { for (;; t++) { if (wild(p + 1, t)) return true; if (!*t) return false; } } if (!*t) return !*p; if (*p != '?' && *p != *t) return false; return *p && wild(p + 1, t + 1); }
static void patterns(Path &p) {
    auto ws = words("ab", 4); for (auto s : {"ababa", "babb", "c", "ca", "bc", "zz"}) ws.push_back(s);
    with_index(p, ws, [&](QIndex &X) {
        for (auto &w : words("abc", 3, 0)) {
            FrtQuery *q = frt_prefixq_new(SYM("f"), w.c_str()); diff(p, X, "prefix " + w, found(X, q), expect(X, [&](const std::string &t) { return t.compare(0, w.size(), w) == 0; })); frt_q_deref(q);
        }
        for (auto &w : words("ab*?", opt.thorough ? 7 : 6)) {
            FrtQuery *q = frt_wcq_new(SYM("f"), w.c_str()); diff(p, X, "wildcard " + w, found(X, q), expect(X, [&](const std::string &t) { return wild(w.c_str(), t.c_str()); })); frt_q_deref(q);
        }
        for (auto w : {"c*", "?c", "zz*", "zzz*", "z?", "??z", "*z*", "c?a"}) { FrtQuery *q = frt_wcq_new(SYM("g"), w); diff(p, X, std::string("wildcard g:") + w, found(X, q), expect(X, [&](const std::string &t) { return wild(w, t.c_str()); }, "g")); frt_q_deref(q); q = frt_wcq_new(SYM("nofield"), w); diff(p, X, std::string("wildcard nofield:") + w, found(X, q), {}); frt_q_deref(q); }
        for (auto w : {"", "a"}) { FrtQuery *q = frt_prefixq_new(SYM("nofield"), w); diff(p, X, std::string("prefix nofield:") + w, found(X, q), {}); frt_q_deref(q); }
    });
}
static int edit(const std::string &a, const std::string &b) { std::vector<int> d(b.size() + 1); for (size_t j = 0; j <= b.size(); j++) d[j] = (int)j; for (size_t i = 1; i <= a.size(); i++) { int prev = d[0]; d[0] = (int)i; for (size_t j = 1; j <= b.size(); j++) { int c = std::min({d[j] + 1, d[j - 1] + 1, prev + (a[i - 1] != b[j - 1])}); prev = d[j]; d[j] = c; } } return d[b.size()]; }
static void fuzzy(Path &p) {
    auto ws = words("ab", 5); for (auto s : {"ababab", "abcab", "c", "cc", "acab", "babbbb", "aaaaaaaa"}) ws.push_back(s);
    with_index(p, ws, [&](QIndex &X) {
        auto qs = words("ab", opt.thorough ? 6 : 5); for (auto s : {"abcab", "c", "aaaaaa", "ccab"}) qs.push_back(s);
        for (auto &w : qs) for (float sim : {0.0f, 0.25f, 0.6f, 0.75f}) for (int pre = 0; pre <= 3; pre++) {
            FrtQuery *q = frt_fuzq_new_conf(SYM("f"), w.c_str(), sim, pre, 0); float ms = sim ? sim : 0.5f;
            diff(p, X, fmt("fuzzy %s~%g prefix %d", w.c_str(), ms, pre), found(X, q), expect(X, [&](const std::string &t) {
                if (pre >= (int)w.size()) return t == w;
                if (t.compare(0, pre, w, 0, pre) != 0) return false;
                size_t sh = std::min(t.size(), w.size()); return 1.0f - (float)edit(w.substr(pre), t.substr(pre)) / (float)sh > ms; }));
            frt_q_deref(q);
        }
        FrtQuery *q = frt_fuzq_new(SYM("nofield"), "ab"); diff(p, X, "fuzzy nofield:ab", found(X, q), {}); frt_q_deref(q);
    });
}
// words around and beyond the length for which distances are tabulated
static void long_words(Path &p) {
    int len = 14 + p.choose(opt.thorough ? 40 : 24), layout = p.choose(2); if (!p.mine()) return; p.note("[words of about %d letters, layout %d] ", len, layout);
    std::string e = guarded([&] {
        std::string w; for (int i = 0; i < len; i++) w += (char)('a' + i * i % 7); std::vector<std::string> ts;
        for (int k = 0; k <= len; k++) { std::string t = w; for (int i = 0; i < k; i++) t[(i * 5) % len] = 'x'; ts.push_back(t); ts.push_back(w.substr(0, len - k) + (k == len ? "q" : "")); ts.push_back(w + std::string(k, 'y')); ts.push_back(w.substr(0, k) + std::string(3, 'z') + w.substr(k)); }
        std::vector<MDoc> ds; for (auto &t : ts) ds.push_back(text_doc(t)); QIndex X; X.make(ds, layout, (int)ds.size() / 2, 0);
        for (float sim : {0.101f, 0.303f, 0.497f, 0.6211f, 0.8017f, 0.9341f}) for (int pre : {0, 1, 5, len - 1}) {
            FrtQuery *q = frt_fuzq_new_conf(SYM("f"), w.c_str(), sim, pre, 100000);
            diff(p, X, fmt("fuzzy %s~%g prefix %d", w.c_str(), sim, pre), found(X, q), expect(X, [&](const std::string &t) { if (t.compare(0, pre, w, 0, pre) != 0) return false; return 1.0f - (float)edit(w.substr(pre), t.substr(pre)) / (float)std::min(t.size(), w.size()) > sim; }));
            frt_q_deref(q);
        }
        p.state(fnv(fmt("%d %d", len, layout)));
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void ranges(Path &p) {
    auto ws = words("ab", 3); for (auto s : {"c", "ca", "B", "A1", "~"}) ws.push_back(s);
    with_index(p, ws, [&](QIndex &X) {
        auto bs = words("abc", 2); for (auto s : {"aba", "", "B", "zz", "\x7f", "abb"}) bs.push_back(s);
        FrtQuery *all = frt_maq_new();
        for (int l = -1; l < (int)bs.size(); l++) for (int u = -1; u < (int)bs.size(); u++) {
            if (l < 0 && u < 0) continue;
            const char *lo = l < 0 ? NULL : bs[l].c_str(), *up = u < 0 ? NULL : bs[u].c_str();
            for (int inc = 0; inc < 4; inc++) {
                bool il = inc & 1, iu = inc & 2; FrtQuery *q = NULL; std::string what = fmt("range %c%s, %s%c", il ? '[' : '{', lo ? lo : "-", up ? up : "-", iu ? ']' : '}');
                bool bad = (il && !lo) || (iu && !up) || (lo && up && strcmp(up, lo) < 0);
                std::string er = guarded([&] { q = frt_rq_new(SYM("f"), lo, up, il, iu); });
                MC_CHECK(p, er.empty() != bad, "%s is %s", what.c_str(), er.empty() ? "accepted" : er.c_str()); p.step();
                if (!q) continue;
                auto want = expect(X, [&](const std::string &t) { return (!lo || (il ? t >= lo : t > lo)) && (!up || (iu ? t <= up : t < up)); });
                diff(p, X, what, found(X, q), want); frt_q_deref(q);
                if ((l + u) % 3 == 0) { FrtFilter *f = frt_rfilt_new(SYM("f"), lo, up, il, iu); diff(p, X, "filter of " + what, found(X, all, f), want); frt_filt_deref(f); }
            }
        }
        frt_q_deref(all);
        FrtQuery *q = frt_rq_new(SYM("nofield"), "a", NULL, true, false); diff(p, X, "range nofield", found(X, q), {}); frt_q_deref(q);
    });
}
static bool number(const std::string &s, double *v) { int len = -1; return s.size() && sscanf(s.c_str(), "%lg%n", v, &len) == 1 && len == (int)s.size(); }
static void typed(Path &p) {
    std::vector<std::string> ws = {"-10", "-2", "-1.5", "-0.5", "0", "00", "0.5", ".5", "1", "1.0", "1e1", "10", "+3", "+10.5", "2", "9", "100", "-", "--", "+x", ".", "..", "+.", "1x", "5", "5.", "-x", "/", "/5", "abc", "x1", ",", ",,", "7a", "12", "0012", "-3", "+", "++"};
    with_index(p, ws, [&](QIndex &X) {
        std::vector<std::string> bs = {"-11", "-2", "-1.5", "0", "0.5", "1", "2", "5", "9.5", "10", "12", "99", "1e2", "a", "7x", "-", "+3"}; FrtQuery *all = frt_maq_new();
        for (int l = -1; l < (int)bs.size(); l++) for (int u = -1; u < (int)bs.size(); u++) {
            if (l < 0 && u < 0) continue;
            const char *lo = l < 0 ? NULL : bs[l].c_str(), *up = u < 0 ? NULL : bs[u].c_str(); double ln = 0, un = 0; bool num = (!lo || number(lo, &ln)) && (!up || number(up, &un));
            for (int inc = 0; inc < 4; inc++) {
                bool il = inc & 1, iu = inc & 2; FrtQuery *q = NULL; std::string what = fmt("typed range %c%s, %s%c", il ? '[' : '{', lo ? lo : "-", up ? up : "-", iu ? ']' : '}');
                bool bad = (il && !lo) || (iu && !up) || (lo && up && (num ? un < ln : strcmp(up, lo) < 0));
                std::string er = guarded([&] { q = frt_trq_new(SYM("f"), lo, up, il, iu); });
                MC_CHECK(p, er.empty() != bad, "%s is %s", what.c_str(), er.empty() ? "accepted" : er.c_str()); p.step();
                if (!q) continue;
                auto want = expect(X, [&](const std::string &t) {
                    if (!num) return (!lo || (il ? t >= lo : t > lo)) && (!up || (iu ? t <= up : t < up));
                    double v; if (!number(t, &v)) return false; return (!lo || (il ? v >= ln : v > ln)) && (!up || (iu ? v <= un : v < un)); });
                diff(p, X, what, found(X, q), want); frt_q_deref(q);
                if ((l + u) % 3 == 0) { FrtFilter *f = frt_trfilt_new(SYM("f"), lo, up, il, iu); diff(p, X, "filter of " + what, found(X, all, f), want); frt_filt_deref(f); }
            }
        }
        frt_q_deref(all);
    });
}
// lists of terms: every sequence of terms with boosts, limited to the best
static void lists(Path &p) {
    std::vector<std::string> ws = {"a", "aa", "ab", "b", "ba", "c"};
    with_index(p, ws, [&](QIndex &X) {
        std::vector<std::string> ts = {"a", "ab", "b", "c", "none", ""}; float B[] = {1, 2, 3, 0.5f}; int n = (int)ts.size(), perm[3];
        for (int max : {1, 2, 10}) for (int code = 0; code < n * n * n; code++) {
            perm[0] = code % n; perm[1] = code / n % n; perm[2] = code / n / n;
            for (int bo = 0; bo < 3; bo++) for (float mn : {0.0f, 1.0f}) {
                FrtQuery *q = frt_multi_tq_new_conf(SYM("f"), max, mn); std::vector<std::pair<float, std::string>> keep; std::string what = fmt("terms (max %d, min %g)", max, mn);
                for (int i = 0; i < 3; i++) { float b = B[(i + bo) % 3 + (bo == 2)]; const std::string &t = ts[perm[i]]; frt_multi_tq_add_term_boost(q, t.c_str(), b); what += fmt(" %s^%g", t.c_str(), b); if (b > mn && t.size()) keep.push_back({-b, t}); }
                std::sort(keep.begin(), keep.end()); if ((int)keep.size() > max) keep.resize(max);
                diff(p, X, what, found(X, q), expect(X, [&](const std::string &t) { for (auto &k : keep) if (k.second == t) return true; return false; })); frt_q_deref(q);
            }
        }
    });
}
// the same query object used on three indexes
static void reuse(Path &p) {
    int k = p.choose(8), first = p.choose(3); if (!p.mine()) return;
    auto mk = [&]() -> FrtQuery * { switch (k) { case 0: return frt_prefixq_new(SYM("f"), "ab"); case 1: return frt_wcq_new(SYM("f"), "a*b"); case 2: return frt_fuzq_new_conf(SYM("f"), "abb", 0.5f, 1, 0); case 3: return frt_rq_new(SYM("f"), "ab", "b", true, false); case 4: return frt_trq_new(SYM("f"), "1", "20", true, true); case 5: return frt_csq_new_nr(frt_rfilt_new(SYM("f"), "ab", "b", true, false)); case 6: return frt_fq_new(frt_prefixq_new(SYM("f"), "a"), frt_trfilt_new(SYM("f"), "1", NULL, false, false)); default: { FrtQuery *b = frt_bq_new(false); frt_bq_add_query_nr(b, frt_wcq_new(SYM("f"), "?b*"), FRT_BC_MUST); frt_bq_add_query_nr(b, frt_prefixq_new(SYM("f"), "b"), FRT_BC_MUST_NOT); frt_bq_add_query_nr(b, frt_fuzq_new(SYM("f"), "abbb"), FRT_BC_SHOULD); return b; } } };
    p.note("[query %d, index %d first] ", k, first);
    std::string e = guarded([&] {
        std::vector<std::vector<std::string>> sets = {{"a", "ab", "b", "3", "abb 7"}, {"abb ab", "bab", "acb", "b ab", "100", "19 a"}, {"abba 2", "1", "20 b", "abab", "cb", "bb abb"}};
        FrtQuery *q = mk();
        for (int r = 0; r < 4; r++) {
            std::vector<MDoc> ds; for (auto &t : sets[(first + r) % 3]) ds.push_back(text_doc(t)); QIndex X; X.make(ds, r % 2, 2, 0); FrtQuery *fresh = mk();
            diff(p, X, fmt("search %d with the same query object", r + 1), found(X, q), found(X, fresh)); frt_q_deref(fresh);
        }
        frt_q_deref(q); p.state(fnv(fmt("%d %d", k, first)));
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
// many terms, long words, long patterns
static void limits(Path &p) {
    int k = p.choose(4); if (!p.mine()) return; p.note("[limits %d] ", k);
    std::string e = guarded([&] {
        if (k == 0) {
            std::vector<MDoc> ds; for (int i = 0; i < 600; i++) ds.push_back(text_doc(fmt("p%03d", i))); QIndex X; X.make(ds, 1, 300, 0);
            FrtQuery *q = frt_prefixq_new(SYM("f"), "p"); auto g = found(X, q); MC_CHECK(p, (int)g.size() == FRT_PREFIX_QUERY_MAX_TERMS, "prefix of 600 terms: %zu hits", g.size()); frt_q_deref(q);
            q = frt_wcq_new(SYM("f"), "p?*"); g = found(X, q); MC_CHECK(p, (int)g.size() == FRT_WILD_CARD_QUERY_MAX_TERMS, "wildcard of 600 terms: %zu hits", g.size()); frt_q_deref(q);
            q = frt_fuzq_new_conf(SYM("f"), "p100", 0.4f, 0, 8); g = found(X, q); MC_CHECK(p, g.size() == 8 && std::binary_search(g.begin(), g.end(), 100), "the 8 terms most similar to p100: %s", ints(g).c_str()); for (int d : g) MC_CHECK(p, edit(fmt("p%03d", d), "p100") <= 1, "the 8 terms most similar to p100 include p%03d", d); frt_q_deref(q);
            q = frt_rq_new(SYM("f"), "p100", "p500", true, false); g = found(X, q); MC_CHECK(p, g.size() == 400, "range of 400 terms: %zu hits", g.size()); frt_q_deref(q);
        } else {
            std::string L(k == 1 ? 200 : k == 2 ? 250 : 600, 'x'); QIndex X; X.make({text_doc(L.substr(0, 200)), text_doc("x"), text_doc(L.substr(0, 199) + "y")}, 0, 0, 0);
            for (auto suf : {"*", "?", "?*", "y*", ""}) { std::string w = L + suf; FrtQuery *q = frt_wcq_new(SYM("f"), w.c_str()); diff(p, X, fmt("a wildcard pattern of %zu letters and %s", L.size(), suf), found(X, q), expect(X, [&](const std::string &t) { return wild(w.c_str(), t.c_str()); })); frt_q_deref(q); }
            for (auto w : {L, L.substr(0, 199), L + "y"}) { FrtQuery *q = frt_prefixq_new(SYM("f"), w.c_str()); diff(p, X, fmt("a prefix of %zu letters", w.size()), found(X, q), expect(X, [&](const std::string &t) { return t.compare(0, w.size(), w) == 0; })); frt_q_deref(q);
                q = frt_fuzq_new(SYM("f"), w.c_str()); diff(p, X, fmt("a fuzzy term of %zu letters", w.size()), found(X, q), expect(X, [&](const std::string &t) { return 1.0f - (float)edit(w, t) / (float)std::min(t.size(), w.size()) > 0.5f; })); frt_q_deref(q);
                q = frt_rq_new(SYM("f"), w.c_str(), NULL, true, false); diff(p, X, fmt("a range from %zu letters", w.size()), found(X, q), expect(X, [&](const std::string &t) { return t >= w; })); frt_q_deref(q); }
        }
        p.state(k); p.eval();
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = index (corpus, segment layout, document order, deletions); transition = one query or filter evaluated; its documents compared with the qualifying terms found by brute force over the documents";
    return run(argc, argv, m, {
        {"patterns", "every prefix of up to 3 letters over {a,b,c} and every wildcard pattern of up to 6 characters over {a,b,*,?} against all words of up to 4 letters and more x 3 layouts x 2 orders x deletions", patterns, 60},
        {"fuzzy", "every word of up to 5 letters over {a,b} as fuzzy term x 4 similarities x prefix length 0..3 against all such words x 3 layouts x 2 orders x deletions", fuzzy, 60},
        {"long_words", "words of 14..37 (thorough 53) letters against every number of substitutions, deletions and additions x 6 similarities x 4 prefix lengths x 2 layouts", long_words, 60},
        {"ranges", "every pair of 18 bounds (or none) x inclusive or not against all words of up to 3 letters x 3 layouts x 2 orders x deletions; invalid ranges refused", ranges, 60},
        {"typed", "every pair of 17 numeric and other bounds (or none) x inclusive or not against 39 numbers and almost-numbers x 3 layouts x 2 orders x deletions", typed, 60},
        {"lists", "every sequence of 3 terms of 6 with boosts x limit x minimum boost x 3 layouts x 2 orders x deletions", lists, 60},
        {"reuse", "8 query kinds, one query object on three different indexes in every rotation", reuse, 30},
        {"limits", "term limits, words and patterns longer than the longest word", limits, 60},
    });
}
