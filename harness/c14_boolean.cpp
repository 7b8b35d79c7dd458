// C14: boolean retrieval returns exactly the documents that satisfy the query.
#include "query_model.hpp"
using namespace mc;
static void check_query(Path &p, QIndex &X, const QNode &n, bool deep) {
    FrtQuery *q = build(n); std::vector<int> want = X.expect(n); int N = X.n();
    auto ctx = [&] { return show(n); };
    for (int round = 0; round < (deep ? 2 : 1); round++) {
        FrtTopDocs *td = X.sea->search(X.sea, q, 0, N + 1, NULL, NULL, NULL, 0);
        std::vector<int> got = hits_of(td); int total = td->total_hits; frt_td_destroy(td); std::sort(got.begin(), got.end());
        MC_CHECK(p, got == want && total == (int)want.size(), "search %s (round %d): %s (total %d), expected %s", ctx().c_str(), round, ints(got).c_str(), total, ints(want).c_str());
        std::vector<std::pair<int, float>> each; X.sea->search_each(X.sea, q, NULL, NULL, collect_fn, &each);
        std::vector<int> ge; for (auto &e : each) ge.push_back(e.first);
        MC_CHECK(p, ge == want, "search_each %s (round %d): %s, expected %s", ctx().c_str(), round, ints(ge).c_str(), ints(want).c_str());
        if (round) break;
        std::vector<int> buf(N + 2);
        for (int off = 0; off <= N; off += N > 20 ? 16 : N > 4 ? 2 : 1) for (int lim : {1, N + 1}) {
            if (lim == 1 && off && !deep) continue;
            int c = X.sea->search_unscored(X.sea, q, buf.data(), lim, off); std::vector<int> gu(buf.begin(), buf.begin() + c), wu;
            for (int d : want) if (d >= off && (int)wu.size() < lim) wu.push_back(d);
            MC_CHECK(p, gu == wu, "search_unscored %s from %d limit %d: %s, expected %s", ctx().c_str(), off, lim, ints(gu).c_str(), ints(wu).c_str());
        }
        p.step(3 * N + 5);
    }
    if (deep) {      // every strictly advancing sequence of next and skip_to on the scorer
        std::function<void(std::vector<int> &, int)> go = [&](std::vector<int> &seq, int cur) {
            FrtWeight *w = frt_q_weight(q, X.sea); FrtScorer *s = w->scorer(w, X.ir);
            if (!s) { MC_CHECK(p, want.empty(), "%s has no scorer, expected %s", ctx().c_str(), ints(want).c_str()); w->destroy(w); return; }
            bool more = true; int at = -1; std::string what = ctx();
            for (int t : seq) {
                if (t < 0) what += " next"; else what += fmt(" skip_to(%d)", t);
                int wdoc = INT_MAX; for (int d : want) if (d > at && d >= t) { wdoc = d; break; }
                more = t < 0 ? s->next(s) : s->skip_to(s, t);
                if (wdoc == INT_MAX) { MC_CHECK(p, !more, "%s: doc %d, expected the end", what.c_str(), s->doc); break; }
                MC_CHECK(p, more, "%s: the end, expected doc %d", what.c_str(), wdoc);
                MC_CHECK(p, s->doc == wdoc, "%s: doc %d, expected %d", what.c_str(), s->doc, wdoc);
                at = wdoc;
                if (t % 2) s->score(s);
            }
            s->destroy(s); w->destroy(w); p.step();
            if (!more || (int)seq.size() >= 3) return;
            seq.push_back(-1); go(seq, at); seq.pop_back();
            for (int t = at + 1; t <= N; t++) { if (seq.size() >= 2 && t != at + 1 && t != N - 1) continue; seq.push_back(t); go(seq, at); seq.pop_back(); }
        };
        std::vector<int> seq; go(seq, -1);
    }
    frt_q_deref(q); p.eval();
}
static std::string subset(int m) { std::string s; for (int i = 0; i < 3; i++) if (m >> i & 1) s += std::string(s.size() ? " " : "") + (char)('a' + i); return s; }
static MDoc sub_doc(int m) { return text_doc(subset(m), m & 1 ? "z" : ""); }
static std::vector<QNode> flat(const std::vector<QNode> &leaves, int maxc) {
    std::vector<QNode> r, cur = {qbool({})};
    for (int k = 1; k <= maxc; k++) {
        std::vector<QNode> nx;
        for (auto &b : cur) for (auto &l : leaves) for (int o = 0; o < 3; o++) { QNode x = b; x.kids.push_back({o, l}); nx.push_back(x); }
        r.insert(r.end(), nx.begin(), nx.end()); cur = nx;
    }
    return r;
}
static const std::vector<QNode> &abc() { static std::vector<QNode> v = {qterm("f", "a"), qterm("f", "b"), qterm("f", "c")}; return v; }
static std::vector<QNode> rich() { auto v = abc(); v.push_back(qterm("f", "none")); v.push_back(qterm("nofield", "a")); v.push_back(qall()); v.push_back(qcsq(qterm("f", "a"))); v.push_back(qphrase("f", {{0, {"a"}}, {1, {"b"}}})); v.push_back(qphrase("nofield", {{0, {"a"}}, {1, {"b"}}})); v.push_back(qmterm("f", {{"a", 1}, {"c", 1}})); v.push_back(qmterm("f", {{"none", 1}})); return v; }
static void small(Path &p) {
    static const auto QS = flat(abc(), 3);
    int nd = opt.thorough ? 4 : 3, m[4]; std::vector<MDoc> ds; for (int i = 0; i < nd; i++) { m[i] = p.choose(8); ds.push_back(sub_doc(m[i])); }
    int del = p.choose(3), layout = p.choose(2);
    if (!opt.thorough && del && (layout || del > 1)) { p.prune(); return; }
    if (!p.mine()) return;
    p.note("[docs"); for (int i = 0; i < nd; i++) p.note(" '%s'", subset(m[i]).c_str()); p.note(", deleted %d, layout %d] ", del ? del - 1 : -1, layout);
    std::string e = guarded([&] {
        QIndex X; X.make(ds, layout, 1, del ? 1u << (del - 1) : 0); p.state(fnv(fmt("%d %d %d %d %d %d", m[0], m[1], m[2], nd > 3 ? m[3] : 0, del, layout)));
        for (auto &n : QS) check_query(p, X, n, false);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static const int CORPUS[][8] = {{7, 3, 5, 6, 1, 2, 4, 0}, {0, 1, 7, 2, 3, 0, 6, 7}, {4, 4, 2, 6, 7, 5, 1, 7}, {1, 2, 1, 2, 3, 4, 0, 3}, {3, 0, 0, 0, 0, 0, 0, 5}, {0, 0, 7, 7, 0, 5, 2, 0}};
static void corpus(Path &p, int size, const std::function<void(QIndex &)> &f) {     // size 2: all, 1: half of the corpora, 0: four combinations
    int c, layout, del;
    if (size == 0 && !opt.thorough) { c = p.choose(2) * 2; layout = 1; del = p.choose(2) * 3; }
    else { c = p.choose(size == 2 || opt.thorough ? 6 : 3); layout = p.choose(3); del = p.choose(4); }
    p.note("[corpus %d layout %d deletions %d] ", c, layout, del);
    static const unsigned DEL[] = {0, 0x01, 0x80, 0x5a};
    if (!p.mine()) return;
    std::string e = guarded([&] {
        std::vector<MDoc> ds; for (int i = 0; i < 8; i++) ds.push_back(sub_doc(CORPUS[c][i]));
        QIndex X; X.make(ds, layout, 3, DEL[del]); f(X);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void leaves(Path &p) {
    static const auto QS = flat(rich(), 2);
    int part = p.choose(4);
    corpus(p, 2, [&](QIndex &X) { for (size_t i = part; i < QS.size(); i += 4) { p.state(fnv(show(QS[i]))); check_query(p, X, QS[i], true); } });
}
static void triples(Path &p) {      // three clauses, one of them special
    static std::vector<QNode> QS; if (QS.empty()) { auto r = rich(); for (size_t l = 3; l < r.size(); l++) for (auto &b : flat(abc(), 2)) if (b.kids.size() == 2) for (int o = 0; o < 3; o++) for (int at = 0; at < 3; at += 2) { QNode x = b; x.kids.insert(x.kids.begin() + at, {o, r[l]}); QS.push_back(x); } }
    int part = p.choose(4);
    corpus(p, 1, [&](QIndex &X) { for (size_t i = part; i < QS.size(); i += 4) { p.state(fnv(show(QS[i]))); check_query(p, X, QS[i], opt.thorough || i % 5 == 0); } });
}
static void nested(Path &p) {
    // two clauses, at least one of which is itself boolean, filtered or constant-score over a boolean
    static std::vector<QNode> QS;
    if (QS.empty()) {
        std::vector<QNode> ab = {qterm("f", "a"), qterm("f", "b")}; auto inner = flat(ab, 2); std::vector<QNode> sub = abc(); sub.push_back(qall());
        for (auto &i : inner) sub.push_back(i);
        for (auto &i : inner) if (i.kids.size() == 2 && i.kids[0].first <= i.kids[1].first) { sub.push_back(qcsq(i)); sub.push_back(qfiltered(i, qterm("f", "c"))); sub.push_back(qfiltered(qterm("f", "c"), i)); }
        sub.push_back(qfiltered(qphrase("nofield", {{0, {"a"}}, {1, {"b"}}}), qall())); sub.push_back(qbool({})); sub.push_back(qbool({{MUST, qphrase("nofield", {{0, {"a"}}, {1, {"b"}}})}, {SHOULD, qterm("f", "a")}}));
        sub.push_back(qfiltered(qmterm("f", {}), qall()));
        sub.push_back(qbool({{MUST, qterm("f", "a")}, {MUST, qterm("f", "b")}, {MUST, qterm("f", "c")}})); sub.push_back(qbool({{SHOULD, qterm("f", "a")}, {SHOULD, qterm("f", "b")}, {SHOULD, qterm("f", "c")}}));
        for (auto &a : sub) QS.push_back(a);
        for (size_t i = 0; i < sub.size(); i++) for (size_t j = 0; j < sub.size(); j++) if (i > 3 || j > 3) for (int o = 0; o < 9; o++) QS.push_back(qbool({{o / 3, sub[i]}, {o % 3, sub[j]}}));
    }
    int part = p.choose(64);
    corpus(p, 0, [&](QIndex &X) { for (size_t i = part; i < QS.size(); i += 64) { p.state(fnv(show(QS[i]))); check_query(p, X, QS[i], opt.thorough || i % 11 == 0); } });
}
// a query used before, then extended, or used again after documents were deleted through the reader
static void reuse(Path &p) {
    static const auto QS = flat(rich(), 2);
    int part = p.choose(8), c = p.choose(3), layout = p.choose(2);
    if (!p.mine()) return;
    p.note("[corpus %d layout %d] ", c, layout);
    std::string e = guarded([&] {
        std::vector<MDoc> ds; for (int i = 0; i < 8; i++) ds.push_back(sub_doc(CORPUS[c][i]));
        for (size_t i = part; i < QS.size(); i += 8) for (int oc = 0; oc < 3; oc++) {
            QIndex X; X.make(ds, layout, 3, 0); QNode n = QS[i]; FrtQuery *q = build(n);
            auto run1 = [&](const char *when) {
                FrtTopDocs *td = X.sea->search(X.sea, q, 0, 20, NULL, NULL, NULL, 0); std::vector<int> got = hits_of(td), want = X.expect(n); frt_td_destroy(td); std::sort(got.begin(), got.end()); p.step();
                MC_CHECK(p, got == want, "%s, %s: %s, expected %s", show(n).c_str(), when, ints(got).c_str(), ints(want).c_str());
            };
            run1("first use");
            for (int d : {0, 7, 4}) { frt_ir_delete_doc(X.ir, d); X.del[d] = true; run1("after a deletion"); }
            frt_bq_add_query_nr(q, build(qterm("f", "b")), (FrtBCType)oc); n.kids.push_back({oc, qterm("f", "b")}); run1("after adding a clause");
            frt_q_deref(q); p.eval(); p.state(fnv(show(n)));
        }
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
// many documents and many clauses: the scorers work through their posting lists block by block
static void sizes(Path &p) {
    static const int NQ[] = {32, 33, 65, 97}, NT[] = {15, 16, 17, 31, 32, 33, 34, 48, 63, 64, 65, 66, 96, 97, 98, 128, 129, 130, 200, 300};
    static const int PAT[][3] = {{1, 2, 3}, {2, 3, 5}, {1, 1, 33}, {33, 1, 2}, {16, 17, 1}, {7, 40, 1}};
    int N = opt.thorough ? NT[p.choose(20)] : NQ[p.choose(4)], pat = p.choose(6), layout = p.choose(3), del = p.choose(3), si = p.choose(2);
    if (!p.mine()) return;
    p.note("[%d documents, pattern %d, layout %d, deletions %d, skip interval %d] ", N, pat, layout, del, si ? 16 : 2);
    std::string e = guarded([&] {
        std::vector<MDoc> ds; auto has = [&](int i, int w) { return i % PAT[pat][w] == (w == 0 ? 0 : PAT[pat][w] - 1); };
        for (int i = 0; i < N; i++) { std::string t; for (int w = 0; w < 3; w++) if (has(i, w)) t += std::string(t.size() ? " " : "") + (char)('a' + w); t += fmt(" w%d v%d", i % 41, i % 3); ds.push_back(text_doc(t, i & 1 ? "z" : "")); }
        MConfig c; c.compound = false; c.chunk = 0x4000; c.merge_factor = 100; c.skip_interval = si ? 16 : 2; c.index_interval = si ? 128 : 2;
        QIndex X; X.make(ds, layout, pat % 2 ? N / 2 : 33 % N, 0, &c);
        if (del) { for (int i = 0; i < N; i++) if (del == 1 ? i % 5 == 2 : i % 33 != 32 && i % 4 != 0) { X.del[i] = true; frt_ir_delete_doc(X.ir, i); } frt_ir_commit(X.ir); }
        static std::vector<QNode> QS;
        if (QS.empty()) {
            QS = abc(); for (auto &b : flat(abc(), 2)) QS.push_back(b);
            QS.push_back(qall()); QS.push_back(qcsq(qterm("f", "b"))); QS.push_back(qfiltered(qterm("f", "a"), qterm("f", "b"))); QS.push_back(qfiltered(qterm("f", "b"), qterm("g", "z"))); QS.push_back(qphrase("f", {{0, {"a"}}, {1, {"b", "c"}}})); QS.push_back(qmterm("f", {{"a", 1}, {"b", 1}, {"w3", 1}, {"w40", 1}}));
            for (int o = 0; o < 9; o++) QS.push_back(qbool({{o / 3, qbool({{SHOULD, qterm("f", "a")}, {SHOULD, qterm("f", "c")}})}, {o % 3, qbool({{MUST, qterm("f", "b")}, {SHOULD, qterm("g", "z")}})}}));
            for (int n : {2, 4, 5, 9, 17, 33, 70}) for (int k = 0; k < 4; k++) { QNode b = qbool({}); for (int i = 0; i < n; i++) { int o = k == 0 ? SHOULD : k == 1 ? MUST : k == 2 ? (i % 3 == 1 ? MUST_NOT : SHOULD) : (i ? MUST_NOT : MUST); b.kids.push_back({o, k == 1 ? qterm("f", i % 3 == 0 ? "a" : i % 3 == 1 ? "v1" : "b") : k == 3 && !i ? qterm("f", "c") : qterm("f", fmt("w%d", i % 43))}); } QS.push_back(b); }
            for (int n : {5, 33, 60}) { QNode m = qmterm("f", {}); for (int i = 0; i < n; i++) m.mterms.push_back({fmt("w%d", i), 1}); QS.push_back(m); }
        }
        for (auto &n : QS) {
            check_query(p, X, n, false);
            FrtQuery *q = build(n); std::vector<int> want = X.expect(n);
            static const int STEP[] = {1, 2, 15, 16, 17, 31, 32, 33, 64};
            for (int pre : {0, 1, 2, 31, 32, 33}) for (int st : STEP) if (opt.thorough || ((pre == 0 || pre == 1 || pre == 32) && (st == 1 || st == 2 || st == 16 || st == 33))) {           // some next, then skipping in equal steps with a next in between
                FrtWeight *w = frt_q_weight(q, X.sea); FrtScorer *s = w->scorer(w, X.ir);
                if (!s) { w->destroy(w); break; }
                size_t at = 0; bool more = true; int cur = -1;
                auto expect = [&](const char *what, int arg) { p.step(); if (at >= want.size()) { MC_CHECK(p, !more, "%s, %d next then steps of %d: %s %d gives doc %d, expected the end", show(n).c_str(), pre, st, what, arg, s->doc); more = false; } else { MC_CHECK(p, more && s->doc == want[at], "%s, %d next then steps of %d: %s %d gives doc %d, expected %d", show(n).c_str(), pre, st, what, arg, more ? s->doc : -1, want[at]); cur = want[at++]; } };
                for (int i = 0; i < pre && more; i++) { more = s->next(s); expect("next", i); }
                while (more) { int t = cur + st; while (at < want.size() && want[at] < t) at++; more = s->skip_to(s, t); expect("skip_to", t); if (!more) break; more = s->next(s); expect("next after skip_to", t); }
                s->destroy(s); w->destroy(w);
            }
            frt_q_deref(q);
        }
        p.state(fnv(fmt("%d %d %d %d %d", N, pat, layout, del, si)));
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = (corpus, query tree); transition = one search call (ranked search twice, per-hit callback, unscored scan from every offset) or one scorer advance; every result compared with the logical meaning evaluated on the documents";
    return run(argc, argv, m, {
        {"small", "all corpora of 3 (thorough 4) documents over subsets of 3 words x none/first/second deleted x 1 or 2 segments x all boolean queries of up to 3 term clauses (819)", small},
        {"leaves", "all boolean queries of up to 2 clauses over 11 leaf kinds (terms, missing term, missing field, match-all, constant-score, phrase, empty phrase, multi-term) x 6 corpora of 8 documents x 3 layouts x 4 deletion sets; all strictly advancing next/skip_to sequences of length 3", leaves},
        {"reuse", "the same two-clause queries used, used again after each of three deletions through the same reader, then extended by a clause and used again; 3 corpora, 2 layouts", reuse},
        {"sizes", "4 (20) numbers of documents from 32 to 97 (15 to 300) x 6 densities x 3 layouts x 3 deletion patterns x 2 skip intervals x 95 queries of up to 70 clauses; skipping in 4 (9) step widths after 3 (6) numbers of next", sizes},
        {"triples", "three clauses with one special leaf first or last, half of the corpora", triples},
        {"nested", "two clauses out of ~110 sub-queries (booleans of 2 clauses, constant-score and filtered forms, empty ones), 2 corpora of 8 documents in two segments, 2 deletion sets (thorough: all corpora and layouts)", nested, 120},
    });
}
