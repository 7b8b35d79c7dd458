// C18: hits are the requested slice of the complete list in the requested order; filters, totals, maximum score.
#include "query_model.hpp"
#include <cmath>
#include <climits>
using namespace mc;
enum KT { K_SCORE = FRT_SORT_TYPE_SCORE, K_DOC = FRT_SORT_TYPE_DOC, K_BYTE = FRT_SORT_TYPE_BYTE, K_INT = FRT_SORT_TYPE_INTEGER, K_FLOAT = FRT_SORT_TYPE_FLOAT, K_STR = FRT_SORT_TYPE_STRING, K_AUTO = FRT_SORT_TYPE_AUTO };
struct Key { int type; const char *field; bool rev; };
static const char *KN[] = {"score", "doc", "byte", "int", "float", "string", "auto"};
static std::string kshow(const std::vector<Key> &ks) { std::string s; for (auto &k : ks) s += fmt("%s%s%s%s ", k.field ? k.field : "", k.field ? ":" : "", KN[k.type], k.rev ? "!" : ""); return s; }
static FrtSort *ksort(const std::vector<Key> &ks) { FrtSort *s = frt_sort_new(); for (auto &k : ks) frt_sort_add_sort_field(s, frt_sort_field_new(k.field ? SYM(k.field) : NULL, (SortType)k.type, k.rev)); return s; }
struct World : QIndex {
    std::vector<std::map<std::string, std::string>> vals; std::map<int, float> score;
    World() { FOpt u; u.index = FRT_INDEX_UNTOKENIZED; sc.fields = {{"f", FOpt()}}; for (const char *n : {"i", "s", "l", "j", "k", "m"}) sc.fields.push_back({n, u}); }
    int kind(const Key &k) {                                              // the type auto resolves to: that of the smallest term of the field
        if (k.type != K_AUTO) return k.type; std::string first; bool any = false;
        for (int d = 0; d < n(); d++) { auto v = vals[d].find(k.field); if (v != vals[d].end() && (!any || v->second < first)) { first = v->second; any = true; } }
        char *e; strtol(first.c_str(), &e, 10); if (!*e) return K_INT; strtod(first.c_str(), &e); return *e ? K_STR : K_FLOAT;
    }
    int cmp(const Key &k, int type, int a, int b) {
        int c = 0;
        if (type == K_SCORE) { c = score[a] > score[b] ? -1 : score[a] < score[b]; return k.rev ? -c : c; }
        if (type == K_DOC) { c = a < b ? -1 : a > b; return k.rev ? -c : c; }
        auto va = vals[a].find(k.field), vb = vals[b].find(k.field); bool ha = va != vals[a].end(), hb = vb != vals[b].end();
        switch (type) {
        case K_BYTE: c = !ha && !hb ? 0 : !ha ? -1 : !hb ? 1 : va->second.compare(vb->second); break;                                    // missing first
        case K_STR: c = !ha && !hb ? 0 : !ha ? 1 : !hb ? -1 : va->second.compare(vb->second); break;                                     // missing last
        case K_INT: { long x = ha ? atol(va->second.c_str()) : 0, y = hb ? atol(vb->second.c_str()) : 0; c = x < y ? -1 : x > y; break; }   // missing is 0
        case K_FLOAT: { float x = ha ? atof(va->second.c_str()) : 0, y = hb ? atof(vb->second.c_str()) : 0; c = x < y ? -1 : x > y; break; }
        }
        return k.rev ? -c : c;
    }
    std::vector<int> order(std::vector<int> docs, const std::vector<Key> &ks) {
        std::vector<int> types; for (auto &k : ks) types.push_back(kind(k));
        std::stable_sort(docs.begin(), docs.end(), [&](int a, int b) { for (size_t i = 0; i < ks.size(); i++) { int c = cmp(ks[i], types[i], a, b); if (c) return c < 0; } return a < b; });
        return docs;
    }
    void add(std::vector<MDoc> &ds, const std::string &text, const std::map<std::string, std::string> &v) { MDoc d; if (text.size()) d.f.push_back({"f", {text}}); for (auto &x : v) d.f.push_back({x.first, {x.second}}); ds.push_back(d); vals.push_back(v); }
    void base(FrtQuery *q) { std::vector<std::pair<int, float>> each; sea->search_each(sea, q, NULL, NULL, collect_fn, &each); score.clear(); for (auto &e : each) score[e.first] = e.second; }
};
static std::vector<int> slice(const std::vector<int> &v, int first, int num) { std::vector<int> r; for (size_t i = first; i < v.size() && (long)i < (long)first + num; i++) r.push_back(v[i]); return r; }
static void check(Path &p, World &X, FrtQuery *q, const std::vector<Key> *ks, FrtSort *s, int first, int num, FrtFilter *flt, FrtPostFilter *pf, const std::vector<int> &docs, const std::vector<int> &ord, std::map<int, float> &sco, bool load, const char *what) {
    FrtTopDocs *td = X.sea->search(X.sea, q, first, num, flt, s, pf, load); p.step();
    auto got = hits_of(td), want = slice(ord, first, num);
    if (got != want) p.fail("%s sorted by %s, hits from %d, at most %d: %s, expected %s of %s", what, ks ? kshow(*ks).c_str() : "relevance", first, num, ints(got).c_str(), ints(want).c_str(), ints(ord).c_str());
    if (td->total_hits != (int)docs.size()) p.fail("%s from %d, at most %d: total %d, expected %zu", what, first, num, td->total_hits, docs.size());
    float mx = 0; for (int d : docs) mx = std::max(mx, sco[d]);
    if (td->max_score != mx) p.fail("%s from %d, at most %d: maximum score %g, best hit scores %g", what, first, num, td->max_score, mx);
    for (int i = 0; i < td->size; i++) if (td->hits[i]->score != sco[td->hits[i]->doc]) p.fail("%s: hit %d has score %g, expected %g", what, td->hits[i]->doc, td->hits[i]->score, sco[td->hits[i]->doc]);
    if (load && s) for (int i = 0; i < td->size; i++) {
        FrtFieldDoc *fd = (FrtFieldDoc *)td->hits[i]; if (fd->size != (int)ks->size()) p.fail("%s: %d sort values for %zu keys", what, fd->size, ks->size());
        for (int j = 0; j < fd->size; j++) {
            const Key &k = (*ks)[j]; int t = X.kind(k), d = fd->hit.doc; FrtComparable &c = fd->comparables[j]; std::string v = k.field && X.vals[d].count(k.field) ? X.vals[d][k.field] : ""; bool ok = c.type == t && c.reverse == k.rev;
            switch (t) { case K_SCORE: ok &= c.val.f == sco[d]; break; case K_DOC: ok &= c.val.l == d; break; case K_INT: ok &= c.val.l == atol(v.c_str()); break; case K_FLOAT: ok &= c.val.f == (float)atof(v.c_str()); break; case K_STR: ok &= X.vals[d].count(k.field) ? c.val.s && v == c.val.s : c.val.s == NULL; break; }
            if (!ok) p.fail("%s: hit %d carries a wrong sort value for key %d (%s)", what, d, j, kshow(*ks).c_str());
        }
    }
    frt_td_destroy(td);
}
static const char *IV[] = {NULL, "-3", "2", "10"}, *SV[] = {NULL, "B", "a", "ab"}, *LV[] = {NULL, "-2.5", "1.25", "1.5"};
static const std::string TX[] = {"x", "x x y", "x y y y", "x y"};
static void singles(Path &p) {
    int N = 4, cls[4]; for (int i = 0; i < N; i++) cls[i] = p.choose(4); int layout = p.choose(3); if (!p.mine()) return;
    p.note("[value classes %d %d %d %d, layout %d] ", cls[0], cls[1], cls[2], cls[3], layout);
    std::string e = guarded([&] {
        World X; std::vector<MDoc> ds; for (int i = 0; i < N; i++) { std::map<std::string, std::string> v; int c = cls[i]; if (c) v = {{"i", IV[c]}, {"s", SV[c]}, {"l", LV[c]}, {"j", IV[4 - c]}}; X.add(ds, TX[(c + i / 2) % 4], v); }
        X.make(ds, layout, 2, 0); FrtQuery *q = frt_tq_new(SYM("f"), "x"); X.base(q); std::vector<int> docs; for (int i = 0; i < N; i++) docs.push_back(i);
        if ((int)X.score.size() != N) p.fail("%zu of %d documents found", X.score.size(), N);
        bool none = true; for (int c : cls) if (c) none = false;
        std::vector<std::vector<Key>> specs = {{}}; for (bool r : {false, true}) { specs.push_back({{K_SCORE, NULL, r}}); specs.push_back({{K_DOC, NULL, r}}); if (!none) for (Key k : std::vector<Key>{{K_INT, "i", r}, {K_FLOAT, "l", r}, {K_FLOAT, "i", r}, {K_STR, "s", r}, {K_STR, "i", r}, {K_BYTE, "s", r}, {K_BYTE, "i", r}, {K_AUTO, "i", r}, {K_AUTO, "s", r}, {K_AUTO, "l", r}, {K_INT, "j", r}}) specs.push_back({k}); }
        for (auto &ks : specs) {
            FrtSort *s = ksort(ks); auto ord = X.order(docs, ks); std::string what = "all";
            for (int first = 0; first <= N + 1; first++) for (int num : {1, 2, 3, 4, 5, INT_MAX}) check(p, X, q, &ks, s, first, num, NULL, NULL, docs, ord, X.score, (first + num) & 1, "all documents");
            frt_sort_destroy(s);
        }
        auto ord = X.order(docs, {{K_SCORE, NULL, false}});
        for (int first = 0; first <= N + 1; first++) for (int num : {1, 2, 3, 4, 5, INT_MAX, INT_MAX - 1}) check(p, X, q, NULL, NULL, first, num, NULL, NULL, docs, ord, X.score, false, "all documents");
        frt_q_deref(q);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(fnv(fmt("%d%d%d%d%d", cls[0], cls[1], cls[2], cls[3], layout))); p.eval();
}
static void pairs(Path &p) {
    int N = 3, a[3], b[3]; for (int i = 0; i < N; i++) { a[i] = p.choose(3); b[i] = p.choose(3); } int layout = p.choose(2); if (!p.mine()) return;
    p.note("[first values %d %d %d, second values %d %d %d, layout %d] ", a[0], a[1], a[2], b[0], b[1], b[2], layout);
    std::string e = guarded([&] {
        World X; std::vector<MDoc> ds; bool na = true, nb = true;
        for (int i = 0; i < N; i++) { std::map<std::string, std::string> v; if (a[i]) { v["i"] = IV[a[i] + 1]; v["s"] = SV[a[i]]; na = false; } if (b[i]) { v["j"] = IV[b[i] + 1]; v["k"] = SV[3 - b[i]]; nb = false; } X.add(ds, TX[(a[i] + b[i]) % 3], v); }
        X.make(ds, layout, 1, 0); FrtQuery *q = frt_tq_new(SYM("f"), "x"); X.base(q); std::vector<int> docs = {0, 1, 2};
        std::vector<Key> ka, kb; for (bool r : {false, true}) { ka.push_back({K_SCORE, NULL, r}); kb.push_back({K_SCORE, NULL, r}); kb.push_back({K_DOC, NULL, r}); if (!na) for (Key k : std::vector<Key>{{K_INT, "i", r}, {K_STR, "s", r}, {K_BYTE, "s", r}, {K_AUTO, "i", r}}) ka.push_back(k); if (!nb) for (Key k : std::vector<Key>{{K_FLOAT, "j", r}, {K_STR, "k", r}, {K_BYTE, "k", r}, {K_AUTO, "k", r}}) kb.push_back(k); }
        auto go = [&](const std::vector<Key> &ks) { FrtSort *s = ksort(ks); auto ord = X.order(docs, ks); check(p, X, q, &ks, s, 0, 10, NULL, NULL, docs, ord, X.score, true, "all documents"); check(p, X, q, &ks, s, 1, 1, NULL, NULL, docs, ord, X.score, false, "all documents"); frt_sort_destroy(s); };
        for (auto &x : ka) for (auto &y : kb) { go({x, y}); go({y, x}); if (x.type != K_SCORE && y.type == K_STR) for (bool r : {false, true}) { go({x, y, {K_SCORE, NULL, r}}); go({x, y, {K_SCORE, NULL, r}, {K_DOC, NULL, true}}); go({{K_SCORE, NULL, r}, x, y, {K_SCORE, NULL, !r}, {K_DOC, NULL, true}}); } }
        frt_q_deref(q);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(fnv(fmt("%d%d%d%d%d%d%d", a[0], a[1], a[2], b[0], b[1], b[2], layout))); p.eval();
}
static void mixed(Path &p) {                                              // numeric sorts of a field that also holds words: these count as 0
    static const char *MV[] = {NULL, "-3", "7", "1.5", "abc", "xyz"}; int v[3]; for (int &x : v) x = p.choose(6); int layout = p.choose(2); if (!p.mine()) return;
    p.note("[values %d %d %d, layout %d] ", v[0], v[1], v[2], layout);
    std::string e = guarded([&] {
        World X; std::vector<MDoc> ds; bool none = true; for (int x : v) { std::map<std::string, std::string> m; if (x) { m["i"] = MV[x]; none = false; } X.add(ds, "x", m); }
        X.make(ds, layout, 1, 0); FrtQuery *q = frt_tq_new(SYM("f"), "x"); X.base(q); std::vector<int> docs = {0, 1, 2};
        for (bool r : {false, true}) for (int t : {K_INT, K_FLOAT, K_AUTO}) { if (none && t == K_AUTO) continue; std::vector<Key> ks = {{t, "i", r}}; FrtSort *s = ksort(ks); check(p, X, q, &ks, s, 0, 10, NULL, NULL, docs, X.order(docs, ks), X.score, true, "all documents"); frt_sort_destroy(s); }
        frt_q_deref(q);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(fnv(fmt("%d%d%d%d", v[0], v[1], v[2], layout))); p.eval();
}
static void wide(Path &p) {                                               // the whole range of integers, and floats far apart
    static const char *MV[] = {NULL, "-9000000000000000000", "-3000000000", "-1", "1", "2147483648", "3000000000", "9000000000000000000"}, *FV[] = {NULL, "-1e30", "-3.5", "-0.001", "0.0001", "0.0002", "70000.5", "1e30"};
    int v[3]; for (int &x : v) x = p.choose(8); int layout = p.choose(2); if (!p.mine()) return;
    p.note("[values %d %d %d, layout %d] ", v[0], v[1], v[2], layout);
    std::string e = guarded([&] {
        World X; std::vector<MDoc> ds; bool none = true; for (int x : v) { std::map<std::string, std::string> m; if (x) { m["i"] = MV[x]; m["l"] = FV[x]; none = false; } X.add(ds, "x", m); }
        X.make(ds, layout, 1, 0); FrtQuery *q = frt_tq_new(SYM("f"), "x"); X.base(q); std::vector<int> docs = {0, 1, 2};
        for (bool r : {false, true}) for (Key k : std::vector<Key>{{K_INT, "i", r}, {K_FLOAT, "l", r}, {K_AUTO, "i", r}, {K_AUTO, "l", r}}) { if (none && k.type == K_AUTO) continue; std::vector<Key> ks = {k}; FrtSort *s = ksort(ks); check(p, X, q, &ks, s, 0, 10, NULL, NULL, docs, X.order(docs, ks), X.score, true, "all documents"); frt_sort_destroy(s); }
        frt_q_deref(q);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(fnv(fmt("%d%d%d%d", v[0], v[1], v[2], layout))); p.eval();
}
struct PF { unsigned mask, half; int calls; };
static float pf_fn(int doc, float, FrtSearcher *, void *arg) { PF *f = (PF *)arg; f->calls++; return f->mask >> doc & 1 ? f->half >> doc & 1 ? 0.5f : 1.0f : 0.0f; }
static void filters(Path &p) {
    const int N = 4; unsigned fm = p.choose(17), pm = p.choose(17), del = p.choose(16), match = p.choose(4); int layout = p.choose(2); if (!p.mine()) return;
    static const unsigned MM[] = {15, 7, 14, 10}; match = MM[match];
    p.note("[matching %x, filter %x, post filter %x, deleted %x, layout %d] ", match, fm, pm, del, layout);
    std::string e = guarded([&] {
        World X; std::vector<MDoc> ds; bool anyv = false; for (int i = 0; i < N; i++) { std::map<std::string, std::string> v; v["i"] = fmt("%d", (i * 3) % 4); if (fm < 16 && (fm >> i & 1)) v["m"] = "in"; anyv |= i && !(del >> i & 1); X.add(ds, match >> i & 1 ? TX[(i * 3 + 1) % 4] : "y", v); }
        X.make(ds, layout, 2, del); FrtQuery *q = frt_tq_new(SYM("f"), "x"); X.base(q); FrtFilter *flt = fm < 16 ? frt_qfilt_new_nr(frt_tq_new(SYM("m"), "in")) : NULL;
        for (int round = 0; round < 2; round++) for (unsigned half : {0u, 5u}) {
            PF f = {pm, half, 0}; FrtPostFilter pf = {pf_fn, &f}; FrtPostFilter *pp = pm < 16 ? &pf : NULL; std::vector<int> docs; std::map<int, float> sco; int asked = 0;
            for (int i = 0; i < N; i++) if ((match >> i & 1) && !(del >> i & 1) && (fm == 16 || (fm >> i & 1))) { asked++; if (pm == 16 || (pm >> i & 1)) { docs.push_back(i); sco[i] = pm < 16 && (half >> i & 1) ? 0.5f * X.score[i] : X.score[i]; } }
            auto sv = X.score; X.score = sco; auto o1 = X.order(docs, {{K_SCORE, NULL, false}}); std::vector<Key> ks = {{K_INT, "i", true}}, k2 = {{K_SCORE, NULL, true}}; auto o2 = X.order(docs, ks), o3 = X.order(docs, k2);
            FrtSort *s = ksort(ks), *s2 = ksort(k2);
            for (int first = 0; first <= 4; first++) for (int num : {1, 2, 4}) { f.calls = 0; check(p, X, q, NULL, NULL, first, num, flt, pp, docs, o1, sco, false, "filtered documents"); if (pp && f.calls != asked) p.fail("the post filter was asked %d times for %d candidates", f.calls, asked); check(p, X, q, &ks, s, first, num, flt, pp, docs, o2, sco, true, "filtered documents"); }
            check(p, X, q, &k2, s2, 0, 10, flt, pp, docs, o3, sco, true, "filtered documents");
            X.score = sv; frt_sort_destroy(s); frt_sort_destroy(s2);
            std::vector<std::pair<int, float>> each; X.sea->search_each(X.sea, q, flt, pp, collect_fn, &each); p.step();
            if (each.size() != docs.size()) p.fail("search_each visits %zu documents, expected %s", each.size(), ints(docs).c_str());
            for (size_t i = 0; i < each.size(); i++) if (each[i].first != docs[i] || each[i].second != sco[docs[i]]) p.fail("search_each visits %d with score %g, expected %d with %g", each[i].first, each[i].second, docs[i], sco[docs[i]]);
        }
        for (int off = 0; off <= 4; off++) for (int lim : {1, 2, 3, 9}) {
            int buf[16]; int n = X.sea->search_unscored(X.sea, q, buf, lim, off); std::vector<int> got(buf, buf + n), want; for (int i = off; i < N && (int)want.size() < lim; i++) if ((match >> i & 1) && !(del >> i & 1)) want.push_back(i);
            if (got != want) p.fail("unscored search from document %d, at most %d: %s, expected %s", off, lim, ints(got).c_str(), ints(want).c_str()); p.step();
        }
        frt_q_deref(q); if (flt) frt_filt_deref(flt);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(fnv(fmt("%x %x %x %x %d", fm, pm, del, match, layout))); p.eval();
}
static void many(Path &p) {                                              // more hits than the initial heap, all limits
    int pat = p.choose(9), N = p.choose(4), srt = p.choose(4); N = (int[]){3, 126, 129, 300}[N]; if (!p.mine()) return;
    p.note("[%d documents, value pattern %d, sort %d] ", N, pat, srt);
    std::string e = guarded([&] {
        World X; std::vector<MDoc> ds;
        for (int i = 0; i < N; i++) { int v; switch (pat) { case 0: v = i; break; case 1: v = N - i; break; case 2: v = i % 2; break; case 3: v = (i * 37) % 101; break; case 4: v = i < N / 2 ? i : N - i; break; case 5: v = i ^ 5; break; case 6: v = 0; break; case 7: v = i == N - 1; break; default: v = (i & 64) ? -i : i; } X.add(ds, std::string(v % 3 ? "x x y" : "x y") + (v % 2 ? " y y" : ""), {{"i", fmt("%d", v)}, {"s", fmt("t%03d", v + 500)}}); }
        X.make(ds, 0, 0, 0); FrtQuery *q = frt_tq_new(SYM("f"), "x"); X.base(q); std::vector<int> docs; for (int i = 0; i < N; i++) docs.push_back(i);
        std::vector<Key> ks; switch (srt) { case 0: ks = {{K_SCORE, NULL, false}}; break; case 1: ks = {{K_INT, "i", false}}; break; case 2: ks = {{K_STR, "s", true}}; break; case 3: ks = {{K_BYTE, "s", false}, {K_SCORE, NULL, true}}; break; }
        FrtSort *s = srt ? ksort(ks) : NULL; auto ord = X.order(docs, ks);
        for (int first : {0, 1, 2, 10, 125, 126, 127, 128, 250, 299, 300}) for (int num : {1, 2, 3, 50, 126, 127, 128, 129, 255, 300, 301}) check(p, X, q, &ks, s, first, num, NULL, NULL, docs, ord, X.score, false, "all documents");
        if (s) frt_sort_destroy(s); frt_q_deref(q);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(fnv(fmt("%d %d %d", pat, N, srt))); p.eval();
}
static void refused(Path &p) {
    int k = p.choose(10), layout = p.choose(3); if (!p.mine()) return; p.note("[case %d, layout %d] ", k, layout);
    std::string e = guarded([&] {
        World X; std::vector<MDoc> ds; for (int i = 0; i < 4; i++) X.add(ds, "x", {{"i", fmt("%d", 3 - i)}}); X.make(ds, layout, 2, 0); FrtQuery *q = frt_tq_new(SYM("f"), "x"); X.base(q);
        static const int A[][2] = {{0, 0}, {0, -1}, {-1, 1}, {-5, 5}, {INT_MIN, INT_MAX}, {0, INT_MIN}};
        if (k < 6) { int code = err_code(guarded([&] { FrtTopDocs *td = X.sea->search(X.sea, q, A[k][0], A[k][1], NULL, NULL, NULL, false); p.fail("search from %d for %d hits gives %d hits", A[k][0], A[k][1], td->size); })); if (code != FRT_ARG_ERROR) p.fail("search from %d for %d hits: error %d", A[k][0], A[k][1], code); }
        else if (k < 8) {                                                   // unknown field; field without terms
            for (int t : {K_BYTE, K_INT, K_FLOAT, K_STR, K_AUTO}) { std::vector<Key> ks = {{t, k == 6 ? "zz" : "m", false}}; FrtSort *s = ksort(ks);
                int code = err_code(guarded([&] { FrtTopDocs *td = X.sea->search(X.sea, q, 0, 10, NULL, s, NULL, false); if (k == 6) p.fail("sorting by an unknown field (%s) gives %d hits", KN[t], td->size); if (ints(hits_of(td)) != "[0 1 2 3]") p.fail("sorting by a field without terms: %s", ints(hits_of(td)).c_str()); frt_td_destroy(td); }));
                if (code != (k == 6 || t == K_AUTO ? FRT_ARG_ERROR : 0)) p.fail("sorting by a %s field as %s: error %d", k == 6 ? "n unknown" : "n empty", KN[t], code); p.step(); }
        } else {                                                            // limits near the largest int
            std::vector<int> docs = {0, 1, 2, 3}; std::vector<Key> ks = {{K_INT, "i", false}}; FrtSort *s = ksort(ks); auto o = X.order(docs, k == 8 ? std::vector<Key>{{K_SCORE, NULL, false}} : ks);
            for (int first : {0, 1, 3, 4, 5, INT_MAX - 1, INT_MAX}) for (int num : {1, 2, INT_MAX - 4, INT_MAX - 1, INT_MAX}) check(p, X, q, k == 8 ? NULL : &ks, k == 8 ? NULL : s, first, num, NULL, NULL, docs, o, X.score, false, "all documents");
            frt_sort_destroy(s);
        }
        std::vector<int> docs = {0, 1, 2, 3}; check(p, X, q, NULL, NULL, 0, 10, NULL, NULL, docs, docs, X.score, false, "all documents afterwards"); frt_q_deref(q);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(k * 3 + layout); p.eval();
}
static void printed(Path &p) {                                             // td_to_s, sort_to_s
    int n = p.choose(40); if (!p.mine()) return; p.note("[%d documents] ", n);
    std::string e = guarded([&] {
        World X; std::vector<MDoc> ds; for (int i = 0; i < n + 1; i++) X.add(ds, i ? "x" : "y", {}); X.make(ds, 0, 0, 0); FrtQuery *q = frt_tq_new(SYM("f"), "x");
        FrtTopDocs *td = X.sea->search(X.sea, q, 0, 100, NULL, NULL, NULL, false); char *s = frt_td_to_s(td); int lines = 0; for (char *c = s; *c; c++) lines += *c == '\n'; if (lines != n + 1) p.fail("%d lines for %d hits: %s", lines, n, s); free(s); frt_td_destroy(td); frt_q_deref(q);
        std::vector<Key> ks; for (int i = 0; i < n % 8; i++) ks.push_back(i % 3 == 0 ? Key{K_SCORE, NULL, i % 2 == 0} : Key{K_INT + i % 3, "i", i % 2 == 0}); FrtSort *so = ksort(ks); s = frt_sort_to_s(so); std::string want = "Sort["; for (size_t i = 0; i < ks.size(); i++) { static const char *TN[] = {"<SCORE>", "<DOC>", "<byte>", "<integer>", "<float>", "<string>", "<auto>"}; want += std::string(i ? ", " : "") + (ks[i].field ? "i:" : "") + TN[ks[i].type] + (ks[i].rev ? "!" : ""); } want += "]"; if (want != s) p.fail("sort prints as %s, expected %s", s, want.c_str()); free(s); frt_sort_destroy(so); p.step(2);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(n); p.eval();
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = (values per document, layout, filter, post filter, deletions); transition = one search; hits, total, maximum score, scores and sort values compared with a stable sort of all matching model documents";
    return run(argc, argv, m, {
        {"singles", "4 documents x 4 value classes (missing, negative, ...) each x 3 layouts x 27 sort keys (score, document, integer, float, string, byte, auto; both directions) x first 0..5 x limit 1..5 and unlimited", singles, 60},
        {"pairs", "3 documents x 3x3 values of two fields each x 2 layouts x all sequences of 2 (some of 3 to 5) keys", pairs, 60},
        {"wide", "integer, float and automatic sorts of 3 documents x 8 values over the whole range of long and of float", wide, 30},
        {"mixed", "numeric and automatic sorts of 3 documents x 6 values, some of them words", mixed, 30},
        {"filters", "4 documents x all filter subsets x all post filter subsets (dropping or scaling) x all deletions x 4 match sets x 2 layouts; paging, search_each, unscored search", filters, 60},
        {"many", "3, 126, 129 and 300 documents in 9 value patterns x 4 sorts x 121 slices around the queue's growth sizes", many, 120},
        {"refused", "invalid paging arguments, unknown and empty sort fields, limits near the largest integer", refused, 30},
        {"printed", "printing of hits and sorts", printed, 30},
    });
}
