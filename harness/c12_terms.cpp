// C12: term dictionary enumeration is complete, ordered and seekable.
#include "index_model.hpp"
using namespace mc;
typedef std::map<std::string, int> Dict;              // term -> document frequency
static const std::vector<std::string> SHORT = {"", "a", "aa", "b", "\xc3\xa9"};
static std::vector<std::string> longs() { std::string x(254, 'x'), y = x; y[253] = 'y'; std::string z = x.substr(0, 253); return {"m", z, x, y, "y"}; }
static std::vector<std::string> targets(const std::vector<std::string> &terms) {
    std::set<std::string> s(terms.begin(), terms.end());
    for (auto &t : terms) { if (t.size() < 254) s.insert(t + "!"); if (t.size()) { s.insert(t.substr(0, t.size() - 1)); std::string u = t; u.back() = (char)(u.back() - 1); s.insert(u); } }
    s.insert("\x01"); s.insert("~~"); s.insert("\xff");
    return std::vector<std::string>(s.begin(), s.end());
}
// Two parts; part[i] holds the terms (in field f) of part i, each in i+1 documents; field g holds the same terms the other way round.
struct Built { StoreBox a, b; FrtIndexReader *ir = NULL; Dict f, g; Built() : a(0), b(0) {} ~Built() { if (ir) frt_ir_close(ir); } };
static void add_part(FrtIndexWriter *iw, const std::vector<std::string> &terms, const char *field, int copies) {
    for (int c = 0; c < copies; c++) for (auto &t : terms) { MDoc d; d.f = {{field, {t}}}; add_doc(iw, d); }
}
static void build(Built &B, const std::vector<std::string> &terms, const std::vector<int> &where, int kind, int interval) {
    MSchema sc, sc2; FOpt u; u.index = FRT_INDEX_UNTOKENIZED; sc.fields = {{"f", u}, {"g", u}}; sc2.fields = {{"x", u}, {"g", u}, {"f", u}};
    MConfig mc_; mc_.index_interval = interval; mc_.compound = false; mc_.chunk = 0x4000; mc_.merge_factor = 100; FrtConfig fc = make_config(mc_);
    std::vector<std::string> part[2], gpart[2];
    for (size_t i = 0; i < terms.size(); i++) for (int k = 0; k < 2; k++) if (where[i] >> k & 1) { part[k].push_back(terms[i]); B.f[terms[i]] += k + 1; gpart[1 - k].push_back(terms[i]); B.g[terms[i]] += 2 - k; }
    auto create = [&](FrtStore *s, const MSchema &m) { FrtFieldInfos *fis = m.make(); frt_index_create(s, fis); frt_fis_deref(fis); };
    create(B.a.s, sc);
    FrtIndexWriter *iw = open_writer(B.a.s, &fc);
    std::reverse(part[0].begin(), part[0].end());
    add_part(iw, part[0], "f", 1); add_part(iw, gpart[0], "g", 1);
    if (kind == 0) {                            // one segment
        add_part(iw, part[1], "f", 2); add_part(iw, gpart[1], "g", 2); frt_iw_close(iw); B.ir = frt_ir_open(B.a.s);
    } else if (kind == 1 || kind == 3) {        // two segments, then merged
        frt_iw_commit(iw); add_part(iw, part[1], "f", 2); add_part(iw, gpart[1], "g", 2); if (kind == 3) frt_iw_optimize(iw); frt_iw_close(iw); B.ir = frt_ir_open(B.a.s);
    } else {                                    // two indexes with different field numbers
        frt_iw_close(iw); create(B.b.s, sc2); FrtIndexWriter *w2 = open_writer(B.b.s, &fc);
        add_part(w2, part[1], "f", 2); add_part(w2, gpart[1], "g", 2); frt_iw_close(w2);
        FrtIndexReader **rs = (FrtIndexReader **)malloc(2 * sizeof *rs); rs[0] = frt_ir_open(B.a.s); rs[1] = frt_ir_open(B.b.s); B.ir = frt_mr_open(rs, 2);
    }
    if (kind != 0 && kind != 3) for (int k = 0; k < 2; k++) { }
    // g counts: documents of gpart[0] once, of gpart[1] twice
    B.g.clear(); for (auto &t : gpart[0]) B.g[t] += 1; for (auto &t : gpart[1]) B.g[t] += 2;
}
static const char *KINDS[] = {"one segment", "two segments", "multi-reader", "merged"};
struct Walker {
    Path &p; FrtTermEnum *te; const Dict *d; Dict::const_iterator it; bool started = true;       // it: current term (end: exhausted)
    void expect(char *got, const std::string &op) {
        if (it == d->end()) { MC_CHECK(p, got == NULL, "%s returned %s, expected the end", op.c_str(), q(got).c_str()); return; }
        MC_CHECK(p, got != NULL, "%s returned the end, expected %s", op.c_str(), q(it->first).c_str());
        MC_CHECK(p, it->first == got && te->curr_term == it->first && te->curr_term_len == (int)it->first.size(), "%s returned %s, expected %s", op.c_str(), q(got).c_str(), q(it->first).c_str());
        MC_CHECK(p, te->curr_ti.doc_freq == it->second, "%s: doc_freq of %s is %d, expected %d", op.c_str(), q(got).c_str(), te->curr_ti.doc_freq, it->second);
    }
};
static void enumerate(Path &p, const std::vector<std::string> &terms, int nint, int depth) {
    std::vector<int> where; for (size_t i = 0; i < terms.size(); i++) where.push_back(p.choose(4));
    int kind = p.choose(4), interval = 1 + p.choose(nint);
    if (!p.mine()) return;
    p.note("[%s, interval %d] ", KINDS[kind], interval); for (size_t i = 0; i < terms.size(); i++) if (where[i]) p.note("%s@%d ", q(terms[i]).c_str(), where[i]);
    std::string e = guarded([&] {
        Built B; build(B, terms, where, kind, interval);
        auto tg = targets(terms);
        FrtSymbol F[2] = {SYM("f"), SYM("g")}; const Dict *D[2] = {&B.f, &B.g};
        int fn[2] = {frt_fis_get_field_num(B.ir->fis, F[0]), frt_fis_get_field_num(B.ir->fis, F[1])};
        u64 h = 5; for (auto &t : B.f) h = fnv((u64)t.second, fnv(t.first, h)); p.state(fnv((u64)(kind * 10 + interval), h));
        int save = p.s->note_len; auto restart = [&] { p.s->note_len = save; p.s->note[save] = 0; };
        // plain enumeration of both fields, re-using the enumeration object by set_field
        for (int a = 0; a < 2; a++) {
            FrtTermEnum *te = B.ir->terms(B.ir, fn[a]);
            for (int round = 0; round < 3; round++) {
                int w = round == 0 ? a : round == 1 ? 1 - a : a;
                if (round) te->set_field(te, fn[w]);
                Walker W{p, te, D[w], D[w]->begin()};
                for (;; ++W.it) { W.expect(te->next(te), fmt("next in field %d (round %d)", w, round)); p.step(); if (W.it == D[w]->end()) break; if (round == 1 && W.it->first.size() > 1) break; }
            }
            te->close(te);
        }
        // document frequencies, in any order and alternating fields
        for (auto &t1 : tg) for (int f1 = 0; f1 < 2; f1++) for (auto &t2 : terms) for (int f2 = 0; f2 < 2; f2++) {
            auto want = [&](int f, const std::string &t) { auto i = D[f]->find(t); return i == D[f]->end() ? 0 : i->second; };
            int g1 = B.ir->doc_freq(B.ir, fn[f1], t1.c_str()), g2 = B.ir->doc_freq(B.ir, fn[f2], t2.c_str()); p.step();
            MC_CHECK(p, g1 == want(f1, t1), "doc_freq(%d, %s) = %d, expected %d", f1, q(t1).c_str(), g1, want(f1, t1));
            MC_CHECK(p, g2 == want(f2, t2), "doc_freq(%d, %s) = %d after (%d, %s), expected %d", f2, q(t2).c_str(), g2, f1, q(t1).c_str(), want(f2, t2));
        }
        // start at a term, then all sequences of next and skip_to
        int n = (int)tg.size() + 1;
        std::vector<int> seq(depth, 0);
        for (int start = -1; start < (int)tg.size(); start++) {
            std::fill(seq.begin(), seq.end(), 0);
            for (;;) {
                FrtTermEnum *te = start < 0 ? B.ir->terms(B.ir, fn[0]) : frt_ir_terms_from(B.ir, F[0], tg[start].c_str());
                Walker W{p, te, &B.f, B.f.begin()};
                std::string what = start < 0 ? "terms" : "terms_from " + q(tg[start]);
                bool before = start < 0;          // not yet on a term
                if (!before) {
                    W.it = B.f.lower_bound(tg[start]);
                    if (W.it == B.f.end()) MC_CHECK(p, te->curr_term[0] == 0, "%s is at %s, expected the end", what.c_str(), q(te->curr_term).c_str());
                    else W.expect(te->curr_term, what);
                }
                bool cut = false;
                for (int i = 0; i < depth; i++) {
                    p.step();
                    if (seq[i] == 0) {
                        if (before) before = false; else if (W.it != B.f.end()) ++W.it;
                        what += ", next"; W.expect(te->next(te), what);
                    } else {
                        const std::string &t = tg[seq[i] - 1];
                        W.it = B.f.lower_bound(t); before = false;
                        what += ", skip_to " + q(t); W.expect(te->skip_to(te, t.c_str()), what);
                    }
                }
                // the rest is still there
                while (W.it != B.f.end()) { ++W.it; W.expect(te->next(te), what + ", continuing"); }
                te->close(te); p.eval();
                int i = depth - 1; while (i >= 0 && ++seq[i] == n) seq[i--] = 0;
                if (i < 0) break;
            }
        }
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void all_sets(Path &p) { enumerate(p, SHORT, opt.thorough ? 4 : 3, opt.thorough ? 2 : 1); }
static void deep(Path &p) { enumerate(p, {"a", "ab", "b"}, opt.thorough ? 4 : 2, opt.thorough ? 4 : 3); }
static void long_terms(Path &p) { enumerate(p, longs(), 2, 1); }
// dictionaries larger than the index interval
static void sizes(Path &p) {
    static const int NT[] = {2, 17, 31, 64, 127, 128, 129, 130, 200, 255, 256, 257, 258, 384, 385, 520}, IV[] = {128, 64, 16, 7};
    int n = NT[p.choose(opt.thorough ? 16 : 14)], shape = p.choose(3), kind = p.choose(4), interval = IV[p.choose(4)];
    if (!p.mine()) return;
    p.note("[%s, interval %d, %d terms of shape %d] ", KINDS[kind], interval, n, shape);
    std::string e = guarded([&] {
        std::vector<std::string> terms; std::vector<int> where; for (int i = 0; i < n; i++) { std::string t = shape == 0 ? fmt("t%03d", i) : shape == 1 ? fmt("%0*d", 3 + i % 40, i) : std::string(i % 60, 'k') + fmt("%03d", i / 60) + std::string(i % 3, 'm'); terms.push_back(t); where.push_back(1 + (i * 7 + i / 11) % 3); }
        { std::vector<std::pair<std::string, int>> v; for (int i = 0; i < n; i++) v.push_back({terms[i], where[i]}); std::sort(v.begin(), v.end()); for (int i = 0; i < n; i++) { terms[i] = v[i].first; where[i] = v[i].second; if (i) MC_CHECK(p, terms[i] != terms[i - 1], "harness: equal terms"); } }
        Built B; build(B, terms, where, kind, interval); FrtSymbol F[2] = {SYM("f"), SYM("g")}; const Dict *D[2] = {&B.f, &B.g}; p.state(fnv(fmt("%d %d %d %d", n, shape, kind, interval)));
        for (int w = 0; w < 2; w++) {
            int fn = frt_fis_get_field_num(B.ir->fis, F[w]); FrtTermEnum *te = B.ir->terms(B.ir, fn); const Dict &d = *D[w];
            for (int round = 0; round < 2; round++) { if (round) te->set_field(te, fn); Walker W{p, te, &d, d.begin()}; for (;; ++W.it) { W.expect(te->next(te), "next"); p.step(); if (W.it == d.end()) break; } }
            te->set_field(te, fn); int i = 0;
            for (auto &t : terms) for (auto &x : {t, t + "!", t.substr(0, t.size() - 1)}) {
                auto want = d.find(x); int g = B.ir->doc_freq(B.ir, fn, x.c_str()); p.step(); MC_CHECK(p, g == (want == d.end() ? 0 : want->second), "doc_freq(%s) = %d", q(x).c_str(), g);
                FrtTermEnum *t2 = frt_ir_terms_from(B.ir, F[w], x.c_str()); Walker W{p, t2, &d, d.lower_bound(x)}; std::string what = "terms_from " + q(x);
                if (W.it == d.end()) MC_CHECK(p, t2->curr_term[0] == 0, "%s is at %s, expected the end", what.c_str(), q(t2->curr_term).c_str()); else W.expect(t2->curr_term, what);
                for (int k = 0; k < 3 && W.it != d.end(); k++) { ++W.it; W.expect(t2->next(t2), what + ", next"); }
                const std::string &far = terms[(i * 31 + 17) % n]; W.it = d.lower_bound(far); W.expect(t2->skip_to(t2, far.c_str()), what + ", skip_to " + q(far)); if (W.it != d.end()) { ++W.it; W.expect(t2->next(t2), what + ", skip_to, next"); }
                t2->close(t2);
                W.te = te; W.it = d.lower_bound(x); W.expect(te->skip_to(te, x.c_str()), "skip_to " + q(x)); i++;
            }
            te->close(te); p.eval();
        }
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = dictionary (term set, part assignment, layout) and position of the enumeration; transition = next, skip_to, set_field or a doc_freq lookup; every result compared with a sorted map";
    return run(argc, argv, m, {
        {"all_sets", "all assignments of 5 terms (empty, prefixes, multi-byte) to two parts (absent, first, second, both) x 4 layouts (one segment, two segments, multi-reader with different field numbers, merged) x index intervals 1..3 (thorough 4); every start x all sequences of 1 (thorough 2) next/skip_to over all targets, then to the end", all_sets},
        {"deep", "3 terms, same layouts, every start x all sequences of 3 (thorough 4) operations", deep},
        {"long", "terms of 253 and 254 bytes differing in the last byte", long_terms},
        {"sizes", "14 (thorough 16) dictionary sizes 2..385 (520) x 3 shapes of terms x 4 layouts x index intervals 128,64,16,7; every term and its neighbours looked up, started at and skipped to", sizes},
    });
}
