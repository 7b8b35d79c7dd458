// C13: posting enumeration agrees under next, read, skip_to, seek and seek_te.
#include "index_model.hpp"
using namespace mc;
struct Post { int doc; std::vector<int> pos; };
typedef std::vector<Post> Postings;
struct World {
    StoreBox a, b; FrtIndexReader *ir = NULL; int n = 0; std::map<std::string, Postings> all;      // postings including deleted documents
    std::vector<bool> del;
    World() : a(0), b(0) {} ~World() { if (ir) frt_ir_close(ir); }
    Postings live(const std::string &t) const { Postings r; auto i = all.find(t); if (i != all.end()) for (auto &p : i->second) if (!del[p.doc]) r.push_back(p); return r; }
    void delete_set(int mask) { frt_ir_undelete_all(ir); for (int i = 0; i < n; i++) { del[i] = i < 31 && (mask >> i & 1); if (del[i]) frt_ir_delete_doc(ir, i); } }
};
enum { ONE, TWO, MERGED, MULTI, NESTED, NKIND };
static const char *KINDS[] = {"one segment", "two segments", "merged", "multi-reader", "multi-reader of a two-segment index"};
static void build(World &W, const std::vector<std::string> &texts, int kind, int split, int skip) {
    MSchema sc, sc2; sc.fields = {{"f", FOpt()}}; sc2.fields = {{"x", FOpt()}, {"f", FOpt()}};
    MConfig c; c.skip_interval = skip; c.compound = false; c.chunk = 0x4000; c.merge_factor = 100; c.index_interval = 2; FrtConfig fc = make_config(c);
    auto create = [&](FrtStore *s, const MSchema &m) { FrtFieldInfos *fis = m.make(); frt_index_create(s, fis); frt_fis_deref(fis); };
    create(W.a.s, sc); W.n = (int)texts.size(); W.del.assign(W.n, false);
    FrtIndexWriter *iw = open_writer(W.a.s, &fc), *w2 = NULL;
    for (int i = 0; i < W.n; i++) {
        if (i && (kind == TWO || kind == MERGED) && i == split) frt_iw_commit(iw);
        if (i && kind == NESTED && i == (split + 1) / 2) frt_iw_commit(iw);
        if (i == split && kind >= MULTI) { create(W.b.s, sc2); w2 = open_writer(W.b.s, &fc); }
        MDoc d; d.f = {{"f", {texts[i]}}}; add_doc(w2 ? w2 : iw, d);
        for (auto &t : ws_tokens(texts[i])) { auto &pl = W.all[t.t]; if (pl.empty() || pl.back().doc != i) pl.push_back({i, {}}); pl.back().pos.push_back(t.pos); }
    }
    if (kind == MERGED) frt_iw_optimize(iw);
    frt_iw_close(iw); if (w2) frt_iw_close(w2);
    if (w2) { FrtIndexReader **rs = (FrtIndexReader **)malloc(2 * sizeof *rs); rs[0] = frt_ir_open(W.a.s); rs[1] = frt_ir_open(W.b.s); W.ir = frt_mr_open(rs, 2); }
    else W.ir = frt_ir_open(W.a.s);
}
struct Op { char k; int a; std::string t; };        // n=next s=skip_to r=read K=seek T=seek_te; for positions: a2 = positions to read is in `rd`
static u64 steps;
struct Cursor {
    Path &p; World &W; FrtTermDocEnum *td; bool positions; Postings pl0; const Postings *plp;  int cur = -1; const char *head; int nlog = 0; const Op *ops[64];
    void rec(const Op &o) { if (nlog < 60) ops[nlog++] = &o; }
    std::string str() const { std::string r = head; for (int i = 0; i < nlog; i++) r += ops[i]->k == 'n' ? " next" : ops[i]->k == 's' ? fmt(" skip_to(%d)", ops[i]->a) : ops[i]->k == 'r' ? fmt(" read(%d)", ops[i]->a) : (ops[i]->k == 'K' ? " seek(" : " seek_te(") + q(ops[i]->t) + ")"; return r; }
    Cursor(Path &p_, World &W_, FrtTermDocEnum *t, bool ps, const Postings &s0, const char *h) : p(p_), W(W_), td(t), positions(ps), plp(&s0), head(h) {}
    void landed(int want, bool got, int rd) {
        if (want >= (int)plp->size()) { cur = (int)plp->size(); MC_CHECK(p, !got, "%s: true, expected the end", str().c_str()); return; }
        cur = want;
        MC_CHECK(p, got, "%s: the end, expected doc %d", str().c_str(), (*plp)[cur].doc);
        int d = td->doc_num(td), f = td->freq(td);
        MC_CHECK(p, d == (*plp)[cur].doc && f == (int)(*plp)[cur].pos.size(), "%s: doc %d freq %d, expected doc %d freq %zu", str().c_str(), d, f, (*plp)[cur].doc, (*plp)[cur].pos.size());
        if (positions) for (int i = 0; i < f && i < rd; i++) { int x = td->next_position(td); MC_CHECK(p, x == (*plp)[cur].pos[i], "%s: position %d of doc %d is %d, expected %d", str().c_str(), i, d, x, (*plp)[cur].pos[i]); }
    }
    void apply(const Op &o, int rd) {
        steps++; rec(o);
        switch (o.k) {
        case 'n': landed(std::min(cur + 1, (int)plp->size()), td->next(td), rd); break;
        case 's': { int w = cur + 1; while (w < (int)plp->size() && (*plp)[w].doc < o.a) w++; landed(std::min(w, (int)plp->size()), td->skip_to(td, o.a), rd); break; }
        case 'r': {
            int d[8], f[8]; for (int i = 0; i < 8; i++) d[i] = f[i] = -1;
            int got = td->read(td, d, f, o.a), want = std::min(o.a, std::max(0, (int)plp->size() - cur - 1));
            MC_CHECK(p, got == want, "%s: %d entries, expected %d", str().c_str(), got, want);
            for (int i = 0; i < got; i++) MC_CHECK(p, d[i] == (*plp)[cur + 1 + i].doc && f[i] == (int)(*plp)[cur + 1 + i].pos.size(), "%s: entry %d is doc %d freq %d, expected %d freq %zu", str().c_str(), i, d[i], f[i], (*plp)[cur + 1 + i].doc, (*plp)[cur + 1 + i].pos.size());
            cur = got < o.a ? (int)plp->size() : cur + got; break; }
        case 'K': td->seek(td, frt_fis_get_field_num(W.ir->fis, SYM("f")), o.t.c_str()); pl0 = W.live(o.t); plp = &pl0; cur = -1; break;
        case 'T': {
            FrtTermEnum *te = frt_ir_terms_from(W.ir, SYM("f"), o.t.c_str());
            td->seek_te(td, te); te->close(te); pl0 = W.live(o.t); plp = &pl0; cur = -1; break; }
        }
    }
    void drain() { static const Op N{'n', 0, ""}, S{'s', 1, ""}; while (cur < (int)plp->size()) apply(N, 100); apply(N, 0); apply(S, 0); }
};
// every sequence of `depth` operations on a fresh enumeration made by mk, then to the end
template <class MK> static void sequences(Path &p, World &W, bool positions, const Postings &start, const std::vector<std::pair<Op, int>> &ops, int depth, const char *what, MK mk) {
    std::vector<int> seq(depth, 0); u64 evals = 0;
    for (;;) {
        FrtTermDocEnum *td = mk();
        Cursor C(p, W, td, positions, start, what);
        for (int i : seq) C.apply(ops[i].first, ops[i].second);
        C.drain(); td->close(td); evals++;
        int i = depth - 1; while (i >= 0 && ++seq[i] == (int)ops.size()) seq[i--] = 0;
        if (i < 0) break;
    }
    p.step(steps); p.eval(evals); steps = 0;
}
static std::vector<std::pair<Op, int>> moves(int n, bool positions, const std::vector<int> &targets) {
    std::vector<std::pair<Op, int>> v;
    for (int rd = 0; rd < (positions ? 2 : 1); rd++) { v.push_back({{'n', 0, ""}, rd}); for (int t : targets) v.push_back({{'s', t, ""}, rd}); }
    if (!positions) { v.push_back({{'r', 1, ""}, 0}); v.push_back({{'r', 2, ""}, 0}); v.push_back({{'r', n, ""}, 0}); }
    return v;
}
static const char *TEXT[] = {"u", "u t", "t u t"};
static void lists(Path &p) {
    int n = opt.thorough ? 6 : 5;
    std::vector<std::string> texts; std::string lay; for (int i = 0; i < n; i++) { int c = p.choose(3); texts.push_back(TEXT[c]); lay += (char)('0' + c); }
    int kind = p.choose(NKIND), skip = 1 + p.choose(opt.thorough ? 4 : 3);
    int split = kind == ONE ? n : 1 + p.choose(n - 1);
    if (!opt.thorough && kind != ONE && split != 2 && split != 4) { p.prune(); return; }
    if (!p.mine()) return;
    p.note("[%s, split %d, skip interval %d, frequencies %s] ", KINDS[kind], split, skip, lay.c_str());
    std::string e = guarded([&] {
        World W; build(W, texts, kind, split, skip);
        std::vector<int> tg; for (int i = 0; i <= n; i++) tg.push_back(i);
        int save = p.s->note_len;
        auto dm = moves(n, false, tg), pm = moves(n, true, tg);
        for (int del = 0; del < (1 << n); del++) {
            if (kind != ONE && !opt.thorough && del != 0 && del % (kind == TWO ? 3 : 6) != 2) continue;
            p.s->note_len = save; p.note("deleted %x ", del); W.delete_set(del);
            p.state(fnv((u64)del, fnv(fmt("%d %d %d", kind, split, skip), fnv(lay))));
            Postings pl = W.live("t");
            int d = (kind == ONE && del % 12 == 0) || opt.thorough ? 3 : 2;
            sequences(p, W, false, pl, dm, d, "docs:", [&] { return frt_ir_term_docs_for(W.ir, SYM("f"), "t"); });
            sequences(p, W, true, pl, pm, 2, "positions:", [&] { return frt_ir_term_positions_for(W.ir, SYM("f"), "t"); });
            if (del % 3 == 0) { // several terms at once
                std::map<int, std::set<int>> u; for (auto *t : {"t", "u"}) for (auto &x : W.live(t)) u[x.doc].insert(x.pos.begin(), x.pos.end());
                Postings up; for (auto &x : u) up.push_back({x.first, std::vector<int>(x.second.begin(), x.second.end())});
                char *ts[] = {(char *)"t", (char *)"no", (char *)"u"}; int fn = frt_fis_get_field_num(W.ir->fis, SYM("f"));
                sequences(p, W, true, up, pm, 2, "any of t, u:", [&] { return frt_mtdpe_new(W.ir, fn, ts, 3); });
            }
        }
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void reseek(Path &p) {
    int n = opt.thorough ? 4 : 3; std::vector<std::string> texts; std::string lay; for (int i = 0; i < n; i++) { int c = p.choose(3); texts.push_back(TEXT[c]); lay += (char)('0' + c); }
    texts[0] += " z a"; texts[n - 1] += " z z";
    int kind = p.choose(NKIND), skip = 1 + p.choose(2);
    if (!p.mine()) return;
    p.note("[%s, skip interval %d, frequencies %s] ", KINDS[kind], skip, lay.c_str());
    std::string e = guarded([&] {
        World W; build(W, texts, kind, 2, skip); int save = p.s->note_len;
        static const int DEL[] = {0, 1, 2, 4, 6, 8, 9, 14};
        for (int del : DEL) {
            if (del >= 1 << n) continue;
            p.s->note_len = save; p.note("deleted %x ", del); W.delete_set(del);
            p.state(fnv((u64)del, fnv(fmt("%d %d", kind, skip), fnv(lay))));
            for (int positions = 0; positions < 2; positions++) {
                std::vector<std::pair<Op, int>> ops;
                for (auto *t : {"t", "z", "a", "none", "~"}) { ops.push_back({{'K', 0, t}, 0}); if (W.all.count(t)) ops.push_back({{'T', 0, t}, 0}); }
                ops.push_back({{'n', 0, ""}, 0}); ops.push_back({{'n', 0, ""}, 1}); ops.push_back({{'s', 2, ""}, 0}); ops.push_back({{'s', 3, ""}, 1});
                if (!positions) { ops.push_back({{'r', 2, ""}, 0}); }
                sequences(p, W, positions, W.live("u"), ops, opt.thorough ? 4 : 3, positions ? "positions of u:" : "docs of u:",
                    [&] { return positions ? frt_ir_term_positions_for(W.ir, SYM("f"), "u") : frt_ir_term_docs_for(W.ir, SYM("f"), "u"); });
            }
        }
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
// long lists: gaps above 127 documents and positions, default skip intervals
static void long_lists(Path &p) {
    static const int STRIDE[] = {1, 2, 7, 130}; static const int SK[] = {16, 5, 3, 1};
    int st = STRIDE[p.choose(4)], sk = SK[p.choose(4)], kind = p.choose(3), first = p.choose(2), cnt = 15 + p.choose(4), del = p.choose(4);
    if (!p.mine()) return;
    p.note("[%s, skip interval %d, %d postings every %d documents from %d, deletions %d] ", KINDS[kind], sk, cnt, st, first, del);
    std::string e = guarded([&] {
        std::string far; for (int i = 0; i < 200; i++) far += "w ";
        std::vector<std::string> texts; int n = first + st * (cnt - 1) + 2;
        for (int i = 0; i < n; i++) { bool h = i >= first && (i - first) % st == 0 && (i - first) / st < cnt; int k = (i - first) / st; texts.push_back(!h ? "w" : k % 3 == 0 ? "t" : k % 3 == 1 ? far + "t t" : "t " + far + "t " + (k % 2 ? far + far + "t" : "")); }
        World W; build(W, texts, kind, n / 3 + 1, sk);
        for (int i = 0; i < n; i++) if ((del == 1 && i == first) || (del == 2 && (i / st) % 2) || (del == 3 && i >= first && i < first + 9 * st)) { W.del[i] = true; frt_ir_delete_doc(W.ir, i); }
        std::vector<int> tg; for (int k = 0; k <= cnt; k += 1) { tg.push_back(first + k * st); if (st > 1) tg.push_back(first + k * st - 1); } 
        if (st > 1 && !opt.thorough) { std::vector<int> t2; for (size_t i = 0; i < tg.size(); i += 2) t2.push_back(tg[i] + (i % 4 ? 1 : 0)); tg = t2; }
        p.state(fnv(fmt("%d %d %d %d %d %d", st, sk, kind, first, cnt, del)));
        Postings pl = W.live("t");
        auto dm = moves(4, false, tg), pm = moves(4, true, tg);
        sequences(p, W, false, pl, dm, 2, "docs:", [&] { return frt_ir_term_docs_for(W.ir, SYM("f"), "t"); });
        sequences(p, W, true, pl, pm, 2, "positions:", [&] { return frt_ir_term_positions_for(W.ir, SYM("f"), "t"); });
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
// every number of postings across the read buffer, the skip interval and its multiples
static void counts(Path &p) {
    static std::vector<int> CN; if (CN.empty()) { for (int i = 1; i <= 36; i++) CN.push_back(i); for (int b : {48, 64, 96, 128, 256}) for (int i = -1; i <= 2; i++) CN.push_back(b + i); if (opt.thorough) for (int b : {512, 1024, 1029}) CN.push_back(b); }
    static const int SK[] = {16, 4, 2};
    int cnt = CN[p.choose((int)CN.size())], st = 1 + 2 * p.choose(2), sk = SK[p.choose(3)], kind = p.choose(NKIND), del = p.choose(3);
    if (!p.mine()) return;
    p.note("[%s, skip interval %d, %d postings every %d documents, deletions %d] ", KINDS[kind], sk, cnt, st, del);
    std::string e = guarded([&] {
        int n = st * (cnt - 1) + 4; std::vector<std::string> texts;
        for (int i = 0; i < n; i++) { bool h = i >= 1 && (i - 1) % st == 0 && (i - 1) / st < cnt; int k = (i - 1) / st; texts.push_back(!h ? "w" : k % 4 == 0 ? "t" : k % 4 == 1 ? "w w t w t" : k % 4 == 2 ? "t t" : "w t w t t"); }
        World W; build(W, texts, kind, n / 3 + 1, sk);
        for (int i = 0; i < n; i++) if ((del == 1 && i % 5 == 1) || (del == 2 && i >= n / 4 && i < n / 2)) { W.del[i] = true; frt_ir_delete_doc(W.ir, i); }
        std::vector<int> all, few; for (int i = 0; i <= n; i++) { all.push_back(i); if (i % (n / 7 + 1) == 1) few.push_back(i); }
        p.state(fnv(fmt("%d %d %d %d %d", st, sk, kind, cnt, del))); Postings pl = W.live("t"); auto docs = [&] { return frt_ir_term_docs_for(W.ir, SYM("f"), "t"); }; auto pos = [&] { return frt_ir_term_positions_for(W.ir, SYM("f"), "t"); };
        sequences(p, W, false, pl, moves(8, false, all), 1, "docs:", docs); sequences(p, W, true, pl, moves(8, true, all), 1, "positions:", pos);
        sequences(p, W, false, pl, moves(8, false, few), 2, "docs:", docs); sequences(p, W, true, pl, moves(8, true, few), 2, "positions:", pos);
        // reading in blocks of every size
        for (int b = 1; b <= std::min(cnt + 1, 40); b++) { FrtTermDocEnum *td = docs(); std::vector<int> d(b), f(b); size_t at = 0; for (;;) { int g = td->read(td, &d[0], &f[0], b); int want = std::min((size_t)b, pl.size() - at); MC_CHECK(p, g == want, "reading blocks of %d: %d entries after %zu of %zu", b, g, at, pl.size()); for (int i = 0; i < g; i++) MC_CHECK(p, d[i] == pl[at + i].doc && f[i] == (int)pl[at + i].pos.size(), "reading blocks of %d: entry %zu is doc %d freq %d, expected %d freq %zu", b, at + i, d[i], f[i], pl[at + i].doc, pl[at + i].pos.size()); at += g; p.step(); if (g < b) break; } td->close(td); }
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = posting list (frequencies, layout, skip interval, deleted set) and enumeration position; transition = next, skip_to, read, seek or seek_te; every result, document, frequency and position compared with the list derived from the texts";
    return run(argc, argv, m, {
        {"lists", "all frequency assignments {0,1,2} to 5 documents (thorough 6) x 5 layouts x splits x skip intervals 1..3 (4) x all deletion sets (reduced for multi layouts) x all sequences of 2-3 operations (next, skip_to any document, read 1/2/n; 0 or 1 positions read), then to the end; also the any-of-several-terms enumeration", lists},
        {"reseek", "3 documents (thorough 4), all frequency assignments x 5 layouts x 5 (8) deletion sets x all sequences of 3 (thorough 4) of seek/seek_te to 5 present and missing terms, next, skip_to, read", reseek},
        {"long", "15-18 postings at strides 1..130 with positions above 127, skip intervals 16,5,3,1, 3 layouts, 4 deletion patterns, all pairs of operations", long_lists},
        {"counts", "56 posting counts 1..258 x 2 strides x skip intervals 16,4,2 x 5 layouts x 3 deletion patterns: skip_to every document from the start, pairs of operations, blocks of every size up to 40", counts},
    });
}
