// C04: committed index content equals the history that produced it.
#include "index_model.hpp"
using namespace mc;

static MSchema schema() {
    MSchema s;
    FOpt id; id.index = FRT_INDEX_UNTOKENIZED; s.fields.push_back({"id", id});
    FOpt body; body.tv = FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS; s.fields.push_back({"body", body});
    FOpt title; title.store = FRT_STORE_NO; title.boost = 2; s.fields.push_back({"title", title});
    return s;                                      // "extra" and "late" get the default options when they first appear
}
static const std::vector<std::string> FIELDS = {"id", "body", "title", "extra", "late"};

static MDoc doc(int kind, int k) {
    MDoc d;
    std::string id = fmt("%d", k);
    if (kind == 0) d.f = {{"id", {id}}, {"body", {"a b a c"}}};
    else if (kind == 1) { d.f = {{"id", {id}}, {"title", {"x a"}}, {"body", {"b d", "e"}}}; d.f[1].boost = 3; }
    else { d.f = {{"extra", {"q r b"}}, {"late", {id}}}; d.boost = 0.5; }
    return d;
}
struct Cfg { const char *name; int store; MConfig c; };
static std::vector<Cfg> configs() {
    std::vector<Cfg> r;
    auto mk = [&](const char *n, int st, int mbd, int mf, bool cmp, int ii, int si, int mmd = INT_MAX, int mem = 0x1000000) {
        Cfg c; c.name = n; c.store = st; c.c.max_buffered_docs = mbd; c.c.merge_factor = mf; c.c.compound = cmp; c.c.index_interval = ii; c.c.skip_interval = si; c.c.max_merge_docs = mmd; c.c.chunk = 0x4000; c.c.max_buffer_memory = mem; r.push_back(c);
    };
    mk("ram buffered compound", 0, 100, 10, true, 128, 16);
    mk("ram flush-each merge2 plain", 0, 1, 2, false, 1, 2);
    mk("ram flush-each merge2 compound", 0, 1, 2, true, 2, 3);
    mk("ram flush-2 merge3 plain", 0, 2, 3, false, 3, 2);
    mk("ram flush-each merge10 compound", 0, 1, 10, true, 128, 16);
    mk("fs flush-2 merge2 compound", 1, 2, 2, true, 128, 16);
    mk("ram flush-each merge2 max-merge-2", 0, 1, 2, false, 128, 16, 2);
    mk("ram flush-by-memory merge2", 0, 100, 2, true, 128, 16, INT_MAX, 1);
    return r;
}

// One history: operations applied to the real index and to the model.
struct World {
    Path &p; Cfg cfg; FrtConfig fc; StoreBox st; MSchema sc = schema();
    FrtIndexWriter *iw = NULL;
    std::vector<MDoc> now;                          // model content after the last operation
    std::vector<std::vector<MDoc>> visible;         // states a new reader may show (last synchronised one and later ones)
    int k = 0;
    World(Path &pp, const Cfg &c) : p(pp), cfg(c), st(c.store) {
        fc = make_config(c.c);
        FrtFieldInfos *fis = sc.make(); frt_index_create(st.s, fis); frt_fis_deref(fis);
        iw = open_writer(st.s, &fc);
        visible = {now};
    }
    void synced() { visible = {now}; }
    void del(const char *field, const std::string &term) {
        frt_iw_delete_term(iw, SYM(field), term.c_str());
        erase(field, {term});
    }
    void erase(const char *field, std::vector<std::string> terms) {
        std::vector<MDoc> r;
        for (auto &d : now) {
            bool hit = false;
            if (auto *f = d.get(field)) for (auto &t : field_tokens(*f, sc.opt(field), 10000, ws_tokens)) for (auto &x : terms) if (t.t == x) hit = true;
            if (!hit) r.push_back(d);
        }
        now = r; synced();
    }
    void op(int o) {
        p.step();
        if (o < 3) { p.note(" add%c", 'A' + o); MDoc d = doc(o, k++); add_doc(iw, d); now.push_back(d); visible.push_back(now); }
        else if (o == 3) { p.note(" delete(body:a)"); del("body", "a"); }
        else if (o == 4) { p.note(" delete(body:[d,c],title:zz)"); char *t[] = {(char *)"d", (char *)"zz", (char *)"c"}; frt_iw_delete_terms(iw, SYM("body"), t, 3); erase("body", {"d", "zz", "c"}); }
        else if (o == 5) { p.note(" update(id:0)"); del("id", "0"); MDoc d = doc(1, 0); add_doc(iw, d); now.push_back(d); visible.push_back(now); }
        else if (o == 6) { p.note(" commit"); frt_iw_commit(iw); synced(); }
        else if (o == 7) { p.note(" optimize"); frt_iw_optimize(iw); synced(); }
        else if (o == 8) { p.note(" reopen"); frt_iw_close(iw); iw = open_writer(st.s, &fc); synced(); }
        else if (o == 9) { p.note(" reader-delete(first)"); frt_iw_close(iw); synced();
            FrtIndexReader *ir = frt_ir_open(st.s);
            for (int i = 0; i < ir->max_doc(ir); i++) if (!ir->is_deleted(ir, i)) { frt_ir_delete_doc(ir, i); now.erase(now.begin()); break; }
            frt_ir_close(ir); synced(); iw = open_writer(st.s, &fc); }
        else if (o == 10) { p.note(" reconfigure"); iw->config.max_buffered_docs = iw->config.max_buffered_docs > 5 ? 1 : 7; iw->config.merge_factor = iw->config.merge_factor > 2 ? 2 : 3; iw->config.use_compound_file = !iw->config.use_compound_file; }
        else if (o == 11) { p.note(" reader-setnorm(last)"); frt_iw_close(iw); synced();
            FrtIndexReader *ir = frt_ir_open(st.s); int last = -1;
            for (int i = 0; i < ir->max_doc(ir); i++) if (!ir->is_deleted(ir, i)) last = i;
            if (last >= 0 && now.back().get("body")) { frt_ir_set_norm(ir, last, SYM("body"), 77); now.back().norm["body"] = 77; }
            frt_ir_close(ir); synced(); iw = open_writer(st.s, &fc); }
    }
    void check(const char *when) {
        p.eval();
        FrtIndexReader *ir = frt_ir_open(st.s);
        Lines got = dump_reader(ir, sc, FIELDS);
        frt_ir_close(ir);
        std::string best;
        for (auto it = visible.rbegin(); it != visible.rend(); ++it) { std::string d = diff(got, dump_model(*it, sc, FIELDS)); if (d.empty()) { p.outcome(hash_lines(got)); return; } if (best.empty()) best = d; }
        p.fail("%s: a new reader shows%s", when, best.c_str());
    }
    u64 state() { u64 h = fnv(std::string(cfg.name)); for (auto &d : now) { for (auto &f : d.f) { h = fnv(f.name, h); for (auto &v : f.vals) h = fnv(v, h); } for (auto &n : d.norm) h = fnv((u64)n.second, h); } h = fnv((u64)visible.size(), h); h = fnv((u64)iw->config.max_buffered_docs, h); h = fnv((u64)iw->sis->size, h); return h; }
    void finish() {
        frt_iw_close(iw); synced(); check("after closing the writer");
        // a second writer still sees and keeps everything, and merging it all changes nothing
        iw = open_writer(st.s, &fc); frt_iw_optimize(iw); frt_iw_close(iw); check("after optimizing");
        FrtIndexReader *ir = frt_ir_open(st.s);
        MC_CHECK(p, ir->max_doc(ir) == (int)now.size(), "optimized index holds %d documents, %zu live", ir->max_doc(ir), now.size());
        frt_ir_close(ir);
    }
};

static void history(Path &p, const std::vector<int> &cfgs, const std::vector<int> &alphabet, int depth, bool prelude) {
    static std::vector<Cfg> C = configs();
    int ci = cfgs[p.choose((int)cfgs.size())], pre = prelude ? p.choose(2) : 0;
    std::vector<int> op;
    for (int i = 0; i < depth; i++) op.push_back(alphabet[p.choose((int)alphabet.size())]);
    if (!p.mine()) return;
    p.note("[%s]", C[ci].name);
    std::string e = guarded([&] {
        World w(p, C[ci]);
        if (pre) for (int o : {0, 1, 6, 2, 0, 9}) w.op(o);
        p.note(" |");
        for (int o : op) { w.op(o); p.state(w.state()); if (o != 10) w.check("right after the operation"); }
        w.finish();
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void wide(Path &p) { history(p, {0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, opt.thorough ? 4 : 3, true); }
static void deep(Path &p) { history(p, {1, 2, 3, 6}, {0, 2, 3, 6, 7}, opt.thorough ? 7 : 5, false); }
// merge cascades: long runs of adds with one of each disturbance inserted at every position
static void cascade(Path &p) {
    static std::vector<Cfg> C = configs();
    static const int N[] = {4, 6, 9, 11};
    int ci = p.choose(8), n = opt.thorough ? 3 + p.choose(14) : N[p.choose(4)], kind = opt.thorough ? p.choose(4) : 0, at = p.choose(n + 1), at2 = p.choose(n + 1), d1 = p.choose(6), d2 = p.choose(opt.thorough ? 3 : 2);
    if (at2 < at) { return; }
    if (!p.mine()) return;
    static const int D[] = {3, 4, 7, 8, 9, 10};
    p.note("[%s]", C[ci].name);
    std::string e = guarded([&] {
        World w(p, C[ci]);
        for (int i = 0; i <= n; i++) {
            if (i == at) w.op(D[d1]);
            if (i == at2) w.op(d2 == 0 ? 9 : d2 == 1 ? 5 : 6);
            if (i < n) w.op(kind < 3 ? (i * (kind + 1)) % 3 : i % 2);
            p.state(w.state());
        }
        w.check("at the end"); w.finish();
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
// many documents: buffers, caches and bit sets beyond their first sizes
static void sizes(Path &p) {
    static std::vector<Cfg> C; if (C.empty()) { C = {configs()[0], configs()[5], configs()[3], configs()[4]}; C[0].c.max_buffered_docs = 10000; C[1].c.max_buffered_docs = 50; C[1].c.merge_factor = 3; C[2].c.max_buffered_docs = 7; C[2].c.skip_interval = 16; C[2].c.index_interval = 128; C[3].c.max_buffered_docs = 16; }
    static const int ND[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 520, 1030}; int ci = p.choose(4), n = ND[p.choose(opt.thorough ? 19 : 16)], step = p.choose(4), how = p.choose(2);
    if (!p.mine()) return;
    static const int ST[] = {1000000, 2, 5, 33}; p.note("[%s] %d documents, every %dth deleted by the %s", C[ci].name, n, ST[step], how ? "reader" : "writer");
    std::string e = guarded([&] {
        World w(p, C[ci]); for (int i = 0; i < n; i++) { MDoc d = doc(i % 3, i); if (i % 3 == 2) d.f.push_back({"id", {fmt("%d", i)}}); add_doc(w.iw, d); w.now.push_back(d); w.p.step(); }
        frt_iw_commit(w.iw); w.synced(); w.check("after adding"); std::vector<MDoc> keep; std::vector<int> gone;
        for (int i = 0; i < n; i++) if (i % ST[step] == ST[step] - 1) gone.push_back(i); else keep.push_back(w.now[i]);
        if (how) { frt_iw_close(w.iw); FrtIndexReader *ir = frt_ir_open(w.st.s); for (int g : gone) { std::string id = fmt("%d", g); FrtTermDocEnum *td = frt_ir_term_docs_for(ir, SYM("id"), id.c_str()); MC_CHECK(p, td->next(td), "document %d not found by its id", g); frt_ir_delete_doc(ir, td->doc_num(td)); td->close(td); } frt_ir_close(ir); w.iw = open_writer(w.st.s, &w.fc); }
        else for (int g : gone) { std::string id = fmt("%d", g); frt_iw_delete_term(w.iw, SYM("id"), id.c_str()); w.p.step(); }
        w.now = keep; frt_iw_commit(w.iw); w.synced(); w.check("after deleting"); p.state(w.state()); w.finish();
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = (configuration, model documents, segment count, pending sync); transition = one index operation on the real index and the model; after each operation a freshly opened reader is dumped (stored fields, dictionary, postings, positions, norms, term vectors, lazy documents) and compared with the model";
    m.assumptions = {"adds that were not yet committed may or may not already be visible (automatic flushes commit)"};
    return run(argc, argv, m, {
        {"wide", "8 configurations (store, buffering, merge factor, compound, intervals, memory limit) x empty/prepared index x all sequences of 3 (thorough 4) out of 12 operations", wide},
        {"deep", "4 configurations x all sequences of 5 (thorough 7) out of add A/add C/delete/commit/optimize", deep},
        {"cascade", "8 configurations x runs of 4,6,9,11 (thorough 3..16, 4 document patterns) adds x every pair of positions of two disturbing operations (6 x 2, thorough 6 x 3)", cascade},
        {"sizes", "4 configurations x 16 (thorough 19) document counts 15..257 (1030) x every 2nd, 5th, 33rd or none deleted by writer or reader", sizes},
    });
}
