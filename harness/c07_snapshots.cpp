// C07: readers are immutable snapshots, know when they are stale, and stale readers cannot modify.
#include "index_model.hpp"
using namespace mc;
extern "C" int usleep(useconds_t) { return 0; }        // lock retries need not wait
static const std::vector<std::string> FIELDS = {"id", "body"};
static MSchema schema() { MSchema s; FOpt id; id.index = FRT_INDEX_UNTOKENIZED; s.fields.push_back({"id", id}); FOpt b; b.tv = FRT_TERM_VECTOR_YES; s.fields.push_back({"body", b}); return s; }
struct Cfg { const char *name; int store, mf; bool compound; };
static const Cfg CFG[] = {{"ram plain merge2", 0, 2, false}, {"ram compound merge10", 0, 10, true}, {"fs compound merge2", 1, 2, true}, {"fs plain merge10", 1, 10, false}};

struct Reader { FrtIndexReader *ir = NULL; std::vector<MDoc> docs; std::string commit; bool dirty = false; Lines want; std::map<std::string, int> norms; };
struct World {
    Path &p; Cfg cfg; FrtConfig fc; StoreBox st; MSchema sc = schema(); FrtIndexWriter *iw = NULL;
    std::vector<MDoc> now, disk; std::map<std::string, MDoc> reg; int k = 0, holder = -1; bool recreated = false;
    Reader r[2];
    World(Path &pp, const Cfg &c) : p(pp), cfg(c), st(c.store) {
        MConfig m; m.merge_factor = c.mf; m.max_buffered_docs = 100; m.compound = c.compound; m.chunk = 0x4000; fc = make_config(m); create();
    }
    void create() { FrtFieldInfos *fis = sc.make(); frt_index_create(st.s, fis); frt_fis_deref(fis); now.clear(); disk.clear(); }
    std::string commit_id() {          // identity of the newest commit as found in the store
        std::vector<std::string> names; st->each(st.s, [](const char *n, void *a) { ((std::vector<std::string> *)a)->push_back(n); }, &names);
        std::string best; for (auto &n : names) if (n.compare(0, 9, "segments_") == 0 && (n.size() > best.size() || (n.size() == best.size() && n > best))) best = n;
        return best + "/" + slurp_file(st.s, best);
    }
    void add() { MDoc d; d.f = {{"id", {fmt("%d", k)}}, {"body", {k % 2 ? "a b" : "b c c"}}}; k++; reg[d.f[0].vals[0]] = d; add_doc(iw, d); now.push_back(d); }
    bool can_write() { return iw || holder < 0; }
    void writer(bool want) { if (want && !iw) iw = open_writer(st.s, &fc); if (!want && iw) { frt_iw_close(iw); iw = NULL; disk = now; } }
    void remodel(Reader &x) { x.want = dump_model(x.docs, sc, FIELDS); }
    // true if the operation is possible
    bool op(int o) {
        switch (o) {
        case 0: if (!can_write()) return false; p.note(" add"); writer(true); add(); break;
        case 1: if (!iw) return false; p.note(" commit"); frt_iw_commit(iw); disk = now; break;
        case 2: if (!can_write()) return false; p.note(" delete(a)"); { bool had = iw; writer(true); frt_iw_delete_term(iw, SYM("body"), "a"); std::vector<MDoc> n; for (auto &d : now) if (d.f[1].vals[0][0] != 'a') n.push_back(d); now = n; disk = now; if (!had) writer(false); } break;
        case 3: if (!can_write()) return false; p.note(" optimize"); { bool had = iw; writer(true); frt_iw_optimize(iw); disk = now; if (!had) writer(false); } break;
        case 4: if (!iw) return false; p.note(" close-writer"); writer(false); break;
        case 5: case 6: { Reader &x = r[o - 5]; if (x.ir) return false; p.note(" open-r%d", o - 5); x.ir = frt_ir_open(st.s); x.docs = disk; x.commit = commit_id(); x.dirty = false; remodel(x); break; }
        case 7: case 8: case 9: case 10: {
            int i = o == 8; Reader &x = r[i]; if (!x.ir) return false;
            if (iw || (holder >= 0 && holder != i)) return false;            // lock conflicts are decided by C10
            const char *nm = o == 9 ? "set-norm" : o == 10 ? "undelete" : "delete";
            int at = -1; for (int d = 0; d < x.ir->max_doc(x.ir); d++) if (!x.ir->is_deleted(x.ir, d)) { at = d; break; }
            if (o != 10 && at < 0) return false;
            p.note(" r%d.%s", i, nm);
            bool stale = x.commit != commit_id();
            std::string e = guarded([&] { if (o == 9) frt_ir_set_norm(x.ir, at, SYM("body"), 77); else if (o == 10) frt_ir_undelete_all(x.ir); else frt_ir_delete_doc(x.ir, at); });
            if (stale) { MC_CHECK(p, err_code(e) == FRT_STATE_ERROR, "stale reader %d modified the index: %s", i, e.c_str()); break; }
            MC_CHECK(p, e.empty(), "up-to-date reader %d was refused: %s", i, e.c_str());
            holder = i; x.dirty = true;
            if (o == 9) { x.docs[0].norm["body"] = 77; x.norms[x.docs[0].f[0].vals[0]] = 77; }
            else if (o == 10) {
                x.docs.clear();
                for (int d = 0; d < x.ir->max_doc(x.ir); d++) { MC_CHECK(p, !x.ir->is_deleted(x.ir, d), "document %d still deleted after undelete", d); FrtDocument *doc = x.ir->get_doc(x.ir, d); FrtDocField *f = frt_doc_get_field(doc, SYM("id")); MC_CHECK(p, f && reg.count(f->data[0]), "undeleted document %d unknown", d); x.docs.push_back(reg[f->data[0]]); frt_doc_destroy(doc); }
                for (auto &y : x.docs) { auto it = x.norms.find(y.f[0].vals[0]); if (it != x.norms.end()) y.norm["body"] = it->second; }
            } else x.docs.erase(x.docs.begin());
            remodel(x); break; }
        case 11: case 12: { int i = o - 11; Reader &x = r[i]; if (!x.ir || !x.dirty) return false; p.note(" r%d.commit", i); frt_ir_commit(x.ir); committed(i); x.commit = commit_id(); break; }
        case 13: case 14: { int i = o - 13; Reader &x = r[i]; if (!x.ir) return false; p.note(" r%d.close", i); bool d = x.dirty; frt_ir_close(x.ir); x.ir = NULL; if (d) committed(i); break; }
        case 15: if (iw || holder >= 0 || recreated) return false; p.note(" recreate"); create(); recreated = true; break;
        }
        p.step(); return true;
    }
    void committed(int i) { disk = now = r[i].docs; for (auto &n : r[i].norms) reg[n.first].norm["body"] = n.second; r[i].norms.clear(); r[i].dirty = false; holder = -1; }
    void check() {
        for (int i = 0; i < 2; i++) if (r[i].ir) {
            p.eval();
            Lines got = dump_reader(r[i].ir, sc, FIELDS);
            std::string d = diff(got, r[i].want);
            MC_CHECK(p, d.empty(), "reader %d changed:%s", i, d.c_str());
            bool latest = frt_ir_is_latest(r[i].ir), expect = r[i].commit == commit_id();
            MC_CHECK(p, latest == expect, "reader %d says it is %slatest", i, latest ? "" : "not ");
        }
    }
    u64 state() { u64 h = fnv(std::string(cfg.name)); auto docs = [&](std::vector<MDoc> &v) { for (auto &d : v) { h = fnv(d.f[0].vals[0], h); h = fnv((u64)d.norm.size(), h); } h = fnv((u64)99, h); }; docs(now); docs(disk); for (auto &x : r) { h = fnv((u64)(x.ir ? 2 + x.dirty : 0), h); if (x.ir) { docs(x.docs); h = fnv((u64)(x.commit == commit_id()), h); } } return fnv((u64)(iw != NULL), h); }
    void finish() {
        for (int i = 0; i < 2; i++) if (r[i].ir) { bool d = r[i].dirty; frt_ir_close(r[i].ir); r[i].ir = NULL; if (d) committed(i); }
        writer(false);
        FrtIndexReader *ir = frt_ir_open(st.s); std::string d = diff(dump_reader(ir, sc, FIELDS), dump_model(now, sc, FIELDS)); frt_ir_close(ir);
        MC_CHECK(p, d.empty(), "final content:%s", d.c_str());
    }
};
static void run_ops(Path &p, const std::vector<int> &prefix, const std::vector<int> &alphabet, int depth, int ncfg) {
    const Cfg &c = CFG[p.choose(ncfg)];
    int first = alphabet[p.choose((int)alphabet.size())];
    int second = alphabet[p.choose((int)alphabet.size())];
    if (!p.mine()) return;
    p.note("[%s]", c.name);
    std::string e = guarded([&] {
        World w(p, c);
        for (int o : prefix) w.op(o);
        p.note(" |"); w.check();
        for (int i = 0; i < depth; i++) {
            int o = i == 0 ? first : i == 1 ? second : alphabet[p.choose((int)alphabet.size())];
            if (!w.op(o)) { p.prune(); w.finish(); return; }
            p.state(w.state()); w.check();
        }
        w.finish();
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static const std::vector<int> ALL = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
// two segments, one deletion, both readers open on it
static void two_readers(Path &p) { run_ops(p, {0, 1, 0, 4, 0, 0, 2, 4, 0, 4, 5, 6}, ALL, opt.thorough ? 5 : 4, opt.thorough ? 4 : 3); }
// one reader open, a writer with buffered documents
static void with_writer(Path &p) { run_ops(p, {0, 0, 4, 5, 0}, ALL, opt.thorough ? 5 : 4, opt.thorough ? 4 : 2); }
// a small single-segment index
static void single(Path &p) { run_ops(p, {0, 0, 0, 3, 4, 5}, {2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 15}, opt.thorough ? 6 : 5, opt.thorough ? 4 : 2); }
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = (committed content, writer content, per reader: snapshot, pending changes, up to date or not); transition = one operation of a writer or reader; after every transition each open reader is fully dumped and compared with its snapshot and its is_latest answer with the segments file in the store";
    m.assumptions = {"conflicting lock attempts are decided by C10"};
    return run(argc, argv, m, {
        {"two_readers", "3 (thorough 4) configurations; two readers on a 2-segment index with a deletion; all sequences of 4 (thorough 5) out of 16 operations", two_readers},
        {"with_writer", "2 (thorough 4) configurations; a reader and a writer with buffered documents; all sequences of 4 (thorough 5) out of 16 operations", with_writer},
        {"single", "2 (thorough 4) configurations; single segment; all sequences of 5 (thorough 6) out of 11 operations", single},
    });
}
