// C10: at most one modifier; locks are exclusive, only released by their holder, and recoverable.
#include "index_model.hpp"
using namespace mc;
extern "C" int usleep(useconds_t) { return 0; }
static const std::vector<std::string> FIELDS = {"id", "body"};
static MSchema schema() { MSchema s; FOpt id; id.index = FRT_INDEX_UNTOKENIZED; s.fields.push_back({"id", id}); return s; }
struct Reader { FrtIndexReader *ir = NULL, *sub = NULL; std::vector<MDoc> docs; int commit = 0; bool dirty = false, stale = false; };
struct World {
    Path &p; int kind; bool multi_seg; ScratchDir *dir = NULL; FrtStore *h[2]; FrtConfig fc; MSchema sc = schema();
    FrtIndexWriter *w[2] = {NULL, NULL}; Reader r[3]; int holder = -1;         // 0,1 writers; 2,3,4 readers
    std::vector<MDoc> disk, now; int commit = 1, k = 0;
    World(Path &pp, int kd, bool ms) : p(pp), kind(kd), multi_seg(ms) {
        if (kd == 0) { h[0] = h[1] = frt_open_ram_store(); }
        else { dir = new ScratchDir("lk"); h[0] = frt_open_fs_store(dir->path.c_str()); h[1] = frt_open_fs_store((dir->path + "/.").c_str()); }   // two handles as two processes have
        MConfig m; m.chunk = 0x4000; m.max_buffered_docs = 100; fc = make_config(m);
        FrtFieldInfos *fis = sc.make(); frt_index_create(h[0], fis); frt_fis_deref(fis);
        FrtIndexWriter *iw = open_writer(h[0], &fc); for (int i = 0; i < 4; i++) { MDoc d = doc(); add_doc(iw, d); disk.push_back(d); if (ms && i == 1) frt_iw_commit(iw); } frt_iw_close(iw);
        now = disk;
    }
    MDoc doc() { MDoc d; d.f = {{"id", {fmt("%d", k)}}, {"body", {fmt("w%d x", k)}}}; k++; return d; }
    FrtStore *hs(int i) { return h[i & 1]; }
    void bump() { commit++; disk = now; for (auto &x : r) if (x.ir) x.stale = x.commit != commit; }
    void op(int o) {
        if (o < 2) {                                               // open or close writer o
            if (w[o]) { p.note(" close-w%d", o); bool changed = now.size() != disk.size(); frt_iw_close(w[o]); w[o] = NULL; holder = -1; if (changed) bump(); }
            else {
                p.note(" open-w%d", o);
                std::string e = guarded([&] { w[o] = open_writer(hs(o), &fc); });
                if (holder >= 0) { MC_CHECK(p, err_code(e) == FRT_LOCK_ERROR, "second modifier admitted: opening writer %d while %d holds the lock: %s", o, holder, e.c_str()); w[o] = NULL; }
                else { MC_CHECK(p, e.empty(), "writer %d refused though nobody holds the lock: %s", o, e.c_str()); holder = o; now = disk; }
            }
        } else if (o < 4) { int i = o - 2; if (!w[i]) return skip(); p.note(" w%d.add", i); MDoc d = doc(); add_doc(w[i], d); now.push_back(d); if (i) { frt_iw_commit(w[i]); bump(); } }
        else if (o < 7) { int i = o - 4; Reader &x = r[i];            // open or close reader
            if (x.ir) { p.note(" close-r%d", i); frt_ir_close(x.ir); x.ir = NULL; if (x.dirty) { x.dirty = false; holder = -1; now = x.docs; bump(); } }
            else { p.note(" open-r%d", i); x.ir = frt_ir_open(hs(i)); if (i == 2) { FrtIndexReader **a = FRT_ALLOC_N(FrtIndexReader *, 1); a[0] = x.ir; x.ir = frt_mr_open(a, 1); } x.docs = disk; x.commit = commit; x.stale = false; }
        } else if (o < 10) { int i = o - 7; Reader &x = r[i]; if (!x.ir) return skip();
            int at = -1; for (int d = 0; d < x.ir->max_doc(x.ir); d++) if (!x.ir->is_deleted(x.ir, d)) { at = d; break; }
            if (at < 0) return skip();
            p.note(" r%d.delete", i);
            std::string e = guarded([&] { frt_ir_delete_doc(x.ir, at); }); int c = err_code(e);
            if (holder == 2 + i) { MC_CHECK(p, c == 0, "holder refused: %s", e.c_str()); x.docs.erase(x.docs.begin()); }
            else if (x.stale) MC_CHECK(p, c == FRT_STATE_ERROR || (holder >= 0 && c == FRT_LOCK_ERROR), "stale reader %d: %s", i, e.c_str());
            else if (holder >= 0) MC_CHECK(p, c == FRT_LOCK_ERROR, "second modifier admitted: reader %d while %d holds the lock: %s", i, holder, e.c_str());
            else { MC_CHECK(p, c == 0, "reader %d refused though nobody holds the lock: %s", i, e.c_str()); holder = 2 + i; x.dirty = true; x.docs.erase(x.docs.begin()); }
        } else { int i = o - 10; Reader &x = r[i]; if (!x.ir || !x.dirty) return skip(); p.note(" r%d.commit", i); frt_ir_commit(x.ir); x.dirty = false; holder = -1; now = x.docs; x.commit = commit + 1; bump(); }
        p.step();
    }
    void skip() { p.prune(); skipped = true; }
    bool skipped = false;
    void check() {
        for (int i = 0; i < (kind ? 2 : 1); i++) { p.eval(); bool l = frt_index_is_locked(h[i]); MC_CHECK(p, l == (holder >= 0), "index_is_locked through handle %d says %d, holder %d", i, l, holder); }
        for (int i = 0; i < 3; i++) if (r[i].ir) { std::string d = diff(dump_reader(r[i].ir, sc, FIELDS, 0), dump_model(r[i].docs, sc, FIELDS)); MC_CHECK(p, d.empty(), "reader %d:%s", i, d.c_str()); }
        FrtIndexReader *ir = frt_ir_open(h[0]); std::string d = diff(dump_reader(ir, sc, FIELDS, 0), dump_model(disk, sc, FIELDS)); frt_ir_close(ir);
        MC_CHECK(p, d.empty(), "index content (refused attempts must change nothing):%s", d.c_str());
    }
    u64 state() { u64 s = (u64)(kind * 2 + multi_seg); s = fnv((u64)(holder + 1), s); s = fnv((u64)disk.size(), s); s = fnv((u64)now.size(), s); for (auto &x : r) s = fnv((u64)(x.ir ? 1 + x.dirty * 2 + x.stale * 4 + x.docs.size() * 8 : 0), s); return s; }
    ~World() {
        for (int i = 0; i < 2; i++) if (w[i]) frt_iw_close(w[i]);
        for (int i = 0; i < 3; i++) if (r[i].ir) frt_ir_close(r[i].ir);
        if (kind) frt_store_deref(h[1]); frt_store_deref(h[0]); delete dir;
    }
};
static void actors(Path &p) {
    int kind = p.choose(2), ms = p.choose(2), depth = opt.thorough ? 6 : 5;
    int first = p.choose(13), second = p.choose(13);
    if (!p.mine()) return;
    p.note("%s store, %s:", KIND[kind], ms ? "two segments" : "one segment");
    std::string e = guarded([&] {
        World w(p, kind, ms);
        for (int i = 0; i < depth; i++) {
            int o = i == 0 ? first : i == 1 ? second : p.choose(13);
            // readers are interchangeable: reader 1 may only be opened after reader 0 was (the alias handle differs only for fs)
            w.op(o); if (w.skipped) return;
            p.state(w.state()); w.check();
        }
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
// raw lock objects: 3 objects over 2 handles (and 2 names), any sequence
static void raw(Path &p) {
    int kind = p.choose(2), depth = opt.thorough ? 7 : 5;
    std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(p.choose(15));
    if (!p.mine()) return;
    p.note("%s:", KIND[kind]);
    std::string e = guarded([&] {
        ScratchDir d("rl"); FrtStore *h[2];
        if (kind == 0) h[0] = h[1] = frt_open_ram_store(); else { h[0] = frt_open_fs_store(d.path.c_str()); h[1] = frt_open_fs_store((d.path + "/.").c_str()); }
        static const char *NM[] = {"one", "one", "one", "two"}; FrtLock *l[4]; bool have[4] = {false, false, false, false};
        auto handle = [&](int i) { return h[i == 2]; };
        for (int i = 0; i < 4; i++) l[i] = frt_open_lock(handle(i), NM[i]);
        auto held = [&](int i) { return i == 3 ? have[3] : have[0] || have[1] || have[2]; };
        for (int o : ops) {
            int i = o & 3;
            if (o < 4) { p.note(" obtain%d", i); bool got = l[i]->obtain(l[i]); MC_CHECK(p, got == !held(i), "obtain of lock %d gave %d while held=%d", i, got, held(i)); if (got) have[i] = true; }
            else if (o < 8) { if (!have[i]) { p.prune(); break; } p.note(" release%d", i); l[i]->release(l[i]); have[i] = false; }
            else if (o < 12) { if (have[i]) { p.prune(); break; } p.note(" close+open%d", i); frt_close_lock(l[i]); l[i] = frt_open_lock(handle(i), NM[i]); }
            else if (o == 12) { p.note(" clear_locks"); h[0]->clear_locks(h[0]); for (bool &b : have) b = false; }
            else if (o == 13) { if (!kind || have[2]) { p.prune(); break; } p.note(" reopen-handle1"); frt_close_lock(l[2]); frt_store_deref(h[1]); h[1] = frt_open_fs_store((d.path + "/.").c_str()); l[2] = frt_open_lock(h[1], NM[2]); }
            else { p.note(" clear-files"); h[0]->clear(h[0]); }
            p.step();
            for (int j = 0; j < 4; j++) { p.eval(); bool il = l[j]->is_locked(l[j]); MC_CHECK(p, il == held(j), "is_locked of lock %d is %d, held=%d", j, il, held(j)); }
            u64 s = (u64)kind; for (bool b : have) s = s * 2 + b; p.state(fnv(s, (u64)1));
        }
        for (auto x : l) { frt_close_lock(x); } if (kind) frt_store_deref(h[1]); frt_store_deref(h[0]);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = (lock holder, committed and pending content, readers open/dirty/stale); transition = one attempt to open, modify, commit or close; every outcome is compared with the exclusive-lock model, and lock state and content are observed after every transition";
    m.assumptions = {"two handles on one directory opened under different path spellings stand for two processes", "waiting between lock attempts is skipped"};
    return run(argc, argv, m, {
        {"actors", "2 stores x 1/2 segments; two writers, two readers and a multi-reader over two handles; all sequences of 5 (thorough 6) out of 13 operations", actors},
        {"raw", "2 stores; 4 lock objects over two handles and two names; all sequences of 5 (thorough 7) out of 15 operations", raw},
    });
}
