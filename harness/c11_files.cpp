// C11: index files are reclaimed exactly when nothing needs them; other files are never touched.
#include "crash_world.hpp"
using namespace mc;
static const std::map<std::string, std::string> FOREIGN = {{"notes.txt", "keep me"}, {"README", "x"}, {"data.frqx", "y"}, {"dump.sql", "z"}, {"a.fs", "1"}, {"_0.txt", "2"}, {"_0", "3"}, {"del", "4"}};
static bool foreign_ok(Path &p, FrtStore *s, const std::map<std::string, std::string> &snap, std::string *bad) {
    for (auto &f : FOREIGN) { auto it = snap.find(f.first); if (it == snap.end() || it->second != f.second) { *bad = f.first; return false; } }
    return true;
}
static std::string readable(FrtStore *s, const MSchema &sc, Lines *out) { return guarded([&] { FrtIndexReader *ir = frt_ir_open(s); *out = dump_reader(ir, sc, FIELDS); frt_ir_close(ir); }); }
enum { X_OPEN = O_N, X_CLOSE, X_RECREATE, X_N };
static const char *xname(int o) { return o < O_N ? OPN[o] : o == X_OPEN ? "open-reader" : o == X_CLOSE ? "close-reader" : "recreate"; }
static const std::vector<std::vector<int>> BASES = {{}, {O_ADD, O_ADD, O_COMMIT, O_ADD, O_ADD, O_DEL, O_CLOSE, O_RNORM, X_OPEN}, {O_ADD, O_ADD, O_COMMIT, O_ADD}};
static void history(Path &p, int nbase, int ncfg, int depth) {
    const Cfg &c = CFG[p.choose(ncfg)]; int kind = p.choose(2), base = p.choose(nbase);
    std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(p.choose(X_N));
    if (!p.mine()) return;
    p.note("[%s %s] base %d:", c.name, KIND[kind], base);
    std::string e = guarded([&] {
        StoreBox box(kind);
        FRT_REF(box.s); World w(c, box.s);
        for (auto &f : FOREIGN) write_file(box.s, f.first, f.second);
        std::vector<FrtIndexReader *> held; bool stale_norm = false;
        auto op = [&](int o) -> bool {
            if (o < O_N) { if (!w.possible(o)) return false; w.op(o); return true; }
            if (o == X_OPEN) { if (held.size() >= 2) return false; held.push_back(frt_ir_open(box.s)); return true; }
            if (o == X_CLOSE) { if (held.empty()) return false; frt_ir_close(held.back()); held.pop_back(); return true; }
            if (w.iw) return false;
            FrtFieldInfos *fis = w.sc.make(); frt_index_create(box.s, fis); frt_fis_deref(fis); w.now.clear(); w.reg.clear();
            if (kind == 0) for (auto &f : FOREIGN) write_file(box.s, f.first, f.second);      // creating an index empties a RAM directory
            return true;
        };
        for (int o : BASES[base]) op(o);
        for (int o : ops) {
            if (!op(o)) { p.prune(); break; }
            p.note(" %s", xname(o)); p.step();
            std::string bad; MC_CHECK(p, foreign_ok(p, box.s, snapshot(box.s), &bad), "file %s, which is not an index file, was removed or changed", bad.c_str());
            Lines g; std::string e2 = readable(box.s, w.sc, &g); MC_CHECK(p, e2.empty(), "index cannot be read: %s", e2.c_str());
        }
        for (auto *r : held) frt_ir_close(r);
        if (w.iw) { frt_iw_close(w.iw); w.iw = NULL; }
        FrtIndexWriter *iw = open_writer(box.s, &w.fc); frt_iw_close(iw);
        auto files = snapshot(box.s); std::string bad;
        MC_CHECK(p, foreign_ok(p, box.s, files, &bad), "file %s, which is not an index file, was removed or changed", bad.c_str());
        Lines want; std::string e3 = readable(box.s, w.sc, &want); MC_CHECK(p, e3.empty(), "index cannot be read: %s", e3.c_str());
        std::string d = diff(want, dump_model(w.now, w.sc, FIELDS)); MC_CHECK(p, d.empty(), "content:%s", d.c_str());
        u64 h = 3; for (auto &f : files) h = fnv(f.first, h);
        p.outcome(h); p.eval();
        if (p.fresh(fnv(std::string(c.name), fnv(hash_lines(want), h)))) {
            // every file left is needed: without it the index cannot be read or shows something else
            for (auto &f : files) {
                if (FOREIGN.count(f.first) || f.first == "segments") continue;
                StoreBox b2(0); for (auto &x : files) if (x.first != f.first) write_file(b2.s, x.first, x.second);
                Lines g; std::string e4 = readable(b2.s, w.sc, &g);
                MC_CHECK(p, !e4.empty() || diff(g, want).size(), "file %s is not needed by the index but was left behind", f.first.c_str());
            }
        }
        frt_store_deref(w.st);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void hist(Path &p) { history(p, 3, opt.thorough ? 4 : 3, opt.thorough ? 4 : 3); }
static void deep(Path &p) { history(p, 1, 1, opt.thorough ? 5 : 4); }
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = directory listing and content after a history; after every operation files of others are compared and the index read; at the end every remaining index file is removed in turn in a copy, which must make the index unreadable or different";
    m.assumptions = {"names ending in an index file extension or starting with 'segments' belong to the index", "unreferenced files may linger until the next writer is opened"};
    return run(argc, argv, m, {
        {"hist", "3 (thorough 4) configurations x 2 stores x 3 base indexes x all sequences of 3 (thorough 4) out of 13 operations", hist},
        {"deep", "1 configuration x 2 stores, from an empty index, all sequences of 4 (thorough 5) out of 13 operations", deep},
    });
}
