// C08: the process dies at any file-system call (or part-way through a write) of any history of index operations.
#include "crash_world.hpp"
using namespace mc;
struct Rec {                        // directory states a crash may leave behind while recording
    std::vector<std::pair<fsio::Dir, std::string>> states; std::set<u64> seen; const std::string &dir; int calls = 0; bool all;
    explicit Rec(const std::string &d, bool all_cuts) : dir(d), all(all_cuts) {
        fsio::dir = d; fsio::active = true;
        fsio::hook = [this](const fsio::Call &c, size_t &part) -> int {
            if (!c.mutates) return 0;
            calls++;
            take(fmt("before %s %s", c.name, c.path.c_str()));
            if (!strcmp(c.name, "write") && c.len > 1) {      // part-way through: the file is extended step by step
                off_t pos = lseek(c.fd, 0, SEEK_CUR);
                std::vector<size_t> cuts;
                if (c.path.compare(0, 8, "segments") == 0) { if (all) for (size_t i = 1; i < c.len; i++) cuts.push_back(i); else cuts = {c.len / 2, c.len - 1}; } else cuts = {c.len / 2};
                torn(c, pos, cuts);
            }
            return 0;
        };
    }
    void torn(const fsio::Call &c, off_t pos, const std::vector<size_t> &cuts) { pending = cuts; pend_name = c.path; pend_pos = pos; pend_base = fsio::snap(dir); }
    // torn writes are completed once the data is known, i.e. at the next call
    void settle() {
        if (pending.empty()) return;
        std::string full = fsio::slurp(dir + "/" + pend_name), old = pend_base[pend_name];
        for (size_t k : pending) {
            fsio::Dir d = pend_base; std::string f = old; size_t end = (size_t)pend_pos + k;
            if (end > full.size()) continue;
            if (f.size() < end) f.resize(end); memcpy(&f[pend_pos], &full[pend_pos], k);
            d[pend_name] = f; push(d, fmt("after %zu bytes of a write to %s", k, pend_name.c_str()));
        }
        pending.clear();
    }
    std::vector<size_t> pending; std::string pend_name; off_t pend_pos = 0; fsio::Dir pend_base;
    void push(const fsio::Dir &d, const std::string &what) { if (seen.insert(fsio::hash(d)).second) states.push_back({d, what}); }
    void take(const std::string &what) { bool h = fsio::in_hook; fsio::in_hook = true; settle(); push(fsio::snap(dir), what); fsio::in_hook = h; }
    void stop() { take("after the last call"); fsio::hook = nullptr; fsio::active = false; fsio::fds.clear(); }
};
static std::vector<Lines> dumps(const std::vector<Docs> &v, const MSchema &sc) { std::vector<Lines> r; for (auto &d : v) r.push_back(dump_model(d, sc, FIELDS)); return r; }
static int content(Path &p, const std::string &d, const MSchema &sc, const std::vector<Lines> &ok, const char *when, const std::string &what) {
    Lines got; bool latest = true;
    std::string e = guarded([&] { FrtStore *s = frt_open_fs_store(d.c_str()); FrtIndexReader *ir = frt_ir_open(s); got = dump_reader(ir, sc, FIELDS); latest = frt_ir_is_latest(ir); frt_ir_close(ir); frt_store_deref(s); });
    MC_CHECK(p, e.empty(), "crash %s: %s: %s", what.c_str(), when, e.c_str());
    MC_CHECK(p, latest, "crash %s: %s: a new reader does not consider itself up to date", what.c_str(), when);
    for (size_t i = 0; i < ok.size(); i++) if (diff(got, ok[i]).empty()) return (int)i;
    std::string df; for (auto &o : ok) df += " /" + diff(got, o);
    p.fail("crash %s: %s: content is that of no commit:%s", what.c_str(), when, df.c_str());
}
// all checks on one crash state; returns the index of the content found
static int judge(Path &p, World &w, const fsio::Dir &d, const std::string &what, const std::vector<Docs> &docs, const std::vector<Lines> &ok, int depth, bool brief) {
    u64 key = fnv((u64)(brief ? 0 : depth), fsio::hash(d)); for (auto &l : ok) key = fnv(hash_lines(l), key);
    p.step();
    if (!p.fresh(key)) return 0;
    p.eval();
    ScratchDir a("c"); fsio::put(a.path, d);
    int c = content(p, a.path, w.sc, ok, "opening the index", what);
    std::vector<Lines> one = {ok[c]};
    if (brief) return c;
    {   // a new writer that does nothing
        std::string e = guarded([&] { FrtStore *s = frt_open_fs_store(a.path.c_str()); s->clear_locks(s); FrtIndexWriter *iw = open_writer(s, &w.fc); frt_iw_close(iw); frt_store_deref(s); });
        MC_CHECK(p, e.empty(), "crash %s: writer on the recovered index: %s", what.c_str(), e.c_str());
        content(p, a.path, w.sc, one, "after a writer was opened and closed", what);
    }
    MDoc x; x.f = {{"id", {"x"}}, {"body", {"a c"}}};
    for (int rec = 0; rec < 2; rec++) {   // continue: by a writer / by a modifying reader
        ScratchDir b("r"); fsio::put(b.path, d);
        Docs want = docs[c]; std::vector<Docs> al = {want};
        Rec *r2 = depth > 1 ? new Rec(b.path, opt.thorough) : nullptr;
        std::string e = guarded([&] {
            FrtStore *s = frt_open_fs_store(b.path.c_str()); s->clear_locks(s);
            if (rec == 0) { FrtIndexWriter *iw = open_writer(s, &w.fc); add_doc(iw, x); frt_iw_commit(iw); want.push_back(x); al.push_back(want); frt_iw_delete_term(iw, SYM("id"), want[0].f[0].vals[0].c_str()); want.erase(want.begin()); al.push_back(want); frt_iw_optimize(iw); frt_iw_close(iw); }
            else { FrtIndexReader *ir = frt_ir_open(s); int at = 0; while (at < ir->max_doc(ir) && ir->is_deleted(ir, at)) at++; if (at < ir->max_doc(ir)) { frt_ir_delete_doc(ir, at); want.erase(want.begin()); al.push_back(want); } frt_ir_close(ir); }
            frt_store_deref(s);
        });
        if (r2) r2->stop();
        MC_CHECK(p, e.empty(), "crash %s: continuing with a %s: %s", what.c_str(), rec ? "reader" : "writer", e.c_str());
        content(p, b.path, w.sc, dumps({want}, w.sc), rec ? "after continuing with a modifying reader" : "after continuing with a writer", what);
        if (r2) {
            auto ok2 = dumps(al, w.sc);
            for (auto &st : r2->states) judge(p, w, st.first, what + ", then during recovery " + st.second, al, ok2, depth - 1, true);
            delete r2;
        }
    }
    return c;
}
static const std::vector<std::vector<int>> BASES = {
    {},                                                            // freshly created
    {O_ADD, O_ADD, O_CLOSE},                                       // one segment
    {O_ADD, O_ADD, O_COMMIT, O_ADD, O_ADD, O_DEL, O_CLOSE, O_RNORM},   // two segments, deletions, changed norms
    {O_ADD, O_ADD, O_COMMIT, O_ADD},                               // writer open with buffered documents
};
static void crash(Path &p, int nbase, int ncfg, int depth, int recdepth) {
    const Cfg &c = CFG[p.choose(ncfg)];
    int base = p.choose(nbase);
    std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(p.choose(O_N));
    if (!p.mine()) return;
    p.note("[%s] base %d:", c.name, base);
    ScratchDir dir("w");
    World w(c, dir.path);
    auto observe = [&]() { FrtIndexReader *ir = frt_ir_open(w.st); Lines g = dump_reader(ir, w.sc, FIELDS); frt_ir_close(ir); return g; };
    std::string e = guarded([&] {
        for (int o : BASES[base]) { w.op(o); if (World::durable(o)) w.disk = w.now; }
        { Lines g = observe(); if (diff(g, dump_model(w.disk, w.sc, FIELDS)).size()) w.disk = w.now; }     // automatic flush
        for (int i = 0; i < depth; i++) {
            int o = ops[i];
            if (!w.possible(o)) { p.prune(); w.close(); return; }
            p.note(" %s", OPN[o]); p.step();
            if (i < depth - 1) {
                auto al = w.allowed(o); w.op(o);
                if (World::durable(o)) { w.disk = w.now; continue; }
                Lines g = observe(); bool ok = false;        // automatic flushes may have committed part of it
                for (auto &d : al) if (diff(g, dump_model(d, w.sc, FIELDS)).empty()) { w.disk = d; ok = true; break; }
                MC_CHECK(p, ok, "content after the operation is that of no commit");
                continue;
            }
            auto al = w.allowed(o); auto ok = dumps(al, w.sc);
            Rec r(dir.path, true);
            w.op(o);
            r.stop();
            if (o == O_RUNDEL) { al.push_back(w.now); ok = dumps(al, w.sc); }
            for (auto &st : r.states) judge(p, w, st.first, st.second, al, ok, st.second[0] == 'b' && (opt.thorough || st.second.find(" segments") != std::string::npos) ? recdepth : 1, false);
            if (World::durable(o)) content(p, dir.path, w.sc, dumps({w.now}, w.sc), "after the operation", "none");
        }
        w.close();
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
static void single(Path &p) { crash(p, 4, opt.thorough ? 4 : 3, 1, opt.thorough ? 3 : 2); }
static void pairs(Path &p) { crash(p, opt.thorough ? 4 : 3, opt.thorough ? 4 : 2, 2, opt.thorough ? 2 : 1); }
static void triples(Path &p) { crash(p, 3, 2, 3, 1); }
int main(int argc, char **argv) {
    Meta m;
    m.rule = "execution = history of index operations cut at a file-system call of its last operation (earlier cuts belong to shorter histories), or part-way through a write; for every distinct directory left behind a new reader must open, be up to date and show a committed content, and recovery by an idle writer, a working writer and a modifying reader must succeed; states = distinct directories";
    m.assumptions = {"completed writes survive (process crash, not power loss)", "overwriting or creating an index is not part of the histories"};
    std::vector<Scenario> s = {
        {"single", "3 (thorough 4) configurations x 4 base indexes x each of 10 operations; every crash point, all torn lengths of segments files, and every crash point of the recovery", single, 120},
        {"pairs", "2 (thorough 4) configurations x 3 (thorough 4) base indexes x all pairs of operations; every crash point of the second", pairs, 120},
    };
    s.push_back({"triples", "2 configurations x 3 bases x all triples of operations", triples, 120, true});
    return run(argc, argv, m, s);
}
