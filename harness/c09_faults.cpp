// C09: any single file-system call fails during any index operation.
#include "crash_world.hpp"
using namespace mc;
struct Fault { int kind; int err; double part; const char *name; bool persistent; };      // kind: which calls
static const Fault FAULTS[] = {{0, ENOSPC, 0, "ENOSPC"}, {0, ENOSPC, 0.5, "ENOSPC half-way"}, {0, ENOSPC, 0.5, "ENOSPC from then on", true}, {1, EACCES, 0, "EACCES"}, {0, 0, 0.5, "short count"}, {2, EIO, 0, "EIO"}, {2, EIO, 0.5, "EIO, second half of the file lost"}, {3, EACCES, 0, "EACCES"}, {4, EMFILE, 0, "EMFILE"}, {5, EIO, 0, "EIO"}, {6, EIO, 0, "EIO"}};
static int kind_of(const char *n) { return !strcmp(n, "write") ? 0 : !strcmp(n, "create") ? 1 : !strcmp(n, "close") ? 2 : !strcmp(n, "remove") ? 3 : !strcmp(n, "open") ? 4 : !strcmp(n, "read") ? 5 : 6; }
static std::vector<Lines> dumps(const std::vector<Docs> &v, const MSchema &sc) { std::vector<Lines> r; for (auto &d : v) r.push_back(dump_model(d, sc, FIELDS)); return r; }
static int content(Path &p, const std::string &d, const MSchema &sc, const std::vector<Lines> &ok, const char *when, const std::string &what) {
    Lines got; bool latest = true;
    std::string e = guarded([&] { FrtStore *s = frt_open_fs_store(d.c_str()); FrtIndexReader *ir = frt_ir_open(s); got = dump_reader(ir, sc, FIELDS); latest = frt_ir_is_latest(ir); frt_ir_close(ir); frt_store_deref(s); });
    MC_CHECK(p, e.empty(), "%s: %s: %s", what.c_str(), when, e.c_str());
    MC_CHECK(p, latest, "%s: %s: a new reader does not consider itself up to date", what.c_str(), when);
    for (size_t i = 0; i < ok.size(); i++) if (diff(got, ok[i]).empty()) return (int)i;
    std::string df; for (auto &o : ok) df += " /" + diff(got, o);
    p.fail("%s: %s: content is that of no commit:%s", what.c_str(), when, df.c_str());
}
static const std::vector<std::vector<int>> BASES = {
    {}, {O_ADD, O_ADD, O_CLOSE}, {O_ADD, O_ADD, O_COMMIT, O_ADD, O_ADD, O_DEL, O_CLOSE, O_RNORM}, {O_ADD, O_ADD, O_COMMIT, O_ADD},
};
struct Hist { const Cfg *c; int base; std::vector<int> ops; };
// runs the history with the k-th call of its last operation failing; returns false if there is no k-th call
static bool attempt(Path &p, const Hist &h, int k, const Fault *f, bool dry, std::vector<std::pair<std::string, std::string>> *calls) {
    ScratchDir dir("w");
    World w(*h.c, dir.path);
    auto observe = [&]() { FrtIndexReader *ir = frt_ir_open(w.st); Lines g = dump_reader(ir, w.sc, FIELDS); frt_ir_close(ir); return g; };
    for (int o : h.ops.size() ? BASES[h.base] : BASES[0]) { w.op(o); if (World::durable(o)) w.disk = w.now; }
    { Lines g = observe(); if (diff(g, dump_model(w.disk, w.sc, FIELDS)).size()) w.disk = w.now; }
    for (size_t i = 0; i + 1 < h.ops.size(); i++) {
        int o = h.ops[i];
        if (!w.possible(o)) return false;
        auto al = w.allowed(o); w.op(o);
        if (World::durable(o)) { w.disk = w.now; continue; }
        Lines g = observe(); for (auto &d : al) if (diff(g, dump_model(d, w.sc, FIELDS)).empty()) { w.disk = d; break; }
    }
    int o = h.ops.back();
    if (!w.possible(o)) return false;
    auto al = w.allowed(o);
    int n = 0; bool hit = false; std::string what;
    fsio::dir = dir.path; fsio::active = true;
    fsio::hook = [&](const fsio::Call &c, size_t &part) -> int {
        if (dry) { calls->push_back({c.name, c.path}); return 0; }
        if (f->persistent && hit && !strcmp(c.name, "write")) { part = 0; return f->err; }
        if (n++ != k) return 0;
        hit = true; what = fmt("%s of %s fails (%s)", c.name, c.path.c_str(), f->name);
        if (f->part > 0) part = (size_t)(c.len * f->part);
        return f->err;
    };
    std::string e = guarded([&] { w.op(o); });
    fsio::hook = nullptr; fsio::active = false;
    if (dry) { MC_CHECK(p, e.empty(), "without a fault: %s", e.c_str()); w.close(); return true; }
    MC_CHECK(p, hit, "internal: call %d not reached", k);
    p.note(" {%s}", what.c_str());
    fsio::Dir d = fsio::snap(dir.path);
    bool ok = e.empty();
    if (o == O_RUNDEL) al.push_back(w.undel);
    p.outcome(fnv(fmt("%d %s %s", o, what.c_str(), e.c_str())));
    // what was committed is still there, and nothing that was reported done is lost
    auto okl = dumps(al, w.sc);
    if (ok && World::durable(o)) okl = dumps(std::vector<Docs>(al.size(), w.now), w.sc);
    int c;
    { ScratchDir a("a"); fsio::put(a.path, d); c = content(p, a.path, w.sc, okl, ok ? "after the operation reported success" : "after the operation reported the error", what); }
    Docs cur = ok && World::durable(o) ? w.now : al[c];
    // a new writer works
    {
        ScratchDir a("b"); fsio::put(a.path, d); Docs want = cur; MDoc x; x.f = {{"id", {"x"}}, {"body", {"a c"}}};
        std::string e2 = guarded([&] { FrtStore *s = frt_open_fs_store(a.path.c_str()); s->clear_locks(s); FrtIndexWriter *iw = open_writer(s, &w.fc); add_doc(iw, x); want.push_back(x); frt_iw_delete_term(iw, SYM("id"), want[0].f[0].vals[0].c_str()); want.erase(want.begin()); frt_iw_optimize(iw); frt_iw_close(iw); frt_store_deref(s); });
        MC_CHECK(p, e2.empty(), "%s: new writer after the fault: %s", what.c_str(), e2.c_str());
        content(p, a.path, w.sc, dumps({want}, w.sc), "after continuing with a new writer", what);
    }
    if (!ok) {   // the same store goes on working and the objects involved can be closed
        std::string e3 = guarded([&] { content(p, dir.path, w.sc, okl, "reading through the same store after the error", what); });
        MC_CHECK(p, e3.empty(), "%s: reading through the same store after the error: %s", what.c_str(), e3.c_str());
    }
    // if it succeeded the same objects go on working
    if (ok) {
        std::string e3 = guarded([&] { if (!w.iw) w.st->clear_locks(w.st); w.op(O_ADD); w.op(O_OPT); w.close(); });
        MC_CHECK(p, e3.empty(), "%s: going on after the operation succeeded: %s", what.c_str(), e3.c_str());
        content(p, dir.path, w.sc, dumps({w.now}, w.sc), "after going on with the same writer", what);
    }
    return true;
}
static void faults(Path &p, int nbase, int ncfg, int depth) {
    Hist h; h.c = &CFG[p.choose(ncfg)]; h.base = p.choose(nbase);
    for (int i = 0; i < depth; i++) h.ops.push_back(p.choose(O_N));
    if (!p.mine()) return;
    p.note("[%s] base %d:", h.c->name, h.base); for (int o : h.ops) p.note(" %s", OPN[o]);
    static std::string last; static std::vector<std::pair<std::string, std::string>> calls; static bool poss;
    std::string key = fmt("%s/%d", h.c->name, h.base); for (int o : h.ops) key += OPN[o];
    if (key != last) { calls.clear(); poss = attempt(p, h, 0, NULL, true, &calls); last = key; }
    if (!poss || calls.empty()) { p.prune(); return; }
    int k = p.choose((int)calls.size());
    std::vector<const Fault *> fs; for (auto &f : FAULTS) if (f.kind == kind_of(calls[k].first.c_str())) fs.push_back(&f);
    const Fault *f = fs[p.choose((int)fs.size())];
    p.step(); p.eval();
    forked(5, [&] { std::string e = guarded([&] { attempt(p, h, k, f, false, NULL); }); MC_CHECK(p, e.empty(), "%s", e.c_str()); });
}
static void single(Path &p) { faults(p, 4, opt.thorough ? 4 : 3, 1); }
static void pairs(Path &p) { faults(p, opt.thorough ? 4 : 1, opt.thorough ? 4 : 1, 2); }
int main(int argc, char **argv) {
    Meta m;
    m.rule = "execution = history of index operations in which one file-system call of the last operation fails; the operation must raise or be complete, the directory must hold committed content and accept a new writer";
    m.assumptions = {"one fault per history", "after an error the objects involved are abandoned and stale locks cleared before continuing"};
    return run(argc, argv, m, {
        {"single", "3 (thorough 4) configurations x 4 base indexes x each of 10 operations; every call (create, open, read, write, close, remove) failing, writes failing at once or half-way or returning a short count, closes with and without loss of the tail", single, 60},
        {"pairs", "1 (thorough 4) configuration(s) x 1 (thorough 4) base(s) x all pairs of operations; every call of the second failing", pairs, 60},
    });
}
