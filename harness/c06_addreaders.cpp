// C06: adding whole indexes to an index preserves exactly their live documents.
#include "index_model.hpp"
using namespace mc;
static const std::vector<std::string> FIELDS = {"id", "body", "title", "tag", "none"};
// options per field name are the same everywhere; which fields an index declares, and in which order, differs
static FOpt fopt(const std::string &n) {
    FOpt o;
    if (n == "id") o.index = FRT_INDEX_UNTOKENIZED;
    if (n == "body") o.tv = FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS;
    if (n == "title") { o.store = FRT_STORE_COMPRESS; o.boost = 2; }
    if (n == "tag") { o.index = FRT_INDEX_UNTOKENIZED_OMIT_NORMS; o.tv = FRT_TERM_VECTOR_YES; }
    if (n == "none") { o.index = FRT_INDEX_NO; }
    return o;
}
static MSchema schema(const std::vector<std::string> &order) { MSchema s; for (auto &f : order) s.fields.push_back({f, fopt(f)}); return s; }
static MDoc doc(int kind, int k) {
    MDoc d; std::string id = fmt("%d", k);
    switch (kind) {
    case 0: d.f = {{"id", {id}}, {"body", {"a b a c"}}}; break;
    case 1: d.f = {{"title", {"x a", "y"}, 3}, {"body", {"b d", "e"}}, {"id", {id}}}; break;
    case 2: d.f = {{"tag", {"q", "r"}}, {"none", {"kept only"}}, {"id", {id}}}; d.boost = 0.5; break;
    case 3: d.f = {}; break;
    default: d.f = {{"body", {std::string(1500, 'w') + " z z"}}, {"title", {std::string(1200, 'v')}}};
    }
    return d;
}
struct Ix {
    StoreBox st; MSchema sc; std::vector<MDoc> live; MConfig mc; int k;
    Ix(int store, std::vector<std::string> order, bool compound, int base) : st(store), sc(schema(order)), k(base) {
        mc.compound = compound; mc.chunk = 0x4000;
        FrtFieldInfos *fis = sc.make(); frt_index_create(st.s, fis); frt_fis_deref(fis);
    }
    FrtConfig cfg() { return make_config(mc); }
    // script: digits add a document of that kind, 'c' commits, 'x'N deletes the N-th live document through a reader, 'n'N sets its body norm
    void build(const std::string &script) {
        FrtConfig fc = cfg(); FrtIndexWriter *iw = open_writer(st.s, &fc);
        std::string later;
        for (size_t i = 0; i < script.size(); i++) {
            char c = script[i];
            if (c >= '0' && c <= '9') { MDoc d = doc(c - '0', k++); add_doc(iw, d); live.push_back(d); }
            else if (c == 'c') frt_iw_commit(iw);
            else if (c == 'd') { frt_iw_delete_term(iw, SYM("body"), "d"); std::vector<MDoc> r; for (auto &d : live) { bool hit = false; if (auto *f = d.get("body")) for (auto &t : field_tokens(*f, fopt("body"), 10000, ws_tokens)) hit |= t.t == "d"; if (!hit) r.push_back(d); } live = r; }
            else { later = script.substr(i); break; }
        }
        frt_iw_close(iw);
        if (later.size()) {
            FrtIndexReader *ir = frt_ir_open(st.s);
            for (size_t i = 0; i + 1 < later.size(); i += 2) {
                int n = later[i + 1] - '0', at = -1;
                for (int d = 0, j = 0; d < ir->max_doc(ir); d++) if (!ir->is_deleted(ir, d) && j++ == n) at = d;
                if (at < 0) continue;
                if (later[i] == 'x') { frt_ir_delete_doc(ir, at); live.erase(live.begin() + n); }
                else if (live[n].get("body")) { frt_ir_set_norm(ir, at, SYM("body"), 60 + n); live[n].norm["body"] = 60 + n; }
            }
            frt_ir_close(ir);
        }
    }
    Lines dump() { FrtIndexReader *ir = frt_ir_open(st.s); Lines l = dump_reader(ir, allsc(), FIELDS); frt_ir_close(ir); return l; }
    static MSchema allsc() { return schema(FIELDS); }
    Lines want() { return dump_model(live, allsc(), FIELDS); }
};
struct Src { const char *name; std::vector<std::string> order; bool compound; const char *script; };
static const std::vector<Src> SRC = {
    {"same-order",            {"id", "body", "title", "tag", "none"}, true, "012"},
    {"reordered",             {"body", "tag", "id", "none", "title"}, false, "1024"},
    {"reordered+deleted",     {"title", "body", "id", "tag", "none"}, true, "0120x1x1"},
    {"two segments+deleted",  {"none", "id", "body", "title", "tag"}, false, "01c21x0x2"},
    {"fewer fields",          {"body"}, true, "00x0"},
    {"empty",                 {"tag", "id"}, true, ""},
    {"all deleted",           {"body", "id"}, false, "00x0x0"},
    {"norms+deleted, 3 segs", {"id", "title", "body", "none", "tag"}, true, "0c1c40n0n3x2"},
    {"empty documents",       {"tag", "body", "id", "none", "title"}, false, "3031x0"},
    {"deleted by term",       {"title", "id", "body", "tag", "none"}, true, "010cd12"},
    {"same order+deleted",    {"id", "body", "title", "tag", "none"}, false, "0120x0x1"},
    {"same order, compound norms", {"id", "body", "title", "tag", "none"}, true, "0101n1n2x0"},
};
static const char *TGT[] = {"", "012", "01c0x1", "0c12c0d"};

static void combos(Path &p) {
    int n = 1 + p.choose(opt.thorough ? 3 : 2), t = p.choose(4), cmp = p.choose(2), store = p.choose(2), order = p.choose(2), pend = p.choose(2), joined = p.choose(2);
    std::vector<int> s; for (int i = 0; i < n; i++) s.push_back(p.choose((int)SRC.size()));
    if (store && (order || pend) && !opt.thorough) { return; }
    if (!p.mine()) return;
    p.note("target [%s]%s %s %s:", TGT[t], pend ? "+pending" : "", cmp ? "compound" : "plain", KIND[store]);
    for (int i : s) p.note(" %s,", SRC[i].name);
    if (joined) p.note(" as one multi-reader");
    std::string e = guarded([&] {
        Ix tgt(store, order ? std::vector<std::string>{"tag", "title", "none", "body", "id"} : std::vector<std::string>{"id", "body", "title", "tag", "none"}, cmp, 100);
        tgt.build(TGT[t]);
        std::vector<std::unique_ptr<Ix>> src; std::vector<FrtIndexReader *> r; std::vector<Lines> before;
        for (int i : s) { src.emplace_back(new Ix(store && !joined, SRC[i].order, SRC[i].compound, 10 * (int)src.size())); src.back()->build(SRC[i].script); before.push_back(src.back()->dump()); p.step(); }
        FrtConfig fc = tgt.cfg(); FrtIndexWriter *iw = open_writer(tgt.st.s, &fc);
        if (pend) { MDoc d = doc(1, 55); add_doc(iw, d); tgt.live.push_back(d); }
        for (auto &x : src) r.push_back(frt_ir_open(x->st.s));
        FrtIndexReader **arr = FRT_ALLOC_N(FrtIndexReader *, r.size()); for (size_t i = 0; i < r.size(); i++) arr[i] = r[i];
        FrtIndexReader *multi = NULL;
        if (joined) { multi = frt_mr_open(arr, (int)r.size()); frt_iw_add_readers(iw, &multi, 1); }
        else { frt_iw_add_readers(iw, arr, (int)r.size()); }
        p.step();
        for (auto &x : src) for (auto &d : x->live) tgt.live.push_back(d);
        p.eval();
        std::string d = diff(tgt.dump(), tgt.want());
        MC_CHECK(p, d.empty(), "after add_readers:%s", d.c_str());
        for (size_t i = 0; i < r.size(); i++) { d = diff(dump_reader(r[i], Ix::allsc(), FIELDS), before[i]); MC_CHECK(p, d.empty(), "open source %zu changed:%s", i, d.c_str()); }
        if (joined) { frt_ir_close(multi); } 
        else { for (auto x : r) frt_ir_close(x); free(arr); }
        for (size_t i = 0; i < src.size(); i++) { d = diff(src[i]->dump(), before[i]); MC_CHECK(p, d.empty(), "source %zu changed:%s", i, d.c_str()); }
        // the target goes on working
        MDoc nd = doc(0, 77); add_doc(iw, nd); tgt.live.push_back(nd); frt_iw_commit(iw); frt_iw_optimize(iw); frt_iw_close(iw); p.step(2);
        d = diff(tgt.dump(), tgt.want());
        MC_CHECK(p, d.empty(), "after further use:%s", d.c_str());
        p.outcome(hash_lines(tgt.want()));
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
    u64 h = (u64)(t * 32 + cmp * 16 + store * 8 + order * 4 + pend * 2 + joined); for (int i : s) h = fnv((u64)i, h); p.state(h);
}
// every deletion pattern over two sources, sharing or not sharing the field order
static void deletions(Path &p) {
    int ord = p.choose(2), cmp = p.choose(2), seg = p.choose(2), N = opt.thorough ? 5 : 4, m1 = p.choose(1 << N), m2 = p.choose(opt.thorough ? 1 << N : 4);
    if (!p.mine()) return;
    p.note("%s field order, %s, %s, deletion masks %x %x", ord ? "different" : "same", cmp ? "compound" : "plain", seg ? "two segments" : "one segment", m1, m2);
    std::string e = guarded([&] {
        Ix tgt(0, {"id", "body", "title", "tag", "none"}, cmp, 100); tgt.build("0");
        std::vector<std::unique_ptr<Ix>> src; FrtIndexReader *r[2];
        for (int i = 0; i < 2; i++) {
            src.emplace_back(new Ix(0, ord ? std::vector<std::string>{"none", "tag", "title", "body", "id"} : std::vector<std::string>{"id", "body", "title", "tag", "none"}, cmp, 10 * i));
            std::string sc = seg ? "01c20" : "0120"; if (N == 5) sc += "1";
            int m = i ? m2 : m1; for (int b = N - 1; b >= 0; b--) if (m & (1 << b)) sc += fmt("x%d", b);
            src[i]->build(sc); p.step(); r[i] = frt_ir_open(src[i]->st.s);
        }
        FrtConfig fc = tgt.cfg(); FrtIndexWriter *iw = open_writer(tgt.st.s, &fc);
        frt_iw_add_readers(iw, r, 2); p.step(); frt_iw_close(iw);
        for (auto &x : src) for (auto &d : x->live) tgt.live.push_back(d);
        p.eval(); std::string d = diff(tgt.dump(), tgt.want());
        MC_CHECK(p, d.empty(), "after add_readers:%s", d.c_str());
        frt_ir_close(r[0]); frt_ir_close(r[1]);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
    p.state(fnv((u64)m1, fnv((u64)m2, (u64)(ord * 4 + cmp * 2 + seg))));
}
// many documents and many sources
static void sizes(Path &p) {
    static const int ND[] = {1, 16, 33, 64, 129, 257}, NS[] = {1, 2, 5, 9, 17}; int n = ND[p.choose(6)], k = NS[p.choose(5)], ord = p.choose(2), cmp = p.choose(2), del = p.choose(3), seg = p.choose(2); if (n * k > 700 && !opt.thorough) return;
    if (!p.mine()) return;
    p.note("%d sources of %d documents, %s field order, %s, deletions %d, %s", k, n, ord ? "different" : "same", cmp ? "compound" : "plain", del, seg ? "several segments" : "one segment");
    std::string e = guarded([&] {
        std::vector<std::string> o1 = {"id", "body", "title", "tag", "none"}, o2 = {"none", "tag", "title", "body", "id"}; Ix tgt(0, o1, cmp, 90000); tgt.build("01");
        std::vector<std::unique_ptr<Ix>> src; std::vector<FrtIndexReader *> r;
        for (int i = 0; i < k; i++) {
            src.emplace_back(new Ix(0, ord && i % 2 ? o2 : o1, cmp, 1000 * i)); std::string sc; for (int j = 0; j < n; j++) { sc += "012"[(j + i) % 3]; if (seg && j % 50 == 7) sc += 'c'; } src[i]->build(sc);
            if (del) { FrtIndexReader *ir = frt_ir_open(src[i]->st.s); std::vector<MDoc> keep; for (int d = 0; d < n; d++) if (del == 1 ? d % 3 == i % 3 : (d > n / 3 && d < 2 * n / 3)) frt_ir_delete_doc(ir, d); else keep.push_back(src[i]->live[d]); frt_ir_close(ir); src[i]->live = keep; }
            p.step(); r.push_back(frt_ir_open(src[i]->st.s));
        }
        FrtConfig fc = tgt.cfg(); FrtIndexWriter *iw = open_writer(tgt.st.s, &fc); frt_iw_add_readers(iw, r.data(), k); p.step(); frt_iw_close(iw);
        for (auto &x : src) for (auto &d : x->live) tgt.live.push_back(d);
        p.eval(); std::string d = diff(tgt.dump(), tgt.want()); MC_CHECK(p, d.empty(), "after add_readers:%s", d.c_str()); for (auto x : r) frt_ir_close(x);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str()); p.state(fnv(fmt("%d %d %d %d %d %d", n, k, ord, cmp, del, seg)));
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = one (target, list of sources) combination; transition = building a source, adding the readers, further modifications; full dumps of target and sources are compared with the model";
    m.assumptions = {"fields of the same name have the same options in all indexes", "source readers have no uncommitted norm changes"};
    return run(argc, argv, m, {
        {"combos", "4 targets x 12 source kinds, all lists of 1..2 (thorough 3), x field order x compound x pending adds x store x separate/multi reader", combos},
        {"deletions", "all 16 (thorough 32) x 4 (32) deletion masks of two sources x field order x compound x segments", deletions},
        {"sizes", "1..17 sources of 1..257 documents (up to 700 together; thorough: all) x field order x compound x 3 deletion patterns x segments", sizes},
    });
}
