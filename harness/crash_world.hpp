// A writer/reader history on a file-system index together with its model (shared by the crash and fault checks).
#ifndef CRASH_WORLD_HPP
#define CRASH_WORLD_HPP
#include "fsio.hpp"
static const std::vector<std::string> FIELDS = {"id", "body"};
static MSchema schema() { MSchema s; FOpt id; id.index = FRT_INDEX_UNTOKENIZED; s.fields.push_back({"id", id}); FOpt b; b.tv = FRT_TERM_VECTOR_YES; s.fields.push_back({"body", b}); return s; }
struct Cfg { const char *name; int mf, buffered; bool compound; };
static const Cfg CFG[] = {{"plain", 10, 100, false}, {"compound merge2", 2, 100, true}, {"plain flush1 merge2", 2, 1, false}, {"compound flush2", 10, 2, true}};
static const char *OPN[] = {"add", "commit", "delete-term", "optimize", "close-writer", "reader-delete", "reader-norm", "reader-undelete", "add-readers", "update"};
enum { O_ADD, O_COMMIT, O_DEL, O_OPT, O_CLOSE, O_RDEL, O_RNORM, O_RUNDEL, O_MERGE, O_UPD, O_N };
typedef std::vector<MDoc> Docs;
struct World {
    Cfg cfg; FrtConfig fc; MSchema sc = schema(); FrtStore *st; FrtIndexWriter *iw = NULL;
    Docs now, disk; std::map<std::string, MDoc> reg; int k = 0, merged = 0;
    World(const Cfg &c, const std::string &d) : World(c, frt_open_fs_store(d.c_str())) {}
    World(const Cfg &c, FrtStore *store) : cfg(c), st(store) {
        MConfig m; m.merge_factor = c.mf; m.max_buffered_docs = c.buffered; m.compound = c.compound; m.chunk = 0x4000; fc = make_config(m);
        FrtFieldInfos *fis = sc.make(); frt_index_create(st, fis); frt_fis_deref(fis);
    }
    MDoc mk(int n) { MDoc d; d.f = {{"id", {mc::fmt("%d", n)}}, {"body", {n % 2 ? "a b" : "b c c"}}}; reg[d.f[0].vals[0]] = d; return d; }
    void writer() { if (!iw) iw = open_writer(st, &fc); }
    static Docs drop_a(const Docs &v) { Docs n; for (auto &d : v) if (d.f[1].vals[0][0] != 'a') n.push_back(d); return n; }
    bool possible(int o) {
        switch (o) { case O_COMMIT: case O_CLOSE: return iw != NULL;
        case O_RDEL: case O_RNORM: return !iw && now.size(); case O_RUNDEL: return !iw; }
        return true;
    }
    // contents a crash during `o` may legitimately leave behind; called before the operation
    std::vector<Docs> allowed(int o) {
        std::vector<Docs> r = {disk, now};
        Docs n = now;
        switch (o) {
        case O_ADD: n.push_back(mk(k)); r.push_back(n); break;
        case O_DEL: r.push_back(drop_a(now)); break;
        case O_RDEL: n.erase(n.begin()); r.push_back(n); break;
        case O_RNORM: n[0].norm["body"] = 77; r.push_back(n); break;
        case O_MERGE: n.push_back(mk(100 + merged)); n.push_back(mk(101 + merged)); r.push_back(n); break;
        case O_UPD: if (now.size()) { n.erase(n.begin()); r.push_back(n); } n.push_back(mk(k)); r.push_back(n); break;
        }
        return r;
    }
    // performs o; the model is changed only if it completes
    void op(int o) {
        switch (o) {
        case O_ADD: { writer(); MDoc d = mk(k++); add_doc(iw, d); now.push_back(d); break; }
        case O_COMMIT: frt_iw_commit(iw); break;
        case O_DEL: { writer(); frt_iw_delete_term(iw, SYM("body"), "a"); now = drop_a(now); break; }
        case O_OPT: writer(); frt_iw_optimize(iw); break;
        case O_CLOSE: { FrtIndexWriter *w = iw; frt_iw_close(w); iw = NULL; break; }
        case O_RDEL: case O_RNORM: case O_RUNDEL: {
            FrtIndexReader *ir = frt_ir_open(st); int at = 0;
            while (at < ir->max_doc(ir) && ir->is_deleted(ir, at)) at++;
            Docs n = now;
            if (o == O_RDEL) { frt_ir_delete_doc(ir, at); n.erase(n.begin()); }
            else if (o == O_RNORM) { frt_ir_set_norm(ir, at, SYM("body"), 77); n[0].norm["body"] = 77; reg[n[0].f[0].vals[0]].norm["body"] = 77; }
            else {
                frt_ir_undelete_all(ir); n.clear();
                for (int d = 0; d < ir->max_doc(ir); d++) { FrtDocument *doc = ir->get_doc(ir, d); n.push_back(reg[frt_doc_get_field(doc, SYM("id"))->data[0]]); frt_doc_destroy(doc); }
            }
            undel = n;
            frt_ir_close(ir); now = n; break; }
        case O_MERGE: {
            writer(); FrtStore *s2 = frt_open_ram_store(); FrtFieldInfos *fis = sc.make(); frt_index_create(s2, fis); frt_fis_deref(fis);
            FrtIndexWriter *w2 = open_writer(s2, &fc); MDoc a = mk(100 + merged), b = mk(101 + merged); add_doc(w2, a); add_doc(w2, b); frt_iw_close(w2);
            FrtIndexReader *r = frt_ir_open(s2); frt_iw_add_readers(iw, &r, 1); frt_ir_close(r); frt_store_deref(s2);
            now.push_back(a); now.push_back(b); merged += 2; break; }
        case O_UPD: { writer(); if (now.size()) { std::string id = now[0].f[0].vals[0]; frt_iw_delete_term(iw, SYM("id"), id.c_str()); now.erase(now.begin()); } MDoc d = mk(k++); add_doc(iw, d); now.push_back(d); break; }
        }
    }
    Docs undel;       // result of the last undelete, known once it has been asked for
    static bool durable(int o) { return o != O_ADD && o != O_UPD; }
    void close() { if (iw) { frt_iw_close(iw); iw = NULL; disk = now; } frt_store_deref(st); st = NULL; }
};
#endif
