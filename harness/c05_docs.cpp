// C05: every document shape is indexed exactly as its field options say.
#include "index_model.hpp"
using namespace mc;
static const FrtStoreValue ST[] = {FRT_STORE_NO, FRT_STORE_YES, FRT_STORE_COMPRESS};
static const FrtIndexValue IX[] = {FRT_INDEX_NO, FRT_INDEX_UNTOKENIZED, FRT_INDEX_YES, FRT_INDEX_UNTOKENIZED_OMIT_NORMS, FRT_INDEX_YES_OMIT_NORMS};
static const FrtTermVectorValue TV[] = {FRT_TERM_VECTOR_NO, FRT_TERM_VECTOR_YES, FRT_TERM_VECTOR_WITH_POSITIONS, FRT_TERM_VECTOR_WITH_OFFSETS, FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS};
static const char *STN[] = {"no", "yes", "compress"};
static std::vector<FOpt> options() {
    std::vector<FOpt> r;
    for (auto s : ST) for (auto i : IX) for (auto t : TV) { if (i == FRT_INDEX_NO && t) continue; FOpt o; o.store = s; o.index = i; o.tv = t; r.push_back(o); }
    return r;
}
static std::string oname(const FOpt &o) { return fmt("store=%s,index=%d,tv=%d", STN[o.store], o.index, o.tv); }
static std::vector<Tok> trunc_tokens(const std::string &v) { auto r = ws_tokens(v); for (auto &t : r) t.t = t.t.substr(0, 254); return r; }
static std::string words(int n) { std::string s; for (int i = 0; i < n; i++) s += fmt("%sw%d", i ? " " : "", i * i % 17); return s; }

static std::vector<std::vector<std::string>> shapes() {
    return {
        {"a"}, {""}, {}, {"a b a"}, {"a b", "c a"}, {"", "x", ""}, {"  a  "}, {words(60)}, {words(300), "tail"},
        {std::string(253, 'k')}, {std::string(254, 'k')}, {std::string(255, 'k')}, {std::string(256, 'k') + " a"}, {"\xc3\xa9t\xc3\xa9 \xe2\x82\xac"},
        {"x", "x", "x"}, {std::string(1024, 'z')}, {"p " + std::string(1021, 'q'), "r"},
    };
}
static void one_index(Path &p, const MSchema &sc, const std::vector<std::string> &fields, const std::vector<MDoc> &docs, int split, int store, MConfig c) {
    StoreBox st(store);
    FrtFieldInfos *fis = sc.make(); frt_index_create(st.s, fis); frt_fis_deref(fis);
    c.chunk = 0x4000;
    FrtConfig fc = make_config(c);
    FrtIndexWriter *iw = open_writer(st.s, &fc);
    for (size_t i = 0; i < docs.size(); i++) { add_doc(iw, docs[i]); p.step(); if (split & (1 << i)) frt_iw_commit(iw); }
    frt_iw_close(iw);
    Lines want = dump_model(docs, sc, fields, c.max_field_length, trunc_tokens);
    for (int round = 0; round < 2; round++) {
        FrtIndexReader *ir = frt_ir_open(st.s);
        Lines got = dump_reader(ir, sc, fields);
        p.eval();
        std::string d = diff(got, want);
        MC_CHECK(p, d.empty(), "%s:%s", round ? "after merging" : "after adding", d.c_str());
        // random access into lazily loaded fields
        for (size_t i = 0; i < docs.size(); i++) for (auto &f : docs[i].f) if (sc.opt(f.name).store != FRT_STORE_NO && !f.vals.empty()) {
            std::string all; for (size_t k = 0; k < f.vals.size(); k++) all += (k ? " " : "") + f.vals[k];
            FrtLazyDoc *ld = ir->get_lazy_doc(ir, (int)i); FrtLazyDocField *lf = frt_lazy_doc_get(ld, SYM(f.name));
            MC_CHECK(p, lf != NULL, "lazy field %s of document %zu is missing", f.name.c_str(), i);
            int n = (int)all.size();
            for (int s : {0, 1, n / 2, n - 1}) for (int l : {1, 2, n / 2, n - s}) if (s >= 0 && s < n && l > 0 && s + l <= n) {
                std::string b(l, 0); frt_lazy_df_get_bytes(lf, &b[0], s, l);
                MC_CHECK(p, b == all.substr(s, l), "lazy bytes %d+%d of %s of document %zu: %s expected %s", s, l, f.name.c_str(), i, q(b).c_str(), q(all.substr(s, l)).c_str());
            }
            frt_lazy_doc_close(ld);
        }
        frt_ir_close(ir);
        if (round == 0) { iw = open_writer(st.s, &fc); frt_iw_optimize(iw); frt_iw_close(iw); p.step(); }
    }
    p.outcome(hash_lines(want));
}

static void grid(Path &p) {
    static auto O = options(); static auto S = shapes();
    const FOpt &o = O[p.choose((int)O.size())];
    int a = p.choose((int)S.size()), b = p.choose(opt.thorough ? (int)S.size() : 5), boost = p.choose(2), split = p.choose(2);
    if (!p.mine()) return;
    if (!opt.thorough) { static const int B[] = {0, 3, 5, 2, 8}; b = B[b]; }
    MSchema sc; sc.def.store = FRT_STORE_YES;
    FOpt of = o; if (boost) of.boost = 1.5; sc.fields.push_back({"f", of});
    MDoc d1, d2, d3;
    d1.f = {{"g", {"before"}}, {"f", S[a]}, {"h", {"after a"}}};
    d2.f = {{"f", S[b]}, {"g", {"b"}}};
    d3.f = {{"f", S[a]}};
    if (boost) { d1.f[1].boost = 2.5; d2.boost = 0.25; d3.boost = 40; }
    p.note("f: %s boost=%d split=%d shapes %d,%d", oname(o).c_str(), boost, split, a, b);
    std::string e = guarded([&] { one_index(p, sc, {"f", "g", "h"}, {d1, d2, d3}, split ? 1 : 0, 0, MConfig()); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
    p.state(fnv((u64)(&o - &O[0]), fnv((u64)a, fnv((u64)b, boost * 2 + split))));
}
// two fields with independent options, present or absent independently, in any order
static void pairs(Path &p) {
    static auto O = options(); static auto S = shapes();
    int step = opt.thorough ? 1 : 4;
    int i = p.choose((int)(O.size() + step - 1) / step) * step, j = p.choose((int)(O.size() + step - 1) / step) * step + (step > 1 ? 1 : 0);
    int pat = p.choose(4), order = p.choose(2), store = p.choose(2), cmp = p.choose(2);
    if (j >= (int)O.size()) j = 0;
    if (!p.mine()) return;
    MSchema sc; sc.fields = {{"f", O[i]}, {"g", O[j]}};
    if (order) std::swap(sc.fields[0], sc.fields[1]);
    MDoc d[4];
    d[0].f = {{"f", {"a b"}}, {"g", {"b c", "d"}}};
    d[1].f = {{"g", {"c"}}};
    d[2].f = {{"dyn", {"n"}}, {"g", {"z a"}}, {"f", {"a"}}};
    d[3].f = {};
    if (order) std::swap(d[0].f[0], d[0].f[1]);
    std::vector<MDoc> docs = pat == 0 ? std::vector<MDoc>{d[0], d[1], d[2]} : pat == 1 ? std::vector<MDoc>{d[3], d[2], d[0]} : pat == 2 ? std::vector<MDoc>{d[1], d[3], d[2]} : std::vector<MDoc>{d[2], d[2], d[1], d[0]};
    p.note("f: %s; g: %s; pattern %d order %d store %s compound %d", oname(O[i]).c_str(), oname(O[j]).c_str(), pat, order, KIND[store], cmp);
    MConfig c; c.compound = cmp; c.max_buffered_docs = cmp ? 2 : 100; c.merge_factor = 3;
    std::string e = guarded([&] { one_index(p, sc, {"f", "g", "dyn"}, docs, pat == 2 ? 3 : 0, store, c); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
    p.state(fnv((u64)i, fnv((u64)j, (u64)(pat * 8 + order * 4 + store * 2 + cmp))));
}
// field length limit
static void limit(Path &p) {
    static auto S = shapes();
    int lim = 1 + p.choose(6), a = p.choose((int)S.size()), tv = p.choose(5), tok = p.choose(2), st = p.choose(3);
    if (!p.mine()) return;
    MSchema sc; FOpt o; o.tv = TV[tv]; o.index = tok ? FRT_INDEX_YES : FRT_INDEX_YES_OMIT_NORMS; o.store = ST[st]; sc.fields = {{"f", o}};
    MDoc d; d.f = {{"f", S[a]}, {"g", {"one two three four five six seven"}}};
    MConfig c; c.max_field_length = lim;
    p.note("max_field_length %d, %s, shape %d", lim, oname(o).c_str(), a);
    std::string e = guarded([&] { one_index(p, sc, {"f", "g"}, {d, d}, 0, 0, c); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
    p.state(fnv((u64)lim, fnv((u64)a, (u64)(tv * 6 + tok * 3 + st))));
}
// large stored values, plain and compressed, text and incompressible
static void big(Path &p) {
    static const int N[] = {0, 1, 1000, 16347, 16348, 16349, 20000, 40000, 70000};
    int n1 = N[p.choose(9)], n2 = N[p.choose(9)], kind = p.choose(2), st = 1 + p.choose(2), ix = p.choose(2), store = p.choose(2);
    if (!p.mine()) return;
    auto val = [&](int n) { std::string s; uint32_t x = 12345; for (int i = 0; i < n; i++) { if (kind) { x = x * 1664525 + 1013904223; s += (char)(33 + (x >> 24) % 94); } else s += "abcd efg "[i % 9]; } return s; };
    MSchema sc; FOpt o; o.store = ST[st]; o.index = ix ? FRT_INDEX_YES : FRT_INDEX_NO; sc.fields = {{"f", o}};
    MDoc d1, d2; d1.f = {{"f", {val(n1), val(n2)}}, {"g", {"x"}}}; d2.f = {{"g", {"y"}}, {"f", {val(n2)}}};
    p.note("%s, values of %d and %d %s bytes, %s store", oname(o).c_str(), n1, n2, kind ? "incompressible" : "compressible", KIND[store]);
    std::string e = guarded([&] { MConfig c; c.max_field_length = 200; one_index(p, sc, {"f", "g"}, {d1, d2}, 1, store, c); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
    p.state(fnv((u64)n1, fnv((u64)n2, (u64)(kind * 8 + st * 4 + ix * 2 + store))));
}
// many fields in one document, repeated over documents
static void many(Path &p) {
    int n = 1 + p.choose(opt.thorough ? 40 : 20), m = p.choose(n), kind = p.choose(2);
    if (!p.mine()) return;
    MSchema sc; MDoc a, b; std::vector<std::string> fs;
    for (int i = 0; i < n; i++) { std::string f = fmt("f%d", i); fs.push_back(f); a.f.push_back({f, {fmt("v%d s", i)}}); if (i >= m) b.f.insert(b.f.begin(), {f, {fmt("u%d s", i)}}); }
    if (kind) sc.def.tv = FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS;
    p.note("%d fields, second document has the last %d in reverse order", n, n - m);
    std::string e = guarded([&] { one_index(p, sc, fs, {a, b, a}, 1, 0, MConfig()); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
    p.state(fnv((u64)n, (u64)m * 2 + kind));
}
// many tokens in one field, after and before shorter documents
static void tokens(Path &p) {
    static const int N[] = {1, 2, 15, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 514, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 6000};
    int n = N[p.choose(30)], distinct = p.choose(3), tv = p.choose(5), order = p.choose(2), om = p.choose(2);
    if (!p.mine()) return;
    auto text = [&](int k) { std::string s; for (int i = 0; i < k; i++) s += fmt("%sw%d", i ? " " : "", distinct == 0 ? 0 : distinct == 1 ? i * i % 17 : i); return s; };
    MSchema sc; FOpt o; o.tv = TV[tv]; o.index = om ? FRT_INDEX_YES_OMIT_NORMS : FRT_INDEX_YES; sc.fields = {{"f", o}};
    MDoc a, b; a.f = {{"g", {"x"}}, {"f", {text(n)}}}; b.f = {{"f", {text(n / 2 + 1), "tail w0"}}};
    p.note("%s, %d tokens (%s), %s first", oname(o).c_str(), n, distinct == 0 ? "one term" : distinct == 1 ? "17 terms" : "all different", order ? "the shorter document" : "the longer document");
    std::string e = guarded([&] { MConfig c; one_index(p, sc, {"f", "g"}, order ? std::vector<MDoc>{b, a, b} : std::vector<MDoc>{a, b, a}, order ? 1 : 0, 0, c); });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
    p.state(fnv((u64)n, (u64)(distinct * 20 + tv * 4 + order * 2 + om)));
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = one (field options, document shapes, segmentation) combination; transition = one document added or one merge; every combination is indexed by the real code, dumped before and after merging and compared with the model";
    m.assumptions = {"whitespace analyzer (tokenizers are decided by C21)"};
    return run(argc, argv, m, {
        {"grid", "all 63 valid store x index x term-vector options x 17 x 5 (thorough 17) document shapes x boosts x one/two segments", grid},
        {"pairs", "every 4th (thorough every) pair of field options x 4 document patterns x field order x store x compound/merging", pairs},
        {"limit", "field length limits 1..6 x 17 shapes x term vector, norms and storage options", limit},
        {"big", "9 x 9 value sizes up to 70000 bytes x compressible/incompressible x plain/compressed x indexed/not x store", big},
        {"many", "1..20 (thorough 40) fields x every suffix in reverse order, with and without term vectors", many},
        {"tokens", "30 token counts 1..6000 around the powers of two x one term, 17 terms or all different x term vector options x order x norms", tokens},
    });
}
