// Reference model of an index and canonical dumps of the model and of a real reader.
// Two indexes have the same observable content iff their dumps are equal.
#ifndef INDEX_MODEL_HPP
#define INDEX_MODEL_HPP
#include "stores.hpp"

struct FOpt { FrtStoreValue store = FRT_STORE_YES; FrtIndexValue index = FRT_INDEX_YES; FrtTermVectorValue tv = FRT_TERM_VECTOR_NO; float boost = 1; };
struct MSchema {
    FOpt def; std::vector<std::pair<std::string, FOpt>> fields;
    const FOpt &opt(const std::string &n) const { for (auto &f : fields) if (f.first == n) return f.second; return def; }
    FrtFieldInfos *make() const {
        FrtFieldInfos *fis = frt_fis_new(def.store, def.index, def.tv);
        for (auto &f : fields) { FrtFieldInfo *fi = frt_fi_new(SYM(f.first), f.second.store, f.second.index, f.second.tv); fi->boost = f.second.boost; frt_fis_add_field(fis, fi); }
        return fis;
    }
};
struct MField { std::string name; std::vector<std::string> vals; float boost = 1; };
struct MDoc { std::vector<MField> f; float boost = 1; std::map<std::string, int> norm;   // explicit norm overrides
    const MField *get(const std::string &n) const { for (auto &x : f) if (x.name == n) return &x; return nullptr; } };

static inline FrtDocument *make_doc(const MDoc &d) {
    FrtDocument *doc = frt_doc_new();
    doc->boost = d.boost;
    for (auto &f : d.f) {
        FrtDocField *df = frt_df_new(SYM(f.name));
        df->boost = f.boost;
        for (auto &v : f.vals) {
            char *c = (char *)malloc(v.size() + 1); memcpy(c, v.c_str(), v.size() + 1);
            frt_df_add_data_len(df, c, (int)v.size());
        }
        df->destroy_data = 1;
        frt_doc_add_field(doc, df);
    }
    return doc;
}
static inline void add_doc(FrtIndexWriter *iw, const MDoc &d) { FrtDocument *doc = make_doc(d); frt_iw_add_doc(iw, doc); frt_doc_destroy(doc); }

struct Tok { std::string t; int pos; long s, e; };
typedef std::function<std::vector<Tok>(const std::string &)> Tokenizer;    // tokens of one value: positions from 0
static inline std::vector<Tok> ws_tokens(const std::string &v) {
    std::vector<Tok> r; size_t i = 0; int pos = 0;
    while (i < v.size()) {
        while (i < v.size() && v[i] == ' ') i++;
        size_t b = i; while (i < v.size() && v[i] != ' ') i++;
        if (i > b) r.push_back({v.substr(b, std::min<size_t>(i - b, 254)), pos++, (long)b, (long)i});
    }
    return r;
}
// tokens of a document field at their final positions and offsets
static inline std::vector<Tok> field_tokens(const MField &f, const FOpt &o, int max_len, const Tokenizer &tk) {
    std::vector<Tok> r; long off = 0; int pos = 0;
    if (!(o.index & 1)) return r;
    for (size_t i = 0; i < f.vals.size(); i++) {
        if (o.index & 2) {
            int last = -1;
            for (auto &t : tk(f.vals[i])) { if ((int)r.size() >= max_len) break; r.push_back({t.t, pos + t.pos, off + t.s, off + t.e}); last = t.pos; }
            pos += last + 1;
        } else r.push_back({f.vals[i].substr(0, 254), (int)i, off, off + (long)f.vals[i].size()});
        off += (long)f.vals[i].size() + 1;
    }
    return r;
}
// norm bytes: 3 bit mantissa, 5 bit exponent, zero point 15: value of byte b, and the largest b whose value is <= f
static inline float byte_value(int b) {
    if (b == 0) return 0;
    uint32_t bits = ((uint32_t)(b & 7) << 21) | ((uint32_t)((b >> 3) + 48) << 24);
    float f; memcpy(&f, &bits, 4); return f;
}
static inline int encode_norm(float f) {
    if (!(f > 0)) return 0;
    int best = 1;
    for (int b = 1; b < 256; b++) if (byte_value(b) <= f) best = b;
    return best;
}
static inline std::string q(const std::string &s) {
    if (s.size() > 80) return mc::fmt("<%zu bytes %016llx>", s.size(), (unsigned long long)mc::fnv(s));
    std::string r = "'"; for (unsigned char c : s) { if (c < 32 || c > 126) r += mc::fmt("\\x%02x", c); else r += (char)c; } return r + "'";
}
typedef std::vector<std::string> Lines;
static inline Lines dump_model(const std::vector<MDoc> &docs, const MSchema &sc, const std::vector<std::string> &fields, int max_len = 10000, const Tokenizer &tk = ws_tokens) {
    Lines L;
    L.push_back(mc::fmt("num_docs %zu", docs.size()));
    std::map<std::string, std::map<std::string, std::map<int, std::vector<int>>>> post;
    for (size_t i = 0; i < docs.size(); i++) {
        std::vector<std::string> st;
        for (auto &f : docs[i].f) if (sc.opt(f.name).store != FRT_STORE_NO) { std::string s = f.name + "="; for (auto &v : f.vals) s += q(v) + ","; st.push_back(s); }
        std::sort(st.begin(), st.end());
        std::string s = mc::fmt("doc %zu:", i); for (auto &x : st) s += " " + x;
        L.push_back(s);
        for (auto &fn : fields) if (auto *f = docs[i].get(fn)) {
            const FOpt &o = sc.opt(fn);
            auto toks = field_tokens(*f, o, max_len, tk);
            std::map<std::string, std::vector<int>> terms;
            for (auto &t : toks) { terms[t.t].push_back(t.pos); post[fn][t.t][(int)i].push_back(t.pos); }
            if ((o.index & 1) && !(o.index & 4) && toks.size()) {
                auto ov = docs[i].norm.find(fn);
                int b = ov != docs[i].norm.end() ? ov->second : encode_norm(o.boost * docs[i].boost * f->boost * (float)(1.0 / sqrt((double)toks.size())));
                L.push_back(mc::fmt("norm %zu %s %d", i, fn.c_str(), b));
            }
            if ((o.index & 1) && o.tv) {
                std::string s = mc::fmt("tv %zu %s:", i, fn.c_str());
                for (auto &t : terms) { s += mc::fmt(" %s*%zu", q(t.first).c_str(), t.second.size()); if (o.tv & 2) for (int p : t.second) s += mc::fmt("@%d", p); }
                if ((o.tv & 4) && toks.size()) { s += " off"; for (auto &t : toks) s += mc::fmt(" %ld-%ld", t.s, t.e); }
                L.push_back(s);
            }
        }
    }
    for (auto &fn : fields) for (auto &t : post[fn]) {
        std::string s = "term " + fn + ":" + q(t.first);
        for (auto &d : t.second) { s += mc::fmt(" %d(%zu)", d.first, d.second.size()); for (int p : d.second) s += mc::fmt("@%d", p); }
        L.push_back(s);
    }
    return L;
}

static inline std::string doc_line(FrtDocument *d) {
    std::vector<std::string> st;
    for (int k = 0; k < d->size; k++) { FrtDocField *df = d->fields[k]; std::string s = std::string((const char *)df->name) + "="; for (int v = 0; v < df->size; v++) s += q(std::string(df->data[v], df->lengths[v])) + ","; st.push_back(s); }
    std::sort(st.begin(), st.end());
    std::string s; for (auto &x : st) s += " " + x;
    return s;
}
static inline std::string lazy_line(FrtLazyDoc *d) {
    std::vector<std::string> st;
    for (int k = 0; k < d->size; k++) { FrtLazyDocField *df = d->fields[k]; std::string s = std::string((const char *)df->name) + "="; for (int v = 0; v < df->size; v++) { char *c = frt_lazy_df_get_data(df, v); s += q(std::string(c, df->data[v].length)) + ","; } st.push_back(s); }
    std::sort(st.begin(), st.end());
    std::string s; for (auto &x : st) s += " " + x;
    return s;
}
enum { DUMP_LAZY = 1, DUMP_NO_NORMS = 2 };
// Full content of a reader; inconsistencies between its views are put in the dump as "BAD ..." lines.
static inline Lines dump_reader(FrtIndexReader *ir, const MSchema &sc, const std::vector<std::string> &fields, int flags = DUMP_LAZY) {
    Lines L; auto bad = [&](const std::string &s) { L.push_back("BAD " + s); };
    int n = ir->num_docs(ir), mx = ir->max_doc(ir);
    L.push_back(mc::fmt("num_docs %d", n));
    std::vector<int> live(mx, -1); int k = 0;
    for (int i = 0; i < mx; i++) if (!ir->is_deleted(ir, i)) live[i] = k++;
    if (k != n) bad(mc::fmt("num_docs %d but %d documents are not deleted", n, k));
    if (!!ir->has_deletions(ir) != (k != mx)) bad(mc::fmt("has_deletions %d with %d of %d live", ir->has_deletions(ir), k, mx));
    if (sc.fields.size() + 1 == 0) return L;
    std::map<std::string, std::vector<int>> len;     // docs with tokens per field
    std::map<std::string, std::vector<std::string>> termlines;
    for (auto &fn : fields) {
        int fnum = frt_fis_get_field_num(ir->fis, SYM(fn));
        len[fn].assign(mx + 1, 0);
        if (fnum < 0) continue;
        FrtTermEnum *te = ir->terms(ir, fnum);
        if (!te) continue;
        std::string prev; bool first = true; char *t;
        while ((t = te->next(te))) {
            std::string term(t, te->curr_term_len);
            if (strlen(t) != (size_t)te->curr_term_len) bad(mc::fmt("term length %d of %s", te->curr_term_len, q(t).c_str()));
            if (!first && !(prev < term)) bad("terms out of order: " + q(prev) + " before " + q(term));
            first = false; prev = term;
            std::string s = "term " + fn + ":" + q(term); int cnt = 0, last = -1;
            std::vector<std::pair<int, int>> df;
            FrtTermDocEnum *tp = frt_ir_term_positions_for(ir, SYM(fn), term.c_str());
            while (tp->next(tp)) {
                int d = tp->doc_num(tp), f = tp->freq(tp);
                if (d <= last || d >= mx || live[d] < 0) { bad(mc::fmt("posting of doc %d (max %d) after %d", d, mx, last)); break; }
                last = d; df.push_back({d, f}); cnt++;
                s += mc::fmt(" %d(%d)", live[d], f);
                for (int j = 0; j < f; j++) s += mc::fmt("@%d", tp->next_position(tp));
                len[fn][d] += f;
            }
            tp->close(tp);
            FrtTermDocEnum *td = frt_ir_term_docs_for(ir, SYM(fn), term.c_str());
            size_t j = 0; bool okd = true;
            while (td->next(td)) { if (j >= df.size() || df[j].first != td->doc_num(td) || df[j].second != td->freq(td)) okd = false; j++; if (j > df.size() + 4) break; }
            td->close(td);
            if (j != df.size() || !okd) bad("term_docs and term_positions differ for " + q(term));
            int dfreq = ir->doc_freq(ir, fnum, term.c_str());
            if (dfreq < cnt || dfreq > mx || (!ir->has_deletions(ir) && dfreq != cnt)) bad(mc::fmt("doc_freq %d of %s with %d live postings", dfreq, q(term).c_str(), cnt));
            if (cnt) termlines[fn].push_back(s);
        }
        te->close(te);
    }
    for (int i = 0; i < mx; i++) if (live[i] >= 0) {
        FrtDocument *d = ir->get_doc(ir, i);
        std::string s = doc_line(d); frt_doc_destroy(d);
        L.push_back(mc::fmt("doc %d:", live[i]) + s);
        if (flags & DUMP_LAZY) { FrtLazyDoc *ld = ir->get_lazy_doc(ir, i); std::string s2 = lazy_line(ld); frt_lazy_doc_close(ld); if (s2 != s) bad("lazy document differs:" + s2); }
        FrtHash *tvs = (flags & DUMP_LAZY) ? ir->term_vectors(ir, i) : NULL;
        for (auto &fn : fields) {
            const FOpt &o = sc.opt(fn);
            int fnum = frt_fis_get_field_num(ir->fis, SYM(fn));
            if (fnum < 0) continue;
            if ((o.index & 1) && !(o.index & 4) && len[fn][i] && !(flags & DUMP_NO_NORMS)) {
                frt_uchar *nm = ir->get_norms(ir, fnum);
                if (!nm) bad("no norms for " + fn); else L.push_back(mc::fmt("norm %d %s %d", live[i], fn.c_str(), nm[i]));
            }
            FrtTermVector *tv = ir->term_vector(ir, i, SYM(fn));
            if (tvs) { FrtTermVector *t2 = (FrtTermVector *)frt_h_get(tvs, SYM(fn)); if (!t2 != !tv || (tv && (t2->term_cnt != tv->term_cnt || t2->offset_cnt != tv->offset_cnt))) bad("term_vectors and term_vector differ for " + fn); }
            if (tv) {
                std::string s = mc::fmt("tv %d %s:", live[i], fn.c_str());
                for (int t = 0; t < tv->term_cnt; t++) { s += mc::fmt(" %s*%d", q(tv->terms[t].text).c_str(), tv->terms[t].freq); if (tv->terms[t].positions) for (int j = 0; j < tv->terms[t].freq; j++) s += mc::fmt("@%d", tv->terms[t].positions[j]); }
                if (tv->offsets) { s += " off"; for (int j = 0; j < tv->offset_cnt; j++) s += mc::fmt(" %ld-%ld", (long)tv->offsets[j].start, (long)tv->offsets[j].end); }
                L.push_back(s);
                frt_tv_destroy(tv);
            }
        }
        if (tvs) frt_h_destroy(tvs);
    } else {
        std::string x = guarded([&] { FrtDocument *d = ir->get_doc(ir, i); frt_doc_destroy(d); });
        if (x.empty()) bad(mc::fmt("deleted document %d can be fetched", i));
    }
    for (auto &fn : fields) for (auto &s : termlines[fn]) L.push_back(s);
    return L;
}
static inline std::string diff(const Lines &got, const Lines &want) {
    std::vector<std::string> g(got), w(want); std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
    std::vector<std::string> only_g, only_w;
    std::set_difference(g.begin(), g.end(), w.begin(), w.end(), std::back_inserter(only_g));
    std::set_difference(w.begin(), w.end(), g.begin(), g.end(), std::back_inserter(only_w));
    if (only_g.empty() && only_w.empty()) return "";
    std::string r;
    for (size_t i = 0; i < only_g.size() && i < 3; i++) r += " unexpected [" + only_g[i].substr(0, 200) + "]";
    for (size_t i = 0; i < only_w.size() && i < 3; i++) r += " missing [" + only_w[i].substr(0, 200) + "]";
    return r;
}
static inline mc::u64 hash_lines(const Lines &l) { mc::u64 h = 7; for (auto &s : l) h = mc::fnv(s, h); return h; }

struct MConfig { int max_buffered_docs = 10000, merge_factor = 10, index_interval = 128, skip_interval = 16; bool compound = true; int max_merge_docs = INT_MAX, max_field_length = 10000, max_buffer_memory = 0x1000000, chunk = 0x100000; };
static inline FrtConfig make_config(const MConfig &c) {
    FrtConfig f = frt_default_config;
    f.max_buffered_docs = c.max_buffered_docs; f.merge_factor = c.merge_factor; f.index_interval = c.index_interval; f.skip_interval = c.skip_interval;
    f.use_compound_file = c.compound; f.max_merge_docs = c.max_merge_docs; f.max_field_length = c.max_field_length;
    f.chunk_size = c.chunk; f.max_buffer_memory = c.max_buffer_memory;
    return f;
}
static inline FrtIndexWriter *open_writer(FrtStore *s, const FrtConfig *c) { return frt_iw_open(s, frt_whitespace_analyzer_new(0), c); }
#endif
