// C03: compound files are transparent.
#include "stores.hpp"
using namespace mc;
typedef std::map<std::string, std::string> Map_;
static const int SZ[] = {0, 1, 500, 1023, 1024, 1025, 2500};
static const char *FN[] = {"_0.fdt", "_0.fdx", "_0.tis"};
static std::string body(int n, int salt) { std::string s; for (int i = 0; i < n; i++) s += (char)(1 + (i * 11 + i / 97 + salt * 57) % 255); return s; }

static FrtStore *pack(Path &p, StoreBox &st, const std::vector<std::string> &b, int pad_name) {
    static char name[] = "_0.cfs";
    FrtCompoundWriter *cw = frt_open_cw(st.s, name);
    for (size_t i = 0; i < b.size(); i++) {
        std::string fn = FN[i]; if (pad_name && i == 0) fn = "_0." + std::string(pad_name, 'x');
        write_file(st.s, fn, b[i]);
        char *id = strdup(fn.c_str()); frt_cw_add_file(cw, id); free(id);
    }
    frt_cw_close(cw);
    return frt_open_cmpd_store(st.s, name);
}

static void sizes(Path &p) {
    int kind = p.choose(2), n = 1 + p.choose(3), pad = p.choose(2) * 1010;
    std::vector<int> sz; for (int i = 0; i < n; i++) sz.push_back(SZ[p.choose(7)]);
    if (kind == 1 && pad) pad = 200;     // file system name limit
    if (!p.mine()) return;
    p.note("%s store, sizes", KIND[kind]); for (int s : sz) p.note(" %d", s);
    p.note(", first name %s", pad ? "long" : "short");
    StoreBox st(kind);
    std::vector<std::string> b; for (int i = 0; i < n; i++) b.push_back(body(sz[i], i));
    std::string e = guarded([&] {
        FrtStore *c = pack(p, st, b, pad);
        MC_CHECK(p, c->count(c) == n, "count %d of %d", c->count(c), n);
        for (int i = 0; i < n; i++) {
            std::string fn = i == 0 && pad ? "_0." + std::string(pad, 'x') : FN[i];
            st->remove(st.s, fn.c_str());                 // the compound store does not need the originals
            MC_CHECK(p, c->exists(c, fn.c_str()), "%s missing", fn.c_str());
            MC_CHECK(p, c->length(c, fn.c_str()) == sz[i], "length(%s)=%ld, packed %d", fn.c_str(), (long)c->length(c, fn.c_str()), sz[i]);
            std::string g = slurp_file(c, fn);
            MC_CHECK(p, g == b[i], "%s differs", fn.c_str());
            FrtInStream *is = c->open_input(c, fn.c_str());
            MC_CHECK(p, is_length(is) == sz[i], "stream length %ld", (long)is_length(is));
            for (int k = 0; k < sz[i]; k++) { int ch = frt_is_read_byte(is); MC_CHECK(p, ch == (unsigned char)b[i][k], "%s byte %d is %d", fn.c_str(), k, ch); }
            std::string x = guarded([&] { frt_is_read_byte(is); });
            MC_CHECK(p, err_code(x) == FRT_EOF_ERROR, "reading byte %d of %s: %s", sz[i], fn.c_str(), x.empty() ? "no error" : x.c_str());
            for (int at : {0, 1, 511, 1023, 1024, 1025, 2499}) for (int len : {1, 2, 700, 1024, 1025, 2500}) if (at <= sz[i]) {
                frt_is_seek(is, at);
                std::vector<frt_uchar> buf(len);
                std::string x = guarded([&] { frt_is_read_bytes(is, buf.data(), len); });
                p.eval();
                if (at + len > sz[i]) MC_CHECK(p, err_code(x) == FRT_EOF_ERROR, "%d bytes at %d of %s (%d bytes): %s", len, at, fn.c_str(), sz[i], x.empty() ? "no error" : x.c_str());
                else MC_CHECK(p, x.empty() && !memcmp(buf.data(), b[i].data() + at, len), "%d bytes at %d of %s: %s", len, at, fn.c_str(), x.empty() ? "wrong bytes" : x.c_str());
            }
            frt_is_close(is); p.step(4);
        }
        std::vector<std::string> names;
        c->each(c, [](const char *f, void *a) { ((std::vector<std::string> *)a)->push_back(f); }, &names);
        MC_CHECK(p, (int)names.size() == n, "each() lists %zu files of %d", names.size(), n);
        MC_CHECK(p, !c->exists(c, "_9.fdt"), "unknown file exists");
        std::string x = guarded([&] { c->open_input(c, "_9.fdt"); });
        MC_CHECK(p, err_code(x) == FRT_IO_ERROR, "opening an unknown file: %s", x.c_str());
        frt_store_deref(c);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
    u64 h = kind + pad; for (int s : sz) h = fnv((u64)s, h); p.state(h);
}

static void interleave(Path &p) {
    static const int sets[][2] = {{10, 10}, {1024, 3}, {1500, 1030}, {2050, 2050}, {0, 700}};
    int kind = p.choose(2), set = p.choose(5), n = opt.thorough ? 5 : 4;
    std::vector<int> op; for (int i = 0; i < n; i++) op.push_back(p.choose(16));
    if (!p.mine()) return;
    p.note("%s store, sub-files of %d and %d bytes, streams A(0) B(1) C(clone of A):", KIND[kind], sets[set][0], sets[set][1]);
    StoreBox st(kind);
    std::vector<std::string> b = {body(sets[set][0], 0), body(sets[set][1], 1)};
    std::string e = guarded([&] {
        FrtStore *c = pack(p, st, b, 0);
        FrtInStream *in[3]; long at[3] = {0, 0, 0}; int f[3] = {0, 1, 0};
        in[0] = c->open_input(c, FN[0]); in[1] = c->open_input(c, FN[1]); in[2] = frt_is_clone(in[0]);
        for (int o : op) {
            p.step();
            if (o == 15) { frt_is_close(in[2]); in[2] = frt_is_clone(in[1]); f[2] = 1; at[2] = at[1]; p.note(" C=clone(B)"); continue; }
            int w = o % 3, k = o / 3; long L = (long)b[f[w]].size();
            if (k < 3) {
                long len = k == 0 ? 1 : k == 1 ? 3 : 1026;
                std::vector<frt_uchar> buf(len);
                p.note(" %c.read(%ld)", 'A' + w, len);
                std::string x = guarded([&] { if (len == 1) buf[0] = frt_is_read_byte(in[w]); else frt_is_read_bytes(in[w], buf.data(), (int)len); });
                if (at[w] + len > L) { MC_CHECK(p, err_code(x) == FRT_EOF_ERROR, "%c: %ld bytes at %ld of %ld: %s", 'A' + w, len, at[w], L, x.empty() ? "no error" : x.c_str()); frt_is_seek(in[w], at[w]); }
                else { MC_CHECK(p, x.empty() && !memcmp(buf.data(), b[f[w]].data() + at[w], len), "%c: %ld bytes at %ld of %ld: %s", 'A' + w, len, at[w], L, x.empty() ? "wrong bytes" : x.c_str()); at[w] += len; }
            } else { long s = k == 3 ? 0 : L / 2; p.note(" %c.seek(%ld)", 'A' + w, s); frt_is_seek(in[w], s); at[w] = s; }
            MC_CHECK(p, frt_is_pos(in[w]) == at[w], "%c: position %ld, expected %ld", 'A' + w, (long)frt_is_pos(in[w]), at[w]);
            long s[5] = {kind * 8 + set, at[0], at[1], at[2], f[2]}; p.state(fnv(s, sizeof s));
        }
        for (auto i : in) frt_is_close(i);
        frt_store_deref(c);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
// many files in one compound file
static void many(Path &p) {
    int kind = p.choose(2), n = 1 + p.choose(opt.thorough ? 200 : 70), base = p.choose(4);
    if (!p.mine()) return;
    static const int BS[] = {0, 37, 1024, 700}; p.note("%s store, %d files of about %d bytes", KIND[kind], n, BS[base]);
    std::string e = guarded([&] {
        StoreBox st(kind); static char name[] = "_0.cfs"; FrtCompoundWriter *cw = frt_open_cw(st.s, name); Map_ m;
        for (int i = 0; i < n; i++) { std::string fn = fmt("_%x.fdt", i), b = body(BS[base] + (i * 7) % 5, i); write_file(st.s, fn, b); m[fn] = b; char *id = strdup(fn.c_str()); frt_cw_add_file(cw, id); free(id); p.step(); }
        frt_cw_close(cw); FrtStore *c = frt_open_cmpd_store(st.s, name);
        MC_CHECK(p, c->count(c) == n, "count %d of %d", c->count(c), n); std::vector<std::string> names; c->each(c, [](const char *f, void *a) { ((std::vector<std::string> *)a)->push_back(f); }, &names); std::sort(names.begin(), names.end());
        std::vector<std::string> want; for (auto &x : m) want.push_back(x.first); MC_CHECK(p, names == want, "each() lists %zu files of %d", names.size(), n);
        std::vector<FrtInStream *> in; for (auto &x : m) { st->remove(st.s, x.first.c_str()); MC_CHECK(p, c->exists(c, x.first.c_str()) && c->length(c, x.first.c_str()) == (off_t)x.second.size(), "%s is missing or has another length", x.first.c_str()); in.push_back(c->open_input(c, x.first.c_str())); }
        for (size_t at = 0;; at++) { bool any = false; size_t i = 0; for (auto &x : m) { if (at < x.second.size()) { any = true; int ch = frt_is_read_byte(in[i]); MC_CHECK(p, ch == (unsigned char)x.second[at], "byte %zu of %s is %d, read in turn with the others", at, x.first.c_str(), ch); } i++; } if (!any) break; p.eval(); }
        for (auto i : in) frt_is_close(i); frt_store_deref(c); p.state(fnv(fmt("%d %d %d", kind, n, base)));
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = sizes of the packed files / read positions of three sub-streams; transition = one read, seek or clone on the real compound stream and the byte model";
    return run(argc, argv, m, {
        {"sizes", "all sets of 1..3 files with sizes from 7 boundary values x short/long name x 2 stores; every (offset,length) of a 7x6 grid read from each", sizes},
        {"interleave", "5 size pairs x all interleavings of 4 (thorough 5) reads/seeks/clones over two sub-streams and a clone, 2 stores", interleave},
        {"many", "1..70 (thorough 200) files of 4 sizes in one compound file x 2 stores, all read in turn byte by byte", many},
    });
}
