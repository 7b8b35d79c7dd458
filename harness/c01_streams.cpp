// C01: what is written to a stream is what is read back.
#include "ferret.hpp"
#include "stores.hpp"
using namespace mc;

struct Val { int type; u64 v; };           // 0 byte 1 i32 2 u32 3 i64 4 u64 5 vint 6 voff 7 vll 8 string 9 block
static std::vector<Val> values(bool thorough) {
    std::vector<Val> r;
    for (u64 b : {0ull, 127ull, 128ull, 255ull}) r.push_back({0, b});
    for (u64 b : {0ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x00ff00ffull}) { r.push_back({1, b}); r.push_back({2, b}); }
    for (u64 b : {0ull, 0x80ull << 32, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x0123456789abcdefull}) { r.push_back({3, b}); r.push_back({4, b}); }
    std::vector<u64> vs = {0, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 0xffffffffull};
    if (thorough) for (int k = 1; k < 32; k++) { vs.push_back((1ull << k) - 1); vs.push_back(1ull << k); }
    for (u64 b : vs) r.push_back({5, b});
    std::vector<u64> vl = vs;
    for (int k : {35, 42, 49, 56, 62}) { vl.push_back((1ull << k) - 1); vl.push_back(1ull << k); }
    vl.push_back(0x7fffffffffffffffull);
    for (u64 b : vl) r.push_back({6, b});
    vl.push_back(0x8000000000000000ull); vl.push_back(0xffffffffffffffffull);
    for (u64 b : vl) r.push_back({7, b});
    for (u64 b : {0ull, 1ull, 5ull, 127ull, 128ull, 1009ull, 1023ull, 1024ull, 1025ull, 2049ull}) { r.push_back({8, b}); r.push_back({9, b}); }
    return r;
}
static std::string text(u64 n, int salt) {
    std::string s;
    for (u64 i = 0; i < n; i++) s += (char)(1 + (i * 7 + i / 251 * 13 + salt * 31) % 254);
    return s;
}
static const char *TN[] = {"byte", "i32", "u32", "i64", "u64", "vint", "voff_t", "vll", "string", "block"};
static void write_val(FrtOutStream *os, const Val &v, int salt) {
    switch (v.type) {
        case 0: frt_os_write_byte(os, (frt_uchar)v.v); break;
        case 1: frt_os_write_i32(os, (frt_i32)v.v); break;
        case 2: frt_os_write_u32(os, (frt_u32)v.v); break;
        case 3: frt_os_write_i64(os, (frt_i64)v.v); break;
        case 4: frt_os_write_u64(os, (frt_u64)v.v); break;
        case 5: frt_os_write_vint(os, (unsigned)v.v); break;
        case 6: frt_os_write_voff_t(os, (off_t)v.v); break;
        case 7: frt_os_write_vll(os, (frt_u64)v.v); break;
        case 8: { std::string t = text(v.v, salt); frt_os_write_string(os, t.c_str()); break; }
        case 9: { std::string t = text(v.v, salt); frt_os_write_bytes(os, (const frt_uchar *)t.data(), (int)t.size()); break; }
    }
}
static void read_val(Path &p, FrtInStream *is, const Val &v, int salt, const char *how) {
    u64 got = 0; std::string g, want;
    switch (v.type) {
        case 0: got = frt_is_read_byte(is); break;
        case 1: got = (u64)(frt_u32)frt_is_read_i32(is); break;
        case 2: got = frt_is_read_u32(is); break;
        case 3: got = (u64)frt_is_read_i64(is); break;
        case 4: got = frt_is_read_u64(is); break;
        case 5: got = frt_is_read_vint(is); break;
        case 6: got = (u64)frt_is_read_voff_t(is); break;
        case 7: got = frt_is_read_vll(is); break;
        case 8: { char *t = (salt & 1) ? frt_is_read_string(is) : frt_is_read_string_safe(is); g = t; free(t); want = text(v.v, salt); break; }
        case 9: { std::vector<frt_uchar> b(v.v + 1); frt_is_read_bytes(is, b.data(), (int)v.v); g.assign((char *)b.data(), v.v); want = text(v.v, salt); break; }
    }
    p.eval();
    if (v.type < 8) MC_CHECK(p, got == v.v, "%s: read %s %llx, wrote %llx", how, TN[v.type], (unsigned long long)got, (unsigned long long)v.v);
    else MC_CHECK(p, g == want, "%s: %s of %llu bytes read back differently (%zu bytes)", how, TN[v.type], (unsigned long long)v.v, g.size());
}

static void typed(Path &p) {
    static std::vector<Val> V = values(opt.thorough);
    static const int pads[] = {0, 1, 1008, 1012, 1014, 1015, 1016, 1019, 1020, 1021, 1022, 1023, 1024};
    int kind = p.choose(2), padk = p.choose(2), pad = pads[p.choose(13)];
    int a = p.choose((int)V.size()), b = p.choose((int)V.size());
    if (!p.mine()) return;
    p.note("%s store, %d pad bytes written %s, then %s %llu, %s %llu", KIND[kind], pad, padk ? "one by one" : "as block",
           TN[V[a].type], (unsigned long long)V[a].v, TN[V[b].type], (unsigned long long)V[b].v);
    StoreBox st(kind);
    std::vector<off_t> pos; off_t end = 0;
    std::string e = guarded([&] {
        FrtOutStream *os = st->new_output(st.s, "_0.f0");
        if (padk) for (int i = 0; i < pad; i++) frt_os_write_byte(os, (frt_uchar)i);
        else { std::string t = text(pad, 9); frt_os_write_bytes(os, (const frt_uchar *)t.data(), pad); }
        pos.push_back(frt_os_pos(os)); write_val(os, V[a], 1);
        pos.push_back(frt_os_pos(os)); write_val(os, V[b], 2);
        pos.push_back(frt_os_pos(os)); write_val(os, V[a], 3);
        end = frt_os_pos(os);
        frt_os_close(os);
    });
    MC_CHECK(p, e.empty(), "write: %s", e.c_str());
    p.step(4);
    Val seq[3] = {V[a], V[b], V[a]};
    MC_CHECK(p, pos[0] == pad, "position after %d bytes is %ld", pad, (long)pos[0]);
    e = guarded([&] {
        MC_CHECK(p, st->length(st.s, "_0.f0") == end, "store length %ld, wrote %ld", (long)st->length(st.s, "_0.f0"), (long)end);
        FrtInStream *is = st->open_input(st.s, "_0.f0");
        MC_CHECK(p, is_length(is) == end, "stream length %ld, wrote %ld", (long)is_length(is), (long)end);
        for (int i = 0; i < pad; i++) { int g = frt_is_read_byte(is), w = padk ? i & 255 : (unsigned char)text(pad, 9)[i]; MC_CHECK(p, g == w, "pad byte %d: %d, wrote %d", i, g, w); if (!padk && i == 3) { frt_is_seek(is, pad); break; } }
        for (int i = 0; i < 3; i++) { MC_CHECK(p, frt_is_pos(is) == pos[i], "position %ld before value %d, written at %ld", (long)frt_is_pos(is), i, (long)pos[i]); read_val(p, is, seq[i], i + 1, "sequential"); }
        MC_CHECK(p, frt_is_pos(is) == end, "position at end %ld, wrote %ld", (long)frt_is_pos(is), (long)end);
        FrtInStream *cl = frt_is_clone(is);
        for (int i = 2; i >= 0; i--) { frt_is_seek(is, pos[i]); read_val(p, is, seq[i], i + 1, "after seek"); frt_is_seek(cl, pos[2 - i]); read_val(p, cl, seq[2 - i], 3 - i, "clone after seek"); }
        frt_is_close(is);
        frt_is_seek(cl, pos[1]); read_val(p, cl, seq[1], 2, "clone after the original was closed");
        frt_is_close(cl);
    });
    MC_CHECK(p, e.empty(), "read: %s", e.c_str());
    // skipping variable ints and copying them between streams
    if (V[a].type == 5 && V[b].type == 5) {
        e = guarded([&] {
            FrtInStream *is = st->open_input(st.s, "_0.f0");
            frt_is_seek(is, pos[0]); frt_is_skip_vints(is, 2);
            MC_CHECK(p, frt_is_pos(is) == pos[2], "skip_vints(2) stopped at %ld, not %ld", (long)frt_is_pos(is), (long)pos[2]);
            frt_is_seek(is, pos[0]);
            FrtOutStream *os = st->new_output(st.s, "_1.f0");
            frt_is2os_copy_vints(is, os, 3);
            MC_CHECK(p, frt_os_pos(os) == end - pos[0], "copy_vints wrote %ld bytes, not %ld", (long)frt_os_pos(os), (long)(end - pos[0]));
            frt_os_close(os); frt_is_close(is);
            is = st->open_input(st.s, "_1.f0");
            for (int i = 0; i < 3; i++) read_val(p, is, seq[i], i + 1, "copied vint");
            frt_is_close(is);
        });
        MC_CHECK(p, e.empty(), "skip/copy vints: %s", e.c_str());
    }
    p.state(fnv(&end, sizeof end, fnv((u64)a, (u64)b)));
}

// -- blocks, bytes, seeks and flushes on one output against a byte-vector model
static void blocks(Path &p) {
    static const int sizes[] = {0, 1, 2, 1023, 1024, 1025, 2048, 2051};
    int kind = p.choose(2), n = 1 + p.choose(opt.thorough ? 4 : 3);
    std::vector<int> op;
    for (int i = 0; i < n; i++) op.push_back(p.choose(17));
    if (!p.mine()) return;
    p.note("%s store:", KIND[kind]);
    StoreBox st(kind);
    std::vector<unsigned char> m; size_t pos = 0; int salt = 0;
    std::string e = guarded([&] {
        FrtOutStream *os = st->new_output(st.s, "_0.f0");
        for (int o : op) {
            salt++;
            auto put = [&](unsigned char c) { if (pos < m.size()) m[pos] = c; else m.push_back(c); pos++; };
            if (o < 8) { p.note(" block(%d)", sizes[o]); std::string t = text(sizes[o], salt); frt_os_write_bytes(os, (const frt_uchar *)t.data(), sizes[o]); for (char c : t) put((unsigned char)c); }
            else if (o < 11) { int k = o == 8 ? 1 : o == 9 ? 1023 : 1030; p.note(" bytes(%d)", k); for (int i = 0; i < k; i++) { unsigned char c = (unsigned char)(i * 3 + salt); frt_os_write_byte(os, c); put(c); } }
            else if (o == 11) { p.note(" flush"); frt_os_flush(os); }
            else {
                size_t t[] = {0, m.size() / 2, m.size() ? m.size() - 1 : 0, m.size(), m.size() > 1024 ? 1024u : m.size() > 3 ? 3u : 0u};
                pos = t[o - 12]; p.note(" seek(%zu)", pos); frt_os_seek(os, (off_t)pos);
            }
            p.step();
            MC_CHECK(p, frt_os_pos(os) == (off_t)pos, "os_pos %ld, expected %zu", (long)frt_os_pos(os), pos);
            p.state(fnv(m.data(), m.size(), fnv((u64)pos, kind)));
        }
        frt_os_close(os);
        MC_CHECK(p, st->length(st.s, "_0.f0") == (off_t)m.size(), "length %ld, expected %zu", (long)st->length(st.s, "_0.f0"), m.size());
        static const int chunks[] = {1, 7, 1000, 1023, 1024, 1025, 3000, 100000};
        std::vector<frt_uchar> buf(m.size() + 1);
        for (int c : chunks) {
            FrtInStream *is = st->open_input(st.s, "_0.f0");
            size_t at = 0;
            while (at < m.size()) {
                int k = (int)std::min<size_t>(c, m.size() - at);
                if (c == 1) buf[at] = frt_is_read_byte(is); else frt_is_read_bytes(is, buf.data() + at, k);
                at += k;
                MC_CHECK(p, frt_is_pos(is) == (off_t)at, "is_pos %ld after reading %zu bytes in chunks of %d", (long)frt_is_pos(is), at, c);
            }
            for (size_t i = 0; i < m.size(); i++) MC_CHECK(p, buf[i] == m[i], "byte %zu is %d, expected %d (chunks of %d)", i, buf[i], m[i], c);
            frt_is_close(is); p.eval();
        }
        FrtInStream *is = st->open_input(st.s, "_0.f0");
        FrtOutStream *o2 = st->new_output(st.s, "_9.f0");
        frt_is2os_copy_bytes(is, o2, (int)m.size());
        frt_os_close(o2); frt_is_close(is);
        std::string c = slurp_file(st.s, "_9.f0");
        MC_CHECK(p, c == std::string((char *)m.data(), m.size()), "is2os_copy_bytes changed the content");
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}

// -- RAM buffers copied into a stream (used to build segments)
static void rambuf(Path &p) {
    static const int sizes[] = {0, 1, 1023, 1024, 1025, 2047, 2048, 2049, 4096};
    int kind = p.choose(2), a = p.choose(9), b = p.choose(10), c = p.choose(9);
    if (!p.mine()) return;
    p.note("ram buffer of %d bytes, %s, then %d bytes, copied to a %s file", sizes[a], b == 9 ? "reset" : fmt("%d bytes", sizes[b]).c_str(), sizes[c], KIND[kind]);
    StoreBox st(kind);
    std::string want;
    std::string e = guarded([&] {
        FrtOutStream *rb = frt_ram_new_buffer();
        auto w = [&](int n, int salt) { std::string t = text(n, salt); for (size_t i = 0; i < t.size(); i++) frt_os_write_byte(rb, (frt_uchar)t[i]); want += t; };
        w(sizes[a], 1);
        if (b == 9) { frt_ramo_reset(rb); want.clear(); } else w(sizes[b], 2);
        w(sizes[c], 3);
        FrtOutStream *os = st->new_output(st.s, "_0.f0");
        frt_os_write_byte(os, 'x');
        frt_ramo_write_to(rb, os);
        MC_CHECK(p, frt_ramo_length(rb) == (off_t)want.size(), "ramo_length %ld, wrote %zu", (long)frt_ramo_length(rb), want.size());
        frt_os_write_byte(os, 'y');
        frt_os_close(os);
        frt_ram_destroy_buffer(rb);
        std::string g = slurp_file(st.s, "_0.f0");
        MC_CHECK(p, g == "x" + want + "y", "copied buffer differs (%zu bytes for %zu)", g.size(), want.size() + 2);
    });
    p.step(4); p.state(fnv(want));
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}

// -- interleaved reads and seeks over an input and its clone
static void clones(Path &p) {
    static const int lens[] = {0, 1, 10, 1024, 1025, 2500};
    int kind = p.choose(2), len = lens[p.choose(6)], n = opt.thorough ? 5 : 4;
    std::vector<int> op;
    for (int i = 0; i < n; i++) op.push_back(p.choose(15));
    if (!p.mine()) return;
    p.note("%s store, %d bytes, input A and clone B:", KIND[kind], len);
    StoreBox st(kind);
    std::string body = text(len, 5);
    write_file(st.s, "_0.f0", body);
    std::string e = guarded([&] {
        FrtInStream *in[2] = {st->open_input(st.s, "_0.f0"), NULL}; long at[2] = {0, 0};
        in[1] = frt_is_clone(in[0]);
        for (int o : op) {
            p.step();
            int w = o % 2, k = o / 2;
            if (o == 14) {             // drop A and clone it again from B
                if (!in[0]) { in[0] = frt_is_clone(in[1]); at[0] = at[1]; p.note(" A=clone(B)"); }
                else { frt_is_close(in[0]); in[0] = NULL; p.note(" close(A)"); }
                continue;
            }
            if (!in[w]) w = 1;
            long L = len, seeks[] = {0, L / 2, L - 1, L};
            if (k == 0 || k == 1 || k == 2) {
                long c = k == 0 ? 1 : k == 1 ? 600 : 1500;
                bool past = at[w] + c > L;
                std::vector<frt_uchar> b(c + 1);
                p.note(" %c.read(%ld)", 'A' + w, c);
                std::string x = guarded([&] { if (k == 0) b[0] = frt_is_read_byte(in[w]); else frt_is_read_bytes(in[w], b.data(), (int)c); });
                if (past) {
                    MC_CHECK(p, err_code(x) == FRT_EOF_ERROR, "reading %ld bytes at %ld of a %ld byte file: %s", c, at[w], L, x.empty() ? "no error" : x.c_str());
                    frt_is_seek(in[w], at[w]);      // position after a failed read is unspecified
                } else {
                    MC_CHECK(p, x.empty(), "reading %ld bytes at %ld of a %ld byte file: %s", c, at[w], L, x.c_str());
                    for (long i = 0; i < c; i++) MC_CHECK(p, b[i] == (unsigned char)body[at[w] + i], "byte %ld of %c is %d, expected %d", at[w] + i, 'A' + w, b[i], (unsigned char)body[at[w] + i]);
                    at[w] += c;
                }
            } else {
                long s = seeks[k - 3]; if (s < 0) s = 0;
                p.note(" %c.seek(%ld)", 'A' + w, s);
                frt_is_seek(in[w], s); at[w] = s;
            }
            MC_CHECK(p, frt_is_pos(in[w]) == at[w], "is_pos %ld, expected %ld", (long)frt_is_pos(in[w]), at[w]);
            long s[4] = {kind, len, at[0], at[1]}; p.state(fnv(s, sizeof s));
        }
        for (int w = 0; w < 2; w++) if (in[w]) frt_is_close(in[w]);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}

// -- typed reads that run into the end of the file
static void eof(Path &p) {
    int kind = p.choose(2), type = p.choose(9), have = p.choose(12), big = p.choose(2);
    static const int need[] = {1, 4, 4, 8, 8, 0, 0, 0, 0};
    if (!p.mine()) return;
    int base = big ? 1024 : 0;
    p.note("%s store: %s read with %d bytes left after %d", KIND[kind], TN[type], have, base);
    StoreBox st(kind);
    std::string body = std::string(base, 'p');
    for (int i = 0; i < have; i++) body += (char)(type >= 5 ? 0x8b : 3);   // continuation bytes: never complete
    write_file(st.s, "_0.f0", body);
    std::string e = guarded([&] {
        FrtInStream *is = st->open_input(st.s, "_0.f0");
        frt_is_seek(is, base);
        std::string x = guarded([&] {
            switch (type) {
                case 0: frt_is_read_byte(is); break; case 1: frt_is_read_i32(is); break; case 2: frt_is_read_u32(is); break;
                case 3: frt_is_read_i64(is); break; case 4: frt_is_read_u64(is); break; case 5: frt_is_read_vint(is); break;
                case 6: frt_is_read_voff_t(is); break; case 7: frt_is_read_vll(is); break;
                case 8: frt_is_skip_vints(is, 1); break;
            }
        });
        bool past = type < 5 ? have < need[type] : true;
        if (type >= 5 && type <= 7 && have > 9) { frt_is_close(is); return; }   // not the encoding of any value
        MC_CHECK(p, past == (err_code(x) == FRT_EOF_ERROR) && (past || x.empty()), "%s with %d bytes left: %s", TN[type], have, x.empty() ? "no error" : x.c_str());
        frt_is_close(is);
    });
    p.step(); p.state(fnv((u64)type, fnv((u64)have, kind * 2 + big)));
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}

int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = (byte content, position) of the model; transition = one stream operation executed on the real stream and on the model; trace = one enumerated operation sequence replayed on the real code";
    m.assumptions = {"file system calls themselves are correct", "file sizes bounded to a few internal buffers (1 KB each)"};
    return run(argc, argv, m, {
        {"typed", "2 stores x 2 pad modes x 13 pad lengths around the 1024 byte buffer x all ordered pairs of ~85 typed boundary values, read sequentially, by seek, and through clones", typed},
        {"blocks", "all sequences of <=3 (thorough 4) block/byte/flush/seek operations, read back in 8 chunk sizes, 2 stores", blocks},
        {"rambuf", "all RAM buffer fill patterns from 9x10x9 sizes, 2 stores", rambuf},
        {"clones", "6 file lengths x all interleavings of 4 (thorough 5) read/seek/close/clone operations on an input and its clone, 2 stores", clones},
        {"eof", "all typed reads x 0..11 remaining bytes x 2 offsets x 2 stores", eof},
    });
}
