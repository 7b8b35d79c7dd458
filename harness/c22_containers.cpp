// C22: containers against their abstract types under all operation sequences up to a depth.
#include "../lib/ferret.hpp"
#include <algorithm>
#include <set>
#include <map>
#include <functional>
using namespace mc;
// --- ownership ledger ------------------------------------------------------------------------------------------
static std::map<void *, int> freed; static std::map<void *, std::string> names;
static void note_free(void *q) { if (q) freed[q]++; }
static void *clone_key_fn(void *q) { char *s = strdup((char *)q); names[s] = s; return s; }
static std::vector<void *> clone_made;
static void *clone_val_fn(void *q) { char *s = strdup((char *)q); clone_made.push_back(s); return s; }
static unsigned long bad_hash(const void *) { return 7; }
static unsigned long low_hash(const void *q) { return ((unsigned long)((const char *)q)[0]) << 8; }
static int s_eq(const void *a, const void *b) { return !strcmp((const char *)a, (const char *)b); }
// --- hash tables -----------------------------------------------------------------------------------------------
struct HModel { std::map<std::string, std::pair<void *, void *>> m; };
static void hash_seq(Path &p, int kind, int prefill, const std::vector<int> &first, int depth) {
    // keys: "" (the literal one and a copy), two full collisions under the string hash, two keys in the same bucket, others
    static const char *K[] = {"", "aZ", "b5", "i", "a", "q"}; enum { NK = 6 };
    int n = 0; std::vector<int> ops;
    auto run1 = [&] {
        freed.clear(); names.clear(); clone_made.clear(); n++;
        FrtHash *h = kind == 0 ? frt_h_new_str(note_free, note_free) : kind == 1 ? frt_h_new(bad_hash, s_eq, note_free, note_free) : frt_h_new(low_hash, s_eq, note_free, note_free);
        std::map<std::string, std::pair<void *, void *>> m; std::map<void *, int> want; std::vector<void *> all; char *keep[NK][2]; static char lit[] = "";
        auto bad = [&](const std::string &w) { std::string s; for (int o : ops) s += fmt(" %d.%s", o / NK, o / NK < 9 ? (std::string("\"") + K[o % NK] + "\"").c_str() : ""); p.fail("hash kind %d with %d entries, after%s: %s", kind, prefill, s.c_str(), w.c_str()); };
        auto alloc = [&](const std::string &s) { char *c = strdup(s.c_str()); all.push_back(c); return c; };
        for (int k = 0; k < NK; k++) for (int j = 0; j < 2; j++) keep[k][j] = alloc(K[k]);
        (void)lit;
        for (int i = 0; i < prefill; i++) { char *k = alloc(fmt("p%d", i)), *v = alloc(fmt("v%d", i)); frt_h_set(h, k, v); m[k] = {k, v}; }
        for (int o : ops) { int op = o / NK; std::string ks = K[o % NK]; char *k0 = keep[o % NK][0]; auto it = m.find(ks); bool has = it != m.end();
            switch (op) {
            case 0: case 1: { void *k = op ? (void *)alloc(ks) : (has ? it->second.first : (void *)alloc(ks)); char *v = alloc("v"); int r = frt_h_set(h, k, v); int w = !has ? FRT_HASH_KEY_DOES_NOT_EXIST : it->second.first == k ? FRT_HASH_KEY_SAME : FRT_HASH_KEY_EQUAL; if (r != w) bad(fmt("set returns %d, not %d", r, w)); if (has) { want[it->second.second]++; if (it->second.first != k) want[it->second.first]++; } m[ks] = {k, v}; break; }
            case 2: { char *k = alloc(ks), *v = alloc("s"); int r = frt_h_set_safe(h, k, v); if (!!r == has) bad("set_safe"); if (!has) m[ks] = {k, v}; break; }
            case 3: { void *r = frt_h_get(h, k0), *w = has ? it->second.second : NULL; if (r != w) bad("get"); int x = frt_h_has_key(h, k0); if (x != (has ? FRT_HASH_KEY_EQUAL : FRT_HASH_KEY_DOES_NOT_EXIST)) bad(fmt("has_key %d", x)); if (has && frt_h_has_key(h, it->second.first) != FRT_HASH_KEY_SAME) bad("has_key of the same key"); if (ks.empty() && (frt_h_get(h, "") != w)) bad("get of the empty string constant"); break; }
            case 4: { int r = frt_h_del(h, k0); if (!!r != has) bad("del"); if (has) { want[it->second.first]++; want[it->second.second]++; m.erase(it); } break; }
            case 5: case 6: { void *r = frt_h_rem(h, k0, op == 6); if (r != (has ? it->second.second : NULL)) bad("rem"); if (has) { if (op == 6) want[it->second.first]++; m.erase(it); } break; }
            case 7: { if (has) { int r = frt_h_set(h, it->second.first, it->second.second); if (r != FRT_HASH_KEY_SAME) bad("set of the same pair"); } break; }
            case 8: { FrtHash *c = frt_h_clone(h, clone_key_fn, clone_val_fn); if (c->size != (int)m.size()) bad("size of a clone"); for (auto &x : m) { char *v = (char *)frt_h_get(c, x.first.c_str()); if (!v || strcmp(v, (char *)x.second.second) || v == x.second.second) bad("clone lost " + x.first); } std::vector<void *> ks; frt_h_each(c, [](void *k, void *, void *a) { ((std::vector<void *> *)a)->push_back(k); }, &ks); auto before = freed; frt_h_destroy(c); for (void *k : ks) { if (freed[k] != 1) bad("clone key not freed once"); freed.erase(k); free(k); } for (void *v : clone_made) { if (freed[v] != 1) bad("clone value not freed once"); freed.erase(v); free(v); } clone_made.clear(); break; }
            case 9: frt_h_clear(h); for (auto &x : m) { want[x.second.first]++; want[x.second.second]++; } m.clear(); break;
            }
            if (h->size != (int)m.size()) bad(fmt("size %d, not %zu", h->size, m.size()));
        }
        for (auto &x : m) if (frt_h_get(h, x.first.c_str()) != x.second.second) bad("lost \"" + x.first + "\""); for (auto k : K) if (!m.count(k) && frt_h_get(h, k)) bad(std::string("finds \"") + k + "\"");
        std::map<std::string, void *> seen; std::pair<std::map<std::string, void *> *, int> arg{&seen, 0}; frt_h_each(h, [](void *k, void *v, void *a) { auto *x = (std::pair<std::map<std::string, void *> *, int> *)a; (*x->first)[(char *)k] = v; x->second++; }, &arg); if (arg.second != (int)m.size() || seen.size() != m.size()) bad("each visits other entries"); for (auto &x : m) if (seen[x.first] != x.second.second) bad("each gives another value");
        frt_h_destroy(h); for (auto &x : m) { want[x.second.first]++; want[x.second.second]++; }
        for (void *q : all) if (freed[q] != want[q]) bad(fmt("\"%s\" freed %d times, not %d", (char *)q, freed[q], want[q]));
        for (void *q : all) free(q);
    };
    std::function<void(int)> rec = [&](int d) { run1(); if (!d) return; for (int o = 0; o < 55; o++) { if (o > 9 * NK) break; ops.push_back(o); rec(d - 1); ops.pop_back(); } };
    ops = first; rec(depth - (int)first.size()); p.eval(n);
}
static void sc_hash(Path &p) { static const int PF[] = {0, 3, 4, 5, 6, 9, 10, 11, 20, 21, 22, 42, 43}; int kind = p.choose(3), pf = p.choose(13), o = p.choose(55); if (!p.mine()) return; p.note("[kind %d, %d entries] ", kind, PF[pf]); p.state((kind * 16 + pf) * 64 + o); hash_seq(p, kind, PF[pf], {o}, (PF[pf] == 0 || PF[pf] == 5) ? (opt.thorough ? 4 : 3) : opt.thorough ? 3 : 2); }
// long histories of adding and removing few keys (deleted slots pile up)
static void sc_hash_churn(Path &p) {
    int kind = p.choose(4), period = p.choose(12) + 1, live = p.choose(8); if (!p.mine()) return; p.note("[kind %d, period %d, %d live] ", kind, period, live); p.state((kind * 16 + period) * 8 + live); FrtHash *h = kind == 0 ? frt_h_new_str(free, NULL) : kind == 1 ? frt_h_new_int(NULL) : kind == 2 ? frt_h_new(bad_hash, s_eq, free, NULL) : frt_h_new_ptr(NULL); std::map<long, long> m;
    static char arena[4096]; int N = 600, n = 0;
    auto key = [&](long k) -> void * { return kind == 3 ? (void *)(arena + k * 8) : (void *)strdup(fmt("k%ld", k).c_str()); };
    for (int i = 0; i < N; i++) { long k = i % period; long v = i + 1; if (kind == 1) frt_h_set_int(h, (unsigned long)k << (period % 7), (void *)v); else frt_h_set(h, key(k), (void *)v); m[k] = v; while ((int)m.size() > live) { long d = m.begin()->first; void *q = kind == 1 ? NULL : key(d); int r = kind == 1 ? frt_h_del_int(h, (unsigned long)d << (period % 7)) : frt_h_del(h, q); if (kind != 3) free(q); if (!r) p.fail("entry %ld is not there to delete", d); m.erase(d); }
        if (h->size != (int)m.size()) p.fail("size %d, not %zu", h->size, m.size()); for (long x = 0; x <= period; x++) { void *q = kind == 1 ? NULL : key(x); long g = (long)(kind == 1 ? frt_h_get_int(h, (unsigned long)x << (period % 7)) : frt_h_get(h, q)); if (kind != 3) free(q); if (g != (m.count(x) ? m[x] : 0)) p.fail("after %d steps key %ld holds %ld, not %ld", i, x, g, m.count(x) ? m[x] : 0); n++; } }
    frt_h_destroy(h); p.eval(n);
}
// integer and pointer tables
static void sc_hash_int(Path &p) {
    static const long K[] = {0, 1, 8, 16, 9, -1, 1L << 40, 7}; enum { NK = 8 }; static const int PF[] = {0, 4, 5, 6, 21}; int ptr = p.choose(2), pf = PF[p.choose(5)], o0 = p.choose(41), o1 = p.choose(41); if (!p.mine()) return; p.note("[%s, %d entries] ", ptr ? "pointers" : "integers", pf); p.state(((ptr * 32 + pf) * 64 + o0) * 64 + o1); int n = 0; std::vector<int> ops;
    auto run1 = [&] { n++; freed.clear(); FrtHash *h = ptr ? frt_h_new_ptr(note_free) : frt_h_new_int(note_free); std::map<long, void *> m; std::map<void *, int> want; std::vector<void *> all; auto alloc = [&] { void *v = malloc(4); strcpy((char *)v, "v"); all.push_back(v); return v; };
        auto bad = [&](const std::string &w) { std::string s; for (int o : ops) s += fmt(" %d.%ld", o / NK, o / NK < 5 ? K[o % NK] : 0); p.fail("%s table with %d entries, after%s: %s", ptr ? "pointer" : "integer", pf, s.c_str(), w.c_str()); };
        auto P = [&](long k) { return (void *)(ptr ? (k + 100) * 8 : k); };
        for (int i = 0; i < pf; i++) { void *v = alloc(); long k = 100 + i * 8; if (ptr) frt_h_set(h, P(k), v); else frt_h_set_int(h, k, v); m[k] = v; }
        for (int o : ops) { long k = K[o % NK]; auto it = m.find(k); bool has = it != m.end(); switch (o / NK) {
            case 0: { void *v = alloc(); int r = ptr ? frt_h_set(h, P(k), v) : frt_h_set_int(h, k, v); if ((r == FRT_HASH_KEY_DOES_NOT_EXIST) == has) bad("set"); if (has) want[it->second]++; m[k] = v; break; }
            case 1: { void *v = alloc(); int r = ptr ? frt_h_set_safe(h, P(k), v) : frt_h_set_safe_int(h, k, v); if (!!r == has) bad("set_safe"); if (!has) m[k] = v; break; }
            case 2: { void *r = ptr ? frt_h_get(h, P(k)) : frt_h_get_int(h, k); if (r != (has ? it->second : NULL)) bad("get"); int x = ptr ? (int)frt_h_has_key(h, P(k)) : frt_h_has_key_int(h, k); if (!!x != has) bad("has_key"); break; }
            case 3: { int r = ptr ? frt_h_del(h, P(k)) : frt_h_del_int(h, k); if (!!r != has) bad("del"); if (has) { want[it->second]++; m.erase(it); } break; }
            case 4: { void *r = ptr ? frt_h_rem(h, P(k), 0) : frt_h_rem_int(h, k); if (r != (has ? it->second : NULL)) bad("rem"); if (has) m.erase(it); break; }
            case 5: { FrtHash *c = frt_h_clone(h, NULL, clone_val_fn); if (c->size != (int)m.size()) bad("size of a clone"); for (auto &x : m) { void *v = ptr ? frt_h_get(c, P(x.first)) : frt_h_get_int(c, x.first); if (!v || v == x.second) bad("clone lost an entry"); } frt_h_destroy(c); for (void *v : clone_made) { if (freed[v] != 1) bad("clone value not freed once"); freed.erase(v); free(v); } clone_made.clear(); break; } } if (h->size != (int)m.size()) bad("size"); }
        for (auto &x : m) if ((ptr ? frt_h_get(h, P(x.first)) : frt_h_get_int(h, x.first)) != x.second) bad(fmt("lost %ld", x.first)); for (long k : K) if (!m.count(k) && (ptr ? frt_h_get(h, P(k)) : frt_h_get_int(h, k))) bad(fmt("finds %ld", k));
        frt_h_destroy(h); for (auto &x : m) want[x.second]++; for (void *q : all) { if (freed[q] != want[q]) bad("a value is not freed exactly once"); free(q); } };
    std::function<void(int)> rec = [&](int d) { run1(); if (!d) return; for (int o = 0; o < 41; o++) { ops.push_back(o); rec(d - 1); ops.pop_back(); } };
    ops = {o0, o1}; if (!o1) { ops = {o0}; run1(); ops = {o0, o1}; } rec(opt.thorough ? 2 : 1); p.eval(n);
}
// --- hash sets ---------------------------------------------------------------------------------------------------
static void sc_hashset(Path &p) {
    static const char *K[] = {"", "aZ", "b5", "x"}; enum { NK = 4, NOP = 8 * NK + 2 }; static const int PF[] = {0, 1, 5, 6, 21}; int kind = p.choose(2), pf = PF[p.choose(5)], o0 = p.choose(NOP); if (!p.mine()) return; p.note("[kind %d, %d elements] ", kind, pf); p.state((kind * 32 + pf) * 64 + o0); int n = 0; std::vector<int> ops;
    auto run1 = [&] { n++; freed.clear(); FrtHashSet *h = kind ? frt_hs_new(bad_hash, s_eq, note_free) : frt_hs_new_str(note_free); std::vector<char *> m; std::map<void *, int> want; std::vector<void *> all; auto alloc = [&](const std::string &s) { char *v = strdup(s.c_str()); all.push_back(v); return v; };
        auto bad = [&](const std::string &w) { std::string s; for (int o : ops) s += fmt(" %d.%s", o / NK, o < 8 * NK ? K[o % NK] : ""); p.fail("hash set of %d, after%s: %s", pf, s.c_str(), w.c_str()); };
        auto find = [&](const std::string &s) { for (size_t i = 0; i < m.size(); i++) if (s == m[i]) return (int)i; return -1; };
        auto same = [&](FrtHashSet *h, const std::vector<char *> &m, const char *what) { if (h->size != (int)m.size()) bad(std::string(what) + " size"); FrtHashSetEntry *e = h->first, *pr = NULL; for (size_t i = 0; i < m.size(); i++, pr = e, e = e->next) { if (!e || e->elem != m[i]) bad(std::string(what) + " order"); if (e->prev != pr) bad(std::string(what) + " back link"); } if (e || h->last != pr) bad(std::string(what) + " end"); };
        for (int i = 0; i < pf; i++) { char *c = alloc(fmt("p%d", i)); frt_hs_add(h, c); m.push_back(c); }
        for (int o : ops) { std::string k = K[o % NK]; int i = find(k); switch (o / NK) {
            case 0: { char *c = alloc(k); int r = frt_hs_add(h, c); if (r != (i < 0 ? FRT_HASH_KEY_DOES_NOT_EXIST : FRT_HASH_KEY_EQUAL)) bad("add"); if (i < 0) m.push_back(c); else want[c]++; break; }
            case 1: { if (i >= 0) { if (frt_hs_add(h, m[i]) != FRT_HASH_KEY_SAME || !frt_hs_add_safe(h, m[i])) bad("add of the same element"); } break; }
            case 2: { char *c = alloc(k); int r = frt_hs_add_safe(h, c); if (!!r != (i < 0)) bad("add_safe"); if (i < 0) m.push_back(c); break; }
            case 3: { int r = frt_hs_del(h, k.c_str()); if (!!r != (i >= 0)) bad("del"); if (i >= 0) { want[m[i]]++; m.erase(m.begin() + i); } break; }
            case 4: { void *r = frt_hs_rem(h, k.c_str()); if (r != (i >= 0 ? m[i] : NULL)) bad("rem"); if (i >= 0) m.erase(m.begin() + i); break; }
            case 5: { if (frt_hs_orig(h, k.c_str()) != (i >= 0 ? m[i] : NULL)) bad("orig"); int r = frt_hs_exists(h, k.c_str()); if (!!r != (i >= 0)) bad("exists"); break; }
            case 6: { FrtHashSet *g = kind ? frt_hs_new(bad_hash, s_eq, note_free) : frt_hs_new_str(note_free); std::vector<char *> o2; for (auto q : {"x", K[o % NK], "new"}) { bool dup = false; for (auto z : o2) dup |= !strcmp(z, q); if (dup) continue; char *c = alloc(q); frt_hs_add(g, c); o2.push_back(c); } frt_hs_merge(h, g); for (auto c : o2) if (find(c) < 0) m.push_back(c); else want[c]++; break; }
            case 7: { if (i >= 0) { FrtHashSet *g = kind ? frt_hs_new(bad_hash, s_eq, note_free) : frt_hs_new_str(note_free); frt_hs_add(g, m[i]); frt_hs_merge(h, g); } break; }
            default: if (o == 8 * NK) { frt_hs_clear(h); for (auto c : m) want[c]++; m.clear(); } else if (!m.empty()) { void *f = m[0]; if (frt_hs_rem(h, f) != f) bad("rem of the first"); m.erase(m.begin()); } }
            same(h, m, "wrong"); }
        for (auto k : K) { int i = find(k); if (!!frt_hs_exists(h, k) != (i >= 0)) bad(std::string("exists ") + k); }
        if (n & 1) { frt_hs_destroy(h); for (auto c : m) want[c]++; } else frt_hs_free(h);
        for (void *q : all) { if (freed[q] != want[q]) bad(fmt("\"%s\" freed %d times, not %d", (char *)q, freed[q], want[q])); free(q); } };
    std::function<void(int)> rec = [&](int d) { run1(); if (!d) return; for (int o = 0; o < NOP; o++) { ops.push_back(o); rec(d - 1); ops.pop_back(); } };
    ops = {o0}; rec(opt.thorough ? 3 : 2); p.eval(n);
}
// --- arrays --------------------------------------------------------------------------------------------------------
static void sc_array(Path &p) {
    static const int IX[] = {0, 1, 2, 3, 4, 7, 8, 9, -1, -2, -5}; enum { NI = 11, NOP = 4 * NI + 6 }; static const int PF[] = {0, 1, 2, 3, 4, 7, 8, 15, 16}; static const int CP[] = {0, 1, 2, 3}; int capa = CP[p.choose(4)], pf = PF[p.choose(9)], o0 = p.choose(NOP); if (!p.mine()) return; p.note("[capacity %d, %d elements] ", capa, pf); p.state((capa * 32 + pf) * 64 + o0); int n = 0; std::vector<int> ops;
    auto run1 = [&] { n++; freed.clear(); void **a = capa ? frt_ary_new_capa(capa) : frt_ary_new(); std::vector<void *> m; std::map<void *, int> want; long id = 1; auto alloc = [&] { return (void *)(id++ * 16); };
        auto bad = [&](const std::string &w) { std::string s; for (int o : ops) s += fmt(" %d.%d", o / NI, o < 4 * NI ? IX[o % NI] : o - 4 * NI); p.fail("array of %d (capacity %d), after%s: %s", pf, capa, s.c_str(), w.c_str()); };
        for (int i = 0; i < pf; i++) { void *v = alloc(); frt_ary_push(a, v); m.push_back(v); }
        for (int o : ops) { int ix = IX[o % NI], sz = (int)m.size(), at = ix < 0 ? ix + sz : ix; bool in = at >= 0 && at < sz; switch (o < 4 * NI ? o / NI : 4 + o - 4 * NI) {
            case 0: { void *v = alloc(); std::string e = guarded([&] { frt_ary_set(a, ix, v); }); if (at < 0) { if (err_code(e) != FRT_INDEX_ERROR) bad("set before the beginning: " + e); } else { if (!e.empty()) bad("set: " + e); while ((int)m.size() <= at) m.push_back(NULL); m[at] = v; } break; }
            case 1: { if (frt_ary_get(a, ix) != (in ? m[at] : NULL)) bad("get"); break; }
            case 2: { void *r = frt_ary_remove(a, ix); bool ok = ix >= 0 && ix < sz; if (r != (ok ? m[ix] : NULL)) bad("remove"); if (ok) m.erase(m.begin() + ix); break; }
            case 3: { bool ok = ix >= 0 && ix < sz; if (ok) { if (m[ix]) want[m[ix]]++; } frt_ary_delete_i(a, ix, note_free); if (ok) m.erase(m.begin() + ix); break; }
            case 4: { void *v = alloc(); frt_ary_push(a, v); m.push_back(v); break; }
            case 5: { void *v = alloc(); frt_ary_unshift(a, v); m.insert(m.begin(), v); break; }
            case 6: if (sz) { if (frt_ary_pop(a) != m.back()) bad("pop"); m.pop_back(); } break;
            case 7: if (sz) { if (frt_ary_shift(a) != m[0]) bad("shift"); m.erase(m.begin()); } break;
            case 8: frt_ary_grow(a); m.push_back(NULL); break;
            case 9: frt_ary_resize(a, sz + 9); m.resize(sz + 10); break; }
            if (frt_ary_sz(a) != (int)m.size()) bad(fmt("size %d, not %zu", frt_ary_sz(a), m.size())); for (size_t i = 0; i < m.size(); i++) if (a[i] != m[i]) bad(fmt("element %zu", i)); if (frt_ary_get(a, (int)m.size()) || frt_ary_get(a, -(int)m.size() - 1)) bad("an element outside"); }
        for (void *v : m) if (v) want[v]++; frt_ary_destroy_i(a, note_free); for (long i = 1; i < id; i++) if (freed[(void *)(i * 16)] != want[(void *)(i * 16)]) bad(fmt("element %ld freed %d times, not %d", i, freed[(void *)(i * 16)], want[(void *)(i * 16)])); };
    std::function<void(int)> rec = [&](int d) { run1(); if (!d) return; for (int o = 0; o < NOP; o++) { ops.push_back(o); rec(d - 1); ops.pop_back(); } };
    ops = {o0}; rec(opt.thorough ? 3 : 2); p.eval(n);
}
static void sc_array_typed(Path &p) { int ts = p.choose(4), capa = p.choose(5), n1 = p.choose(40); if (!p.mine()) return; p.state((ts * 8 + capa) * 64 + n1);
    // arrays of another element size: grown and indexed by the user
    auto go = [&](auto zero) { typedef decltype(zero) T; T *a = (T *)frt_ary_new_i(sizeof(T), capa); for (int i = 0; i < n1; i++) { frt_ary_grow(a); if (a[i] != 0) p.fail("new element is not zero"); a[i] = (T)(i + 1); if (frt_ary_sz(a) != i + 1) p.fail("size"); } for (int i = 0; i < n1; i++) if (a[i] != (T)(i + 1)) p.fail("element %d lost", i); frt_ary_resize(a, n1 + 20); for (int i = 0; i < n1 + 21; i++) if (a[i] != (i < n1 ? (T)(i + 1) : (T)0)) p.fail("element %d after resize", i); frt_ary_free(a); };
    if (ts == 0) go((char)0); else if (ts == 1) go((short)0); else if (ts == 2) go((int)0); else go((long)0); p.eval(n1); }
// --- bit vectors -----------------------------------------------------------------------------------------------------
struct MB { std::set<int> diff; bool ext = false; int size = 0; bool get(int i) const { return ext != !!diff.count(i); } };
static void sc_bits(Path &p) {
    static const int BT[] = {0, 31, 32, 127, 128, 300}; enum { NB = 6, NOP = 4 * NB + 20 }; int c0 = p.choose(3), o0 = p.choose(NOP), o1 = p.choose(NOP); if (!p.mine()) return; p.note("[ops %d %d] ", o0, o1); p.state((c0 * 64 + o0) * 64 + o1); int n = 0; std::vector<int> ops; static const int CAP[] = {256, 1, 129};
    auto run1 = [&] { n++; FrtBitVector *v[2] = {frt_bv_new_capa(CAP[c0]), frt_bv_new()}; MB m[2];
        auto bad = [&](const std::string &w) { std::string s; for (int o : ops) s += o < 4 * NB ? fmt(" %s%c.%d", o / NB % 2 ? "unset" : "set", "AB"[o / NB / 2], BT[o % NB]) : fmt(" op%d", o - 4 * NB); p.fail("bit vectors after%s: %s", s.c_str(), w.c_str()); };
        auto setb = [&](MB &x, int b, bool val) { if (val != x.ext) x.diff.insert(b); else x.diff.erase(b); x.size = std::max(x.size, b + 1); };
        auto comb = [&](const MB &a, const MB &b, int op) { MB r; auto f = [&](bool x, bool y) { return op == 0 ? x && y : op == 1 ? x || y : x != y; }; r.ext = f(a.ext, b.ext); r.size = std::max(a.size, b.size); for (int i = 0; i < r.size; i++) if (f(a.get(i), b.get(i)) != r.ext) r.diff.insert(i); return r; };
        for (int o : ops) { if (o < 4 * NB) { int w = o / NB / 2; bool val = !(o / NB % 2); if (val) frt_bv_set(v[w], BT[o % NB]); else frt_bv_unset(v[w], BT[o % NB]); setb(m[w], BT[o % NB], val); continue; }
            int k = o - 4 * NB; switch (k) {
            case 0: case 1: frt_bv_not_x(v[k]); m[k].ext = !m[k].ext; break;
            case 2: case 3: case 4: { if (k == 2) frt_bv_and_x(v[0], v[1]); else if (k == 3) frt_bv_or_x(v[0], v[1]); else frt_bv_xor_x(v[0], v[1]); m[0] = comb(m[0], m[1], k - 2); break; }
            case 5: case 6: case 7: { if (k == 5) frt_bv_and_x(v[1], v[0]); else if (k == 6) frt_bv_or_x(v[1], v[0]); else frt_bv_xor_x(v[1], v[0]); m[1] = comb(m[1], m[0], k - 5); break; }
            case 8: case 9: case 10: { FrtBitVector *r = k == 8 ? frt_bv_and(v[0], v[1]) : k == 9 ? frt_bv_or(v[0], v[1]) : frt_bv_xor(v[0], v[1]); MB x = comb(m[0], m[1], k - 8); frt_bv_destroy(v[1]); v[1] = r; m[1] = x; break; }
            case 11: { FrtBitVector *r = frt_bv_not(v[0]); frt_bv_destroy(v[1]); v[1] = r; m[1] = m[0]; m[1].ext = !m[1].ext; break; }
            case 12: frt_bv_clear(v[0]); m[0] = MB(); break;
            case 13: frt_bv_and_x(v[0], v[0]); break; case 14: frt_bv_or_x(v[1], v[1]); break; case 15: frt_bv_xor_x(v[0], v[0]); m[0] = comb(m[0], m[0], 2); break;
            case 16: frt_bv_recount(v[0]); break;
            case 17: std::swap(v[0], v[1]); std::swap(m[0], m[1]); break;
            case 18: for (int b = 0; b < 32; b++) { frt_bv_set(v[0], b); setb(m[0], b, true); } break;
            case 19: for (int b = 120; b < 140; b++) { frt_bv_unset(v[0], b); setb(m[0], b, false); } break; } }
        for (int w = 0; w < 2; w++) { FrtBitVector *x = v[w]; MB &y = m[w]; char N = "AB"[w];
            for (int i = 0; i < 330; i++) if (!!frt_bv_get(x, i) != y.get(i)) bad(fmt("bit %d of %c is %d", i, N, frt_bv_get(x, i))); if (!!frt_bv_get(x, 100000) != y.ext) bad("far bit");
            if (x->count != (int)y.diff.size()) bad(fmt("count of %c is %d, not %zu", N, x->count, y.diff.size())); if (frt_bv_recount(x) != (int)y.diff.size()) bad(fmt("recount of %c is %d, not %zu", N, x->count, y.diff.size()));
            for (int st = 0; st < 2; st++) { frt_bv_scan_reset(x); int at = -1; for (int i = 0; i < y.size; i++) if (y.get(i) == !st) { int g = st ? frt_bv_scan_next_unset(x) : frt_bv_scan_next(x); if (g != i) bad(fmt("scan of %c (%s) gives %d after %d, not %d", N, st ? "unset" : "set", g, at, i)); at = i; } int g = st ? frt_bv_scan_next_unset(x) : frt_bv_scan_next(x); if (g >= 0 && (g < y.size || y.get(g) == !!st)) bad(fmt("scan of %c goes on with %d", N, g)); }
            for (int f : {0, 1, 30, 31, 32, 33, 63, 64, 126, 127, 128, 129, 299, 300, 301, 1000}) for (int st = 0; st < 2; st++) { int want = -1; for (int i = f; i < y.size; i++) if (y.get(i) == !st) { want = i; break; } int g = st ? frt_bv_scan_next_unset_from(x, f) : frt_bv_scan_next_from(x, f); if (g != want && !(want < 0 && g >= y.size && y.get(g) == !st)) bad(fmt("scan of %c from %d (%s) gives %d, not %d", N, f, st ? "unset" : "set", g, want)); } frt_bv_scan_reset(x); }
        bool eq = m[0].ext == m[1].ext && m[0].diff == m[1].diff; if (!!frt_bv_eq(v[0], v[1]) != eq || !!frt_bv_eq(v[1], v[0]) != eq) bad(fmt("equality is %d", frt_bv_eq(v[0], v[1]))); if (eq && frt_bv_hash(v[0]) != frt_bv_hash(v[1])) bad("equal vectors have other hash values");
        frt_bv_destroy(v[0]); frt_bv_destroy(v[1]); };
    std::function<void(int)> rec = [&](int d) { run1(); if (!d) return; for (int o = 0; o < NOP; o++) { ops.push_back(o); rec(d - 1); ops.pop_back(); } };
    ops = {o0, o1}; if (!o1) { ops = {o0}; run1(); ops = {o0, o1}; } rec(opt.thorough ? 2 : 1); p.eval(n);
}
static void sc_bits_fill(Path &p) { int size = p.choose(300) + 1, pat = p.choose(6), inv = p.choose(2); if (!p.mine()) return; p.state((size * 8 + pat) * 2 + inv); FrtBitVector *v = frt_bv_new_capa(size); std::set<int> m; for (int i = 0; i < size; i++) { bool on = pat == 0 || (pat == 1 && i % 2) || (pat == 2 && i % 3 == 0) || (pat == 3 && i == size - 1) || (pat == 4 && i == 0) || (pat == 5 && i % 32 > 15); if (on) { frt_bv_set_fast(v, i); m.insert(i); } }
    int cnt = (int)m.size(); if (inv) frt_bv_not_x(v); for (int i = 0; i < size + 70; i++) if (!!frt_bv_get(v, i) != (!!m.count(i) != !!inv)) p.fail("bit %d of %d", i, size); if (v->count != cnt || frt_bv_recount(v) != cnt) p.fail("count %d, not %d", v->count, cnt); FrtBitVector *w = frt_bv_new(); for (int b : m) frt_bv_set(w, b); if (inv) frt_bv_not_x(w); if (!frt_bv_eq(v, w) || frt_bv_hash(v) != frt_bv_hash(w)) p.fail("differs from the vector set bit by bit"); for (int b = 0; b < size; b++) { frt_bv_set(v, b); frt_bv_unset(w, b); } for (int b = 0; b < size; b++) if (!frt_bv_get(v, b) || frt_bv_get(w, b)) p.fail("bit %d after overwriting", b); int sz1 = v->size, sz2 = w->size, e1 = inv ? 0 : sz1; (void)sz1; if (v->count != (inv ? 0 : size)) p.fail("count %d with all bits set", v->count); (void)e1; if (w->count != (inv ? std::max(size, 0) : 0)) p.fail("count %d with no bit set (size %d)", w->count, sz2); frt_bv_destroy(v); frt_bv_destroy(w); p.eval(size); }
// --- priority queues -------------------------------------------------------------------------------------------------
static FRT_INLINE frt_cbool pq_lt(const void *a, const void *b) { return *(const int *)a < *(const int *)b; }
static void sc_pq(Path &p) {
    static const int CAPS[] = {0, 1, 2, 3, 4, 7, 126, 127, 128, 200}; static const int PF[] = {0, 0, 0, 0, 0, 0, 125, 126, 127, 200}; enum { NOP = 4 * 2 + 5 }; int ci = p.choose(10), o0 = p.choose(NOP), o1 = p.choose(NOP); if (!p.mine()) return; int capa = CAPS[ci], pf = PF[ci]; p.note("[capacity %d] ", capa); p.state((ci * 16 + o0) * 16 + o1); int n = 0; std::vector<int> ops;
    auto run1 = [&] { n++; freed.clear(); FrtPriorityQueue *q = frt_pq_new(capa, (frt_lt_ft)pq_lt, note_free), *c = NULL; std::multiset<int> m, mc; std::vector<int *> all; std::map<void *, int> want; bool cl = false;
        auto bad = [&](const std::string &w) { std::string s; for (int o : ops) s += fmt(" %d", o); p.fail("queue of capacity %d after%s: %s", capa, s.c_str(), w.c_str()); }; auto mk = [&](int v) { int *x = new int(v); all.push_back(x); return x; };
        for (int i = 0; i < pf; i++) { frt_pq_push(q, mk((i * 7) % 5)); m.insert((i * 7) % 5); }
        for (int o : ops) { if (o < 4) { int *x = mk(o); int r = frt_pq_insert(q, x); if ((int)m.size() < capa) { if (r != FRT_PQ_ADDED) bad("insert into free room"); m.insert(o); } else if (!m.empty() && *m.begin() < o) { if (r != FRT_PQ_INSERTED) bad("insert of a larger one"); m.erase(m.begin()); m.insert(o); } else if (r != FRT_PQ_DROPPED || freed[x] != 1) bad("insert of a smaller one"); }
            else if (o < 8) { if ((int)m.size() >= capa) continue; /* push has no room check of its own */ frt_pq_push(q, mk(o - 4)); m.insert(o - 4); }
            else if (o == 8) { int *x = (int *)frt_pq_pop(q); if (!x != m.empty() || (x && *x != *m.begin())) bad("pop"); if (x) { m.erase(m.begin()); if (freed[x]) bad("popped element was freed"); } }
            else if (o == 9) { frt_pq_clear(q); m.clear(); }
            else if (o == 10) { if (!cl) { c = frt_pq_clone(q); mc = m; cl = true; } }
            else if (o == 11) { int *x = (int *)frt_pq_top(q); if (x) { int ov = *x; *x = 4; m.erase(m.find(ov)); m.insert(4); frt_pq_down(q); if (cl) { frt_pq_free(c); cl = false; } } }
            else { if (frt_pq_full(q) != (q->size >= q->capa)) bad("full"); }
            if (q->size != (int)m.size()) bad("size"); int *t = (int *)frt_pq_top(q); if (!t != m.empty() || (t && *t != *m.begin())) bad("top"); }
        if (cl) { auto fr = freed; while (!mc.empty()) { int *x = (int *)frt_pq_pop(c); if (!x || *x != *mc.begin()) bad("clone is out of order"); mc.erase(mc.begin()); } if (frt_pq_pop(c)) bad("clone has more"); frt_pq_free(c); }
        while (!m.empty()) { int *x = (int *)frt_pq_pop(q); if (!x || *x != *m.begin()) bad("out of order"); m.erase(m.begin()); if (freed[x]) bad("an element of the queue was freed"); } if (frt_pq_pop(q) || frt_pq_top(q)) bad("more elements");
        frt_pq_destroy(q); for (auto x : all) { if (freed[x] > 1) bad("freed twice"); delete x; } };
    std::function<void(int)> rec = [&](int d) { run1(); if (!d) return; for (int o = 0; o < NOP; o++) { ops.push_back(o); rec(d - 1); ops.pop_back(); } };
    ops = {o0, o1}; if (!o1) { ops = {o0}; run1(); ops = {o0, o1}; } rec(capa > 100 ? 2 : opt.thorough ? 5 : 4); p.eval(n);
}
static void sc_pq_sort(Path &p) { int a = p.choose(5), capa = p.choose(9), b = p.choose(5); if (!p.mine()) return; p.state((a * 16 + capa) * 8 + b); int n = 0, L = opt.thorough ? 7 : 6; std::vector<int> v; std::function<void()> rec = [&] { if ((int)v.size() == L) { n++; FrtPriorityQueue *q = frt_pq_new(capa, (frt_lt_ft)pq_lt, NULL); std::vector<int> s = v; for (int &x : v) frt_pq_insert(q, &x); std::sort(s.begin(), s.end(), std::greater<int>()); if ((int)s.size() > capa) s.resize(capa); for (int i = (int)s.size() - 1; i >= 0; i--) { int *x = (int *)frt_pq_pop(q); if (!x || *x != s[i]) p.fail("the best %d are wrong", capa); } if (frt_pq_pop(q)) p.fail("more elements than the capacity"); frt_pq_destroy(q); return; } for (int x = 0; x < 5; x++) { v.push_back(x); rec(); v.pop_back(); } }; v = {a, b}; rec(); p.eval(n); }
// --- memory pools ------------------------------------------------------------------------------------------------------
static void sc_mempool(Path &p) {
    static const int CH[] = {8, 16, 32}; static const int SZ[] = {1, 3, 7, 8, 0}; enum { NOP = 8 }; int ch = CH[p.choose(3)], bc = p.choose(4), o0 = p.choose(NOP), o1 = p.choose(NOP); if (!p.mine()) return; p.note("[chunks of %d] ", ch); p.state(((ch * 4 + bc) * 8 + o0) * 8 + o1); int n = 0; std::vector<int> ops;
    auto run1 = [&] { n++; FrtMemoryPool *mp = frt_mp_new_capa(ch, bc); std::vector<std::pair<char *, std::string>> m; auto bad = [&](const char *w) { std::string s; for (int o : ops) s += fmt(" %d", o); p.fail("pool with chunks of %d after%s: %s", ch, s.c_str(), w); }; int id = 0; int used = 0;
        for (int o : ops) { id++; if (o < 4) { char *q = (char *)frt_mp_alloc(mp, SZ[o]); memset(q, 'a' + id % 26, SZ[o]); m.push_back({q, std::string(SZ[o], 'a' + id % 26)}); } else if (o == 4) { std::string s(id % 6, 'A' + id % 26); char *q = frt_mp_strdup(mp, s.c_str()); m.push_back({q, s + std::string(1, 0)}); } else if (o == 5) { std::string s(6, '0' + id % 10); char *q = frt_mp_strndup(mp, s.c_str(), id % 6); m.push_back({q, s.substr(0, id % 6) + std::string(1, 0)}); } else if (o == 6) { std::string s(5, '#' + id % 4); char *q = (char *)frt_mp_memdup(mp, s.data(), 5); m.push_back({q, s}); } else { frt_mp_reset(mp); m.clear(); if (frt_mp_used(mp) != 0) bad("used after reset"); used = 0; }
            int u = frt_mp_used(mp); int tot = 0; for (auto &x : m) tot += (int)x.second.size(); if (u < tot || u < used) bad("used shrinks or is less than what was handed out"); used = u; for (auto &x : m) if (memcmp(x.first, x.second.data(), x.second.size())) bad("a block was overwritten"); }
        frt_mp_destroy(mp); };
    std::function<void(int)> rec = [&](int d) { run1(); if (!d) return; for (int o = 0; o < NOP; o++) { ops.push_back(o); rec(d - 1); ops.pop_back(); } };
    ops = {o0, o1}; rec(opt.thorough ? 5 : 3); p.eval(n);
}
// --- the string mapper ---------------------------------------------------------------------------------------------------
// the earliest-ending match is replaced, among those the longest pattern, among equal patterns the last added
static std::string map_ref(const std::vector<std::pair<std::string, std::string>> &m, const std::string &s) {
    std::string o; size_t base = 0;   // base: start of the text not yet replaced
    for (size_t i = 0; i < s.size(); i++) { int best = -1; for (size_t k = 0; k < m.size(); k++) { auto &pt = m[k].first; if (pt.size() <= i + 1 - base && s.compare(i + 1 - pt.size(), pt.size(), pt) == 0 && (best < 0 || pt.size() >= m[best].first.size())) best = (int)k; } if (best >= 0) { o += s.substr(base, i + 1 - base - m[best].first.size()) + m[best].second; base = i + 1; } }
    return o + s.substr(base);
}
static void sc_mapper(Path &p) {
    static const char *PT[] = {"a", "b", "ab", "ba", "aa", "aba", "bb", "abb", "\xc3\xa9"}; static const char *RP[] = {"", "x", "abc", "b"}; enum { NP = 9 }; int a = p.choose(NP), b = p.choose(NP + 1), c = p.choose(NP + 1), r = p.choose(16); if (!p.mine()) return; if (c < NP && b == NP) { p.state(1); return; }
    std::vector<std::pair<std::string, std::string>> m; m.push_back({PT[a], RP[r % 4]}); if (b < NP) m.push_back({PT[b], RP[r / 4]}); if (c < NP) m.push_back({PT[c], RP[(r + r / 4) % 4]}); std::string d; for (auto &x : m) d += x.first + "=>" + x.second + " "; p.note("[%s] ", esc(d).c_str()); p.state(fnv(d)); FrtMultiMapper *mm = frt_mulmap_new(); int n = 0, step = 0;
    auto all = [&](const std::vector<std::pair<std::string, std::string>> &cur, int len) { std::function<void(std::string)> rec = [&](std::string s) { std::string w = map_ref(cur, s); char src[64]; strcpy(src, s.c_str()); for (int cap : {1, 2, 3, 5, 8, 100}) { char *buf = (char *)malloc(cap); int l = frt_mulmap_map_len(mm, buf, src, cap); n++; bool pre = (int)w.size() >= cap; if (l != (int)strlen(buf) || l >= cap) p.fail("length %d of \"%s\" in %d bytes", l, buf, cap); if (!pre && w != buf && cap == 100) p.fail("\"%s\" becomes \"%s\", not \"%s\"", esc(s).c_str(), esc(buf).c_str(), esc(w).c_str()); free(buf); } char big[200]; if (w != frt_mulmap_map(mm, big, src, 200)) p.fail("map of \"%s\"", s.c_str()); char *dy = frt_mulmap_dynamic_map(mm, src); if (w != dy) p.fail("\"%s\" becomes \"%s\" dynamically, not \"%s\"", esc(s).c_str(), esc(dy).c_str(), esc(w).c_str()); free(dy); if ((int)s.size() < len) for (auto x : {"a", "b", "c", "\xc3\xa9"}) rec(s + x); }; rec(""); };
    std::vector<std::pair<std::string, std::string>> cur; for (auto &x : m) { frt_mulmap_add_mapping(mm, x.first.c_str(), x.second.c_str()); cur.push_back(x); if (step++ % 2) frt_mulmap_compile(mm); all(cur, opt.thorough ? 6 : x == m.back() ? 5 : 2); } frt_mulmap_destroy(mm); p.eval(n);
}
static void sc_mapper_big(Path &p) { static const int L[] = {1, 100, 125, 126, 127, 128, 129, 254, 255, 256, 500, 508, 509, 510, 511, 512, 513, 600, 2000}; int a = p.choose(19), cnt = p.choose(4), rl = p.choose(5); if (!p.mine()) return; p.note("[pattern of %d] ", L[a]); p.state((a * 4 + cnt) * 8 + rl); static const int RL[] = {0, 1, 50, 1500, 3000}; std::vector<std::pair<std::string, std::string>> m; FrtMultiMapper *mm = frt_mulmap_new(); int N = cnt == 0 ? 1 : cnt == 1 ? 3 : cnt == 2 ? 20 : 200; if (L[a] * N > 4000) N = std::max(1, 4000 / L[a]);
    for (int k = 0; k < N; k++) { std::string pt = k < 10 ? std::string(L[a], 'a' + k) : fmt("q%d.", k) + std::string(L[a] > 20 ? 20 : L[a], 'z'); m.push_back({pt, std::string(RL[rl], 'A' + k % 26)}); frt_mulmap_add_mapping(mm, m.back().first.c_str(), m.back().second.c_str()); }
    for (int rep = 0; rep < 4; rep++) { std::string s; for (int k = 0; k < rep; k++) s += m[k % m.size()].first + "-" + std::string(L[a] - 1, 'a') + "+"; std::string w = map_ref(m, s); std::vector<char> src(s.c_str(), s.c_str() + s.size() + 1); char *d = frt_mulmap_dynamic_map(mm, src.data()); if (w != d) p.fail("dynamic map of %zu bytes gives %zu, not %zu bytes", s.size(), strlen(d), w.size()); free(d); std::vector<char> out(w.size() + 1); int l = frt_mulmap_map_len(mm, out.data(), src.data(), (int)out.size()); if (s.size() <= w.size() && (l != (int)w.size() || w != out.data())) p.fail("map gives %d, not %zu bytes", l, w.size()); std::vector<char> big(20000); l = frt_mulmap_map_len(mm, big.data(), src.data(), 20000); if (w.size() < 20000 && w != big.data()) p.fail("map gives %d, not %zu bytes", l, w.size()); }
    frt_mulmap_destroy(mm); p.eval(12); }
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = (container, configuration, prefix of the operation sequence); transition = one operation sequence carried out on the real container and on its model; after every operation results, contents, order and ownership (every key, value and element freed exactly as often as the interface says) are compared";
    return run(argc, argv, m, {
        {"hash", "3 key kinds (string, all colliding, sharing a bucket) x 13 numbers of entries x all sequences of up to 2 (3 for two of the sizes; thorough: 3 and 4) of 55 operations", sc_hash, 120},
        {"hash_int", "integer and pointer keys x 5 numbers of entries x all sequences of up to 3 (thorough: 4) of 41 operations", sc_hash_int, 120},
        {"hash_churn", "600 insertions with deletions, 4 key kinds x 12 periods x 8 live counts", sc_hash_churn, 60},
        {"hashset", "2 kinds x 5 numbers of elements x all sequences of up to 3 (thorough: 4) of 34 operations", sc_hashset, 120},
        {"array", "4 capacities x 9 numbers of elements x all sequences of up to 3 (thorough: 4) of 50 operations", sc_array, 120},
        {"array_typed", "4 element sizes x 5 capacities x 40 lengths", sc_array_typed, 20},
        {"bits", "two vectors x 3 capacities x all sequences of up to 3 (thorough: 4) of 44 operations", sc_bits, 120},
        {"bits_fill", "all sizes up to 300 x 6 patterns x plain and inverted", sc_bits_fill, 20},
        {"pq", "10 capacities x all sequences of up to 6 (thorough: 7) of 13 operations", sc_pq, 120},
        {"pq_sort", "all sequences of 6 (thorough: 7) of 5 values x 9 capacities", sc_pq_sort, 20},
        {"mempool", "3 chunk sizes x all sequences of up to 5 (thorough: 7) of 8 operations", sc_mempool, 60},
        {"mapper", "all sets of up to 3 of 9 patterns x replacements x all texts of up to 5 (thorough: 6) characters", sc_mapper, 60},
        {"mapper_big", "19 pattern lengths up to 2000 x 4 numbers of patterns x 5 replacement lengths", sc_mapper_big, 60},
    });
}
