// C21: every tokenizer, filter and analyzer against independent references (character classes, the documented token
// grammar by set propagation, filters as functions on token lists) on all short strings of character classes, all short
// strings of lexemes, every code point, long words, and all short programs of next / clone / reset.
#include "../lib/ferret.hpp"
#include <clocale>
#include <cwctype>
#include <algorithm>
#include <functional>
extern "C" {
#include "libstemmer.h"
}
using namespace mc;
struct Tk { std::string text; long s, e; int inc; bool operator==(const Tk &o) const { return text == o.text && s == o.s && e == o.e && inc == o.inc; } };
typedef std::vector<Tk> Tks;
static std::string show(const std::string &s) { return "\"" + esc(s) + "\""; }
static std::string show(const Tks &v) { std::string r = "["; for (auto &t : v) r += fmt(" %s@%ld-%ld+%d", show(t.text).c_str(), t.s, t.e, t.inc); return r + " ]"; }
struct Text { char *b; explicit Text(const std::string &s) { b = (char *)malloc(s.size() + 1); memcpy(b, s.c_str(), s.size() + 1); } ~Text() { free(b); } Text(const Text &) = delete; };
static Tk take(Path &p, FrtToken *t) { if (t->len != (int)strnlen(t->text, FRT_MAX_WORD_SIZE)) p.fail("token length %d but its text %s has %zu bytes", t->len, show(std::string(t->text, strnlen(t->text, FRT_MAX_WORD_SIZE))).c_str(), strnlen(t->text, FRT_MAX_WORD_SIZE)); return Tk{std::string(t->text, t->len), (long)t->start, (long)t->end, t->pos_inc}; }
static Tks drain(Path &p, FrtTokenStream *ts, size_t max) { Tks v; FrtToken *t; while ((t = frt_ts_next(ts))) { v.push_back(take(p, t)); if (v.size() > max) p.fail("more than %zu tokens: does not terminate", max); } return v; }
static Tks tokens(Path &p, FrtTokenStream *ts, const std::string &s, int per = 1) {
    Text t(s); ts->reset(ts, t.b); Tks v = drain(p, ts, s.size() * per + 2);
    for (int k = 0; k < 2; k++) if (frt_ts_next(ts)) p.fail("a token after the end of %s", show(s).c_str());
    return v;
}
// --- units of text ---------------------------------------------------------------------------------------------
struct U { unsigned wc; int at, len; bool bad; };
static std::vector<U> decode(const std::string &s) {          // invalid bytes are units of their own
    std::vector<U> v; size_t i = 0;
    while (i < s.size()) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0; unsigned w = n == 1 ? c : n ? c & (0x7f >> n) : 0; bool ok = n && i + n <= s.size();
        for (int k = 1; ok && k < n; k++) { unsigned char d = s[i + k]; if ((d & 0xc0) != 0x80) ok = false; w = w << 6 | (d & 0x3f); }
        if (ok && ((n == 3 && (w < 0x800 || (w >= 0xd800 && w < 0xe000))) || (n == 4 && (w < 0x10000 || w > 0x10ffff)))) ok = false;
        if (ok) { v.push_back({w, (int)i, n, false}); i += n; } else { v.push_back({0xffffffff, (int)i, 1, true}); i++; } }
    return v;
}
static std::string put(unsigned w) { std::string r; if (w < 0x80) r += (char)w; else if (w < 0x800) { r += (char)(0xc0 | w >> 6); r += (char)(0x80 | (w & 63)); } else if (w < 0x10000) { r += (char)(0xe0 | w >> 12); r += (char)(0x80 | (w >> 6 & 63)); r += (char)(0x80 | (w & 63)); } else { r += (char)(0xf0 | w >> 18); r += (char)(0x80 | (w >> 12 & 63)); r += (char)(0x80 | (w >> 6 & 63)); r += (char)(0x80 | (w & 63)); } return r; }
static bool valid(const std::string &s) { for (auto &u : decode(s)) if (u.bad) return false; return true; }
static std::string lower8(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static std::string lowerw(const std::string &s, bool clip = true) { std::string r; for (auto &u : decode(s)) { if (u.bad) continue; std::string c = put(towlower(u.wc)); if (clip && r.size() + c.size() > FRT_MAX_WORD_SIZE - 1) break; r += c; } return r; }
static std::string clip(const std::string &s) { return s.substr(0, FRT_MAX_WORD_SIZE - 1); }
enum { SPACE, ALPHA };
static bool in_class(int cls, bool mb, unsigned w) { if (mb) return cls == SPACE ? !iswspace(w) : !!iswalpha(w); return cls == SPACE ? !(w == ' ' || (w >= 9 && w <= 13)) : (w | 32) >= 'a' && (w | 32) <= 'z' && w < 128; }
static void inv(Path &p, const char *who, const std::string &s, const Tks &v, bool incs = true) {
    long last = 0;
    for (auto &t : v) { if (t.s < last || t.s >= t.e || t.e > (long)s.size()) p.fail("%s on %s: offsets out of place in %s", who, show(s).c_str(), show(v).c_str()); last = t.e;
        if (t.text.empty()) p.fail("%s on %s: empty token in %s", who, show(s).c_str(), show(v).c_str()); if (incs && t.inc != 1) p.fail("%s on %s: increment %d", who, show(s).c_str(), t.inc); }
}
static void expect(Path &p, const char *who, const std::string &s, const Tks &got, const Tks &want) { if (!(got == want)) p.fail("%s on %s gives %s, expected %s", who, show(s).c_str(), show(got).c_str(), show(want).c_str()); }

// --- whitespace and letters -----------------------------------------------------------------------------------
static Tks classes(const std::string &s, int cls, bool mb, bool lc) {
    Tks v; std::vector<U> u = mb ? decode(s) : std::vector<U>(); if (!mb) for (size_t i = 0; i < s.size(); i++) u.push_back({(unsigned char)s[i], (int)i, 1, false});
    for (size_t i = 0; i < u.size();) { if (!in_class(cls, mb, u[i].wc)) { i++; continue; } size_t j = i; while (j < u.size() && in_class(cls, mb, u[j].wc)) j++; long b = u[i].at, e = u[j - 1].at + u[j - 1].len; std::string t = s.substr(b, e - b); v.push_back({lc ? (mb ? lowerw(t) : lower8(clip(t))) : clip(t), b, e, 1}); i = j; }
    return v;
}
static void check_class(Path &p, const char *who, const std::string &s, const Tks &v, int cls, bool mb, bool lc) {
    inv(p, who, s, v);
    if (!mb || valid(s)) { expect(p, who, s, v, classes(s, cls, mb, lc)); return; }
    // invalid bytes: they belong to no token or to any; every valid character of the class is in exactly one token, in order,
    // characters outside the class are in none and separate tokens
    std::vector<U> u = decode(s); size_t k = 0; int prev = -1; bool sep = true;
    for (auto &x : u) { if (x.bad) continue; while (k < v.size() && v[k].e <= x.at) k++; bool inside = k < v.size() && v[k].s <= x.at && x.at + x.len <= v[k].e;
        bool want = in_class(cls, mb, x.wc); if (inside != want) p.fail("%s on %s: character at %d %s in %s", who, show(s).c_str(), x.at, want ? "is lost" : "is not of the class", show(v).c_str());
        if (inside && (int)k == prev && sep) p.fail("%s on %s: token spans a separator in %s", who, show(s).c_str(), show(v).c_str()); if (inside) { prev = k; sep = false; } else sep = true; }
    for (auto &t : v) { std::string sl = s.substr(t.s, t.e - t.s); std::string want = lc ? lowerw(sl) : clip(sl); if (t.text != want) p.fail("%s on %s: token %s of %s", who, show(s).c_str(), show(t.text).c_str(), show(sl).c_str()); }
}
// --- the standard grammar -------------------------------------------------------------------------------------
typedef unsigned __int128 Set;
struct Gram {
    std::vector<U> u; Set alpha = 0, alnum = 0, digit = 0, aalpha = 0, aalnum = 0; int n;
    Set M(const char *set) const { Set m = 0; for (int i = 0; i < n; i++) if (u[i].wc && u[i].wc < 128 && strchr(set, (int)u[i].wc)) m |= (Set)1 << i; return m; }
    static Set st(Set s, Set m) { return (s & m) << 1; }
    static Set plus(Set s, Set m) { Set r = st(s, m), q; do { q = r; r |= st(r, m); } while (r != q); return r; }
    static Set star(Set s, Set m) { return s | plus(s, m); }
    Set word(Set s, const char *w) const { for (; *w; w++) { char b[2] = {*w, 0}; s = st(s, M(b)); } return s; }
    Set range(int a, int b, Set acc = 0) const { for (int i = 0; i < n; i++) if ((int)u[i].wc >= a && (int)u[i].wc <= b && u[i].wc < 128) acc |= (Set)1 << i; return acc; }
    std::function<Set(Set)> F[12]; Set m_dot, m_slash, m_colon, m_at;
    Gram(const std::vector<U> &un, bool wide) : u(un), n((int)un.size()) {
        for (int i = 0; i < n; i++) { unsigned w = u[i].wc; Set b = (Set)1 << i; bool al = w < 128 && (w | 32) >= 'a' && (w | 32) <= 'z', d = w >= '0' && w <= '9'; if (al) aalpha |= b; if (d) digit |= b; if (al || (wide && w >= 128 && !u[i].bad && uni_alpha(w))) alpha |= b; }
        alnum = alpha | digit; aalnum = aalpha | digit; m_dot = M("."); m_slash = M("/"); m_colon = M(":"); m_at = M("@");
        Set atext = M("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-/=?^_`{|}~"), ctl = range(1, 8) | range(11, 12) | range(14, 31) | range(127, 127), qtext = ctl | range(33, 33) | range(35, 91) | range(93, 126), dtext = ctl | range(33, 90) | range(94, 126), txt = range(1, 9) | range(11, 12) | range(14, 127), bs = M("\\");
        auto dot_atom = [=](Set s) { Set r = plus(s, atext), q; do { q = r; r |= plus(st(r, m_dot), atext); } while (r != q); return r; };
        auto quoted = [=](Set s, const char *o, const char *c, Set t) { Set r = st(s, M(o)), q; do { q = r; r |= st(r, t) | st(st(r, bs), txt); } while (r != q); return st(r, M(c)); };
        auto token = [=](Set s) { return star(st(s, alpha), alnum); };
        F[0] = [=](Set s) { Set l = dot_atom(s) | quoted(s, "\"", "\"", qtext); l = st(l, m_at); return dot_atom(l) | quoted(l, "[", "]", dtext); };
        F[1] = token; Set ap = M("'"), sS = M("sS"), hy = M("-_");
        F[2] = [=](Set s) { return st(token(s), ap); };
        F[3] = [=](Set s) { return st(st(token(s), ap), sS); };
        F[4] = [=](Set s) { return plus(st(plus(s, alpha), ap), alpha); };
        F[5] = [=](Set s) { Set r = plus(s, alnum), q; do { q = r; r |= plus(st(r, hy), alnum); } while (r != q); return r; };
        F[6] = [=](Set s) { Set r = st(token(s), M("&@")), q; do { q = r; r |= token(r); } while (r != q); return r; };
        F[7] = [=](Set s) {
            Set uw = aalnum | M("_"), dw = uw | M("-"), da = aalnum | M("-"), uc = aalnum | M(".,/_-@:");
            Set a = plus(pre(s), dw), r1 = 0, q; { Set x = star(st(st(a, m_dot), uw), dw); do { q = x; x |= star(st(st(x, m_dot), uw), dw); } while (x != q); r1 = x; }
            Set r2 = plus(plus(st(plus(s, aalnum), m_colon), m_slash), uc);
            auto sub = [=](Set x) { Set f = st(x, aalnum); return st(f | st(star(f, da), aalnum), m_dot); };
            Set y = sub(s); do { q = y; y |= sub(y); } while (y != q);
            Set r3 = st(st(y, aalpha), aalpha); for (auto w : {"com", "edu", "biz", "gov", "int", "info", "mil", "net", "org"}) r3 |= word(y, w);
            Set r = r1 | r2 | r3; r |= plus(st(r, m_colon), digit); return r; };
        F[11] = [=](Set s) { return st(F[7](s), m_slash); };
        F[8] = [=](Set s) { Set r = st(st(s, alpha), m_dot), q; do { q = r; r |= st(st(r, alpha), m_dot); } while (r != q); return st(r, alpha); };
        F[9] = [=](Set s) { return plus(s | st(s, M("-+")), digit); };
        F[10] = [=](Set s) { return plus(st(plus(s | st(s, M("-+")), digit), m_dot), digit); };
    }
    Set pre(Set s) const { return plus(st(word(s, "http") | word(s, "https") | word(s, "ftp") | word(s, "file"), m_colon), m_slash); }
    static bool uni_alpha(unsigned w) { return w == 0xe9 || w == 0xc9 || w == 0x65e5 || w == 0x23a || w == 0x10400 || w == 0xe0; }
    static int top(Set s) { unsigned long long h = s >> 64, l = s; return h ? 127 - __builtin_clzll(h) : l ? 63 - __builtin_clzll(l) : -1; }
    // the longest match at unit i: rule (or -1) and end
    int best(int i, int &end) const { int r = -1; end = i; for (int k : {0, 1, 2, 3, 4, 5, 6, 11, 7, 8, 9, 10}) { int e = top(F[k]((Set)1 << i)); if (e > end) { end = e; r = k; } } return r; }
};
static Tks standard(const std::string &s, bool wide) {
    std::vector<U> u; if (wide) u = decode(s); else for (size_t i = 0; i < s.size(); i++) u.push_back({(unsigned char)s[i] < 128 ? (unsigned)s[i] : 0xffffffff, (int)i, 1, false});
    Gram g(u, wide); Tks v; int n = (int)u.size(); auto at = [&](int i) { return i < n ? u[i].at : (int)s.size(); };
    for (int i = 0; i < n;) { int e, r = g.best(i, e); if (r < 0) { i++; continue; } int b = i, f = e;
        if (r == 2) f -= 1; if (r == 3) f -= 2; if (r == 7 || r == 11) { Set pr = g.pre((Set)1 << i), dw = g.aalnum | g.M("_-"); if (pr & dw) b = Gram::top(pr & dw); if (r == 11) f--; }
        std::string t; for (int k = b; k < f; k++) if (!(r == 8 && u[k].wc == '.')) t += s.substr(u[k].at, u[k].len);
        v.push_back({t, at(i), at(e), 1}); i = e; }
    return v;
}
static bool subseq(const std::string &a, const std::string &b) { size_t i = 0; for (char c : b) if (i < a.size() && a[i] == c) i++; return i == a.size(); }
static void covered(Path &p, const char *who, const std::string &s, const Tks &v, bool mb) {
    size_t k = 0; for (auto &x : decode(s)) { bool an = !x.bad && (mb ? !!iswalnum(x.wc) : x.wc < 128 && isalnum(x.wc)); if (!an) continue; while (k < v.size() && v[k].e <= x.at) k++; if (k >= v.size() || v[k].s > x.at) p.fail("%s on %s: the letter or digit at %d is in no token of %s", who, show(s).c_str(), x.at, show(v).c_str()); }
    for (auto &t : v) if (!subseq(t.text, s.substr(t.s, t.e - t.s))) p.fail("%s on %s: %s is not made of %s", who, show(s).c_str(), show(t.text).c_str(), show(s.substr(t.s, t.e - t.s)).c_str());
}
struct Box { FrtTokenStream *w, *wm, *wml, *l, *lm, *lml, *sa, *sm, *su, *la, *lmb, *non;
    Box() { w = frt_whitespace_tokenizer_new(); wm = frt_mb_whitespace_tokenizer_new(0); wml = frt_mb_whitespace_tokenizer_new(1); l = frt_letter_tokenizer_new(); lm = frt_mb_letter_tokenizer_new(0); lml = frt_mb_letter_tokenizer_new(1); sa = frt_standard_tokenizer_new(); sm = frt_mb_standard_tokenizer_new(); su = frt_utf8_standard_tokenizer_new(); la = frt_legacy_standard_tokenizer_new(); lmb = frt_mb_legacy_standard_tokenizer_new(); non = frt_non_tokenizer_new(); }
    ~Box() { for (auto t : {w, wm, wml, l, lm, lml, sa, sm, su, la, lmb, non}) frt_ts_deref(t); } };
static bool ascii(const std::string &s) { for (unsigned char c : s) if (c > 127) return false; return true; }
static void plain(Path &p, Box &B, const std::string &s) {
    check_class(p, "whitespace", s, tokens(p, B.w, s), SPACE, false, false); check_class(p, "multi-byte whitespace", s, tokens(p, B.wm, s), SPACE, true, false); check_class(p, "multi-byte lower-casing whitespace", s, tokens(p, B.wml, s), SPACE, true, true);
    check_class(p, "letter", s, tokens(p, B.l, s), ALPHA, false, false); check_class(p, "multi-byte letter", s, tokens(p, B.lm, s), ALPHA, true, false); check_class(p, "multi-byte lower-casing letter", s, tokens(p, B.lml, s), ALPHA, true, true);
    { Text t(s); B.non->reset(B.non, t.b); Tks v = drain(p, B.non, 3); expect(p, "non-tokenizer", s, v, Tks{{clip(s), 0, (long)s.size(), 1}}); }
}
static void mb_standard_inv(Path &p, const std::string &s, const Tks &v) {   // text with invalid bytes, converted by the C library
    inv(p, "multi-byte standard", s, v);
    size_t k = 0; for (auto &x : decode(s)) { if (x.bad || !(x.wc < 128 ? isalnum(x.wc) : Gram::uni_alpha(x.wc))) continue; while (k < v.size() && v[k].e <= x.at) k++; if (k >= v.size() || v[k].s > x.at) p.fail("multi-byte standard on %s: the letter or digit at %d is in no token of %s", show(s).c_str(), x.at, show(v).c_str()); }
    for (auto &t : v) if (!subseq(t.text, s.substr(t.s, t.e - t.s)) || !valid(t.text)) p.fail("multi-byte standard on %s: %s is not made of %s", show(s).c_str(), show(t.text).c_str(), show(s.substr(t.s, t.e - t.s)).c_str());
}
static void std_all(Path &p, Box &B, const std::string &s) {
    Tks a = tokens(p, B.sa, s), m = tokens(p, B.sm, s), u = tokens(p, B.su, s);
    inv(p, "standard", s, a); inv(p, "utf8 standard", s, u);
    expect(p, "standard", s, a, standard(s, false)); expect(p, "utf8 standard", s, u, standard(s, true));
    if (valid(s)) expect(p, "multi-byte standard", s, m, standard(s, true)); else mb_standard_inv(p, s, m);
    Tks l = tokens(p, B.la, s), lm = tokens(p, B.lmb, s); inv(p, "legacy standard", s, l); inv(p, "multi-byte legacy standard", s, lm); covered(p, "legacy standard", s, l, false); covered(p, "multi-byte legacy standard", s, lm, true);
    if (ascii(s)) expect(p, "multi-byte legacy standard", s, lm, l);
}
template <class F> static int strings(const std::vector<std::string> &al, int depth, const std::string &pre, F f) { int n = 1; f(pre); if (depth) for (auto &a : al) n += strings(al, depth - 1, pre + a, f); return n; }
static const std::vector<std::string> CL = {"a", "B", "1", " ", "\t", "-", "\xc3\xa9", "\xc3\x89", "\xe3\x80\x80", "\xc2\xa0", "\xff", "\xc3", "\xc4\xb0", "\xc8\xba", "\xe6\x97", "\xf0\x90\x90\x80"};
static void sc_classes(Path &p) { int a = p.choose(16), b = p.choose(16); if (!p.mine()) return; Box B; p.note("[%s%s...] ", esc(CL[a]).c_str(), esc(CL[b]).c_str()); p.state(a * 16 + b); int n = strings(CL, opt.thorough ? 4 : 3, CL[a] + CL[b], [&](const std::string &s) { plain(p, B, s); }); if (!b) { plain(p, B, CL[a]); if (!a) plain(p, B, ""); } p.eval(n * 7); }
static const std::vector<std::string> GA = {"a", "s", "1", "'", "-", "_", ".", "@", "&", ":", "/", " ", "\"", "+", "["};
static void sc_ascii(Path &p) { int k = (int)GA.size(), a = p.choose(k), b = p.choose(k); if (!p.mine()) return; Box B; p.note("[%s%s...] ", GA[a].c_str(), GA[b].c_str()); p.state(a * 16 + b); int n = strings(GA, opt.thorough ? 4 : 3, GA[a] + GA[b], [&](const std::string &s) { std_all(p, B, s); }); if (!b) { std_all(p, B, GA[a]); if (!a) std_all(p, B, ""); } p.eval(n * 5); }
static const std::vector<std::string> GL = {"http", "https", "ftp", "file", "com", "org", "info", "co", "x", "9", ":", "/", "//", "://", ".", "-", "_", "@", "'s", "&", " ", "B.", "$", "]"};
static void sc_lexemes(Path &p) { int k = (int)GL.size(), a = p.choose(k), b = p.choose(k); if (!p.mine()) return; Box B; p.note("[%s%s...] ", GL[a].c_str(), GL[b].c_str()); p.state(a * 32 + b); int n = strings(GL, opt.thorough ? 3 : 2, GL[a] + GL[b], [&](const std::string &s) { std_all(p, B, s); });
    for (auto pre : {"http://x", "x.com", "a@b", "http://", "a.b.", "x://y", "12", "a'", "\"a\"@", "a@["}) n += strings(GL, 1, std::string(pre) + GL[a] + GL[b], [&](const std::string &s) { std_all(p, B, s); }); p.eval(n * 5); }
static const std::vector<std::string> GM = {"a", "s", "1", "'", "-", ".", " ", "&", "\xc3\xa9", "\xe6\x97\xa5", "\xf0\x90\x90\x80", "\xc2\xa0", "\xff", "\xc4", "\xe6\x97"};
static void sc_wide(Path &p) { int k = (int)GM.size(), a = p.choose(k), b = p.choose(k); if (!p.mine()) return; Box B; p.note("[%s%s...] ", esc(GM[a]).c_str(), esc(GM[b]).c_str()); p.state(a * 16 + b); int n = strings(GM, opt.thorough ? 4 : 3, GM[a] + GM[b], [&](const std::string &s) { std_all(p, B, s); }); if (!b) std_all(p, B, GM[a]); p.eval(n * 5); }
static void sc_codepoints(Path &p) { int blk = p.choose(0x110); if (!p.mine()) return; Box B; p.note("[code points %x00..] ", blk * 16); p.state(blk); int n = 0;
    for (unsigned w = blk << 12; w < (unsigned)(blk + 1) << 12; w++) { if (!w || (w >= 0xd800 && w < 0xe000)) continue; for (int k = 0; k < 2; k++) { std::string c = put(w), s = k ? "a" + c + "b c" + c : c; if (k && !opt.thorough && (w & 15)) continue; Tks m = tokens(p, B.sm, s), u = tokens(p, B.su, s); inv(p, "utf8 standard", s, u); expect(p, "multi-byte standard", s, m, u); if (w < 128) expect(p, "utf8 standard", s, u, standard(s, false)); plain(p, B, s); n += 9; } } p.eval(n); }
// bytes: all strings of 1 and 2 bytes
static void sc_bytes(Path &p) { int a = p.choose(255) + 1; if (!p.mine()) return; Box B; p.note("[byte %02x] ", a); p.state(a); int n = 0;
    for (int b = 0; b < 256; b++) for (int k = 0; k < 3; k++) { std::string s = k ? "a" : ""; s += (char)a; if (b) s += (char)b; if (k == 2) s += "b"; Tks u = tokens(p, B.su, s), m = tokens(p, B.sm, s); inv(p, "utf8 standard", s, u); inv(p, "multi-byte standard", s, m); if (valid(s)) expect(p, "multi-byte standard", s, m, u); expect(p, "standard", s, tokens(p, B.sa, s), standard(s, false)); plain(p, B, s); Tks l = tokens(p, B.la, s), lm = tokens(p, B.lmb, s); inv(p, "legacy standard", s, l); inv(p, "multi-byte legacy standard", s, lm); covered(p, "legacy standard", s, l, false); covered(p, "multi-byte legacy standard", s, lm, true); n += 12; } p.eval(n); }
// --- filters ----------------------------------------------------------------------------------------------------
typedef std::function<Tks(const Tks &)> Filt;
static Tks f_lower(const Tks &v) { Tks r = v; for (auto &t : r) t.text = lower8(t.text); return r; }
static Tks f_lowerw(const Tks &v) { Tks r = v; for (auto &t : r) if (valid(t.text)) t.text = lowerw(t.text); return r; }
static Filt f_stop(const std::vector<std::string> &w) { return [w](const Tks &v) { Tks r; int inc = 0; for (auto t : v) { if (std::count(w.begin(), w.end(), t.text)) { inc += t.inc; continue; } t.inc += inc; inc = 0; r.push_back(t); } return r; }; }
static Tks f_hyphen(const Tks &v) { Tks r; for (auto &t : v) { bool hy = false, ok = true, letter = t.text[0] != '-'; for (size_t i = 1; i < t.text.size(); i++) { if (t.text[i] == '-') hy = true; else if (!isalpha((unsigned char)t.text[i])) ok = false; else letter = true; }
        if (!hy || !ok || !letter) { r.push_back(t); continue; } Tk j = t; j.text = ""; Tks parts; size_t i = 0; while (i < t.text.size()) { if (t.text[i] == '-') { i++; continue; } size_t k = i; while (k < t.text.size() && t.text[k] != '-') k++; parts.push_back({t.text.substr(i, k - i), t.s + (long)i, t.s + (long)k, parts.empty() ? 0 : 1}); j.text += t.text.substr(i, k - i); i = k; } r.push_back(j); for (auto &x : parts) r.push_back(x); }
    return r; }
static Filt f_stem(const char *alg, const char *enc) { return [=](const Tks &v) { Tks r = v; sb_stemmer *s = sb_stemmer_new(alg, enc); for (auto &t : r) { const sb_symbol *o = sb_stemmer_stem(s, (const sb_symbol *)t.text.data(), (int)t.text.size()); t.text = std::string((const char *)o, sb_stemmer_length(s)); } sb_stemmer_delete(s); return r; }; }
static Filt f_map(const std::vector<std::pair<std::string, std::string>> &m) { return [m](const Tks &v) { Tks r = v; for (auto &t : r) { std::string o; for (size_t i = 0; i < t.text.size();) { bool hit = false; for (auto &x : m) if (t.text.compare(i, x.first.size(), x.first) == 0) { o += x.second; i += x.first.size(); hit = true; break; } if (!hit) o += t.text[i++]; } t.text = clip(o); } return r; }; }
struct Chain { const char *name; std::function<FrtTokenStream *()> make; std::function<Tks(const std::string &)> ref; };
static const char *STOPS[] = {"the", "and", "a", "ab", NULL};
static std::vector<Chain> chains() {
    std::vector<Chain> c; std::vector<std::string> st = {"the", "and", "a", "ab"}; auto ws = [](const std::string &s) { return classes(s, SPACE, false, false); };
    auto W = frt_whitespace_tokenizer_new; auto MAP = [](FrtTokenStream *t) { frt_mapping_filter_add(t, "ae", "e"); frt_mapping_filter_add(t, "\xc3\xa9", "ee"); frt_mapping_filter_add(t, "xx", ""); frt_mapping_filter_add(t, "q", "qqq"); return t; }; std::vector<std::pair<std::string, std::string>> mp = {{"ae", "e"}, {"\xc3\xa9", "ee"}, {"xx", ""}, {"q", "qqq"}};
    c.push_back({"lower", [=] { return frt_lowercase_filter_new(W()); }, [=](const std::string &s) { return f_lower(ws(s)); }});
    c.push_back({"mb lower", [=] { return frt_mb_lowercase_filter_new(W()); }, [=](const std::string &s) { return f_lowerw(ws(s)); }});
    c.push_back({"stop", [=] { return frt_stop_filter_new_with_words(W(), STOPS); }, [=](const std::string &s) { return f_stop(st)(ws(s)); }});
    c.push_back({"stop of length 2", [=] { return frt_stop_filter_new_with_words_len(W(), STOPS, 2); }, [=](const std::string &s) { return f_stop({"the", "and"})(ws(s)); }});
    c.push_back({"hyphen", [=] { return frt_hyphen_filter_new(W()); }, [=](const std::string &s) { return f_hyphen(ws(s)); }});
    c.push_back({"hyphen of lower", [=] { return frt_hyphen_filter_new(frt_lowercase_filter_new(W())); }, [=](const std::string &s) { return f_hyphen(f_lower(ws(s))); }});
    c.push_back({"stop of hyphen", [=] { return frt_stop_filter_new_with_words(frt_hyphen_filter_new(W()), STOPS); }, [=](const std::string &s) { return f_stop(st)(f_hyphen(ws(s))); }});
    c.push_back({"lower of hyphen", [=] { return frt_lowercase_filter_new(frt_hyphen_filter_new(W())); }, [=](const std::string &s) { return f_lower(f_hyphen(ws(s))); }});
    c.push_back({"stem", [=] { return frt_stem_filter_new(W(), "english", NULL); }, [=](const std::string &s) { return f_stem("english", NULL)(ws(s)); }});
    c.push_back({"stem English iso", [=] { return frt_stem_filter_new(frt_lowercase_filter_new(W()), "English", "iso-8859-1"); }, [=](const std::string &s) { return f_stem("english", "ISO_8859_1")(f_lower(ws(s))); }});
    c.push_back({"stem french", [=] { return frt_stem_filter_new(W(), "French", "utf-8"); }, [=](const std::string &s) { return f_stem("french", "UTF_8")(ws(s)); }});
    c.push_back({"mapping", [=] { return MAP(frt_mapping_filter_new(W())); }, [=](const std::string &s) { return f_map(mp)(ws(s)); }});
    c.push_back({"stop of mapping of hyphen of mb lower", [=] { return frt_stop_filter_new_with_words(MAP(frt_mapping_filter_new(frt_hyphen_filter_new(frt_mb_lowercase_filter_new(W())))), STOPS); }, [=](const std::string &s) { return f_stop(st)(f_map(mp)(f_hyphen(f_lowerw(ws(s))))); }});
    c.push_back({"standard chain", [=] { return frt_hyphen_filter_new(frt_stop_filter_new_with_words(frt_lowercase_filter_new(frt_standard_tokenizer_new()), STOPS)); }, [=](const std::string &s) { return f_hyphen(f_stop(st)(f_lower(standard(s, false)))); }});
    c.push_back({"whitespace", [=] { return W(); }, ws}); c.push_back({"mb letter", [=] { return frt_mb_letter_tokenizer_new(1); }, [=](const std::string &s) { return classes(s, ALPHA, true, true); }});
    c.push_back({"utf8 standard", [=] { return frt_utf8_standard_tokenizer_new(); }, [=](const std::string &s) { return standard(s, true); }}); c.push_back({"mb standard", [=] { return frt_mb_standard_tokenizer_new(); }, [=](const std::string &s) { return standard(s, true); }});
    c.push_back({"non", [=] { return frt_non_tokenizer_new(); }, [=](const std::string &s) { return Tks{{clip(s), 0, (long)s.size(), 1}}; }});
    return c;
}
enum { NCHAIN = 19 };
static const std::vector<std::string> WORDS = {"the ", "and ", "x ", "A-b ", "-a-b ", "a--b ", "-- ", "Running ", "\xc3\x89t\xc3\xa9 ", "xx-ae ", "aeq ", "a-1 ", "ab- ", "b-", "qqq ", "THE "};
static bool agree(const Tks &v, const Tks &w, bool incs_ok = true) { (void)incs_ok; return v == w; }
static void drop_empty(Tks &v) { (void)v; }
static void sc_filters(Path &p) { auto cs = chains(); int a = p.choose(NCHAIN), b = p.choose((int)WORDS.size()); if (!p.mine()) return; auto &c = cs[a]; p.note("[%s: %s...] ", c.name, esc(WORDS[b]).c_str()); p.state(a * 32 + b); FrtTokenStream *ts = c.make();
    int n = strings(WORDS, opt.thorough ? 4 : 2, WORDS[b], [&](const std::string &s) { Text t(s); ts->reset(ts, t.b); Tks v = drain(p, ts, s.size() * 3 + 3), w = c.ref(s); drop_empty(w); if (!agree(v, w)) expect(p, c.name, s, v, w); }); frt_ts_deref(ts); p.eval(n); }
// --- long words -------------------------------------------------------------------------------------------------
static void sc_long(Path &p) {
    static const int N[] = {100, 126, 127, 128, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300, 509, 510, 511, 512, 600, 1000, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4099, 4100, 8192, 9000}; static const char *PT[] = {"a", "B", "1", "\xc3\xa9", "\xc8\xba", "a.", "a-", "a_", "\xc3\xa9.", "\xff", "a\xff", "\xe6\x97\xa5", "a/", "a@", "a'", "1.", "/", " ", ".", "-", "q", "ae", "xx"};
    static const char *HD[] = {"", "http://", "x@", "x:/", "x ", "1.", "x'", "a&", "\"", "a@[", "xx", "\xc3\xa9"}; static const char *TL[] = {" end", "", ".com z", "://w q", ".a.b c", "'s y", "@b.c d", "\" e", "/ f", "&g h", "-k l", "\xff m"};
    int a = p.choose(35), b = p.choose(23); if (!p.mine()) return; Box B; auto cs = chains(); std::vector<FrtTokenStream *> ct; for (auto &c : cs) ct.push_back(c.make()); p.note("[%d x %s] ", N[a], esc(PT[b]).c_str()); p.state(a * 23 + b); int n = 0;
    for (int hi = 0; hi < 12; hi++) for (int ti = 0; ti < 12; ti++) { if (N[a] > 1000 && !opt.thorough && (N[a] < 4094 || (N[a] > 4097 && N[a] != 8192) || (hi * 12 + ti + a) % 19)) continue; if (N[a] > 1000 && (hi + ti + a) % 2) continue; if (N[a] >= 300 && N[a] <= 1000 && !opt.thorough && (hi * 12 + ti + a) % 5) continue; const char *h = HD[hi], *t = TL[ti]; std::string s = h, pt = PT[b]; while ((int)s.size() - (int)strlen(h) < N[a]) s += pt; s += t;
        plain(p, B, s);
        auto chk = [&](const char *who, FrtTokenStream *ts, bool mb, bool legacy) { Tks v = tokens(p, ts, s); inv(p, who, s.substr(0, 40), v.empty() ? v : Tks{}); long last = 0; for (auto &x : v) { if (x.s < last || x.e <= x.s || x.e > (long)s.size() || x.text.empty() || x.text.size() >= FRT_MAX_WORD_SIZE) p.fail("%s: bad token at %ld-%ld (length %zu) after %ld", who, x.s, x.e, x.text.size(), last); last = x.e; if (!subseq(x.text, s.substr(x.s, x.e - x.s))) p.fail("%s: token at %ld-%ld is not made of its slice", who, x.s, x.e); if (x.e - x.s > 400 && x.text.size() < 120 ) { size_t al = 0; for (long i = x.s; i < x.e; i++) al += isalnum((unsigned char)s[i]) || (unsigned char)s[i] > 127; if (al > 300 && (valid(s) || !mb)) p.fail("%s: token at %ld-%ld is cut to %zu bytes", who, x.s, x.e, x.text.size()); } }
            size_t k = 0; for (auto &x : decode(s)) { if (x.bad || x.wc >= 128 || !isalnum(x.wc)) continue; while (k < v.size() && v[k].e <= x.at) k++; if (k >= v.size() || v[k].s > x.at) p.fail("%s: the letter or digit at %d of %zu is in no token", who, x.at, s.size()); } (void)legacy; return v; };
        Tks sa = chk("standard", B.sa, false, false), su = chk("utf8 standard", B.su, true, false), sm = chk("multi-byte standard", B.sm, true, false); chk("legacy standard", B.la, false, true); chk("multi-byte legacy standard", B.lmb, true, true);
        if (ascii(s)) { if (!(sa == su)) p.fail("utf8 and plain standard tokenizer differ on %s...%s", h, t); }
        if (valid(s) && s.size() < 4000) { bool same = sm.size() == su.size(); for (size_t i = 0; same && i < sm.size(); i++) same = sm[i].s == su[i].s && sm[i].e == su[i].e; if (!same) p.fail("multi-byte and utf8 standard tokenizer differ on %s...%s", esc(h).c_str(), esc(t).c_str()); }
        if (N[a] <= 600) for (size_t c = 0; c < 13; c++) { Tks v = tokens(p, ct[c], s, 3), w = cs[c].ref(s); if (!(v == w)) { size_t i = 0; while (i < v.size() && i < w.size() && v[i] == w[i]) i++; p.fail("%s on %s...%s: token %zu is %s, expected %s", cs[c].name, esc(h).c_str(), esc(t).c_str(), i, i < v.size() ? show(Tks{v[i]}).c_str() : "missing", i < w.size() ? show(Tks{w[i]}).c_str() : "none"); } }
        n += 12; } p.eval(n); for (auto x : ct) frt_ts_deref(x);
}
// all programs of next / clone / reset on up to 3 streams
static void sc_programs(Path &p) {
    static const char *TX[] = {"x-y the a-b", "The ab-c-d q", "", "z"}; auto cs = chains(); int a = p.choose(NCHAIN), depth = opt.thorough ? 8 : 6; std::vector<int> ops; for (int i = 0; i < 3; i++) ops.push_back(p.choose(10)); if (!p.mine()) return; p.note("[%s] ", cs[a].name); p.state(a * 1000 + ops[0] * 100 + ops[1] * 10 + ops[2]);
    Text t0(TX[0]), t1(TX[1]), t2(TX[2]), t3(TX[3]); Text *T[] = {&t0, &t1, &t2, &t3}; Tks exp[4]; for (int i = 0; i < 4; i++) exp[i] = cs[a].ref(TX[i]); int n = 0;
    struct M { FrtTokenStream *ts; int txt; size_t pos; };
    // ops: 0-2 next on stream k; 3-5 reset k to the next text; 6-8 clone k onto slot (k+1)%3; 9 drain and reset stream 0
    std::function<void(std::vector<int> &)> rec = [&](std::vector<int> &o) {
        if ((int)o.size() < depth) { bool deep = o.size() < 3; (void)deep; for (int k = 0; k < 10; k++) { o.push_back(k); rec(o); o.pop_back(); } return; }
        M m[3] = {{cs[a].make(), 0, 0}, {NULL, 0, 0}, {NULL, 0, 0}}; m[0].ts->reset(m[0].ts, T[0]->b); n++;
        auto bad = [&](const std::string &w) { std::string s; for (int x : o) s += fmt(" %s%d", x < 3 ? "next" : x < 6 ? "reset" : x < 9 ? "clone" : "again", x % 3); p.fail("%s after%s (texts %s, %s)", w.c_str(), s.c_str(), TX[0], TX[1]); };
        auto next = [&](M &x) { FrtToken *t = frt_ts_next(x.ts); if (!t) { if (x.pos < exp[x.txt].size()) bad("stream ended early"); return false; } if (x.pos >= exp[x.txt].size()) bad("token after the end: " + std::string(t->text)); Tk k = take(p, t); if (!(k == exp[x.txt][x.pos])) bad("got " + show(Tks{k}) + " instead of " + show(Tks{exp[x.txt][x.pos]})); x.pos++; return true; };
        for (int x : o) { int k = x % 3; if (x < 9 && !m[k].ts) continue; if (x < 3) next(m[k]); else if (x < 6) { m[k].txt = (m[k].txt + 1) % 4; m[k].pos = 0; m[k].ts->reset(m[k].ts, T[m[k].txt]->b); } else if (x < 9) { int d = (k + 1) % 3; if (m[d].ts) frt_ts_deref(m[d].ts); m[d] = m[k]; m[d].ts = frt_ts_clone(m[k].ts); } else { while (next(m[0])) ; m[0].pos = 0; m[0].txt = 0; m[0].ts->reset(m[0].ts, T[0]->b); } }
        for (auto &x : m) if (x.ts) while (next(x)) ; for (auto &x : m) if (x.ts) frt_ts_deref(x.ts);
    };
    rec(ops); p.eval(n);
}
// --- analyzers ----------------------------------------------------------------------------------------------------
static void sc_analyzers(Path &p) {
    struct An { const char *name; std::function<FrtAnalyzer *()> make; std::function<Tks(const std::string &)> ref; }; static const char *W2[] = {"of", "x"};
    std::vector<std::string> full; for (const char **w = FRT_FULL_ENGLISH_STOP_WORDS; *w; w++) full.push_back(*w); std::vector<std::string> st = {"the", "and", "a", "ab"};
    std::vector<An> as; auto add = [&](const char *n, std::function<FrtAnalyzer *()> m, std::function<Tks(const std::string &)> r) { as.push_back({n, m, r}); };
    for (int lc = 0; lc < 2; lc++) {
        add("whitespace", [=] { return frt_whitespace_analyzer_new(lc); }, [=](const std::string &s) { return classes(s, SPACE, false, lc); }); add("mb whitespace", [=] { return frt_mb_whitespace_analyzer_new(lc); }, [=](const std::string &s) { return classes(s, SPACE, true, lc); });
        add("letter", [=] { return frt_letter_analyzer_new(lc); }, [=](const std::string &s) { return classes(s, ALPHA, false, lc); }); add("mb letter", [=] { return frt_mb_letter_analyzer_new(lc); }, [=](const std::string &s) { return classes(s, ALPHA, true, lc); });
        auto sref = [=](bool wide, std::vector<std::string> sw) { return [=](const std::string &s) { Tks v = standard(s, wide); if (lc) v = wide ? f_lowerw(v) : f_lower(v); return f_hyphen(f_stop(sw)(v)); }; };
        add("standard", [=] { return frt_standard_analyzer_new(lc); }, sref(false, full)); add("mb standard", [=] { return frt_mb_standard_analyzer_new(lc); }, sref(true, full)); add("utf8 standard", [=] { return frt_utf8_standard_analyzer_new(lc); }, sref(true, full));
        add("standard with words", [=] { return frt_standard_analyzer_new_with_words(STOPS, lc); }, sref(false, st)); add("mb standard with words", [=] { return frt_mb_standard_analyzer_new_with_words(STOPS, lc); }, sref(true, st)); add("utf8 standard with words", [=] { return frt_utf8_standard_analyzer_new_with_words(STOPS, lc); }, sref(true, st));
        add("standard with 2 words", [=] { return frt_standard_analyzer_new_with_words_len(W2, 2, lc); }, sref(false, {"of", "x"})); add("mb standard with 2 words", [=] { return frt_mb_standard_analyzer_new_with_words_len(W2, 2, lc); }, sref(true, {"of", "x"})); add("utf8 standard with 1 word", [=] { return frt_utf8_standard_analyzer_new_with_words_len(W2, 1, lc); }, sref(true, {"of"})); add("standard without words", [=] { return frt_standard_analyzer_new_with_words_len(W2, 0, lc); }, sref(false, {}));
        auto lref = [=](bool wide, std::vector<std::string> sw) { return [=](const std::string &s) { FrtTokenStream *t = wide ? frt_mb_legacy_standard_tokenizer_new() : frt_legacy_standard_tokenizer_new(); Text x(s); t->reset(t, x.b); Tks v; FrtToken *k; while ((k = frt_ts_next(t))) v.push_back({k->text, (long)k->start, (long)k->end, k->pos_inc}); frt_ts_deref(t); if (lc) v = wide ? f_lowerw(v) : f_lower(v); return f_hyphen(f_stop(sw)(v)); }; };
        add("legacy", [=] { return frt_legacy_standard_analyzer_new(lc); }, lref(false, full)); add("mb legacy", [=] { return frt_mb_legacy_standard_analyzer_new(lc); }, lref(true, full)); add("legacy with words", [=] { return frt_legacy_standard_analyzer_new_with_words(STOPS, lc); }, lref(false, st)); add("mb legacy with 2 words", [=] { return frt_mb_legacy_standard_analyzer_new_with_words_len(W2, 2, lc); }, lref(true, {"of", "x"}));
    }
    add("non", [=] { return frt_non_analyzer_new(); }, [=](const std::string &s) { return Tks{{clip(s), 0, (long)s.size(), 1}}; });
    static const std::vector<std::string> W = {"the ", "Of ", "x-y ", "I.B.M. ", "A\xc3\x89-b ", "http://a.com/ ", "bob's ", "a@b.c ", "x ", "a ", "12.5 "};
    int na = (int)as.size(), a = p.choose(na), b = p.choose(na), w0 = p.choose((int)W.size()); if (!p.mine()) return; p.note("[%s with %s] ", as[a].name, as[b].name); p.state((a * 64 + b) * 16 + w0); int n = 0;
    FrtAnalyzer *d = as[a].make(), *e = as[b].make(); FrtAnalyzer *pf = frt_per_field_analyzer_new(d); FRT_REF(e); frt_pfa_add_field(pf, SYM("g"), e); FRT_REF(e); frt_pfa_add_field(pf, SYM("h"), e);
    // streams handed out by one analyzer are used alternately
    strings(W, a == b || opt.thorough ? 2 : 1, W[w0], [&](const std::string &s) { std::string r(s.rbegin(), s.rend()); if (!valid(r)) r = s + "q"; Text t1(s), t2(r); FrtTokenStream *x[3] = {frt_a_get_ts(pf, SYM("f"), t1.b), frt_a_get_ts(pf, SYM("g"), t2.b), frt_a_get_ts(pf, SYM("h"), t1.b)}; Tks v[3]; bool on[3] = {true, true, true};
        while (on[0] || on[1] || on[2]) for (int k = 0; k < 3; k++) if (on[k]) { FrtToken *t = frt_ts_next(x[k]); if (!t) on[k] = false; else { v[k].push_back(take(p, t)); if (v[k].size() > 3 * s.size() + 3) p.fail("does not terminate"); } }
        expect(p, as[a].name, s, v[0], as[a].ref(s)); expect(p, as[b].name, r, v[1], as[b].ref(r)); expect(p, as[b].name, s, v[2], as[b].ref(s)); for (auto k : x) frt_ts_deref(k); n += 3; });
    frt_a_deref(pf); frt_a_deref(e); p.eval(n);
}
int main(int argc, char **argv) {
    setlocale(LC_ALL, "C.UTF-8");
    Meta m;
    m.rule = "state = (tokenizer or chain, prefix of the text or program); transition = one text tokenized to the end (or one program of next/clone/reset steps); the tokens are compared with those of an independent reference: character classes, the token grammar as longest match over all rules, and filters as functions on token lists";
    return run(argc, argv, m, {
        {"classes", "all strings of up to 5 (thorough: 6) of 16 characters (letters, digit, spaces, multi-byte, invalid bytes) x 7 tokenizers", sc_classes, 300},
        {"ascii", "all strings of up to 5 (thorough: 6) of 15 characters of the token grammar x 5 standard tokenizers", sc_ascii, 300},
        {"lexemes", "all sequences of up to 4 (thorough: 5) of 24 lexemes (protocols, domains, punctuation) x 5 standard tokenizers, also after 10 beginnings", sc_lexemes, 300},
        {"wide", "all strings of up to 5 (thorough: 6) of 15 characters, multi-byte and invalid ones included x 5 standard tokenizers", sc_wide, 300},
        {"codepoints", "every Unicode scalar value, alone and inside words", sc_codepoints, 120},
        {"bytes", "all strings of 1 and 2 bytes, alone, after and between letters", sc_bytes, 60},
        {"long", "22 lengths up to 1000 x 23 repeated patterns x 12 beginnings x 12 ends x 12 tokenizers and 13 filter chains; 5 lengths around 4096 and 8192 with a fixed selection of beginnings and ends (thorough: 13 lengths, half of all pairs)", sc_long, 120},
        {"filters", "19 chains of tokenizers and filters on all sequences of up to 3 (thorough: 5) of 16 words", sc_filters, 120},
        {"programs", "all programs of 6 (thorough: 8) next, clone and reset steps on up to 3 streams x 19 chains", sc_programs, 120},
        {"analyzers", "all pairs of 37 analyzers in a per-field analyzer, streams used alternately, all sequences of up to 2 (thorough: 3) of 11 words", sc_analyzers, 60},
    });
}
