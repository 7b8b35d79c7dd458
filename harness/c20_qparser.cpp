// C20: the query parser against an independent reference parser (lexer, recursive descent, meaning) on all short
// strings of lexemes, all small clause trees, phrases, field lists, long words, boosts and byte strings.
#include "../lib/ferret.hpp"
#include <clocale>
#include <cwctype>
#include <climits>
#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
using namespace mc;
struct Q; typedef std::shared_ptr<Q> QP;
struct Q { char k; std::string field, text; float boost = 1; bool nocoord = false; int slop = 0; float sim = 0; std::vector<std::pair<int, QP>> kids; std::vector<std::pair<int, std::vector<std::string>>> ph; };
static QP mk(char k, const std::string &f = "", const std::string &t = "") { QP q = std::make_shared<Q>(); q->k = k; q->field = f; q->text = t; return q; }
static const char *OC[] = {"", "+", "-"};
static std::string dump(const QP &q) {
    std::string s;
    switch (q->k) {
    case 'T': case 'X': case 'W': case 'R': s = fmt("%c(%s,%s)", q->k, q->field.c_str(), q->text.c_str()); break;
    case 'F': s = fmt("F(%s,%s,%g)", q->field.c_str(), q->text.c_str(), q->sim); break;
    case '*': s = "*"; break;
    case 'B': s = q->nocoord ? "B!(" : "B("; for (auto &k : q->kids) s += std::string(OC[k.first]) + dump(k.second) + " "; s += ")"; break;
    case 'P': s = "P(" + q->field + ","; for (auto &p : q->ph) { s += fmt(" %d", p.first); char c = '='; for (auto &t : p.second) { s += c + t; c = '|'; } } s += fmt(")~%d", q->slop); break;
    case 'M': { s = "M(" + q->field + ","; std::vector<std::string> v = q->ph[0].second; std::sort(v.begin(), v.end()); for (auto &t : v) s += " " + t; s += ")"; break; }
    }
    if (q->boost != 1) s += fmt("^%.9g", q->boost);
    return s;
}
static QP read_q(FrtQuery *r) {
    QP q;
    switch (r->type) {
    case FRT_TERM_QUERY: { FrtTermQuery *x = (FrtTermQuery *)r; q = mk('T', FRT_S(x->field), x->term); break; }
    case FRT_BOOLEAN_QUERY: { FrtBooleanQuery *x = (FrtBooleanQuery *)r; q = mk('B'); q->nocoord = x->coord_disabled; for (int i = 0; i < x->clause_cnt; i++) { FrtBooleanClause *c = x->clauses[i]; if (c->is_prohibited != (c->occur == FRT_BC_MUST_NOT) || c->is_required != (c->occur == FRT_BC_MUST)) { q->text = "inconsistent"; q->nocoord = true; } q->kids.push_back({(int)c->occur, read_q(c->query)}); } break; }
    case FRT_PHRASE_QUERY: { FrtPhraseQuery *x = (FrtPhraseQuery *)r; q = mk('P', FRT_S(x->field)); q->slop = x->slop; for (int i = 0; i < x->pos_cnt; i++) { std::vector<std::string> t; for (int j = 0; j < (int)frt_ary_sz(x->positions[i].terms); j++) t.push_back(x->positions[i].terms[j]); q->ph.push_back({x->positions[i].pos, t}); } break; }
    case FRT_MULTI_TERM_QUERY: { FrtMultiTermQuery *x = (FrtMultiTermQuery *)r; q = mk('M', FRT_S(x->field)); float b = r->boost; r->boost = 1; char *c = r->to_s(r, x->field); r->boost = b; std::string s = c; free(c); std::vector<std::string> t; std::string cur; for (size_t i = 1; i < s.size(); i++) { if (s[i] == '|' || i + 1 == s.size()) { t.push_back(cur); cur = ""; } else cur += s[i]; } q->ph.push_back({0, t}); break; }
    case FRT_PREFIX_QUERY: { FrtPrefixQuery *x = (FrtPrefixQuery *)r; q = mk('X', FRT_S(x->field), x->prefix); break; }
    case FRT_WILD_CARD_QUERY: { FrtWildCardQuery *x = (FrtWildCardQuery *)r; q = mk('W', FRT_S(x->field), x->pattern); break; }
    case FRT_FUZZY_QUERY: { FrtFuzzyQuery *x = (FrtFuzzyQuery *)r; q = mk('F', FRT_S(x->field), x->term); q->sim = x->min_sim; break; }
    case FRT_MATCH_ALL_QUERY: q = mk('*'); break;
    default: { float b = r->boost; r->boost = 1; char *s = r->to_s(r, NULL); r->boost = b; std::string t = s; free(s); size_t c = t.find_first_of("[{<"); q = mk('R', c ? t.substr(0, c - 1) : "", t.substr(c)); if (r->type == FRT_TYPED_RANGE_QUERY) q->text = "typed" + q->text; } }
    q->boost = r->boost; return q;
}

// --- configuration and reference ------------------------------------------------------------------------------
struct Conf { std::vector<std::string> def, all, tok; bool or_default = true, wild_lower = true, clean = false, handle = false, any = false, keywords = true, typed = false; std::string name; };
static FrtQParser *make_qp(const Conf &c) {
    FrtQParser *qp = frt_qp_new(frt_letter_analyzer_new(true));
    for (auto &f : c.all) frt_qp_add_field(qp, SYM(f), std::count(c.def.begin(), c.def.end(), f), std::count(c.tok.begin(), c.tok.end(), f));
    qp->or_default = c.or_default; qp->wild_lower = c.wild_lower; qp->clean_str = c.clean; qp->handle_parse_errors = c.handle; qp->allow_any_fields = c.any; qp->use_keywords = c.keywords; qp->use_typed_range_query = c.typed;
    return qp;
}
struct Syntax {};
static bool is(const char *set, char c) { return c && strchr(set, c); }
static std::string lower(const std::string &s) {
    std::vector<wchar_t> w(s.size() + 1); size_t n = mbstowcs(w.data(), s.c_str(), w.size()); std::string r;
    if (n == (size_t)-1) { r = s; for (auto &c : r) c = (c >= 'A' && c <= 'Z') ? c + 32 : c; return r; }
    for (size_t i = 0; i < n; i++) { char b[MB_LEN_MAX]; int k = wctomb(b, towlower(w[i])); r.append(b, k); }
    return r;
}
static std::vector<std::string> letters(const std::string &s) { std::vector<std::string> r; std::string cur; for (char c : s) if (isalpha((unsigned char)c) && (unsigned char)c < 128) cur += tolower(c); else if (cur.size()) { r.push_back(cur.substr(0, 254)); cur = ""; } if (cur.size()) r.push_back(cur.substr(0, 254)); return r; }
enum { END = 0, WORD = 256, WILD, AND, OR, REQ, NOT };
struct Tok { int t; std::string s; };
struct Ref {
    const Conf &c; std::vector<Tok> tk; size_t i = 0; std::vector<std::vector<std::string>> fields;
    Ref(const Conf &c) : c(c) {}
    void lex(const std::string &s) {
        size_t k = 0;
        for (;;) {
            while (k < s.size() && (s[k] == ' ' || s[k] == '\t')) k++;
            if (k >= s.size()) break;
            char x = s[k], n = k + 1 < s.size() ? s[k + 1] : 0;
            if (x == '-' || x == '!') { tk.push_back({NOT, ""}); k++; continue; }
            if (x == '+') { tk.push_back({REQ, ""}); k++; continue; }
            if (x == '&' && n == '&') { tk.push_back({AND, ""}); k += 2; continue; }
            if (x == '|' && n == '|') { tk.push_back({OR, ""}); k += 2; continue; }
            if ((x == '*' && n == ':') || is(":()[]{}\"~^|<>=", x)) { tk.push_back({x, ""}); k++; continue; }
            std::string w; bool wild = false;
            while (k < s.size() && !is(" \t()[]{}!\"~^|<>=", s[k])) {
                if (s[k] == '\\') { if (k + 1 < s.size()) w += s[k + 1]; else w += '\\'; k += k + 1 < s.size() ? 2 : 1; continue; }
                if (s[k] == ':') { if (k + 1 < s.size() && s[k + 1] == ':') { w += "::"; k += 2; continue; } break; }
                if (s[k] == '*' || s[k] == '?') wild = true;
                w += s[k++];
            }
            if (c.keywords && w == "AND") tk.push_back({AND, ""});
            else if (c.keywords && w == "OR") tk.push_back({OR, ""});
            else if (c.keywords && w == "NOT") tk.push_back({NOT, ""});
            else if (c.keywords && w == "REQ") tk.push_back({REQ, ""});
            else tk.push_back({wild ? WILD : WORD, w});
        }
        tk.push_back({END, ""});
    }
    int at(int o = 0) { return i + o < tk.size() ? tk[i + o].t : END; }
    std::string want(int t) { if (at() != t) throw Syntax(); return tk[i++].s; }
    bool tokenized(const std::string &f) { return std::count(c.tok.begin(), c.tok.end(), f); }
    std::vector<std::string> analyse(const std::string &f, const std::string &w) { if (tokenized(f)) return letters(w); return {w.substr(0, 254)}; }
    QP flds(std::function<QP(const std::string &)> fn) {
        auto &fs = fields.back(); if (fs.empty()) return NULL; if (fs.size() == 1) return fn(fs[0]);
        QP b = mk('B'); for (auto &f : fs) { QP q = fn(f); if (q) b->kids.push_back({FRT_BC_SHOULD, q}); }
        return b->kids.size() ? b : NULL;
    }
    QP term(const std::string &f, const std::string &w) {
        auto t = analyse(f, w); if (t.empty()) return NULL; if (t.size() == 1) return mk('T', f, t[0]);
        QP q = mk('P', f); for (size_t k = 0; k < t.size(); k++) q->ph.push_back({(int)k, {t[k]}}); q->slop = (int)t.size() - 1; return q;
    }
    std::string wl(const std::string &f, const std::string &w) { return c.wild_lower && tokenized(f) ? lower(w) : w; }
    QP wild(const std::string &f, const std::string &w0) { std::string w = wl(f, w0); if (w == "*") return mk('*'); if (w.back() == '*' && w.find_first_of("*?") == w.size() - 1) return mk('X', f, w.substr(0, w.size() - 1)); return mk('W', f, w); }
    QP fuzzy(const std::string &f, const std::string &w, const std::string *sl) { auto t = analyse(f, w); if (t.empty()) return NULL; QP q = mk('F', f, t[0]); q->sim = 0.5f; float x; if (sl && sscanf(sl->c_str(), "%f", &x) == 1) q->sim = x; if (q->sim == 0) q->sim = 0.5f; return q; }
    QP range(const std::string &f, const std::string *lo, const std::string *hi, bool il, bool ih) {
        std::string a = lo ? wl(f, *lo) : "", b = hi ? wl(f, *hi) : "";
        if (lo && hi) { char *e1, *e2; double x = strtod(a.c_str(), &e1), y = strtod(b.c_str(), &e2); bool num = c.typed && a.size() && b.size() && !*e1 && !*e2; if (num ? y < x : strcmp(b.c_str(), a.c_str()) < 0) throw Syntax(); }
        std::string s = std::string(c.typed ? "typed" : "") + (lo ? (il ? "[" : "{") + a : std::string("<")) + (lo && hi ? " " : "") + (hi ? b + (ih ? "]" : "}") : std::string(">"));
        return mk('R', f, s);
    }
    typedef std::vector<std::pair<int, std::vector<std::string>>> Ph;      // words: gap before, alternatives
    QP phrase(const std::string &f, const Ph &ph, const std::string *sl) {
        if (ph.empty()) return NULL;
        if (ph.size() == 1) {
            if (ph[0].second.size() == 1) return term(f, ph[0].second[0]);
            std::vector<std::string> t; for (auto &w : ph[0].second) { auto x = analyse(f, w); if (x.size()) t.push_back(x[0]); }
            if (t.empty()) return mk('B'); if (t.size() == 1) return mk('T', f, t[0]);
            QP q = mk('M', f); q->ph.push_back({0, t}); return q;
        }
        QP q = mk('P', f); int x; if (sl && sscanf(sl->c_str(), "%d", &x) == 1) q->slop = x;
        int pos = -1; bool open = false;                                    // pos: last position used; a word without tokens widens the gap and the slop
        int inc = 0;
        for (auto &g : ph) {
            if (open) q->slop++;
            inc += g.first + 1; open = true;
            auto put = [&](const std::string &t) { pos = q->ph.empty() ? 0 : pos + (inc ? inc : 1); inc = 0; q->ph.push_back({pos, {t}}); open = false; };
            if (g.second.size() == 1) for (auto &t : analyse(f, g.second[0])) put(t);
            else { bool first = true; for (auto &w : g.second) { auto t = analyse(f, w); if (t.empty()) continue; if (first) put(t[0]); else q->ph.back().second.push_back(t[0]); first = false; } }
        }
        return q;
    }
    QP q() {
        switch (at()) {
        case WORD: {
            if (at(1) == ':' || at(1) == '|') {
                std::vector<std::string> fs; auto add = [&](const std::string &f) { if ((c.any || std::count(c.all.begin(), c.all.end(), f)) && !std::count(fs.begin(), fs.end(), f)) fs.push_back(f); };
                add(want(WORD)); while (at() == '|') { i++; add(want(WORD)); } want(':');
                fields.push_back(fs); QP r = q(); fields.pop_back(); return r;
            }
            std::string w = want(WORD);
            if (at() == '~') { i++; if (at() == WORD) { std::string s = want(WORD); return flds([&](const std::string &f) { return fuzzy(f, w, &s); }); } return flds([&](const std::string &f) { return fuzzy(f, w, NULL); }); }
            return flds([&](const std::string &f) { return term(f, w); }); }
        case WILD: { std::string w = want(WILD); return flds([&](const std::string &f) { return wild(f, w); }); }
        case '*': { i++; want(':'); fields.push_back(c.all); QP r = q(); fields.pop_back(); return r; }
        case '(': { i++; if (at() == ')') { i++; QP b = mk('B'); b->nocoord = true; return b; } QP r = clauses(); want(')'); return r; }
        case '"': {
            i++; if (at() == '"') { i++; if (at() == '~') { i++; want(WORD); } return NULL; }
            Ph ph; int gap = 0; bool any = false;
            while (at() != '"') {
                if (at() == WORD) { ph.push_back({gap, {want(WORD)}}); gap = 0; any = true; }
                else if (at() == '<') { i++; want('>'); if (any) gap++; any = true; }
                else if (at() == '|' && any) { i++; std::string w = want(WORD); if (ph.empty()) { ph.push_back({gap, {w}}); gap = 0; } else ph.back().second.push_back(w); }
                else throw Syntax();
            }
            i++; std::string s; bool sl = false; if (at() == '~') { i++; s = want(WORD); sl = true; }
            return flds([&](const std::string &f) { return phrase(f, ph, sl ? &s : NULL); }); }
        case '[': case '{': { bool il = at() == '['; i++; std::string a = want(WORD); if (at() == '>') { i++; return flds([&](const std::string &f) { return range(f, &a, NULL, il, false); }); } std::string b = want(WORD); bool ih = at() == ']'; if (!ih && at() != '}') throw Syntax(); i++; return flds([&](const std::string &f) { return range(f, &a, &b, il, ih); }); }
        case '<': { i++; if (at() == '=') { i++; std::string b = want(WORD); return flds([&](const std::string &f) { return range(f, NULL, &b, false, true); }); } std::string b = want(WORD); bool ih = false; if (at() == ']' || at() == '}') { ih = at() == ']'; i++; } return flds([&](const std::string &f) { return range(f, NULL, &b, false, ih); }); }
        case '>': { i++; bool il = at() == '='; if (il) i++; std::string a = want(WORD); return flds([&](const std::string &f) { return range(f, &a, NULL, il, false); }); }
        }
        throw Syntax();
    }
    QP clauses() {
        std::vector<std::pair<int, QP>> v; bool first = true;
        for (;; first = false) {
            if (!first && (at() == END || at() == ')')) break;
            bool conj = !c.or_default; if (!first) { if (at() == AND) { conj = true; i++; } else if (at() == OR) { conj = false; i++; } }
            int oc = FRT_BC_SHOULD; if (at() == REQ) { oc = FRT_BC_MUST; i++; } else if (at() == NOT) { oc = FRT_BC_MUST_NOT; i++; }
            QP x = q(); if (at() == '^') { i++; std::string b = want(WORD); float f; if (x && sscanf(b.c_str(), "%f", &f) == 1) x->boost = f; }
            if (!x) continue;
            if (conj && !first) { if (v.size() == 1 && v[0].first != FRT_BC_MUST_NOT) v[0].first = FRT_BC_MUST; if (oc != FRT_BC_MUST_NOT) oc = FRT_BC_MUST; }
            v.push_back({oc, x});
        }
        if (v.empty()) return NULL;
        QP b = mk('B');
        if (v.size() == 1) { if (v[0].first != FRT_BC_MUST_NOT) return v[0].second; b->kids = {v[0], {FRT_BC_MUST, mk('*')}}; return b; }
        b->kids = v; return b;
    }
    // the expected query, or NULL for a parse error
    QP parse(const std::string &s, bool *malformed = NULL) {
        QP r; bool ok = true; fields = {c.def}; i = 0; tk.clear(); if (malformed) *malformed = false;
        try { lex(s); if (at() != END) r = clauses(); if (at() != END) throw Syntax(); } catch (Syntax &) { r = NULL; ok = false; }
        if (malformed) *malformed = !ok;
        if (!ok && !c.handle) return NULL;
        if (!r && c.handle) { fields = {c.def}; r = flds([&](const std::string &f) { return term(f, s); }); }
        return r ? r : mk('B');
    }
};
// --- printing and reading back ---------------------------------------------------------------------------------
static std::string num(float b) { char x[64]; snprintf(x, 64, "%.9g", b); return x; }
static bool readable(const QP &q) {                                         // words that need no escaping; no phrase without words
    auto w = [](const std::string &s) { if (s.empty()) return false; for (char c : s) if (!isalnum((unsigned char)c) && !((unsigned char)c & 128)) return false; return true; };
    if (q->field.size() && !w(q->field)) return false;
    switch (q->k) {
    case 'T': case 'F': return w(q->text);
    case 'X': return w(q->text);
    case 'W': { std::string t = q->text; t.erase(std::remove_if(t.begin(), t.end(), [](char c) { return c == '*' || c == '?'; }), t.end()); return t.empty() || w(t); }
    case 'R': { std::string t = q->text.substr(1, q->text.size() - 2); size_t sp = t.find(' '); return sp == t.npos ? w(t) : w(t.substr(0, sp)) && w(t.substr(sp + 1)); }
    case 'P': if (q->ph.empty() || q->slop < 0) return false; for (auto &p : q->ph) for (auto &t : p.second) if (!w(t)) return false; return true;
    case 'M': for (auto &t : q->ph[0].second) if (!w(t)) return false; return true;
    case 'B': for (auto &k : q->kids) if (!readable(k.second)) return false; return true;
    }
    return true;
}
// "a~ b" printed for the clauses a~ and b is read as a~b (see fuzzy_reread)
static bool swallowed(const QP &q, const std::string &def) {
    if (q->k != 'B') return false;
    for (size_t i = 0; i < q->kids.size(); i++) {
        const QP &k = q->kids[i].second; if (swallowed(k, def)) return true;
        if (k->k == 'F' && k->sim == 0.5f && k->boost == 1 && i + 1 < q->kids.size() && q->kids[i + 1].first == FRT_BC_SHOULD) { const QP &n = q->kids[i + 1].second; if (n->k == 'T' || n->k == 'F' || (n->k != 'B' && n->k != '*' && n->field != def)) return true; }
    }
    return false;
}
static bool only_swallowed = false;
static QP norm(const QP &q0) {                                              // groups of one clause are the clause
    QP q = std::make_shared<Q>(*q0); for (auto &k : q->kids) k.second = norm(k.second);
    if (q->k == 'B' && q->kids.size() == 1 && q->kids[0].first != FRT_BC_MUST_NOT) { QP k = std::make_shared<Q>(*q->kids[0].second); k->boost *= q->boost; return k; }
    if (q->k == 'P' && q->ph.size() == 1) { QP k = q->ph[0].second.size() == 1 ? mk('T', q->field, q->ph[0].second[0]) : mk('M', q->field); if (k->k == 'M') k->ph = q->ph; k->boost = q->boost; return k; }
    if (q->k == 'B' && q->kids.empty()) q->nocoord = false, q->boost = 1;
    return q;
}
static bool plain(const QP &q) { if (q->k == 'B') { if (q->kids.size() < 2 || q->nocoord) return false; for (auto &k : q->kids) if (!plain(k.second)) return false; } return q->k != 'P' || q->ph.size() > 1; }
struct Box {
    Conf c; FrtQParser *qp; uint64_t n = 0, bad = 0;
    Box(const Conf &c) : c(c), qp(make_qp(c)) {}
    ~Box() { if (qp) frt_qp_destroy(qp); }
};
// one string: the parser against the reference, twice; the parser stays usable; printing reads back
static void one(Path &p, Box &B, const std::string &s) {
    Ref ref(B.c); B.n++; p.step();
    std::string in = s; if (B.c.clean) { std::vector<char> b(s.begin(), s.end()); b.push_back(0); char *cl = frt_qp_clean_str(b.data()); in = cl; free(cl); }
    bool mal; QP want = ref.parse(in, &mal); if (mal) B.bad++;
    if (B.c.clean && (only_swallowed || s.find("\\\\") == s.npos)) { Ref r2(B.c); bool m2; QP w2 = r2.parse(s, &m2); if (!m2 && (mal || dump(w2) != dump(want))) p.fail("[%s] cleaning changes the meaning of the well-formed string |%s| into |%s|", B.c.name.c_str(), s.c_str(), in.c_str()); }
    for (int round = 0; round < 2; round++) {
        FrtQuery *q = NULL; std::vector<char> b(s.begin(), s.end()); b.push_back(0);
        std::string e = guarded([&] { q = frt_qp_parse(B.qp, b.data()); });
        if (std::string(b.data()) != s) p.fail("[%s] parsing |%s| changes the string", B.c.name.c_str(), s.c_str());
        if (pthread_mutex_trylock(&B.qp->mutex)) p.fail("[%s] the parser stays locked after |%s| (%s)", B.c.name.c_str(), s.c_str(), e.c_str());
        pthread_mutex_unlock(&B.qp->mutex);
        if (!want) { if (err_code(e) != FRT_PARSE_ERROR) p.fail("[%s] |%s| is malformed: expected a parse error, got %s", B.c.name.c_str(), s.c_str(), q ? dump(read_q(q)).c_str() : e.c_str()); continue; }
        if (e.size()) p.fail("[%s] |%s| should be read as %s: %s", B.c.name.c_str(), s.c_str(), dump(want).c_str(), e.c_str());
        if (!q) p.fail("[%s] no query for |%s|", B.c.name.c_str(), s.c_str());
        QP got = read_q(q); if (dump(got) != dump(want)) p.fail("[%s] |%s| is read as %s, expected %s", B.c.name.c_str(), s.c_str(), dump(got).c_str(), dump(want).c_str());
        if (round == 0 && !B.c.typed && B.c.or_default && !(B.c.handle && want->k == 'B' && want->kids.empty()) && readable(want) && swallowed(want, B.c.def.size() == 1 ? B.c.def[0] : "") == only_swallowed) {
            char *t = q->to_s(q, B.c.def.size() == 1 ? SYM(B.c.def[0]) : NULL); std::string ts = t; FrtQuery *q2 = NULL;
            std::string e2 = guarded([&] { q2 = frt_qp_parse(B.qp, t); }); if (e2.size()) p.fail("[%s] |%s| prints as |%s|, which cannot be read: %s", B.c.name.c_str(), s.c_str(), ts.c_str(), e2.c_str());
            QP back = read_q(q2); if (dump(norm(back)) != dump(norm(want))) p.fail("[%s] |%s| prints as |%s|, which reads as %s instead of %s", B.c.name.c_str(), s.c_str(), ts.c_str(), dump(back).c_str(), dump(want).c_str());
            if (plain(want)) { if (!frt_q_eq(q, q2)) p.fail("[%s] |%s| printed and read back is not equal", B.c.name.c_str(), s.c_str()); if (frt_q_hash(q) != frt_q_hash(q2)) p.fail("[%s] |%s| printed and read back has another hash value", B.c.name.c_str(), s.c_str()); }
            frt_q_deref(q2); free(t);
        }
        frt_q_deref(q);
    }
}
static Conf base(const char *name) { Conf c; c.def = {"f"}; c.all = {"f", "g", "h"}; c.tok = {"f", "g"}; c.name = name; return c; }
static std::vector<Conf> confs() {
    std::vector<Conf> v; Conf c = base("strict"); v.push_back(c);
    c = base("cleaning, error handling"); c.clean = c.handle = true; v.push_back(c);
    c = base("and by default, two default fields"); c.or_default = false; c.def = {"f", "h"}; v.push_back(c);
    c = base("error handling, untokenized default field, any fields, no keywords"); c.handle = c.any = true; c.keywords = false; c.def = {"h"}; c.wild_lower = false; v.push_back(c);
    c = base("cleaning"); c.clean = true; v.push_back(c);
    c = base("typed ranges"); c.typed = true; v.push_back(c);
    return v;
}
static const char *LEX[] = {"a", "B", " ", "AND ", "OR ", "+", "-", "(", ")", "g", ":", "\"", "<", ">", "|", "~", "^", "2", "[", "}", "*", "\\", "=", "!", "]", "NOT ", "&&", "?"};
static void sequences(Path &p, int n, int depth, int confno) {
    std::vector<int> w; for (int i = 0; i < 2; i++) w.push_back(p.choose(n));
    if (!p.mine()) return;
    auto cs = confs(); Box B(cs[confno]); p.note("[%s, strings starting with |%s%s|] ", B.c.name.c_str(), LEX[w[0]], LEX[w[1]]);
    if (w[0] == 0 && w[1] == 0) one(p, B, ""); if (w[1] == 0) one(p, B, LEX[w[0]]);
    std::function<void(std::string, int)> rec = [&](std::string s, int d) { one(p, B, s); if (d == depth) return; for (int i = 0; i < n; i++) rec(s + LEX[i], d + 1); };
    rec(std::string(LEX[w[0]]) + LEX[w[1]], 2);
    p.state(fnv(fmt("%d %d %d", w[0], w[1], confno))); p.outcome(fnv(fmt("%llu %llu", (unsigned long long)B.n, (unsigned long long)B.bad))); p.eval((int)B.n);
}
static void strings(Path &p) { int c = p.choose(6); sequences(p, 28, opt.thorough ? 4 : (c < 2 ? 4 : 3), c); }
static void deep(Path &p) { int c = opt.thorough ? p.choose(2) : 0; sequences(p, opt.thorough ? 28 : 21, 5, c); }
static const char *ATOM[] = {"a", "b-c", "2", "A*", "a?B", "*", "a~", "a~0.2", "[a b]", "{a b}", "[b a]", "<=a", ">b", "[a>", "\"a b\"", "\"a <> b|c\"~3", "\"a|b\"", "\"\"", "()", "g:a", "h:A-2", "f|h:A*", "zz:a", "*:a", "(a b)", "(-a)", "g:(a +h:b)", "(2)", "\"2 3\"", "h|g:\"A|2\""};
static const int NATOM = sizeof ATOM / sizeof *ATOM;
static void clauses2(Path &p, int cn) {                                     // up to three clauses: modifiers, connectors, boosts
    int a = p.choose(NATOM), b = p.choose(NATOM); if (!p.mine()) return;
    auto cs = confs(); Box B(cs[cn]); p.note("[%s, clauses with %s and %s] ", B.c.name.c_str(), ATOM[a], ATOM[b]);
    static const char *MOD[] = {"", "+", "-", "NOT "}, *CON[] = {" ", " AND ", " OR ", " || "}, *BO[] = {"", "^2", "^0.5", "^x"};
    for (auto m1 : MOD) for (auto bo1 : BO) { if (!opt.thorough && *bo1 && bo1 != BO[1]) continue;
        std::string s1 = std::string(m1) + ATOM[a] + bo1; if (!b) one(p, B, s1);
        for (auto c1 : CON) for (auto m2 : MOD) for (auto bo2 : BO) { if (!opt.thorough && *bo2 && bo2 != BO[1] && b) continue;
            std::string s2 = s1 + c1 + m2 + ATOM[b] + bo2; one(p, B, s2); if (*bo2 == 0) one(p, B, "g:(" + s2 + ")^3");
            if (*bo1 || *bo2 || (!opt.thorough && (*m1 == 'N' || *m2 == 'N' || c1[1] == '|'))) continue;
            for (auto c2 : CON) for (auto m3 : MOD) for (int k : {0, 2, 14, 1, 23, 28}) { if (!opt.thorough && (*m3 == 'N' || c2[1] == '|' || k == 1 || k > 14)) continue; one(p, B, s2 + c2 + m3 + ATOM[k]); if (k == 0) one(p, B, std::string(m3) + "(" + s2 + ")" + c2 + "b"); }
        }
    }
    p.state(fnv(fmt("%d %d %d", a, b, cn))); p.eval((int)B.n);
}
static void clauses(Path &p) { clauses2(p, p.choose(opt.thorough ? 6 : 2)); }
static void phrases(Path &p) {
    static const char *IT[] = {"a", "B", "b-c", "2", "<>", "|d", "|3", "x\\ y", "|e-f"}; const int NI = sizeof IT / sizeof *IT;
    int cn = p.choose(6), w = p.choose(NI), w2 = p.choose(NI), D = opt.thorough ? 6 : 5; if (!p.mine()) return;
    auto cs = confs(); Box B(cs[cn]); p.note("[%s, phrases starting with %s %s] ", B.c.name.c_str(), IT[w], IT[w2]);
    std::function<void(std::string, int)> rec = [&](std::string s, int d) {
        for (auto f : {"", "h:", "h|g:", "g|h:"}) for (auto sl : {"", "~2", "~q"}) { if (d > 3 && (*f == 'h' || *sl)) continue; one(p, B, std::string(f) + "\"" + s + "\"" + sl); }
        if (d == D) return; for (int i = 0; i < NI; i++) rec(s + (IT[i][0] == '|' ? "" : " ") + IT[i], d + 1); };
    if (w2 == 0) one(p, B, std::string("\"") + IT[w] + "\"");
    rec(std::string(IT[w]) + (IT[w2][0] == '|' ? "" : " ") + IT[w2], 2);
    p.state(fnv(fmt("%d %d %d", cn, w, w2))); p.eval((int)B.n);
}
static void longs(Path &p) {                                                // words around the buffer size, alone, in pairs, in every construct
    int cn = p.choose(4), la = p.choose(12), kind = p.choose(5); if (!p.mine()) return;
    auto cs = confs(); Box B(cs[cn]); static const int L[] = {1, 126, 127, 253, 254, 255, 256, 257, 258, 400, 509, 600};
    auto word = [&](int n, int kind, char c) { std::string s; switch (kind) { case 0: s = std::string(n, c); break; case 1: while ((int)s.size() < n) s += n % 2 && s.empty() ? "q" : "::"; break; case 2: s = std::string(n - 1, c) + "*"; break; case 3: while ((int)s.size() < n - 1) s += (s.size() % 16 ? "x" : "::"); s += "y"; break; case 4: for (int i = 0; i < n; i++) s += std::string("\\") + "(+A"[i % 3]; break; } return s; };
    p.note("[%s, words of %d characters, kind %d] ", B.c.name.c_str(), L[la], kind);
    std::string a = word(L[la], kind, 'A');
    for (auto &s : std::vector<std::string>{a, "h:" + a, "x " + a, a + " x", "(" + a + ")", a + "~", a + "~0.3", "[" + a + ">", "<" + a, "\"" + a + "\"", "*:" + a, "(" + a}) one(p, B, s);
    for (int lb : L) for (int kb = 0; kb < 5; kb++) { std::string b = word(lb, kb, 'B'); for (auto &s : std::vector<std::string>{a + " " + b, "[" + a + " " + b + "]", "h:[" + a + " " + b + "}", "<" + a + " " + b, "\"" + a + " " + b + "\"", "f|h:(" + a + " " + b + ")", a + " " + b + " " + a, a + "|" + b + ":x", a + "^" + b, a + "~" + b}) one(p, B, s); }
    p.state(fnv(fmt("%d %d %d", cn, la, kind))); p.eval((int)B.n);
}
static void bytes(Path &p) {                                                // all strings of one and two bytes, bare and embedded
    int cn = p.choose(6), a = 1 + p.choose(255); if (!p.mine()) return; auto cs = confs(); Box B(cs[cn]); p.note("[%s, strings starting with byte %d] ", B.c.name.c_str(), a);
    for (int b = 0; b < 256; b++) { std::string s(1, (char)a); if (b) s += (char)b; one(p, B, s); one(p, B, "\"x " + s + "\""); one(p, B, "x" + s + "* z"); one(p, B, "[" + s + ">"); }
    p.state(fnv(fmt("%d %d", cn, a))); p.eval((int)B.n);
}
static void counts(Path &p) {                                               // many clauses, words, alternatives, gaps, fields, levels
    int cn = p.choose(6), n = 1 + p.choose(opt.thorough ? 140 : 70); if (!p.mine()) return; auto cs = confs(); Box B(cs[cn]); p.note("[%s, %d items] ", B.c.name.c_str(), n);
    auto rep = [&](const std::function<std::string(int)> &f, const std::string &sep) { std::string s; for (int i = 0; i < n; i++) s += (i ? sep : "") + f(i); return s; };
    auto w = [](int i) { return fmt("w%d", i); };
    for (auto sep : {" ", " AND ", " OR ", " +", " -"}) for (auto at : {"", "h:", "g:"}) { std::string s = rep([&](int i) { return at + w(i); }, sep); one(p, B, s); one(p, B, "(" + s + ")^2 x"); if (!*at) one(p, B, "g:(" + s + ")"); }
    one(p, B, rep([&](int i) { return std::string(ATOM[i % NATOM]); }, " ")); one(p, B, rep([&](int i) { return std::string(i % 3 ? "+" : "-") + ATOM[(i * 7) % NATOM] + (i % 2 ? "^2" : ""); }, " "));
    for (auto sl : {"", "~3"}) { one(p, B, "\"" + rep(w, " ") + "\"" + sl); one(p, B, "\"" + rep(w, "|") + "\"" + sl); one(p, B, "\"a " + rep(w, "|") + " b\"" + sl); one(p, B, "\"" + rep([&](int i) { return w(i) + "|" + w(i + 1); }, " ") + "\"" + sl); one(p, B, "\"a " + rep([](int) { return std::string("<>"); }, " ") + " b\"" + sl); one(p, B, "\"" + rep(w, " <> ") + "\"" + sl); }
    std::string o, c; for (int i = 0; i < n; i++) { o += i % 3 == 1 ? "g:(" : i % 3 ? "+(" : "("; c += i % 2 ? " y)" : ")"; } one(p, B, o + "x" + c); one(p, B, o + "x z" + c); one(p, B, o + "x" + c + ")"); one(p, B, "(" + o + "x" + c);
    p.state(fnv(fmt("%d %d", cn, n))); p.eval((int)B.n);
}
static void boosts(Path &p) {
    static const char *BV[] = {"1", "2", "0.5", "1.23", "100.23", "0.1", "0.25", "3.141593", "1000000", "999999", "12345.6", "0.001", "0.00001", "1e-10", "1e10", "1e30", "0", "33.3333"};
    int a = p.choose(18), b = p.choose(NATOM); if (!p.mine()) return; auto cs = confs(); Box B(cs[0]); p.note("[%s^%s] ", ATOM[b], BV[a]);
    one(p, B, std::string(ATOM[b]) + "^" + BV[a]); one(p, B, std::string("x ") + ATOM[b] + "^" + BV[a] + " +(y " + ATOM[b] + "^" + BV[a] + ")^" + BV[a]); one(p, B, std::string("a~") + BV[a] + " " + ATOM[b]);
    one(p, B, std::string("*:(") + ATOM[b] + " " + ATOM[b] + ")^" + BV[a]);
    p.state(a * 100 + b); p.eval(4);
}
static void fuzzy_reread(Path &p) {
    static const char *F[] = {"a~ OR b", "a~ OR b~", "a~ OR g:b", "c a~ OR b", "a~ OR b d", "(a~ OR b) c", "+a~ OR b", "g:(a~ OR b)"}; int a = p.choose(8); if (!p.mine()) return; only_swallowed = true;
    Box B(confs()[0]); p.note("[%s] ", F[a]); p.state(a); p.eval(); one(p, B, F[a]);
}
static void clean_backslash(Path &p) {
    static const char *F[] = {"\"a\\\\\"", "\"a\\\\ b\"", "\"\\\\\""}; int a = p.choose(3); if (!p.mine()) return; only_swallowed = true;
    Box B(confs()[4]); p.note("[%s] ", F[a]); p.state(a); p.eval(); one(p, B, F[a]);
}
static void fieldlists(Path &p) {
    static const char *FS[] = {"f", "g", "h", "zz", "*", "f|g", "h|f", "f|h", "f|f", "g|zz|h", "zz|yy", "f|g|h"}; int cn = p.choose(6), a = p.choose(12), b = p.choose(13); if (!p.mine()) return;
    auto cs = confs(); Box B(cs[cn]); p.note("[%s, fields %s] ", B.c.name.c_str(), FS[a]);
    for (auto at : ATOM) { std::string s = std::string(FS[a]) + ":"; if (b) s += b % 2 ? std::string("(") + FS[b - 1] + ":" + at + " " + at + ")" : std::string(FS[b - 1]) + ":" + at; else s += at; one(p, B, s); one(p, B, s + " x"); one(p, B, s + ")"); one(p, B, "(" + s); one(p, B, "x " + s + " ^3"); }
    p.state(fnv(fmt("%d %d %d", cn, a, b))); p.eval((int)B.n);
}
int main(int argc, char **argv) {
    setlocale(LC_ALL, "C.UTF-8");
    Meta m;
    m.rule = "state = (configuration, prefix); transition = one string parsed twice; the query is compared node by node with the one of an independent reference parser, malformed strings must give parse errors (or the fallback query), the parser must stay usable, and the printed query must read back as an equal one";
    return run(argc, argv, m, {
        {"strings", "all sequences of up to 4 (3 for four of the six configurations; thorough: 4 for all) of 28 lexemes", strings, 120},
        {"deep", "all sequences of up to 5 of 21 lexemes, strict (thorough: of 28, strict and tolerant)", deep, 300},
        {"clauses", "one, two and three clauses of 30 kinds x modifiers x connectors x boosts x grouping x 2 configurations (thorough: 6)", clauses, 120},
        {"phrases", "all phrases of up to 5 (thorough: 6) items of 9 kinds x field lists x slop x 6 configurations", phrases, 120},
        {"fieldlists", "12 field lists, nested, x 30 clauses x 6 configurations, complete and broken off", fieldlists, 60},
        {"longs", "words of 1..600 characters of 5 kinds, alone and in all pairs, in every construct, 4 configurations", longs, 60},
        {"bytes", "all strings of 1 and 2 bytes, bare, in a phrase, in a pattern and in a range, 6 configurations", bytes, 60},
        {"fuzzy_reread", "8 queries in which a fuzzy clause of default similarity is followed by a word, printed and read back", fuzzy_reread, 60},
        {"clean_backslash", "3 phrases with an escaped backslash, cleaned", clean_backslash, 60},
        {"counts", "1..70 (thorough 140) clauses, phrase words, alternatives, gaps and nesting levels x connectors x 6 configurations", counts, 60},
        {"boosts", "18 boost values x 30 clauses", boosts, 60},
    });
}
