// C02: a store is a map from names to bytes.
#include "stores.hpp"
using namespace mc;
typedef std::map<std::string, std::string> Map;
static const char *NAMES[] = {"_0.fdt", "segments_1", "_1.cfs"};
static const char *LOCKFILE = "ferret-write.lck";

static std::string body(int n, int salt) { std::string s; for (int i = 0; i < n; i++) s += (char)('a' + (i * 5 + salt) % 26); return s; }

static void check_all(Path &p, FrtStore *s, const Map &m, bool with_lock, const char *after) {
    p.eval();
    std::vector<std::string> names;
    s->each(s, [](const char *f, void *a) { ((std::vector<std::string> *)a)->push_back(f); }, &names);
    std::sort(names.begin(), names.end());
    std::vector<std::string> want;
    for (auto &kv : m) want.push_back(kv.first);
    auto join = [](const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += x + " "; return r; };
    MC_CHECK(p, names == want, "after %s: each() lists [%s], expected [%s]", after, join(names).c_str(), join(want).c_str());
    int c = s->count(s);
    MC_CHECK(p, c == (int)m.size() + (with_lock ? 1 : 0), "after %s: count() = %d, expected %zu", after, c, m.size() + with_lock);
    for (const char *n : NAMES) {
        auto it = m.find(n);
        MC_CHECK(p, !!s->exists(s, n) == (it != m.end()), "after %s: exists(%s) = %d", after, n, s->exists(s, n));
        if (it == m.end()) {
            std::string x = guarded([&] { FrtInStream *is = s->open_input(s, n); frt_is_close(is); });
            MC_CHECK(p, err_code(x) == FRT_FILE_NOT_FOUND_ERROR, "after %s: opening missing %s: %s", after, n, x.empty() ? "no error" : x.c_str());
        } else {
            MC_CHECK(p, s->length(s, n) == (off_t)it->second.size(), "after %s: length(%s) = %ld, expected %zu", after, n, (long)s->length(s, n), it->second.size());
            std::string g = slurp_file(s, n);
            MC_CHECK(p, g == it->second, "after %s: %s holds %zu bytes \"%.40s\", expected %zu bytes \"%.40s\"", after, n, g.size(), g.c_str(), it->second.size(), it->second.c_str());
        }
    }
    char *str = frt_store_to_s(s); std::string got = str; free(str);
    std::string exp; for (auto &w : want) exp += w + "\n";
    MC_CHECK(p, got == exp, "after %s: store_to_s = %s", after, got.c_str());
}

static void ops(Path &p) {
    static const int sizes[] = {0, 5, 1500};
    int kind = p.choose(2), n = opt.thorough ? 5 : 4;
    std::vector<int> op;
    const int NOP = 9 + 3 + 6 + 2 + 3 + 3;
    for (int i = 0; i < n; i++) op.push_back(p.choose(NOP));
    if (!p.mine()) return;
    p.note("%s store:", KIND[kind]);
    StoreBox st(kind);
    FrtStore *s = st.s;
    Map m; int salt = 0;
    FrtInStream *held = NULL; std::string held_body; FrtLock *lock = NULL; bool locked = false;
    std::string e = guarded([&] {
        for (int o : op) {
            salt++; p.step();
            std::string d;
            if (o < 9) { std::string n = NAMES[o / 3]; d = fmt("write(%s,%d)", n.c_str(), sizes[o % 3]); std::string b = body(sizes[o % 3], salt);
                // overwriting while an input of the old file is open is not covered
                if (held && m.count(n)) { frt_is_close(held); held = NULL; }
                p.note(" %s", d.c_str()); write_file(s, n, b); m[n] = b; }
            else if (o < 12) { std::string n = NAMES[o - 9]; d = fmt("remove(%s)", n.c_str()); p.note(" %s", d.c_str());
                char tmp[32]; strcpy(tmp, n.c_str()); int r = s->remove(s, tmp); memset(tmp, '#', 31);
                MC_CHECK(p, (r == 0) == (m.count(n) > 0), "%s returned %d", d.c_str(), r); m.erase(n); }
            else if (o < 18) { int k = o - 12, f = k / 2, t = (f + 1 + k % 2) % 3; std::string a = NAMES[f], b = NAMES[t]; d = fmt("rename(%s,%s)", a.c_str(), b.c_str()); p.note(" %s", d.c_str());
                std::string x = guarded([&] { std::string ca = a, cb = b; s->rename(s, ca.c_str(), cb.c_str()); });
                if (m.count(a)) { MC_CHECK(p, x.empty(), "%s: %s", d.c_str(), x.c_str()); m[b] = m[a]; m.erase(a); }
                else MC_CHECK(p, err_code(x) == FRT_IO_ERROR, "%s of a missing file: %s", d.c_str(), x.empty() ? "no error" : x.c_str()); }
            else if (o < 20) { std::string n = NAMES[o - 18]; d = fmt("touch(%s)", n.c_str()); p.note(" %s", d.c_str());
                { char *tmp = strdup(n.c_str()); s->touch(s, tmp); free(tmp); }
                if (!m.count(n)) m[n] = ""; }
            else if (o == 20) { d = "clear"; p.note(" clear"); s->clear(s); m.clear(); }
            else if (o == 21) { d = "clear_all"; p.note(" clear_all"); s->clear_all(s); m.clear(); if (locked) { locked = false; } }
            else if (o == 22) { d = "clear_locks"; p.note(" clear_locks"); s->clear_locks(s); locked = false; }
            else if (o == 23) { d = "lock"; p.note(" lock"); if (!lock) lock = frt_open_lock(s, "write"); if (!locked) { MC_CHECK(p, lock->obtain(lock), "free lock not obtained"); locked = true; } else { MC_CHECK(p, lock->is_locked(lock), "obtained lock is not locked"); } }
            else if (o == 24) { d = "open"; if (held) frt_is_close(held); held = NULL; if (m.count(NAMES[0])) { p.note(" open(%s)", NAMES[0]); held = s->open_input(s, NAMES[0]); held_body = m[NAMES[0]]; } }
            else { d = "reopen"; p.note(" reopen");
                if (held) { frt_is_close(held); held = NULL; }
                if (lock) { if (locked) lock->release(lock); locked = false; frt_close_lock(lock); lock = NULL; }
                if (kind == 1) { frt_store_deref(s); s = st.s = frt_open_fs_store(st.dir->path.c_str()); }
                else { FrtStore *c = frt_open_ram_store_and_copy(s, 1); s = st.s = c; } }
            check_all(p, s, m, locked, d.c_str());
            if (held) {
                p.eval(); frt_is_seek(held, 0);
                MC_CHECK(p, is_length(held) == (off_t)held_body.size(), "open input's length changed to %ld", (long)is_length(held));
                std::string g(held_body.size(), 0);
                if (g.size()) frt_is_read_bytes(held, (frt_uchar *)&g[0], (int)g.size());
                MC_CHECK(p, g == held_body, "open input of %s now delivers other bytes after %s", NAMES[0], d.c_str());
            }
            u64 h = kind * 2 + locked; for (auto &kv : m) h = fnv(kv.first, fnv((u64)kv.second.size(), h)); h = fnv((u64)(held ? held_body.size() + 1 : 0), h);
            p.state(h);
        }
        if (held) frt_is_close(held);
        // a RAM copy has the same content and is independent of its source
        FrtStore *c = frt_open_ram_store_and_copy(s, 0);
        check_all(p, c, m, false, "copying the store to RAM");
        write_file(c, "_1.cfs", "changed");
        check_all(p, s, m, locked, "writing to a RAM copy");
        frt_store_deref(c);
        if (lock) frt_close_lock(lock);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}

// -- two handles on one directory see the same files; the directory survives until the last is closed
static void handles(Path &p) {
    int n = opt.thorough ? 6 : 5;
    std::vector<int> op;
    for (int i = 0; i < n; i++) op.push_back(p.choose(8));
    if (!p.mine()) return;
    ScratchDir dir("h");
    FrtStore *s[2] = {NULL, NULL};
    Map m; int salt = 0;
    std::string e = guarded([&] {
        for (int o : op) {
            p.step(); salt++;
            int w = o & 1;
            switch (o / 2) {
                case 0: if (!s[w]) { p.note(" open%d", w); s[w] = frt_open_fs_store(dir.path.c_str()); } else { p.note(" close%d", w); frt_store_deref(s[w]); s[w] = NULL; } break;
                case 1: if (s[w]) { p.note(" write%d", w); std::string b = body(salt * 7, salt); write_file(s[w], NAMES[0], b); m[NAMES[0]] = b; } break;
                case 2: if (s[w]) { p.note(" remove%d", w); s[w]->remove(s[w], NAMES[0]); m.erase(NAMES[0]); } break;
                case 3: if (s[w]) { p.note(" touch%d", w); s[w]->touch(s[w], NAMES[1]); m.insert({NAMES[1], ""}); } break;
            }
            for (int i = 0; i < 2; i++) if (s[i]) check_all(p, s[i], m, false, fmt("step %d", salt).c_str());
            u64 h = (s[0] != NULL) * 2 + (s[1] != NULL); for (auto &kv : m) h = fnv(kv.first, fnv((u64)kv.second.size(), h)); p.state(h);
        }
        for (int i = 0; i < 2; i++) if (s[i]) frt_store_deref(s[i]);
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}

// -- many files: every number of them, with removals and renames
static void many(Path &p) {
    int kind = p.choose(2), n = 1 + p.choose(opt.thorough ? 300 : 130), step = 1 + p.choose(4), act = p.choose(3);
    if (!p.mine()) return;
    p.note("%s store, %d files, every %dth %s", KIND[kind], n, step, act == 0 ? "removed" : act == 1 ? "renamed" : "rewritten");
    StoreBox st(kind); FrtStore *s = st.s; Map m;
    std::string e = guarded([&] {
        for (int i = 0; i < n; i++) { std::string f = fmt("_%x.fdt", i), b = body(i * 37 % 2500, i); write_file(s, f, b); m[f] = b; p.step(); }
        check_all(p, s, m, false, "writing");
        for (int i = 0; i < n; i += step) { std::string f = fmt("_%x.fdt", i), t = fmt("_%x.prx", i), b = body(i * 53 % 1100, i + 1); p.step(); if (act == 0) { s->remove(s, f.c_str()); m.erase(f); } else if (act == 1) { s->rename(s, f.c_str(), t.c_str()); m[t] = m[f]; m.erase(f); } else { write_file(s, f, b); m[f] = b; } }
        auto full = [&](FrtStore *x, const char *what) { check_all(p, x, m, false, what); for (auto &kv : m) { MC_CHECK(p, x->exists(x, kv.first.c_str()) && x->length(x, kv.first.c_str()) == (off_t)kv.second.size() && slurp_file(x, kv.first) == kv.second, "after %s: %s differs", what, kv.first.c_str()); } };
        full(s, "the changes"); FrtStore *c = frt_open_ram_store_and_copy(s, 0); full(c, "copying the store to RAM"); frt_store_deref(c);
        s->clear(s); m.clear(); check_all(p, s, m, false, "clear"); p.state(fnv(fmt("%d %d %d %d", kind, n, step, act)));
    });
    MC_CHECK(p, e.empty(), "%s", e.c_str());
}
int main(int argc, char **argv) {
    Meta m;
    m.rule = "state = (store kind, names and lengths in the model map, lock, open input); transition = one store operation on the real store and the model; after each one the whole store is compared with the map";
    m.assumptions = {"file names are names of index files (clear() deliberately leaves foreign files of a directory alone)", "a file is not overwritten while an input stream of it is open (the index never does)"};
    return run(argc, argv, m, {
        {"ops", "all sequences of 4 (thorough 5) operations out of 26 (write x 3 sizes, remove, rename, touch, clear*, lock, open input, reopen) over 3 file names, 2 stores", ops},
        {"many", "1..130 (thorough 300) files of up to 2500 bytes x every 1st..4th removed, renamed or rewritten x 2 stores", many},
        {"handles", "all sequences of 5 (thorough 6) open/close/write/remove/touch operations through two handles of one directory", handles},
    });
}
