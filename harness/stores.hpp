// Stores and raw files for harnesses.
#ifndef STORES_HPP
#define STORES_HPP
#include "ferret.hpp"
static const char *KIND[] = {"ram", "fs"};
struct StoreBox {                 // a fresh RAM or file-system store
    FrtStore *s; ScratchDir *dir = nullptr;
    explicit StoreBox(int kind) {
        if (kind == 0) s = frt_open_ram_store();
        else { dir = new ScratchDir("st"); s = frt_open_fs_store(dir->path.c_str()); }
    }
    ~StoreBox() { if (s) frt_store_deref(s); delete dir; }
    FrtStore *operator->() { return s; }
};
static inline std::string slurp_file(FrtStore *s, const std::string &name) {
    FrtInStream *is = s->open_input(s, name.c_str());
    int n = (int)is_length(is);
    std::string r(n, 0);
    if (n) frt_is_read_bytes(is, (frt_uchar *)&r[0], n);
    frt_is_close(is);
    return r;
}
static inline void write_file(FrtStore *s, const std::string &name, const std::string &data) {
    FrtOutStream *os = s->new_output(s, name.c_str());
    if (data.size()) frt_os_write_bytes(os, (const frt_uchar *)data.data(), (int)data.size());
    frt_os_close(os);
}
static inline std::map<std::string, std::string> snapshot(FrtStore *s) {
    std::vector<std::string> names;
    s->each(s, [](const char *f, void *a) { ((std::vector<std::string> *)a)->push_back(f); }, &names);
    std::map<std::string, std::string> r;
    for (auto &n : names) r[n] = slurp_file(s, n);
    return r;
}
#endif
