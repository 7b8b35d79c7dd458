#include "mc.hpp"
namespace mc {
Options opt;
Shared *sh;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double t_start, deadline;

static bool advance(Slot *s, bool *fresh) {
    // next choice vector in DFS order
    int i = s->n - 1;
    while (i >= 0 && s->choice[i] + 1 >= s->fan[i]) i--;
    if (i < 0) return false;
    s->choice[i]++;
    s->n = i + 1;
    *fresh = i < s->mine_depth || s->mine_depth == 0;
    return true;
}

static void begin_case(Slot *s) {
    s->drawn = 0; s->note_len = 0; s->note[0] = 0; s->msg[0] = 0; s->failed = 0;
}

static void worker_main(const Scenario &sc, int w, int nw, bool resume) {
    Slot *s = &sh->slot[w];
    u64 ordinal = resume ? s->ordinal + 1 : 0;
    bool fresh = true;
    if (!resume) { s->n = 0; s->mine_depth = 0; s->mine_yes = 0; s->incomplete = 0; }
    else {
        if (!advance(s, &fresh)) _exit(0);
        if (fresh) ordinal = s->ordinal + 1; else ordinal = s->ordinal + 1;
    }
    u64 cnt = 0;
    for (;;) {
        begin_case(s);
        s->active = 1;
        if (!fresh) { /* same plan, post-plan choices differ */ }
        else s->mine_depth = 0;
        alarm(sc.case_timeout);
        Path p(s, w, nw, ordinal);
        p.fresh_plan = fresh;
        sc.body(p);
        s->active = 0;
        if (s->drawn < s->n) s->n = s->drawn;   // body stopped early
        if (s->mine_yes && sh->nsamples < 6 && s->note_len && (cnt % 997) == 0) {
            int k = sh->nsamples++;
            if (k < 6) { strncpy(sh->samples[k], s->note, 1000); }
        }
        cnt++;
        if (!advance(s, &fresh)) break;
        if ((cnt & 15) == 0 && now() > deadline) { s->incomplete = 1; break; }
    }
    alarm(0);
    fflush(NULL);
    _exit(0);
}

static std::string slurp(const std::string &f, size_t max = 6000) {
    FILE *fp = fopen(f.c_str(), "r");
    if (!fp) return "";
    std::string r; char buf[4096]; size_t n;
    while ((n = fread(buf, 1, sizeof buf, fp)) > 0) { r.append(buf, n); if (r.size() > 200000) break; }
    fclose(fp);
    if (r.size() > max) {
        size_t k = r.find("ERROR: AddressSanitizer");
        if (k != std::string::npos) return r.substr(k, max);
        r = r.substr(0, max);
    }
    return r;
}

static std::string crash_sig(int status, const std::string &err) {
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) return "hang: case did not terminate";
    size_t k = err.find("SUMMARY: AddressSanitizer: ");
    if (k != std::string::npos) {
        std::string l = err.substr(k + 9, err.find('\n', k) - k - 9);
        return "sanitizer: " + l;
    }
    k = err.find("runtime error:");
    if (k != std::string::npos) return "sanitizer: " + err.substr(k, err.find('\n', k) - k);
    k = err.find("Assertion `");
    if (k != std::string::npos) return "assertion: " + err.substr(k, err.find('\n', k) - k);
    if (WIFSIGNALED(status)) return fmt("crash: signal %d", WTERMSIG(status));
    k = err.find("ERROR: AddressSanitizer: ");
    if (k != std::string::npos) return "sanitizer: " + err.substr(k, err.find('\n', k) - k);
    return fmt("unexpected exit %d: %s", WEXITSTATUS(status), err.substr(0, 300).c_str());
}

static void redirect_err(const std::string &f) {
    int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}

static std::string errfile(int w) { return opt.scratch + fmt("/stderr.%d", w); }

// replay a choice vector in a fresh process; returns signature, "" if passes
static std::string replay_case(const Scenario &sc, const std::vector<int> &ch, std::string *note, int timeout) {
    Slot *s = &sh->slot[63];
    memset(s, 0, sizeof *s);
    s->n = (int)ch.size();
    for (int i = 0; i < s->n; i++) s->choice[i] = (unsigned short)ch[i];
    pid_t pid = fork();
    if (pid == 0) {
        if (!opt.verbose) redirect_err(errfile(63));
        u64 ord = 0;
        begin_case(s);
        alarm(timeout);
        Path p(s, 63, 64, ord);
        p.replaying = true;
        sc.body(p);
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (note) *note = s->note;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99 && s->failed) return s->msg;
    return crash_sig(st, slurp(errfile(63)));
}

struct Known { std::string scenario, pattern, what; u64 hits = 0; };
static std::vector<Known> known;

static void load_known() {
    // lines: "known: property=<id> scenario=<name> match=<substring> :: <what fails>"
    FILE *f = fopen(opt.known.c_str(), "r");
    if (!f) return;
    char line[8192];
    while (fgets(line, sizeof line, f)) {
        std::string l = line;
        while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
        if (l.compare(0, 7, "known: ")) continue;
        size_t a = l.find("property="), b = l.find(" scenario="), c = l.find(" match="), d = l.find(" :: ");
        if (a == l.npos || b == l.npos || c == l.npos || d == l.npos) continue;
        if (l.substr(a + 9, b - a - 9) != opt.prop) continue;
        Known k;
        k.scenario = l.substr(b + 10, c - b - 10);
        k.pattern = l.substr(c + 7, d - c - 7);
        k.what = l.substr(d + 4);
        known.push_back(k);
    }
    fclose(f);
}

// a known finding matches only if the pattern occurs in "<signature>\n<case description>"
static Known *match_known(const std::string &scn, const std::string &sig, const std::string &note) {
    for (auto &k : known) {
        if (k.scenario != scn) continue;
        size_t amp = k.pattern.find(" && ");
        std::string p1 = amp == std::string::npos ? k.pattern : k.pattern.substr(0, amp);
        std::string p2 = amp == std::string::npos ? "" : k.pattern.substr(amp + 4);
        if (sig.find(p1) != std::string::npos && (p2.empty() || note.find(p2) != std::string::npos)) return &k;
    }
    return nullptr;
}

struct Result { std::string name, bounds; u64 plans, cases, steps, states, outcomes, evals; bool complete; double wall; };

static std::string write_replay(const Scenario &sc, const std::vector<int> &ch, const std::string &sig, const std::string &note) {
    mkdir(opt.replay_dir.c_str(), 0777);
    std::string fn = opt.replay_dir + "/" + opt.prop + "-" + sc.name + ".replay";
    FILE *f = fopen(fn.c_str(), "w");
    if (f) {
        fprintf(f, "property %s\nscenario %s\nchoices", opt.prop.c_str(), sc.name.c_str());
        for (int c : ch) fprintf(f, " %d", c);
        fprintf(f, "\nsignature %s\n--- case ---\n%s\n--- stderr ---\n%s\n--- re-run with: python3 run.py %s --replay %s\n",
                sig.c_str(), note.c_str(), slurp(errfile(63)).c_str(), opt.prop.c_str(), fn.c_str());
        fclose(f);
    }
    return fn;
}

static int do_replay(std::vector<Scenario> &scs) {
    FILE *f = fopen(opt.replay.c_str(), "r");
    if (!f) { perror("replay"); return 2; }
    static char line[1 << 20];
    std::string name; std::vector<int> ch;
    while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "scenario ", 9)) { name = line + 9; while (name.size() && isspace(name.back())) name.pop_back(); }
        if (!strncmp(line, "choices", 7)) { char *p = line + 7, *e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; ch.push_back((int)v); p = e; } break; }
    }
    fclose(f);
    for (auto &sc : scs) if (sc.name == name) {
        std::string note, sig;
        opt.verbose = 1;
        sig = replay_case(sc, ch, &note, 120);
        printf("case: %s\n", note.c_str());
        if (sig.empty()) { printf("replay: property held\n"); return 0; }
        printf("replay: %s\nVIOLATION property=%s replay=%s\n", sig.c_str(), opt.prop.c_str(), opt.replay.c_str());
        return 1;
    }
    fprintf(stderr, "no scenario %s\n", name.c_str());
    return 2;
}

int run(int argc, char **argv, const Meta &meta, std::vector<Scenario> scenarios) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") opt.tier = val();
        else if (a == "--evidence") opt.evidence = val();
        else if (a == "--replay-dir") opt.replay_dir = val();
        else if (a == "--known") opt.known = val();
        else if (a == "--scratch") opt.scratch = val();
        else if (a == "--property") opt.prop = val();
        else if (a == "--workers") opt.workers = atoi(val().c_str());
        else if (a == "--budget") opt.budget = atof(val().c_str());
        else if (a == "--replay") opt.replay = val();
        else if (a == "--only") opt.only = val();
        else if (a == "--seed") opt.seed = atol(val().c_str());
        else if (a == "-v") opt.verbose = 1;
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
    }
    opt.thorough = opt.tier == "thorough";
    if (opt.workers > 62) opt.workers = 62;
    sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    load_known();
    if (!opt.replay.empty()) return do_replay(scenarios);
    t_start = now();
    deadline = t_start + opt.budget;
    std::vector<Result> results;
    bool violated = false; std::string vio_msg, vio_file; u64 vio_n = 0;
    u64 p0 = 0, c0 = 0, s0 = 0, n0 = 0, o0 = 0, e0 = 0;
    bool all_complete = true;
    for (auto &sc : scenarios) {
        if (!opt.only.empty() && sc.name != opt.only) continue;
        if (sc.thorough_only && !opt.thorough) continue;
        double ts = now();
        int W = opt.workers, live = 0;
        std::vector<pid_t> pids(W, 0);
        std::vector<int> respawns(W, 0);
        auto spawn = [&](int w, bool resume) {
            fflush(NULL);
            pid_t pid = fork();
            if (pid == 0) {
                redirect_err(errfile(w));
                worker_main(sc, w, W, resume);
            }
            pids[w] = pid;
        };
        for (int w = 0; w < W; w++) { memset((void *)&sh->slot[w], 0, sizeof(Slot)); spawn(w, false); live++; }
        bool complete = true;
        while (live > 0) {
            int st; pid_t pid = wait(&st);
            if (pid < 0) { if (errno == EINTR) continue; break; }
            int w = (int)(std::find(pids.begin(), pids.end(), pid) - pids.begin());
            if (w >= W) continue;
            Slot *s = &sh->slot[w];
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { live--; if (s->incomplete) complete = false; continue; }
            std::string sig, note = s->note;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 99 && s->failed) sig = s->msg;
            else sig = crash_sig(st, slurp(errfile(w)));
            std::vector<int> ch(s->choice, s->choice + std::max(s->drawn < s->n ? s->drawn : s->n, 0));
            if (!s->active) { fprintf(stderr, "worker died outside a case: %s\n", sig.c_str()); return 2; }
            if (!sig.compare(0, 9, "internal:")) { fprintf(stderr, "%s\ncase: %s\n", sig.c_str(), note.c_str()); for (pid_t q : pids) if (q) kill(q, SIGKILL); return 2; }
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker killed (out of memory?) in case: %s\n", note.c_str()); for (pid_t q : pids) if (q) kill(q, SIGKILL); return 2; }
            std::string note2, sig2 = replay_case(sc, ch, &note2, sc.case_timeout * 4);
            bool hang = !sig.compare(0, 5, "hang:");
            bool real = true;
            if (sig2.empty() && hang) real = false;          // machine was merely slow
            if (!sig2.empty()) { sig = sig2; note = note2; }
            else if (real) sig += " [only after the preceding cases of this worker]";
            if (real) {
                Known *k = match_known(sc.name, sig, note);
                if (k) { k->hits++; real = false; }
            }
            if (!real) {
                s->n = (int)ch.size();
                if (++respawns[w] > 200000) { live--; complete = false; continue; }
                spawn(w, true);
                continue;
            }
            violated = true; vio_n++;
            vio_msg = sig;
            for (int x = 0; x < W; x++) if (x != w && pids[x]) kill(pids[x], SIGKILL);
            while (wait(&st) > 0 || errno == EINTR) { }
            vio_file = write_replay(sc, ch, sig, note);
            printf("scenario %s\ncase: %s\nwhat: %s\n", sc.name.c_str(), note.c_str(), sig.c_str());
            complete = false;
            break;
        }
        Result r; r.name = sc.name; r.bounds = sc.bounds;
        r.plans = sh->plans - p0; p0 = sh->plans; r.cases = sh->cases - c0; c0 = sh->cases;
        r.steps = sh->steps - s0; s0 = sh->steps; r.states = sh->nstates - n0; n0 = sh->nstates;
        r.outcomes = sh->noutcomes - o0; o0 = sh->noutcomes; r.evals = sh->evals - e0; e0 = sh->evals;
        r.complete = complete; r.wall = now() - ts;
        results.push_back(r);
        printf("%s %s: plans=%llu executions=%llu transitions=%llu states=%llu outcomes=%llu evals=%llu %s %.1fs\n", opt.prop.c_str(), sc.name.c_str(),
               (unsigned long long)r.plans, (unsigned long long)r.cases, (unsigned long long)r.steps, (unsigned long long)r.states,
               (unsigned long long)r.outcomes, (unsigned long long)r.evals, complete ? "complete" : "INCOMPLETE", r.wall);
        fflush(stdout);
        if (!complete) all_complete = false;
        if (violated) break;
        // the per-scenario tables are independent
        memset((void *)sh->table, 0, sizeof sh->table);
        memset((void *)sh->otable, 0, sizeof sh->otable);
    }
    for (auto &k : known) if (k.hits) printf("KNOWN-FINDING: property=%s %s\n", opt.prop.c_str(), k.what.c_str());
    double wall = now() - t_start;
    if (!opt.evidence.empty()) {
        FILE *f = fopen(opt.evidence.c_str(), "w");
        if (!f) { perror("evidence"); return 2; }
        u64 pl = sh->plans, ca = sh->cases, stp = sh->steps, sts = sh->nstates, oc = sh->noutcomes, ev = sh->evals;
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %ld,\n \"level\": \"%s\",\n \"coverage\": {\n", opt.prop.c_str(), opt.tier.c_str(), opt.seed, meta.level.c_str());
        if (meta.level == "model_checking") {
            fprintf(f, "  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n", (unsigned long long)sts, (unsigned long long)stp, (unsigned long long)ca);
            if (ev) fprintf(f, "  \"evaluations\": %llu,\n", (unsigned long long)ev);
            if (oc) fprintf(f, "  \"distinct_outcomes\": %llu,\n", (unsigned long long)oc);
        } else {
            fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)(ev ? ev : ca), (unsigned long long)(oc ? oc : sts));
            if (stp) fprintf(f, "  \"transitions\": %llu,\n", (unsigned long long)stp);
            if (sts && oc) fprintf(f, "  \"states\": %llu,\n", (unsigned long long)sts);
        }
        if (pl != ca) fprintf(f, "  \"plans\": %llu,\n", (unsigned long long)pl);
        fprintf(f, "  \"exhaustive\": %s,\n", all_complete ? "true" : "false");
        fprintf(f, "  \"rule\": \"%s\",\n  \"samples\": [", esc(meta.rule).c_str());
        int ns = std::min((int)sh->nsamples, 6);
        for (int i = 0; i < ns; i++) { std::string t = sh->samples[i]; if (t.size() > 400) t = t.substr(0, 400); fprintf(f, "%s\n   \"%s\"", i ? "," : "", esc(t).c_str()); }
        fprintf(f, "],\n  \"scenarios\": [");
        for (size_t i = 0; i < results.size(); i++) {
            auto &r = results[i];
            fprintf(f, "%s\n   {\"name\": \"%s\", \"bounds\": \"%s\", \"plans\": %llu, \"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"distinct_outcomes\": %llu, \"evaluations\": %llu, \"exhaustive\": %s, \"wall_s\": %.2f}", i ? "," : "",
                    esc(r.name).c_str(), esc(r.bounds).c_str(), (unsigned long long)r.plans, (unsigned long long)r.cases, (unsigned long long)r.steps, (unsigned long long)r.states, (unsigned long long)r.outcomes, (unsigned long long)r.evals, r.complete ? "true" : "false", r.wall);
        }
        fprintf(f, "]\n },\n \"assumptions\": [");
        for (size_t i = 0; i < meta.assumptions.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(meta.assumptions[i]).c_str());
        fprintf(f, "],\n \"violations\": %llu,\n \"wall_s\": %.2f\n}\n", (unsigned long long)vio_n, wall);
        fclose(f);
    }
    if (violated) {
        printf("VIOLATION property=%s replay=%s\n", opt.prop.c_str(), vio_file.c_str());
        return 1;
    }
    return 0;
}
} // namespace mc
