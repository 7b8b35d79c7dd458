#!/usr/bin/env python3
"""Check driver:  run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--only SCENARIO] [--budget S]

Builds ferret out of tree from /repo's current working tree, builds the
property's harness against it and runs the exhaustive exploration.
Exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed.
"""
import argparse, hashlib, os, shutil, subprocess, sys, tempfile, glob, time, json
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FERRET_REPO", "/repo")
BUILD = os.path.join(V, ".build")

ASAN = "-O1 -fno-omit-frame-pointer -fsanitize=address"
VARIANTS = {
    "asan":  dict(cc="gcc", cxx="g++", cfl=ASAN, lfl="-fsanitize=address", link="-fsanitize=address"),
    "plain": dict(cc="gcc", cxx="g++", cfl="-O1", lfl="", link=""),
    # every load/store of ferret calls into our own scheduler (no tsan runtime is linked)
    "sched": dict(cc="clang", cxx="g++", cfl="-O1 -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0", lfl="", link=""),
}
# property -> (harness sources, variant)
CHECKS = json.load(open(os.path.join(V, "harness", "checks.json")))

def sh(cmd, **kw):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        print(r.stdout[-6000:]); print("build step failed: " + cmd)
        sys.exit(2)
    return r.stdout

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def tree(d, exts):
    out = []
    for root, _, fs in os.walk(d):
        out += [os.path.join(root, f) for f in fs if f.endswith(exts)]
    return out

def build_lib(variant):
    v = VARIANTS[variant]
    files = tree(REPO + "/c/src", (".c", ".h")) + tree(REPO + "/c/include", (".h",)) + tree(REPO + "/c/lib", (".c", ".h"))
    key = digest(files, json.dumps(v) + open(V + "/lib/ferret.mk").read())
    out = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    lib = out + "/libferret.a"
    if not os.path.exists(lib):
        tmp = out + ".%d.tmp" % os.getpid()
        sh("make -s -j8 -f %s/lib/ferret.mk REPO=%s OUT=%s CC=%s CFL='%s' LFL='%s'" % (V, REPO, tmp, v["cc"], v["cfl"], v["lfl"]))
        for o in glob.glob(tmp + "/**/*.o", recursive=True): os.remove(o)
        if os.path.exists(out): shutil.rmtree(tmp)
        else: os.rename(tmp, out)
        olds = sorted(glob.glob(os.path.join(BUILD, "lib-%s-*" % variant)), key=os.path.getmtime)
        for o in olds[:-4]: shutil.rmtree(o, ignore_errors=True)
    os.utime(out)
    return lib, key

def build(prop):
    c = CHECKS[prop]
    variant = c.get("variant", "asan")
    v = VARIANTS[variant]
    lib, key = build_lib(variant)
    srcs = [os.path.join(V, "harness", s) for s in c["src"]] + [V + "/lib/mc.cpp"]
    deps = srcs + glob.glob(V + "/lib/*.hpp") + glob.glob(V + "/harness/*.hpp")
    exe = os.path.join(BUILD, "bin-%s-%s" % (prop, digest(deps, key + json.dumps(v) + json.dumps(c))))
    if not os.path.exists(exe):
        objs, procs = [], []
        hfl = c.get("hflags", ASAN if variant == "asan" else "-O1")
        for i, s in enumerate(srcs):
            o = "%s.%d.%d.o" % (exe, os.getpid(), i); objs.append(o)
            comp = v["cxx"] + " -std=c++17" if s.endswith("pp") else "gcc -std=gnu11"
            procs.append((o, subprocess.Popen("%s -w -g1 %s -I%s/lib -I%s/harness -I%s/c/include -I%s/c/lib/libstemmer_c/include -D_FILE_OFFSET_BITS=64 -DDEBUG -c %s -o %s"
                % (comp, hfl, V, V, REPO, REPO, s, o), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bad = False
        for o, p in procs:
            out, _ = p.communicate()
            if p.returncode: print(out[-6000:]); bad = True
        if bad: sys.exit(2)
        sh("%s %s -o %s.tmp %s %s -lm -lpthread -lz %s" % (v["cxx"], v["link"], exe, " ".join(objs), lib, c.get("ldflags", "")))
        for o in objs: os.remove(o)
        os.rename(exe + ".tmp", exe)
        olds = sorted(glob.glob(os.path.join(BUILD, "bin-%s-*" % prop)), key=os.path.getmtime)
        for o in olds[:-3]: os.remove(o)
    return exe

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--budget"); ap.add_argument("--workers", default=str(os.cpu_count() or 8))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    c = CHECKS[a.prop]
    t0 = time.time()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="frt-mc-%s-" % a.prop, dir=base)
    try:
        if c.get("driver") == "ruby":
            sys.path.insert(0, V + "/harness")
            import ruby_driver
            return ruby_driver.run(a, c, V, REPO, scratch)
        exe = build(a.prop)
        print("build: %.1fs" % (time.time() - t0), flush=True)
        budget = a.budget or ("420" if a.tier == "quick" else "3600")
        cmd = [exe, "--property", a.prop, "--tier", a.tier, "--known", V + "/known_findings.txt", "--scratch", scratch,
               "--replay-dir", V + "/evidence/replays", "--budget", budget, "--workers", a.workers, "--seed", os.environ.get("VERIF_SEED", "1")]
        if not a.no_evidence and not a.only and not a.replay: cmd += ["--evidence", "%s/evidence/%s.json" % (V, a.prop)]
        if a.replay: cmd += ["--replay", a.replay]
        if a.only: cmd += ["--only", a.only]
        env = dict(os.environ, LC_ALL="C.UTF-8",
                   ASAN_OPTIONS="detect_leaks=0:exitcode=77:quarantine_size_mb=8:malloc_context_size=6:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0")
        env.update(c.get("env", {}))
        r = subprocess.run(cmd, env=env)
        return r.returncode if r.returncode in (0, 1) else 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
