"""Builds the Ruby extension from /repo's working tree (outside of it) and runs a Ruby exploration in parallel workers."""
import glob, hashlib, json, os, shutil, subprocess, sys, time

def build_ext(V, REPO):
    files = []
    for d in ("c/src", "c/include", "c/lib", "ruby/ext", "ruby/lib"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(root, f) for f in fs if f.endswith((".c", ".h", ".rb", ".mak", ".y", ".rl"))]
    files.append(REPO + "/ruby/Rakefile")
    files = [f for f in files if os.path.isfile(f)]
    h = hashlib.sha256(b"ruby1")
    for f in sorted(files): h.update(f[len(REPO):].encode()); h.update(open(f, "rb").read())
    for f in ("ruby_compat.h", "ruby_compat.rb"): h.update(open(V + "/lib/" + f, "rb").read())
    out = os.path.join(V, ".build", "ruby-" + h.hexdigest()[:20])
    if not os.path.exists(out + "/ruby/ext/ferret_ext.so"):
        tmp = out + ".%d.tmp" % os.getpid()
        for d in ("c", "ruby"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(tmp, d), symlinks=True, ignore=shutil.ignore_patterns("*.o", "*.so", "mkmf.log", "Makefile.bak", "testdir", "temp"))
        for n in os.listdir(REPO):                       # the Rakefile reads a few files beside it
            if os.path.isfile(os.path.join(REPO, n)): shutil.copy(os.path.join(REPO, n), tmp)
        env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS", "RUBYOPT", "RUBYLIB")}
        env.update(LC_ALL="C.UTF-8", LANG="C.UTF-8", RUBYOPT="-r%s/lib/ruby_compat.rb" % V, MAKEFLAGS="-j8 cppflags=-include%s/lib/ruby_compat.h" % V)
        r = subprocess.run(["rake", "build"], cwd=tmp + "/ruby", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(tmp + "/ruby/ext/ferret_ext.so"):
            print(r.stdout[-4000:]); print("building the Ruby extension failed"); shutil.rmtree(tmp, ignore_errors=True); sys.exit(2)
        for o in glob.glob(tmp + "/**/*.o", recursive=True): os.remove(o)
        if os.path.exists(out): shutil.rmtree(tmp)
        else: os.rename(tmp, out)
        olds = sorted(glob.glob(os.path.join(V, ".build", "ruby-*")), key=os.path.getmtime)
        for o in olds[:-3]: shutil.rmtree(o, ignore_errors=True)
    os.utime(out)
    return out

def known(V, prop):
    r = []
    for l in open(V + "/known_findings.txt"):
        if l.startswith("KNOWN-FINDING: property=%s " % prop) or l.startswith("known: property=%s " % prop): r.append(l.strip())
    return r

def run(a, c, V, REPO, scratch):
    t0 = time.time()
    b = build_ext(V, REPO)
    print("build: %.1fs" % (time.time() - t0), flush=True)
    env = dict(os.environ, LC_ALL="C.UTF-8", LANG="C.UTF-8", TZ="UTC"); env.pop("RUBYOPT", None)
    env["GEM_HOME"] = scratch + "/nogems"
    base = ["ruby", "--disable-gems", "-W0", "-r", V + "/lib/ruby_compat.rb", "-I", b + "/ruby/lib", "-I", b + "/ruby/ext", "-I", V + "/lib", os.path.join(V, "harness", c["src"][0])]
    def ruby(args, **kw): return subprocess.Popen(base + [json.dumps(args)], env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    p = ruby({"list": True}); out, _ = p.communicate()
    if p.returncode:
        if "LoadError" in out or "undefined symbol" in out or p.returncode < 0: print(out[-3000:])
        print("the Ruby harness could not start"); return 2
    info = json.loads(out.splitlines()[-1])
    budget = float(a.budget or (420 if a.tier == "quick" else 3600)); N = int(a.workers)
    scs = [s for s in info["scenarios"] if not a.only or s["name"] == a.only]
    replay = None
    if a.replay:
        replay = json.load(open(a.replay)); scs = [s for s in info["scenarios"] if s["name"] == replay["scenario"]]; N = 1
    res = []; viol = None
    for s in scs:
        ts = time.time(); procs = []
        left = max(5, budget - (ts - t0))
        for k in range(N):
            d = "%s/%s-%d" % (scratch, s["name"], k); os.makedirs(d, exist_ok=True)
            args = {"scenario": s["name"], "shard": k, "shards": N, "tier": a.tier, "scratch": d, "case": d + "/case", "out": d + "/out", "budget": left, "replay": replay["choices"] if replay else None}
            log = open(d + "/log", "w")
            procs.append((k, d, subprocess.Popen(base + [json.dumps(args)], env=env, cwd=d, stdout=log, stderr=subprocess.STDOUT)))
        parts = []; live = list(procs)
        while live:
            for x in list(live):
                k, d, p = x
                if p.poll() is None:
                    try: idle = time.time() - os.path.getmtime(d + "/case")
                    except OSError: idle = 0
                    if idle > 90:
                        p.kill(); p.wait(); live.remove(x)
                        ch, notes = read_case(d); viol = viol or (s, ch, notes, "the operation did not end within 90 s", d)
                    continue
                live.remove(x)
                if os.path.exists(d + "/out"):
                    r = json.load(open(d + "/out")); parts.append(r)
                    if r.get("violation") and not viol: viol = (s, r["violation"]["choices"], r["violation"]["notes"], r["violation"]["what"], d)
                else:
                    ch, notes = read_case(d); log = open(d + "/log", errors="replace").read()
                    if ch is None: print(log[-2000:]); print("worker failed before its first case"); kill(live); return 2
                    what = "the interpreter crashed (exit status %s): %s" % (p.returncode, next((l for l in log.splitlines() if "BUG" in l or "rror" in l), "").strip()[:200])
                    viol = viol or (s, ch, notes, what, d)
            if viol: kill(live); break
            time.sleep(0.02)
        st = set(); [st.update(r["states"]) for r in parts]
        e = {"name": s["name"], "bounds": s["bounds"], "plans": max([r["plans"] for r in parts] or [0]), "executions": sum(r["executions"] for r in parts), "transitions": sum(r["transitions"] for r in parts), "states": len(st),
             "evaluations": sum(r["evaluations"] for r in parts), "exhaustive": not viol and all(r["complete"] for r in parts), "wall_s": round(time.time() - ts, 2)}
        e["samples"] = [x for r in parts for x in r["samples"]][:2]
        res.append(e)
        print("%s %s: plans=%d executions=%d transitions=%d states=%d evals=%d %s %.1fs" % (a.prop, e["name"], e["plans"], e["executions"], e["transitions"], e["states"], e["evaluations"], "complete" if e["exhaustive"] else "INCOMPLETE", e["wall_s"]), flush=True)
        if viol: break
    if not a.no_evidence and not a.only and not a.replay:
        ev = {"property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": c.get("level", "model_checking"),
              "coverage": {"states": sum(e["states"] for e in res), "transitions": sum(e["transitions"] for e in res), "traces_validated_against_impl": sum(e["executions"] for e in res), "evaluations": sum(e["evaluations"] for e in res),
                           "exhaustive": all(e["exhaustive"] for e in res), "rule": info["rule"], "samples": [x for e in res for x in e.pop("samples")][:8], "scenarios": res}, "wall_s": round(time.time() - t0, 2)}
        json.dump(ev, open("%s/evidence/%s.json" % (V, a.prop), "w"), indent=1)
    if viol:
        s, ch, notes, what, d = viol
        print("scenario %s\ncase: %s\nwhat: %s" % (s["name"], notes, what))
        rp = "%s/evidence/replays/%s-%s.replay" % (V, a.prop, s["name"]); os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump({"property": a.prop, "scenario": s["name"], "choices": ch, "case": notes, "what": what, "rerun": "python3 run.py %s --replay %s" % (a.prop, rp)}, open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.prop, rp)); return 1
    return 0

def read_case(d):
    try: return tuple(json.load(open(d + "/case")))
    except Exception: return None, ""
def kill(live):
    for _, _, p in live:
        if p.poll() is None: p.kill(); p.wait()
