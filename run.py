#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--replay FILE]
Builds the harness of one property from the current tree of /repo, lets it explore its whole bounded space,
confirms every alleged violation by replaying it alone, and writes evidence/<ID>.json."""
import sys, os, json, time, hashlib, subprocess, shutil, struct, signal, fcntl
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "checks"))
from registry import CHECKS

NCPU = max(1, min(8, os.cpu_count() or 1))
# memcpy of zero bytes from a null pointer is not something a user can observe
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
DEFS = ["-DFITORIA_HAS_FMT", "-DFITORIA_HAS_ZLIB", "-DFITORIA_HAS_BROTLI"]
LIBS = ["-lfmt", "-lz", "-lbrotlidec", "-lbrotlienc", "-lbrotlicommon", "-lpthread"]
BOOST_LIBS = ["-lboost_url", "-lboost_json", "-lboost_regex"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1",
           TSAN_OPTIONS="halt_on_error=1:exitcode=97:report_signal_unsafe=0:report_thread_leaks=0", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99", LC_ALL="C.UTF-8", TZ="UTC")

class BuildError(Exception): pass

def tree_hash(cfg, srcs):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "include"), os.path.join(V, "lib")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    for s in srcs: h.update(open(s, "rb").read())
    h.update(repr(sorted(cfg.items(), key=lambda x: x[0])).encode()); h.update(open(__file__, "rb").read())
    return h.hexdigest()

def overlay():
    o = os.path.join(V, "build", "overlay")
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    src = os.path.join(V, "lib", "compat"); h = hashlib.sha256()
    for f in sorted(os.listdir(src)): h.update(open(os.path.join(src, f), "rb").read())
    with open(os.path.join(V, "build", "overlay.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        st = o + ".stamp"
        if not (os.path.exists(st) and open(st).read() == h.hexdigest() and os.path.isdir(o)):
            subprocess.run(["bash", os.path.join(src, "gen.sh"), o], check=True)
            open(st, "w").write(h.hexdigest())
    return o

def build(pid, cfg):
    srcs = [os.path.join(V, "checks", s) for s in cfg["srcs"]]
    bdir = os.path.join(V, "build", pid); os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, "harness"); hv = tree_hash(cfg, srcs); stamp = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == hv: return exe, 0.0, True
    t = time.time()
    cxx = {"g++": "g++-13" if shutil.which("g++-13") else "g++", "clang++": "clang++"}[cfg.get("cxx", "g++")]
    fl = ["-std=c++20", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "lib")] + DEFS + list(cfg.get("flags", []))
    fl += ["-" + cfg.get("opt", "O1"), "-w"] + (["-g1"] if cfg.get("asan", True) else [])
    libs = list(LIBS) + list(cfg.get("libs", []))
    if cfg.get("boost"):
        fl = fl[:1] + ["-isystem", overlay(), "-DBOOST_ASIO_HAS_FILE=1", "-DBOOST_ENABLE_ASSERT_HANDLER"] + fl[1:]; libs += BOOST_LIBS
    san = (ASAN if cfg.get("asan", True) is True else cfg["asan"] if cfg.get("asan") else [])
    if cxx == "clang++" and san: san = san + ["-shared-libsan"] if cfg.get("sharedsan") else san
    objs, procs = [], []
    for s in srcs:
        o = os.path.join(bdir, os.path.basename(s) + ".o"); objs.append(o)
        procs.append((s, subprocess.Popen([cxx, *fl, *san, "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = ""
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode: bad += out[-6000:]
    if bad: raise BuildError(bad)
    r = subprocess.run([cxx, *san, *objs, "-o", exe + ".new", *libs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(r.stdout[-6000:])
    os.replace(exe + ".new", exe); open(stamp, "w").write(hv)
    return exe, time.time() - t, False

def read_shared(path):
    try: b = open(path, "rb").read()
    except OSError: return 0, 0, [], ""
    if len(b) < 8016: return 0, 0, [], ""
    execs, sc, depth = struct.unpack_from("<QII", b, 0)
    ch = list(struct.unpack_from("<%dH" % min(depth, 4000), b, 16))
    note = b[16 + 8000:16 + 8000 + 2048].split(b"\0")[0].decode("latin1")
    return execs, sc, ch, note

def scratch(pid):
    d = os.path.join(V, "build", pid, "scratch"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); return d

def run_case(exe, scen, choices, tier, limit, wd):
    try:
        r = subprocess.run([exe, "--tier", tier, "--replay", scen + ":" + ",".join(map(str, choices))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, cwd=wd, env=ENV)
        return r.returncode, r.stdout.decode("latin1")
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode("latin1")[-2000:]

def rerun_shard(exe, bdir, wd, tier, sh, i, limit):
    """explores one shard again, alone; returns (exit code, the case it ended in, keys of its violations)"""
    s, o, w = os.path.join(bdir, "resh"), os.path.join(bdir, "reout.json"), os.path.join(wd, "re")
    for f in (s, o):
        if os.path.exists(f): os.unlink(f)
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    try:
        r = subprocess.run([exe, "--tier", tier, "--shards", str(sh), "--shard", str(i), "--shared", s, "--out", o, "--budget", str(limit)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, cwd=w, env=ENV)
        rc, out = r.returncode, r.stdout.decode("latin1")
    except subprocess.TimeoutExpired as e: rc, out = "hang", (e.stdout or b"").decode("latin1")
    keys = {v["key"] for v in json.load(open(o))["violations"]} if os.path.exists(o) else set()
    _, sc, ch, note = read_shared(s)
    return rc, out[-2500:], (sc, ch), keys

def known(pid):
    ks = []
    p = os.path.join(V, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("known: "):
            f = l[7:].split(" ", 2) # property=ID key=KEY text
            if f[0] == "property=" + pid: ks.append((f[1][4:], f[2] if len(f) > 2 else ""))
    return ks

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[pid]; t0 = time.time()
    try: exe, bt, cached = build(pid, cfg)
    except BuildError as e:
        print("BUILD-ERROR: the harness does not compile against the current tree\n" + str(e)); sys.exit(2)
    bdir = os.path.join(V, "build", pid); wd = scratch(pid)
    if "--replay" in a:
        c = json.load(open(a[a.index("--replay") + 1]))
        if c["note"].endswith("after the cases before it"):
            rc, out, at, keys = rerun_shard(exe, bdir, wd, c.get("tier", tier), c["shards"], c["shard"], 600); print(out, at); rc = rc or int(c["key"] in keys)
        else: rc, out = run_case(exe, c["scenario"], c["choices"], c.get("tier", tier), 120, wd)
        print(out); print("result:", rc)
        sys.exit(0 if rc == 0 else 1)
    scen = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=ENV).stdout.split("\n")[:-1]
    sh = cfg.get("shards", NCPU); budget = cfg.get("budget", 420) if tier == "quick" else cfg.get("tbudget", 3000)
    hang = cfg.get("hang", 40)
    jobs = {}
    for i in range(sh):
        s = os.path.join(bdir, f"sh{i}"); o = os.path.join(bdir, f"out{i}.json")
        for f in (s, o):
            if os.path.exists(f): os.unlink(f)
        w = os.path.join(wd, str(i)); os.makedirs(w)
        lg = open(os.path.join(bdir, f"log{i}"), "wb")
        p = subprocess.Popen([exe, "--tier", tier, "--shards", str(sh), "--shard", str(i), "--shared", s, "--out", o, "--budget", str(budget)], stdout=lg, stderr=subprocess.STDOUT, cwd=w, env=ENV)
        jobs[i] = [p, s, o, 0, time.time(), None]
    crashed = []
    while jobs:
        time.sleep(0.05)
        for i in list(jobs):
            p, s, o, last, tl, _ = jobs[i]
            rc = p.poll()
            if rc is not None:
                if rc != 0: crashed.append((i, rc))
                del jobs[i]; continue
            now = time.time()
            if now - tl > 1:
                e = read_shared(s)[0]
                if e != last: jobs[i][3] = e; jobs[i][4] = now
                elif now - tl > hang:
                    p.kill(); p.wait(); crashed.append((i, "hang")); del jobs[i]
    viols, errors = [], []
    for i, rc in crashed:
        _, sc, ch, note = read_shared(os.path.join(bdir, f"sh{i}"))
        log = open(os.path.join(bdir, f"log{i}"), "rb").read().decode("latin1")
        if rc in (3, 4): errors.append("harness error in shard %d: %s" % (i, log[-1500:])); continue
        rc2, out = run_case(exe, scen[sc], ch, tier, max(90, 2 * hang), wd)
        if rc2 in (0, 3, 4):  # not by itself: what ran before it may matter, and it runs the same way each time
            rc3, out, at, _ = rerun_shard(exe, bdir, wd, tier, sh, i, 200)
            if rc3 in (0, 3, 4) or (rc3 != "hang" and at != (sc, ch)): # did not reproduce at all: not believed
                errors.append("shard %d ended with %s but the case passes alone and the shard when run again (%s:%s) %s" % (i, rc, scen[sc], ch, log[-1500:])); continue
            rc2 = rc3; note += " after the cases before it"
        kind = "hang" if rc2 == "hang" else "crash"
        viols.append({"key": f"{kind}:{scen[sc]}:{note.replace(' ', '_')[:300]}", "msg": f"{kind} ({rc2}) " + (out if len(out) < 3000 else out[:2500]), "note": note, "scenario": scen[sc], "choices": ch, "shard": i})
    tot = {}; states = set(); samples = []; capped = False; nviol = 0
    for i in range(sh):
        o = os.path.join(bdir, f"out{i}.json")
        if not os.path.exists(o): continue
        d = json.load(open(o)); nviol += d["nviol"]
        for s in d["scenarios"]:
            t = tot.setdefault(s["name"], {"executions": 0, "inner_cases": 0, "transitions": 0, "max_depth": 0, "complete": True, "distinct_states": 0})
            for k in ("executions", "transitions", "inner_cases"): t[k] += s[k]
            t["distinct_states"] = max(t["distinct_states"], s["distinct_states"])
            t["max_depth"] = max(t["max_depth"], s["max_depth"]); t["complete"] &= s["complete"]
        states.update(d["states"]); capped |= d["states_capped"]
        for x in d["samples"]:
            if len(samples) < 24: samples.append(x)
        for v in d["violations"]:
            if not any(v["key"] == w["key"] for w in viols): viols.append(dict(v, shard=i))
    kn = known(pid); real, kseen, again = [], [], {}
    for v in viols:
        if v["key"].split(":")[0] not in ("hang", "crash"):
            rc, out = run_case(exe, v["scenario"], v["choices"], tier, 120, wd)
            if rc == 0:
                if v["shard"] not in again: again[v["shard"]] = rerun_shard(exe, bdir, wd, tier, sh, v["shard"], 200)[3] if len(again) < 2 else set()
                if v["key"] not in again[v["shard"]]: errors.append("violation not reproduced: " + v["key"]); continue
                v["note"] += " after the cases before it"
        k = [x for x in kn if x[0] == v["key"]]
        if k: kseen.append((k[0], v))
        else: real.append(v)
        if len(real) > 25: break
    rdir = os.path.join(bdir, "replay"); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    for k, txt in kn: print(f"KNOWN-FINDING: property={pid} {k} {txt}")
    for n, v in enumerate(real):
        p = os.path.join(rdir, f"{n}.json"); json.dump(dict(v, property=pid, tier=tier, shards=sh), open(p, "w"), indent=1)
        if n < 10:
            print(f"VIOLATION property={pid} replay={p}")
            print(f"  key={v['key']}\n  case: {v['scenario']}: {v['note'][:600]}\n  {v['msg'][:1500]}")
    ex = sum(t["executions"] for t in tot.values()); tr = sum(t["transitions"] + t["inner_cases"] for t in tot.values())
    allc = all(t["complete"] for t in tot.values()) and not crashed and bool(tot)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"),
          "coverage": {"states": len(states), "states_note": "distinct canonical states/outcomes observed" + (" (counting capped)" if capped else ""),
                       "transitions": tr, "traces_validated_against_impl": ex,
                       "trace_note": "every explored execution is an execution of the real code; each is compared with the reference model",
                       "exhaustive": allc, "scenarios": tot, "samples": samples, "bounds": cfg.get("bounds", {}).get(tier, cfg.get("bounds_text", ""))},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "build_s": round(bt, 2), "violations": len(real),
          "known_findings_seen": [k[0] for k, _ in kseen], "errors": errors}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(wd, ignore_errors=True)
    print(f"{pid} {tier}: {ex} executions, {tr} transitions, {len(states)} distinct states, exhaustive={allc}, {len(real)} violations, {len(kseen)} known, build {bt:.1f}s{' (cached)' if cached else ''}, total {time.time()-t0:.1f}s")
    if not allc:
        for n, t in tot.items():
            if not t["complete"]: print("  capped:", n, t)
    if real: sys.exit(1)
    if errors:
        print("ERROR " + "\n".join(errors)); sys.exit(2)
    if ex == 0: print("ERROR nothing explored"); sys.exit(2)
    sys.exit(0)
main()
