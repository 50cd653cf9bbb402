#!/usr/bin/env python3
"""Driver: build a check's harnesses from /repo's working tree, run them under monitoring, decide.

  run.py C04            quick (VERIF_TIER=thorough or --thorough for the deep run)
  run.py C04 --replay family:idx    run one case and print its violations
Exit 0: property held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: check error.
"""
import sys, os, json, subprocess, time, hashlib, re, fnmatch, shutil, signal, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MON_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 4)
SAN = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=4000:hard_rss_limit_mb=6000:handle_abort=1:allow_user_segv_handler=0",
       "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
       "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1"}
BASE = ["-std=c++17", "-w", "-pthread"]
VARIANTS = {
    "asan": ["g++", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "leak": ["g++", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["g++", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "rel":  ["g++", "-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "clang": ["clang++", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
}

def log(*a):
    print(*a, flush=True)

def die(msg):
    log("CHECK-ERROR:", msg)
    sys.exit(2)

def load_known(prop):
    known, path = [], os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.rstrip("\n")
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", ln)
            if m and m.group(1) == prop:
                known.append({"key": m.group(2), "what": m.group(3), "hit": 0})
    return known

def build(prop, cfg, bdir):
    jobs = []
    for b in cfg["bins"]:
        exe = os.path.join(bdir, b["name"])
        srcs = [os.path.join(VERIF, "checks", prop, s) for s in b["src"]]
        cmd = VARIANTS[b.get("variant", "asan")] + BASE + b.get("flags", []) + \
            ["-I" + os.path.join(VERIF, "fw"), "-I" + REPO, "-I" + os.path.join(REPO, "mml")] + srcs + ["-o", exe] + b.get("libs", [])
        jobs.append((b, exe, cmd))
    def one(j):
        b, exe, cmd = j
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        except subprocess.TimeoutExpired:
            return (b, exe, "compile timeout")
        return (b, exe, None if r.returncode == 0 else r.stdout.decode(errors="replace")[-6000:])
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, jobs))
    bad = [(b["name"], e) for b, _, e in res if e]
    if bad:
        for n, e in bad:
            log(f"--- compile of {n} failed\n{e}")
        die("harness does not compile against /repo's working tree")
    return [(b, exe) for b, exe, _ in res]

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ (?:in )?(.*?) (\S*?/mml/\S+?):(\d+)")
def crash_key(txt):
    kind = "crash"
    m = re.search(r"ERROR: (?:AddressSanitizer|LeakSanitizer): (\S+)", txt)
    if m: kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: (.*)", txt)
    if m2 and not m:
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"'[^']*'|[-+]?[0-9.]+(e[-+]?[0-9]+)?|\binf\b|\bnan\b", "", m2.group(1).lower())).strip("-")[:60]
    m3 = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", txt)
    if m3: kind = "tsan-" + m3.group(1).strip().replace(" ", "-")
    m4 = re.search(r"Assertion '(.*?)' failed", txt)
    if m4: kind = "glibcxx-assert-" + re.sub(r"\W+", "-", m4.group(1))[:50].strip("-")
    where = ""
    for m in FRAME.finditer(txt):
        fn = m.group(1); fn = re.sub(r"\(.*$", "", fn); fn = re.sub(r"<.*?>", "", fn)
        where = os.path.basename(m.group(2)) + ":" + re.sub(r"[^\w:~]+", "_", fn.split("::")[-1])[:40]
        break
    else:
        m = re.search(r"/mml/(\S+?):(\d+)", txt)
        if m: where = os.path.basename(m.group(1))
    return kind + (":" + where if where else "")

class Shard:
    def __init__(self, b, exe, shard, n, wd, env):
        self.b, self.exe, self.shard, self.n, self.wd, self.env = b, exe, shard, n, wd, env

def run_proc(exe, env, wd, tag, stall_s, cap_s):
    """returns (status, rc, last_case, output). status in ok/crash/hang/cap"""
    prog = os.path.join(wd, tag + ".prog")
    outp = os.path.join(wd, tag + ".log")
    e = dict(env); e["MON_PROGRESS"] = prog
    if os.path.exists(prog): os.unlink(prog)
    with open(outp, "wb") as lf:
        p = subprocess.Popen([exe], stdout=subprocess.DEVNULL, stderr=lf, stdin=subprocess.DEVNULL, env=e, cwd=wd, start_new_session=True)
        t0 = time.time(); last = None; tl = t0; status = None
        def tick():
            try:
                d = open(prog, "rb").read(1024)
                return d[:256].split(b"\0")[0].decode(errors="replace"), d[512:520]
            except OSError:
                return None, None
        pause = 0.02
        while True:
            rc = p.poll()
            if rc is not None: break
            time.sleep(pause); pause = min(0.25, pause * 1.5)
            now = time.time()
            cur = tick()
            if cur != last: last, tl = cur, now
            if now - tl > stall_s: status = "hang"
            elif now - t0 > cap_s: status = "cap"
            if status:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); rc = p.returncode
                break
        try: os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError): pass
        cur = tick()
    txt = open(outp, "rb").read()
    txt = (txt[:60000] + (b"\n...\n" + txt[-20000:] if len(txt) > 80000 else b"")).decode(errors="replace")
    if status is None:
        status = "ok" if rc == 0 else "crash"
    return status, rc, cur[0] or "?", txt

def setup():
    """Nothing persistent is needed: prove that the compilers and sanitizer runtimes the checks use are there."""
    d = tempfile.mkdtemp(prefix="mon-setup-")
    try:
        src = os.path.join(d, "t.cpp"); open(src, "w").write("#include <vector>\nint main(){std::vector<int> v(3);return v[1];}\n")
        for name in ("asan", "tsan", "rel"):
            exe = os.path.join(d, name)
            subprocess.run(VARIANTS[name] + BASE + [src, "-o", exe], check=True)
            log(name, "ok" if subprocess.run([exe], env=dict(os.environ, **SAN)).returncode == 0 else "RUNTIME NOT USABLE")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return 0

def main():
    argv = [a for a in sys.argv[1:]]
    prop = argv[0]
    if prop == "--setup": return setup()
    tier = "thorough" if ("--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    keep = "--keep" in argv
    t0 = time.time()
    cfg = json.load(open(os.path.join(VERIF, "checks", prop, "check.json")))
    scratch = tempfile.mkdtemp(prefix=f"mon-{prop}-", dir=os.environ.get("MON_TMP", "/tmp"))
    try:
        return run(prop, tier, seed, replay, t0, cfg, scratch)
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)

def run(prop, tier, seed, replay, t0, cfg, scratch):
    known = load_known(prop)
    bdir = os.path.join(scratch, "b"); os.makedirs(bdir)
    exes = build(prop, cfg, bdir)
    t_build = time.time() - t0
    scale = cfg.get("thorough_scale", 12) if tier == "thorough" else 1
    stall = cfg.get("stall_s", 60); cap = cfg.get("cap_s", 500 if tier == "quick" else 7200)
    viols = {}      # key -> dict
    agg = {"evals": {}, "nontrivial": {}, "events": {}, "maxima": {}, "samples": {}, "checks": 0}
    distinct = set(); errors = []; incomplete = 0; reruns = 0

    def base_env(b):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("MON_", "ASAN", "UBSAN", "TSAN"))}
        e.update(SAN)
        if b.get("variant") == "leak": e["ASAN_OPTIONS"] = SAN["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
        e.update(b.get("env", {}))
        e["VERIF_DIR"] = VERIF; e["REPO_DIR"] = REPO
        return e

    if replay:
        found = False
        for b, exe in exes:
            if b.get("families") and not any(fnmatch.fnmatch(replay.split(":")[0], f) for f in b["families"]): continue
            e = base_env(b); e.update(MON_SEED=str(seed), MON_ONLY=replay, MON_V="1")
            wd = os.path.join(scratch, "r-" + b["name"]); os.makedirs(wd)
            status, rc, case, txt = run_proc(exe, e, wd, "r", stall * 3, cap)
            log(f"[{b['name']}] status={status} rc={rc}\n{txt}")
        return 0

    def add_viol(key, msg, desc, case, count, binname):
        v = viols.setdefault(key, {"key": key, "msg": msg, "desc": desc, "case": case, "count": 0, "bin": binname})
        v["count"] += count

    def run_shard(job):
        b, exe, k, n = job
        tag = f"{b['name']}.{k}"
        wd = os.path.join(scratch, tag); os.makedirs(wd, exist_ok=True)
        env = base_env(b)
        skips, res, outs = [], [], []
        for attempt in range(8):
            out = os.path.join(wd, "out.json")
            if os.path.exists(out): os.unlink(out)
            env.update(MON_SEED=str(seed), MON_SHARD=str(k), MON_NSHARDS=str(n), MON_SCALE=str(scale), MON_OUT=out, MON_SKIP=",".join(skips))
            status, rc, case, txt = run_proc(exe, env, wd, f"a{attempt}", stall, cap)
            if status == "ok":
                if not os.path.exists(out):
                    res.append(("error", f"{tag}: no output written", case, txt)); return res, outs
                outs.append(json.load(open(out))); return res, outs
            if status == "cap":
                res.append(("inconclusive", f"{tag}: wall cap {cap}s reached at {case}", case, txt)); return res, outs
            if case.startswith("exit:") or case == "?":
                res.append(("crash" if case.startswith("exit:") else "error", txt, case, rc)); 
                if os.path.exists(out): outs.append(json.load(open(out)))
                return res, outs
            if status == "hang":
                e2 = dict(env); e2.update(MON_ONLY=case); e2.pop("MON_OUT", None)
                s2, rc2, c2, txt2 = run_proc(exe, e2, wd, f"h{attempt}", stall * 2, stall * 2 + 30)
                if s2 in ("hang", "cap"): res.append(("hang", f"no progress for {stall*2}s (confirmed by a second run)", case, None))
                else: res.append(("inconclusive-retry", f"{case} stalled once, passed on re-run", case, None))
                skips.append(case)
            else:
                res.append(("crash", txt, case, rc)); skips.append(case)
            # stop early when a crash that is not a listed finding was seen twice
            if len(skips) >= 4 and tier == "quick": 
                res.append(("partial", "", "", None)); return res, outs
        res.append(("partial", "", "", None))
        return res, outs

    jobs = []
    for b, exe in exes:
        n = b.get("shards", 8)
        jobs += [(b, exe, k, n) for k in range(n)]
    with ThreadPoolExecutor(cfg.get("parallel", NCPU)) as ex:
        results = list(ex.map(run_shard, jobs))

    for (b, exe, k, n), (res, outs) in zip(jobs, results):
        for kind, txt, case, rc in res:
            fam = case.split(":")[0] if case else ""
            if kind == "crash":
                key = f"{fam}/{crash_key(txt)}" if re.search(r"Sanitizer|runtime error|Assertion|terminate", txt) or rc is None or rc < 0 or rc == 77 else None
                if key is None and rc in (90,): errors.append(f"{b['name']} shard {k}: harness failure rc={rc}"); continue
                if key is None: key = f"{fam}/exit-{rc}"
                if "AddressSanitizer" in txt and re.search(r"hard rss limit|out-of-memory|allocation-size-too-big", txt): key = f"{fam}/memory-exhaustion"
                add_viol(key, txt[:6000], "", case, 1, b["name"])
            elif kind == "hang":
                add_viol(f"{fam}/hang", txt, "", case, 1, b["name"])
            elif kind in ("inconclusive", "error"):
                errors.append(f"{kind}: {txt[-1500:]}")
            elif kind == "inconclusive-retry": reruns += 1
            elif kind == "partial": incomplete += 1
        for o in outs:
            agg["checks"] += o["checks"]
            for fld in ("evals", "nontrivial", "events"):
                for kk, vv in o[fld].items(): agg[fld][kk] = agg[fld].get(kk, 0) + vv
            for kk, vv in o["maxima"].items(): agg["maxima"][kk] = max(vv, agg["maxima"].get(kk, -1e300))
            for kk, vv in o["samples"].items(): agg["samples"].setdefault(kk, vv)
            distinct.update(o["distinct"])
            for v in o["viols"]: add_viol(v["key"], v["msg"], v["desc"], v["case"], v["count"], b["name"])

    new = []
    for key, v in sorted(viols.items()):
        hit = None
        for kn in known:
            if fnmatch.fnmatchcase(key, kn["key"]): hit = kn; break
        if hit: hit["hit"] += v["count"]
        else: new.append(v)
    for kn in known:
        if kn["hit"]: log(f"KNOWN-FINDING: property={prop} {kn['what']} [{kn['key']}]")
        else: log(f"note: listed finding not observed this run: {kn['key']}")
    evals = sum(agg["evals"].values())
    # coverage requirements: a run that observed nothing is not a pass
    for evn, mn in cfg.get("require", {}).items():
        got = agg["events"].get(evn, agg["evals"].get(evn, 0))
        if got < mn and not new: errors.append(f"coverage requirement not met: {evn} observed {got} < {mn}")
    if evals == 0 and not new: errors.append("no case ran")

    samples = [s[0] for s in list(agg["samples"].values())[:8] if s]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": cfg["rule"], "samples": samples or ["(none)"],
                       "oracle_checks": agg["checks"], "cases_by_family": agg["evals"], "distinct_nontrivial_by_family": agg["nontrivial"], "events_observed": agg["events"],
                       "worst_error_over_tolerance": {k[6:]: round(v, 6) for k, v in sorted(agg["maxima"].items(), key=lambda x: -x[1]) if k.startswith("ratio:")} if len(agg["maxima"]) < 400 else {},
                       "observed_maxima": {k: v for k, v in agg["maxima"].items() if not k.startswith("ratio:")},
                       "binaries": [{"name": b["name"], "variant": b.get("variant", "asan"), "shards": b.get("shards", 8)} for b, _ in exes],
                       "shards_cut_short": incomplete, "stalls_not_confirmed": reruns,
                       "known_findings_observed": [kn["key"] for kn in known if kn["hit"]]},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{prop} {tier} seed={seed}: {evals} cases, {len(distinct)} distinct non-trivial, {agg['checks']} oracle checks, build {t_build:.1f}s, total {time.time()-t0:.1f}s")
    if new:
        rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
        for v in new[:25]:
            name = prop + "-" + hashlib.sha1(v["key"].encode()).hexdigest()[:10] + ".txt"
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                f.write(f"property: {prop}\nkey: {v['key']}\nbinary: {v['bin']}\ncase: {v['case']}\nseed: {seed}\noccurrences: {v['count']}\n"
                        f"replay: VERIF_SEED={seed} python3 /verif/run.py {prop} --replay {v['case']}\n\ninput: {v['desc']}\n\n{v['msg']}\n")
            log(f"  {v['key']} (x{v['count']}) case {v['case']}: {v['msg'][:300].splitlines()[0] if v['msg'] else ''}")
            log(f"VIOLATION property={prop} replay={path}")
        if len(new) > 25: log(f"  ... and {len(new)-25} more keys")
        return 1
    if errors:
        for e in errors[:10]: log("CHECK-ERROR:", e)
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
