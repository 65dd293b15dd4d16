#!/usr/bin/env python3
"""Decide one property: build the monitors against /repo's working tree, run the workloads, judge what they observed.
usage: run.py PROPERTY [quick|thorough]      exit 0 held, 1 violated, 2 no verdict"""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
NCPU = 8

class NoVerdict(Exception):
    pass

def sh(cmd, timeout, env=None, cwd=None):
    """run with a generous wall clock limit; (rc, out, err); rc None = limit reached"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True, text=True, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        return None, o, e

def env_run():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_stack_use_after_return=0:use_sigaltstack=0:detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
    e["MSAN_OPTIONS"] = "exitcode=78:check_printf=0"
    return e

def headers_ok(depfile):
    t = open(depfile).read()
    return (INC + "/boost/circular_buffer") in t and "/usr/include/boost/circular_buffer" not in t

def build(b, work, timeout=600):
    exe = os.path.join(work, b.name)
    dep = exe + ".d"
    cmd = [b.cxx, "-I" + INC, "-I" + os.path.join(HERE, "harness"), "-w", "-MD", "-MF", dep, "-o", exe] + b.flags + [os.path.join(HERE, "harness", b.src)] + b.libs
    rc, o, e = sh(cmd, timeout)
    if rc is None or (rc and rc < 0) or "Killed" in e[-400:] or "signal terminated" in e:
        rc, o, e = sh(cmd, timeout)          # a compiler that was killed, or too slow, says nothing
        if rc is None or rc < 0 or "Killed" in e[-400:]: raise NoVerdict("compiler did not finish: " + " ".join(cmd) + "\n" + e[-2000:])
    if rc:
        return None, cmd, e
    if not headers_ok(dep): raise NoVerdict("the build did not use the headers under " + INC)
    return exe, cmd, ""

def trivial_ok(b, work):
    """does the library still compile on its own with these flags?"""
    src = os.path.join(work, "trivial.cpp")
    with open(src, "w") as f: f.write("#include <boost/circular_buffer.hpp>\nint main(){boost::circular_buffer<int> c(3);c.push_back(1);boost::circular_buffer_space_optimized<int> s(3);s.push_back(1);return c.front()-s.front();}\n")
    rc, o, e = sh([b.cxx, "-I" + INC, "-w", "-o", src + ".exe"] + b.flags + [src] + b.libs, 600)
    return rc == 0

CRASH = {"SIGSEGV", "SIGABRT", "SIGFPE", "SIGBUS", "SIGILL", "HANG", "RUNAWAY", "TERMINATE", "SANITIZER"}

def parse(out):
    r = []
    for line in out.splitlines():
        if line.startswith("{\"t\":"):
            try: r.append(json.loads(line))
            except ValueError: pass
    return r

def run_job(exe, b, argv, want, timeout):
    """one process; returns (records, violations, command)"""
    cmd = [exe] + argv + (["-want", want] if not b.nowant else [])
    if b.wrap: cmd = b.wrap + cmd
    env = env_run()
    for attempt in (0, 1):
        rc, o, e = sh(cmd, timeout, env)
        recs = parse(o)
        shown = [os.path.basename(exe)] + cmd[cmd.index(exe) + 1:]
        viols = []
        wanted = set(want.split(","))
        for r in recs:
            if r["t"] == "viol" and (r["tag"] in wanted): viols.append(r)
            elif r["t"] in CRASH: r["tag"] = "crash"; viols.append(r)
        hang = any(r["t"] == "HANG" for r in recs)
        if (rc is None or hang) and attempt == 0:
            if hang: cmd = cmd + ["-hang", "30"]       # a hang is only believed when it repeats
            continue
        if rc is None: raise NoVerdict("no answer within %d s: %s" % (timeout, " ".join(shown)))
        report = None
        m = re.search(r"(ERROR: AddressSanitizer: .*|runtime error: .*|WARNING: ThreadSanitizer: .*|WARNING: MemorySanitizer: .*|==\d+== (?:Invalid|Conditional|Use of).*)", e)
        if m: report = m.group(1).strip()
        if report:
            for v in viols:
                if v["t"] == "SANITIZER": v["msg"] = report
            if not any(v["t"] in CRASH for v in viols):
                viols.append({"t": "SANITIZER", "tag": "crash", "key": "", "case": "", "op": "", "msg": report})
        for v in viols: v["stderr"] = e[-6000:] if v["t"] in CRASH else ""
        stats = [r for r in recs if r["t"] == "stats"]
        if not viols:
            if rc in (-9, 137) and attempt == 0: continue
            if rc < 0 and rc != -9:
                viols.append({"t": "SIGNAL", "tag": "crash", "key": "", "case": "", "op": "", "msg": "terminated by signal %d" % -rc, "stderr": e[-6000:]})
            elif rc != 0 or not stats:
                raise NoVerdict("harness failure, exit %s: %s\n%s\n%s" % (rc, " ".join(shown), o[-1500:], e[-3000:]))
        return recs, viols, shown

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    p = plan.plan(prop, tier, seed)
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    replay = os.path.join("evidence", prop + ".replay.txt")
    for f in (os.path.join(HERE, replay), os.path.join(ev, prop + ".json")):
        if os.path.exists(f): os.remove(f)
    base = os.path.join(HERE, "evidence")
    work = tempfile.mkdtemp(prefix="build-%s-" % prop, dir=base)
    recs, viols, notes, errors = [], [], [], []
    lock = threading.Lock()
    limit = 600 if tier == "quick" else 7200
    try:
        with cf.ThreadPoolExecutor(NCPU) as pool:
            stop = threading.Event()
            def one_build(b):
                if stop.is_set(): return None
                t = time.time(); exe, cmd, err = build(b, work)
                if exe is None:
                    if not trivial_ok(b, work): raise NoVerdict("the library does not compile on its own (%s %s)\n%s" % (b.cxx, " ".join(b.flags), err[:3000]))
                    with lock: viols.append({"t": "COMPILE", "tag": "crash", "key": "", "case": "", "op": "use of the documented interface", "msg": "a program using the documented interface no longer compiles", "stderr": err[:6000], "build": b.name, "cmd": cmd})
                if os.environ.get("VERIF_VERBOSE"): print("build %-28s %5.1f s" % (b.name, time.time() - t), file=sys.stderr)
                return exe
            def one_run(exe, b, argv, want, tag):
                if stop.is_set(): return
                t = time.time(); rs, vs, cmd = run_job(exe, b, argv, want, limit)
                if os.environ.get("VERIF_VERBOSE"): print("run   %-28s %5.1f s %s" % (b.name, time.time() - t, " ".join(cmd[1:])), file=sys.stderr)
                with lock:
                    for r in rs: r["build"] = b.name; r["jobkey"] = tag; recs.append(r)
                    for v in vs: v["build"] = b.name; v["cmd"] = cmd; viols.append(v)
                if len(vs) and tier == "quick": stop.set()
            builds = {pool.submit(one_build, b): b for b in p.builds()}
            pending = set(builds); runs = []
            while pending:
                done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    if f in builds:
                        try: exe = f.result()
                        except NoVerdict as x: errors.append(str(x)); continue
                        if not exe: continue
                        b = builds[f]
                        for j in p.jobs:
                            if j.build is not b: continue
                            for i in range(j.shards):
                                argv = j.argv + (["-shard", str(i), "-nshard", str(j.shards)] if j.shards > 1 else [])
                                pending.add(pool.submit(one_run, exe, b, argv, p.want, " ".join(j.argv)))
                    else:
                        try: f.result()
                        except NoVerdict as x: errors.append(str(x))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # ---- the same history must give the same digest in every build
    dig = {}
    for r in recs:
        if r["t"] == "digest": dig.setdefault(r["key"], {}).setdefault(r["value"], set()).add(r["build"])
    if "digest" in p.want.split(","):
        for k, vals in sorted(dig.items()):
            if len(vals) > 1 and not viols:
                a = sorted(vals.items(), key=lambda x: -len(x[1]))
                odd = sorted(a[-1][1])[0]
                viols.append({"t": "viol", "tag": "digest", "key": "", "case": k, "op": k, "build": odd, "cmd": [odd],
                              "msg": "observations differ between builds: " + "; ".join("%s in %s" % (v, ", ".join(sorted(bs))) for v, bs in a)})
    # ---- verdict
    known = load_known(prop)
    new, hit = [], {}
    for v in viols:
        k = v.get("tag", "") + ":" + v.get("key", "")
        if k in known: hit[k] = v
        else: new.append(v)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    write_evidence(prop, tier, seed, p, recs, new, time.time() - t0, len(known))
    if new:
        with open(os.path.join(HERE, replay), "w") as f:
            f.write("property %s, tier %s, seed %d, %d reports\n" % (prop, tier, seed, len(new)))
            for v in new[:20]:
                bb = [b for b in p.builds() if b.name == v["build"]][0]
                f.write("\n--- %s: %s\n  operation: %s\n  case: %s\n  build: %s -I%s -Iharness %s harness/%s %s\n  run: %s\n" % (v.get("tag"), v.get("msg"), v.get("op"), v.get("case"), bb.cxx, INC, " ".join(bb.flags), bb.src, " ".join(bb.libs), " ".join(v["cmd"])))
                if v.get("case") and bb.src == "core_main.cpp": f.write("  replay: %s replay -case '%s'\n" % (bb.name, v["case"]))
                if v.get("stderr"): f.write(v["stderr"] + "\n")
        for v in new[:3]: print("%s: %s | %s" % (v.get("tag"), v.get("op"), v.get("msg")))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if errors:
        print("NO VERDICT property=%s\n%s" % (prop, "\n".join(errors[:3])))
        return 2
    cases = sum(r.get("cases", 0) for r in recs if r["t"] == "stats")
    if not cases or any(sum(r.get("cases", 0) for r in recs if r["t"] == "stats" and r["build"] == b.name) == 0 for b in p.builds()):
        print("NO VERDICT property=%s: a workload observed nothing" % prop); return 2
    print("property=%s held on %d cases (%.1f s)" % (prop, cases, time.time() - t0))
    return 0

def load_known(prop):
    r = {}
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)", line.strip())
            if m and m.group(1) == prop: r[m.group(2)] = m.group(3)
    return r

def write_evidence(prop, tier, seed, p, recs, new, wall, nknown):
    stats = [r for r in recs if r["t"] == "stats"]
    cases = sum(r.get("cases", 0) for r in stats)
    distinct = {}
    for r in stats: distinct.setdefault(r["build"], {}).setdefault(r["jobkey"], []).append(r.get("distinct", 0))
    # shards of one job see different cases; different jobs of one build may overlap, so only the largest counts
    nd = sum(max(sum(v) for v in jobs.values()) for jobs in distinct.values())
    totals, perop, kinds = {}, {}, {}
    for r in stats:
        for k, v in r.items():
            if isinstance(v, bool): continue
            if isinstance(v, int) and k not in ("distinct",): totals[k] = totals.get(k, 0) + v
        for k, v in r.get("ops_by_code", {}).items(): perop[k] = perop.get(k, 0) + v
        for k, v in r.get("range_kinds", {}).items(): kinds[k] = kinds.get(k, 0) + v
    seen, samples = set(), []
    for r in recs:
        if r["t"] == "sample" and r["text"] not in seen:
            seen.add(r["text"]); samples.append({"build": r["build"], "what": r["text"], "case": r.get("case", "")})
    samples = samples[:: max(1, len(samples) // 12)][:14]
    cov = {"evaluations": cases, "distinct_nontrivial": min(nd, cases), "rule": p.rule, "samples": samples,
           "builds": [{"name": b.name, "compiler": b.cxx, "flags": " ".join(b.flags)} for b in p.builds()],
           "workloads": sorted({"%s: %s x%d" % (j.build.name, " ".join(j.argv), j.shards) for j in p.jobs}),
           "monitored_tags": p.want.split(","), "observed": totals}
    dg = {}
    for r in recs:
        if r["t"] == "digest": dg.setdefault(r["key"], set()).add(r["build"])
    if dg: cov["histories_compared_between_builds"] = len(dg); cov["builds_per_history"] = [min(len(x) for x in dg.values()), max(len(x) for x in dg.values())]
    if perop: cov["operations_executed"] = perop
    if kinds: cov["source_ranges"] = kinds
    e = {"property": prop, "tier": tier, "seed": seed, "level": p.level, "coverage": cov, "wall_s": round(wall, 2), "violations": len(new),
         "assumptions": plan.ASSUMPTIONS}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(e, f, indent=1)

if __name__ == "__main__":
    try: sys.exit(main())
    except NoVerdict as x:
        print("NO VERDICT\n" + str(x)); sys.exit(2)
