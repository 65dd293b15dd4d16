#!/usr/bin/env python3
"""Development tool, not a check: make and verify planted bugs in a scratch copy of /repo (made by `seed.py setup`).
  seed.py make SPEC.py [ID..]   write seeded/ID from a spec (patch, demo, meta) and confirm: original lines only, builds, stable
                                tests pass, demo fails with the patch and passes without
  seed.py check ID [PROP..]     run the quick checks (default: the bug's property) against the patched copy
"""
import json, os, re, subprocess, sys, shutil
S = os.environ.get("SEED_S", "/tmp/s"); R = S + "/repo"; V = "/verif"; SEED = V + "/seeded"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def clean():
    sh(f"git -C {R} checkout -q -- .")

def setup():
    os.makedirs(S + "/vp", exist_ok=True)
    if not os.path.isdir(R):
        sh(f"cp -a /repo {R}; rm -rf {R}/_build; cp -a /opt/vp/cb /opt/vp/*.sh /opt/vp/*.py /opt/vp/BASELINE.json {S}/vp/;"
           f" sed -i 's#/opt/vp#{S}/vp#g; s#/repo#{R}#g' {S}/vp/*.sh {S}/vp/*.py {S}/vp/cb/*")

DEMO = """#!/bin/bash
# usage: cd REPO; bash demo.sh -- exit 0 when the property holds for this program
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
%(cxx)s -I "$PWD/include" %(flags)s "$here/demo.cpp" -o "$tmp/demo" || exit 3
%(env)s timeout 200 "$tmp/demo"
"""

def find(s, old):
    """places where old occurs in s, ignoring comments and trailing blanks in s"""
    rx = r"[ \t]*(?://[^\n]*)?\n(?:[ \t]*//[^\n]*\n)*".join(re.escape(l) for l in old.split("\n"))
    return [m.span() for m in re.finditer(rx, s)]

def original_lines(patch):
    """every removed line (or, for a pure insertion, a context line next to it) comes from the original repository"""
    return sh(["git", "-C", R, "apply", "--check", patch]).returncode == 0

def run_demo(d):
    return sh(["bash", d + "/demo.sh"], cwd=R, timeout=300)

def tests():
    p = sh(f"bash {S}/vp/test.sh {S}/out.json")
    try:
        o = json.load(open(S + "/out.json")); b = json.load(open(S + "/vp/BASELINE.json"))
        bad = sorted(set(b["stable"]) - set(o["passed"]))
        return bad
    except Exception as e:
        return ["tests: " + str(e) + p.stdout[-300:]]

def make(spec, ids):
    g = {}
    exec(open(spec).read(), g)
    for b in g["BUGS"]:
        if ids and b["id"] not in ids: continue
        clean()
        ok = True
        for f, old, new in b["edits"]:
            p = f"{R}/include/boost/circular_buffer/{f}.hpp"
            s = open(p).read()
            nth = None
            if isinstance(new, tuple): nth, new = new
            ms = find(s, old)
            if nth is None and len(ms) != 1 or nth is not None and len(ms) <= nth:
                print(b["id"], "EDIT matches", len(ms), repr(old[:60]), flush=True); ok = False; break
            x, y = ms[nth or 0]
            open(p, "w").write(s[:x] + new + s[y:])
        if not ok: continue
        d = f"{SEED}/{b['id']}"
        tmpd = f"{S}/new/{b['id']}"
        shutil.rmtree(tmpd, ignore_errors=True); os.makedirs(tmpd)
        open(tmpd + "/patch.diff", "w").write(sh(["git", "-C", R, "diff"]).stdout)
        open(tmpd + "/demo.cpp", "w").write(b["demo"])
        open(tmpd + "/demo.sh", "w").write(b.get("demo_sh") or DEMO % dict(cxx=b.get("cxx", "g++"), flags=b.get("flags", "-std=c++17 -w -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all"), env=b.get("env", "ASAN_OPTIONS=detect_leaks=0")))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(tmpd + "/meta.json", "w"), indent=1)
        # blame of removed lines
        bl = blame_ok(tmpd + "/patch.diff")
        w = run_demo(tmpd)
        clean()
        wo = run_demo(tmpd)
        if w.returncode != 0 and wo.returncode == 0 and bl is True:
            sh(["git", "-C", R, "apply", tmpd + "/patch.diff"]); bad = tests(); clean()
        else: bad = ["(skipped)"]
        good = w.returncode not in (0,) and wo.returncode == 0 and not bad and bl is True
        print(f"{b['id']} {b['prop']} demo with={w.returncode} without={wo.returncode} tests_failed={bad[:3] if bad else 0} orig={bl}", "KEPT" if good else "NOT KEPT", flush=True)
        if not good:
            print("   with:", w.stdout[-400:].replace("\n", " | ") if w.returncode in (0, 3) or w.returncode == 2 else "", "without:", wo.stdout[-400:].replace("\n", " | ") if wo.returncode else "")
        else:
            shutil.rmtree(d, ignore_errors=True); os.makedirs(SEED, exist_ok=True); shutil.copytree(tmpd, d)

def blame_ok(patch):
    """at least one removed line was in the original repository and none was added by a fix commit"""
    base = "8878e71"
    cur = None; ln = 0; removed = []; ctx = []
    for l in open(patch):
        if l.startswith("--- a/"): cur = l[6:].strip()
        elif l.startswith("@@"): ln = int(l.split()[1][1:].split(",")[0]) - 1
        elif l.startswith("-") and not l.startswith("---"): ln += 1; removed.append((cur, ln))
        elif l.startswith(" "): ln += 1
    if not removed: return "pure insertion"
    for f, n in removed:
        out = sh(["git", "-C", R, "blame", "-l", "-L", f"{n},{n}", "HEAD", "--", f]).stdout
        sha = out.split()[0].lstrip("^")
        if sh(["git", "-C", R, "merge-base", "--is-ancestor", sha, base]).returncode != 0 and sh(["git","-C",R,"rev-parse",base]).stdout.strip()!=sha:
            return f"line {n} is from {sha[:8]}"
    return True

def check(i, props):
    d = f"{SEED}/{i}"
    clean()
    if sh(["git", "-C", R, "apply", d + "/patch.diff"]).returncode: print(i, "does not apply"); return
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    for p in props:
        import time; t = time.time()
        r = sh(["python3", "run.py", p, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "what" in l][:1]
        print(f"{i} {p} rc={r.returncode} {time.time()-t:.0f}s {v[0][:200] if v else r.stdout[-200:]}", flush=True)
    clean()

if __name__ == "__main__":
    setup()
    if sys.argv[1] == "make": make(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "check":
        i = sys.argv[2]
        for j in (sorted(os.listdir(SEED)) if i == "all" else i.split(",")): check(j, sys.argv[3:])
    elif sys.argv[1] == "clean": clean()
