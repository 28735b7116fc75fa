#!/usr/bin/env python3
"""Idea bugs (edits only), for developing the checks: run.py SCRATCH SPEC.py [name...]   each: clone of /repo + edit, its property's quick check must report a violation.
env CPUS (default 0-7), TESTS=1: also run the stable tests"""
import importlib.util, os, subprocess, sys, time
sc, spec = sys.argv[1:3]; want = sys.argv[3:]
m = importlib.util.module_from_spec(importlib.util.spec_from_file_location("s", spec)); m.__spec__.loader.exec_module(m)
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
cpus = os.environ.get("CPUS", "0-7")
os.makedirs(sc, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
if not os.path.exists(sc + "/repo"): assert sh(f"git clone -q /repo {sc}/repo").returncode == 0
sh(f"git -C {sc}/repo checkout -q -- . && git -C {sc}/repo pull -q")
sh(f"mkdir -p {sc}/harness; rm -rf {sc}/harness/src {sc}/vendor; cp -a {root}/harness/src {root}/harness/Cargo.* {sc}/harness/ && cp -a {root}/vendor {sc}/ && sed -i 's#path = \"/repo\"#path = \"../repo\"#' {sc}/harness/Cargo.toml")
for x in m.IDEAS:
    name, props, edits = x[0], x[1], x[2]
    if want and name not in want: continue
    sh(f"git -C {sc}/repo checkout -q -- .")
    bad = ""
    for f, old, new, *nth in edits:
        p = f"{sc}/repo/{f}"; t = open(p).read(); n = t.count(old)
        if n == 0 or (n > 1 and not nth): bad = f"{n} matches of {old[:50]!r}"; break
        if nth and nth[0] is not None and nth[0] != "all":
            i = -1
            for _ in range(nth[0] + 1): i = t.index(old, i + 1)
            t = t[:i] + new + t[i + len(old):]
        else: t = t.replace(old, new)
        open(p, "w").write(t)
    if bad: print(f"{name:28} EDIT {bad}", flush=True); continue
    b = sh(f"cd {sc}/harness && taskset -c {cpus} cargo build --release --offline -q 2>&1 | grep -A7 -m3 '^error'")
    if b.stdout.strip(): print(f"{name:28} NOBUILD {b.stdout.strip()[:600]}", flush=True); continue
    res = []
    if os.environ.get("TESTS"):
        r = sh(f"cd {sc}/repo && cargo test --offline --quiet --lib 2>&1 | grep -E '^test result|FAILED|failed' | head -5"); res.append(r.stdout.strip().replace("\n", " | "))
    for p in props.split():
        t = time.time(); r = sh(f"taskset -c {cpus} timeout 2500 {sc}/harness/target/release/kmc check {p} quick 2>&1", env=dict(os.environ, VERIF_ROOT=sc, **({"KMC_LIMIT_S": "2400"} if p == "ALL" else {})))
        rc = r.returncode; why = [l for l in r.stdout.splitlines() if "VIOLATION" not in l and l.strip()]
        res.append(f"{p}={'caught' if rc == 1 else 'MISSED' if rc == 0 else 'rc' + str(rc)} {time.time()-t:.0f}s {(why[0] if why else '')[:140]}")
    print(f"{name:28} " + "  ".join(res), flush=True)
sh(f"git -C {sc}/repo checkout -q -- .")
