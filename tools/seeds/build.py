#!/usr/bin/env python3
"""Regenerates /verif/seeded/<id>/ from specs.py: build.py [id...]  (each is checked in a scratch copy of /repo)"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
out = os.path.join(os.path.dirname(os.path.dirname(here)), "seeded")
from specs import SEEDS
want = sys.argv[1:]
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
scratch = tempfile.mkdtemp(prefix="seed_"); repo = scratch + "/repo"
try:
    assert sh(f"cp -a /repo {repo} && git -C {repo} status --short").stdout.strip() == ""
    for s in SEEDS:
        if want and s["id"] not in want: continue
        if not want and os.path.exists(f"{out}/{s['id']}/patch.diff") and sh(f"git -C {repo} apply --check {out}/{s['id']}/patch.diff").returncode == 0: continue
        for f, old, new in s["edits"]:
            p = f"{repo}/{f}"; t = open(p).read()
            n = t.count(old)
            assert n == s.get("count", 1) or s.get("nth") is not None, (s["id"], f, n, old)
            if s.get("nth") is not None:
                i = -1
                for _ in range(s["nth"] + 1): i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            else: t = t.replace(old, new)
            open(p, "w").write(t)
        d = f"{out}/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh(f"git -C {repo} diff").stdout)
        open(d + "/main.rs", "w").write(s["demo"])
        if "mod mock" in s["demo"]: shutil.copy(here + "/mock.rs", d)
        shutil.copy(here + "/demo.sh", d); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        # original lines only
        sh(f"git -C {repo} commit -qam x")
        b = sh(f"cargo test --offline --quiet --lib -- --test-threads 1 --skip transport 2>&1 | tail -30", cwd=repo)
        bad = sh(f"bash {d}/demo.sh", cwd=repo)
        sh(f"git -C {repo} reset -q --hard HEAD~1")
        good = sh(f"bash {d}/demo.sh", cwd=repo)
        fails = [l for l in b.stdout.splitlines() if "FAILED" in l or "error" in l]
        print(s["id"], s["property"], "patched demo:", bad.returncode, bad.stdout.strip()[-150:].replace("\n", " | "), "; plain demo:", good.returncode, good.stdout.strip()[-200:], "; tests:", fails[-1:] , flush=True)
finally:
    shutil.rmtree(scratch)
