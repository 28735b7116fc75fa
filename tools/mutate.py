#!/usr/bin/env python3
"""Mutation sweep over /repo's sources, for developing the checker: mutate.py OUTDIR WORKERS MAX [file-regex] [seed]
Every mutant is one textual edit; the checker (micro bounds) runs against it; survivors are listed with their diff."""
import os, re, random, shutil, subprocess, sys, threading, queue
out, nw, mx = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); frx = sys.argv[4] if len(sys.argv) > 4 else "."; seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
CH = {"addresses": ["C07", "C06"], "apdu": ["C06", "C05", "C01"], "tpdu": ["C06", "C05", "C01"], "core": ["C02", "C04", "C01", "C22", "C11"], "emi": ["C05", "C06", "C01", "C13"],
      "tunneling": ["C03", "C01", "C11", "C23"], "dp_types": ["C08", "C09", "C10", "C01", "C06"],
      "udp": ["C11", "C18", "C25", "C17", "C12", "C15", "C14", "C19", "C24", "C16", "C20", "C21", "C22", "C26", "C06", "C03"],
      "udp_monitor": ["C23", "C13", "C11", "C18", "C17", "C19", "C12", "C25", "C16", "C21", "C26", "C06"]}
files = [f for f in subprocess.check_output("cd /repo && git ls-files 'src/**/*.rs' 'src/*.rs'", shell=True, text=True).split() if re.search(frx, f) and os.path.basename(f)[:-3] in CH]
def muts(line):
    s = line.strip(); r = []
    if not s or s.startswith(("//", "#", "use ", "debug!", "info!", "warn!", "trace!", "pub struct", "pub enum", "impl", "mod ", "pub mod", "type ", "pub type", "}", ")")): return r
    def sub(rx, f):
        for m in re.finditer(rx, line):
            n = f(m)
            for x in (n if isinstance(n, list) else [n]):
                r.append(line[:m.start()] + x + line[m.end():])
    code = line.split('"')[0] if '"' in line else line
    def num(m):
        t = m.group(0); b = int(t, 0) if not t.startswith("0b") else int(t[2:], 2)
        return [str(x) for x in {b + 1, b - 1, b ^ 0x40 if b > 2 else b + 2} if x >= 0 and x != b]
    if "const " not in line or True: sub(r'(?<![\w.])(0x[0-9a-fA-F]+|0b[01]+|\d+)(?![\w.])', num)
    sub(r'(?<![=!<>])==(?!=)', lambda m: "!="); sub(r'!=', lambda m: "==")
    sub(r' <= ', lambda m: [" < ", " > "]); sub(r' >= ', lambda m: [" > ", " < "]); sub(r' < ', lambda m: [" <= ", " > "]); sub(r' > ', lambda m: [" >= ", " < "])
    sub(r'&&', lambda m: "||"); sub(r'\|\|(?! )', lambda m: "||"); sub(r' \|\| ', lambda m: " && ")
    sub(r' \+ ', lambda m: " - "); sub(r' - ', lambda m: " + "); sub(r' << ', lambda m: " >> "); sub(r' >> ', lambda m: " << "); sub(r' & ', lambda m: " | "); sub(r' \| ', lambda m: " & "); sub(r'\|=', lambda m: "=")
    sub(r'\btrue\b', lambda m: "false"); sub(r'\bfalse\b', lambda m: "true"); sub(r'\bcontinue\b', lambda m: "break"); sub(r'\bbreak\b(?! [\'O])', lambda m: "continue")
    sub(r"break 'main", lambda m: "break"); sub(r'BigEndian', lambda m: "byteorder::LittleEndian"); sub(r'\.wrapping_add\(1\)', lambda m: [".saturating_add(1)", ".wrapping_add(2)"])
    sub(r'wrapping_add', lambda m: "saturating_add"); sub(r'\.round\(\)', lambda m: [".floor()", ".trunc()"]); sub(r'\.is_some\(\)', lambda m: ".is_none()"); sub(r'\.is_none\(\)', lambda m: ".is_some()"); sub(r'\.is_ok\(\)', lambda m: ".is_err()"); sub(r'\.is_err\(\)', lambda m: ".is_ok()")
    sub(r' if [^=].*(?= => )', lambda m: ""); sub(r'!(?=\w)(?<!\w!)', lambda m: "")
    sub(r'from_secs', lambda m: "from_millis"); sub(r'\bi16\b', lambda m: "u16"); sub(r'\bu16\b', lambda m: "u8"); sub(r'MissedTickBehavior::Delay', lambda m: ["MissedTickBehavior::Skip", "MissedTickBehavior::Burst"]); sub(r'\bmin\b', lambda m: "max"); sub(r'\bmax\b', lambda m: "min")
    if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "const ", "use ")): r.append("\n")
    if s.startswith(("ensure_whatever!", "whatever!")) and s.endswith(";"): r.append("\n")
    return [x for x in dict.fromkeys(r) if x != line]
M = []
for f in files:
    L = open("/repo/" + f).read().split("\n"); stop = next((i for i, l in enumerate(L) if "#[cfg(test)]" in l and "mod" in (L[i + 1] if i + 1 < len(L) else "")), len(L))
    for i, l in enumerate(L[:stop]):
        for x in muts(l + "\n"): M.append((f, i, l, x.rstrip("\n")))
random.Random(seed).shuffle(M); print(len(M), "mutants, taking", min(mx, len(M)), flush=True); M = M[:mx]
q = queue.Queue(); [q.put(m) for m in enumerate(M)]
lock = threading.Lock(); stat = dict(nobuild=0, caught=0, survived=0)
def worker(k):
    d = f"{out}/w{k}"; os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/repo"):
        subprocess.check_call(f"git clone -q /repo {d}/repo && mkdir -p {d}/harness && cp -a /verif/harness/src /verif/harness/Cargo.* {d}/harness/ && cp -a /verif/vendor {d}/", shell=True)
    subprocess.check_call(f"git -C {d}/repo pull -q; cp -a /verif/harness/src /verif/harness/Cargo.* {d}/harness/; sed -i 's#path = \"/repo\"#path = \"../repo\"#' {d}/harness/Cargo.toml", shell=True)
    cb = 2 * k + int(os.environ.get("CPU_BASE", "0")); cpu = f"{cb}-{cb+1}"
    while True:
        try: n, (f, i, old, new) = q.get_nowait()
        except queue.Empty: return
        subprocess.call(f"git -C {d}/repo checkout -q -- .", shell=True)
        p = f"{d}/repo/{f}"; L = open(p).read().split("\n"); assert L[i] == old; L[i] = new; open(p, "w").write("\n".join(L))
        b = subprocess.run(f"cd {d}/harness && taskset -c {cpu} nice cargo build --release --offline -q 2>&1 | grep -m1 '^error'", shell=True, stdout=subprocess.PIPE, text=True)
        res = "nobuild"; by = ""
        if not b.stdout.strip():
            res = "survived"
            for c in CH[os.path.basename(f)[:-3]]:
                env = dict(os.environ, KMC_MICRO="1", KMC_LIMIT_S="60", VERIF_ROOT=d)
                r = subprocess.run(f"taskset -c {cpu} nice timeout 120 {d}/harness/target/release/kmc check {c} quick", shell=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
                if r.returncode != 0: res = "caught"; by = f"{c} rc={r.returncode}"; break
        with lock:
            stat[res] += 1
            with open(out + "/log.txt", "a") as o: o.write(f"{res} {by} {f}:{i+1}\n  - {old.strip()}\n  + {new.strip()}\n")
            if res == "survived":
                with open(out + "/survivors.txt", "a") as o: o.write(f"{f}:{i+1}\n  - {old.strip()}\n  + {new.strip()}\n")
            if n % 20 == 0: print(n, stat, flush=True)
T = [threading.Thread(target=worker, args=(k,)) for k in range(nw)]; [t.start() for t in T]; [t.join() for t in T]
print(stat)
for k in range(nw): shutil.rmtree(f"{out}/w{k}", ignore_errors=True)
