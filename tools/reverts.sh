#!/bin/bash
# Reverts each recorded fix in a scratch clone and runs the quick check of its property there (development only).
# reverts.sh SCRATCHDIR
d=$1; mkdir -p "$d"; [ -d "$d/repo" ] || git clone -q /repo "$d/repo"
mkdir -p "$d/harness"; cp -a /verif/harness/src /verif/harness/Cargo.* "$d/harness/"; cp -a /verif/vendor "$d/"
sed -i 's#path = "/repo"#path = "../repo"#' "$d/harness/Cargo.toml"
grep '^fixed:' /verif/known_findings.txt | while read -r _ p c _; do
    p=${p#property=}
    git -C "$d/repo" reset -q --hard origin/HEAD 2>/dev/null || git -C "$d/repo" reset -q --hard
    if ! git -C "$d/repo" revert -n "$c" >/dev/null 2>&1; then echo "$p $c conflict"; git -C "$d/repo" reset -q --hard; continue; fi
    if ! (cd "$d/harness" && cargo build --release --offline -q 2>/dev/null); then echo "$p $c nobuild"; git -C "$d/repo" reset -q --hard; continue; fi
    VERIF_ROOT=$d timeout 900 "$d/harness/target/release/kmc" check "$p" quick >"$d/out" 2>/dev/null; echo "$p $c rc=$? $(grep -m1 -c VIOLATION "$d/out")"
    git -C "$d/repo" reset -q --hard
done
