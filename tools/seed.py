#!/usr/bin/env python3
"""seed.py add FILE.py   -- FILE defines SEEDS: list of dicts id, property, file(s) edits, demo, needs, breaks
   seed.py confirm ID..  -- apply to /repo: build, stable tests, demo both ways
   seed.py catch ID..    -- apply to /repo, run the property's check, undo
Everything it does in /repo is undone.  Works on a clean /repo only."""
import json, subprocess, sys, importlib.util, shutil, time
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
SEEDED = ROOT / "seeded"
DEMO = '''#!/bin/bash
# cwd /repo: build the library and main.rs outside the repository, run main.rs
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:$PATH
F="--edition 2021 -A warnings -L $T @FLAGS@"
rustc $F --crate-type rlib --crate-name vers_vecs src/lib.rs -o "$T/libvers_vecs.rlib" || exit 2
rustc $F --crate-name demo "$D/main.rs" --extern vers_vecs="$T/libvers_vecs.rlib" -o "$T/demo" || exit 2
timeout 250 "$T/demo"
'''
SERDEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:$PATH
mkdir "$T/src" && cp "$D/main.rs" "$T/src/main.rs"
printf '[package]\\nname="demo"\\nversion="0.1.0"\\nedition="2021"\\n[dependencies]\\nvers-vecs={path="%s",features=["serde"]}\\nserde_json="1"\\n[workspace]\\n' "$PWD" > "$T/Cargo.toml"
CARGO_TARGET_DIR="$T/target" timeout 280 cargo run --offline --quiet --manifest-path "$T/Cargo.toml"
'''
OPT = {"": "-O", "dbg": "-C opt-level=1 -C debug-assertions=on -C overflow-checks=on",
       "simd": "-O -C target-cpu=x86-64-v4 --cfg feature=\"simd\"", "v4": "-O -C target-cpu=x86-64-v4",
       "bp16": "-O --cfg feature=\"bp_u16_lookup\""}
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    assert sh("git -C /repo status --porcelain").stdout == "", "/repo not clean"
def undo():
    sh("git -C /repo checkout -- .")
def add(path):
    spec = importlib.util.spec_from_file_location("s", path); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for s in m.SEEDS:
        clean()
        d = SEEDED / s["id"]; d.mkdir(parents=True, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = Path("/repo") / f; t = p.read_text()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                p.write_text(t.replace(old, new))
            (d / "patch.diff").write_text(sh("git -C /repo diff").stdout)
        finally:
            undo()
        (d / "main.rs").write_text(s["demo"])
        (d / "demo.sh").write_text(SERDEMO if s.get("cfg") == "ser" else DEMO.replace("@FLAGS@", OPT[s.get("cfg", "")].replace('"', '\\"')))
        (d / "demo.sh").chmod(0o755)
        (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        print("added", s["id"])
    return [s["id"] for s in m.SEEDS]
def stable():
    o = "/tmp/seed-tests.json"
    sh(f"bash /opt/vp/test.sh {o}")
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    r = json.load(open(o)); ok = set(r["passed"])
    return [x for x in base if x not in ok]
def original(d):
    """the patch must change lines of the original repository"""
    f, n, bad = None, 0, 0
    import re
    for l in (d / "patch.diff").read_text().splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            b = sh(f"git -C /repo blame -l -L {n},{n} -- {f}").stdout
            if not b.startswith("^") and not b.startswith(BASE): bad += 1
            n += 1
        elif l.startswith(" "): n += 1
    return bad
BASE = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
def confirm(i):
    clean(); d = SEEDED / i
    if original(d): print(i, "touches", original(d), "lines of our own commits")
    g = sh(f"bash {d}/demo.sh", cwd="/repo")
    try:
        a = sh(f"git -C /repo apply {d}/patch.diff")
        if a.returncode: print(i, "DOES NOT APPLY", a.stdout); return False
        b = sh(f"bash {d}/demo.sh", cwd="/repo")
        miss = stable()
    finally:
        undo()
    ok = g.returncode == 0 and b.returncode not in (0, 2) and not miss
    print(i, "CONFIRMED" if ok else "BAD", f"clean={g.returncode} patched={b.returncode} tests_broken={len(miss)}", "" if ok else (miss[:4], g.stdout[-1500:], b.stdout[-1500:]))
    return ok
def catch(i, props=None):
    clean(); d = SEEDED / i; p = json.load(open(d / "meta.json"))["property"]
    try:
        a = sh(f"git -C /repo apply {d}/patch.diff"); assert a.returncode == 0, a.stdout
        for q in props or [p]:
            t = time.time(); r = sh(f"python3 check.py {q}", cwd=ROOT)
            hit = r.returncode == 1 and f"VIOLATION property={q}" in r.stdout
            print(i, q, "CAUGHT" if hit else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", flush=True)
            if hit: print("   ", next(l for l in r.stdout.splitlines() if "rejected" in l)[:220], flush=True)
            elif r.returncode == 2: print(r.stdout[-1500:])
    finally:
        undo()
c, *xs = sys.argv[1:]
if c == "add":
    ids = [i for x in xs for i in add(x)]
    for i in ids: confirm(i)
elif c == "confirm":
    for i in xs or sorted(p.name for p in SEEDED.iterdir()): confirm(i)
elif c == "catch":
    for i in xs or sorted(p.name for p in SEEDED.iterdir()): catch(i)
