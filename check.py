#!/usr/bin/env python3
"""Driver: check.py <property> [--tier quick|thorough] [--keep]

Builds the harness against /repo's working tree, records executions of the real code, and has TLC
check every recorded execution against the TLA+ specification of the property; also model-checks
the property's design models.  Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: tool error.
"""
import argparse, collections, concurrent.futures as cf, hashlib, itertools, json, os, random, re, resource
import shutil, subprocess, sys, tempfile, time
from pathlib import Path

ROOT = Path(__file__).resolve().parent
SPEC = ROOT / "spec"
HARNESS = ROOT / "harness"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, str(ROOT))
from plan import PLAN  # noqa: E402


DEFAULT = ["fb", "fullns"]


class ToolError(Exception):
    pass


def cpu_level():
    flags = ""
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                flags = line
                break
    except OSError:
        pass
    need = "avx2 bmi1 bmi2 fma movbe abm f16c avx512f avx512bw avx512cd avx512dq avx512vl".split()
    have = set(flags.split())
    return "x86-64-v4" if all(f in have for f in need) else "x86-64"


V4 = cpu_level()
# name -> (target-cpu, release?, cargo features)
CONFIGS = {
    "fb": ("x86-64", False, ""),            # portable code paths, debug assertions, overflow checks
    "full": (V4, True, "simd,bp16"),        # all hardware paths, optimised
    "fullns": (V4, True, "simd"),           # as full, small lookup table (bins that have no tree)
    "rel": ("x86-64", True, "bp16"),
    "dbg": (V4, False, "simd"),
    "mem": ("x86-64", False, "memdbg"),     # with the optional mem_dbg feature
}
# a configuration whose dependency or derives may be missing: left out if it does not build
OPTIONAL = {"mem"}


def env_base():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", HOME="/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + e.get("PATH", "")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTFLAGS", "JAVA_TOOL_OPTIONS"):
        e.pop(k, None)
    return e


def build(cfg, bins, ser):
    cpu, release, feats = CONFIGS[cfg]
    fl = [f for f in feats.split(",") if f] + (["ser"] if ser else [])
    tgt = ROOT / "target" / (cfg + ("-ser" if ser else ""))
    e = env_base()
    e["RUSTFLAGS"] = f"-C target-cpu={cpu} -A warnings"
    e["CARGO_TARGET_DIR"] = str(tgt)
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", str(HARNESS / "Cargo.toml")]
    for b in bins:
        cmd += ["--bin", b]
    if release:
        cmd.append("--release")
    if fl:
        cmd += ["--features", ",".join(fl)]
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise ToolError(f"harness does not build in config {cfg}:\n{p.stdout[-4000:]}")
    return tgt / ("release" if release else "debug")


def limit_mem():
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def record(exe, cmd, out, seed, thorough, shards, extra, tmo):
    a = [str(exe), cmd, str(out), "--seed", str(seed), "--shards", str(shards)]
    if thorough:
        a.append("--thorough")
    a += extra
    try:
        p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limit_mem, timeout=tmo)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = -999
    files = sorted(out.parent.glob(out.name + ".*.ndjson"), key=lambda f: int(f.name.split(".")[-2]))
    if rc not in (0, 42):
        # died on a signal / abort, or did not end: the last event is the crash itself
        if not files:
            raise ToolError(f"recorder {exe} {cmd} failed: {p.stderr[-2000:]}")
        last = max(files, key=lambda f: f.stat().st_mtime_ns)
        data = last.read_bytes()
        if data and not data.endswith(b"\n"):
            data = data[: data.rfind(b"\n") + 1]
        last.write_bytes(data + json.dumps({"op": "Crash", "rc": rc}).encode() + b"\n")
    return files


def tlc(module, cfg, tmp, env=None, workers=1, xmx="3g", tmo=800, extra=()):
    d = Path(tempfile.mkdtemp(prefix="tlc.", dir=tmp))
    e = env_base()
    e.update(env or {})
    cmd = ["java", "-Xss512m", f"-Xmx{xmx}", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           f"-Djava.io.tmpdir={d}", "-cp", CP, "tlc2.TLC", "-metadir", str(d / "md"), "-workers", str(workers),
           "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module} {cfg}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return p.stdout


def counts(out):
    m = re.findall(r"(\d+) states generated(?: \(.*?\))?, (\d+) distinct states", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def validate(module, trace, tmp, retry=2):
    """returns (verdict, failing event number, transitions, states, output)"""
    n = sum(1 for _ in open(trace, "rb"))
    if n == 0:
        return ("ok", 0, 0, 0, "")
    out = tlc(module, module + ".cfg", tmp, {"TRACE": str(trace)})
    g, d = counts(out)
    if "No error has been found" in out:
        return ("ok", 0, g, d, out)
    if "POSTCONDITION" in out.upper() and ("violated" in out or "false" in out.lower()):
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            return ("rejected", int(m.group(1)), g, d, out)
    m = re.findall(r"l = (\d+)", out)
    if ("Error:" in out and m and "OutOfMemory" not in out and "StackOverflow" not in out):
        # the event's fields cannot even be interpreted (results outside every type the spec knows)
        return ("rejected", int(m[-1]), g, d, out)
    if "Attempted to" in out or "evaluating" in out:
        return ("rejected", 1, g, d, out)
    if retry:
        return validate(module, trace, tmp, retry - 1)
    i = max(out.find("Error:"), 0)
    raise ToolError(f"TLC failed on {module} {trace}:\n{out[i:i + 2500]}")


def episode_of(trace, idx):
    """events of the episode that contains event number idx (1-based), up to and including it"""
    ev = []
    with open(trace) as f:
        for i, line in enumerate(f, 1):
            if line.startswith('{"op":"Episode"'):
                ev = []
            ev.append(line)
            if i == idx:
                break
    return ev


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-models", action="store_true")
    a = ap.parse_args()
    prop, thorough = a.prop, a.tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = PLAN[prop]
    tmp = Path(tempfile.mkdtemp(prefix=f"vcheck-{prop}-"))
    try:
        rc = run(prop, plan, thorough, seed, tmp, t0, a)
    except ToolError as ex:
        print(f"TOOL-ERROR property={prop}: {ex}")
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print("kept", tmp)
    sys.exit(rc)


def run(prop, plan, thorough, seed, tmp, t0, a):
    units = plan["units"]
    cfgs = plan.get("configs", DEFAULT)
    ser = plan.get("ser", False)
    bins = sorted({u["bin"] for u in units})
    ex = cf.ThreadPoolExecutor(8)
    # design models and behaviour generation start while the harness builds
    models = [] if a.no_models else [m for m in plan.get("models", []) if thorough or not m.get("thorough_only")]
    genf = {}
    for u in units:
        if "gen" in u and u["gen"]["module"] not in genf:
            g = u["gen"]
            genf[g["module"]] = ex.submit(generate, g, thorough, seed, tmp)
    bf = {c: ex.submit(build, c, bins, ser) for c in cfgs}
    mf = []
    for m in models:
        cfg = m.get("thorough", m["cfg"]) if thorough else m["cfg"]
        mf.append((m, cfg, ex.submit(tlc, m["module"], cfg, tmp, None, m.get("workers", 2), m.get("xmx", "4g"), 840)))
    dirs = {}
    for c, f in bf.items():
        try:
            dirs[c] = f.result()
        except ToolError as e:
            if c not in OPTIONAL:
                raise
            print(f"{prop}: configuration {c} left out, it does not build: {str(e)[-300:]}")
    cfgs = [c for c in cfgs if c in dirs]
    gens = {k: f.result() for k, f in genf.items()}
    t_build = time.time() - t0

    # record
    shards = 16 if thorough else 8
    rf = {}
    for u in units:
        for c in u.get("configs", cfgs):
            extra = ["--input", str(gens[u["gen"]["module"]])] if "gen" in u else []
            out = tmp / f"{u['bin']}-{u['cmd']}-{c}"
            rf[(id(u), c)] = ex.submit(record, dirs[c] / u["bin"], u["cmd"], out, seed, thorough,
                                       u.get("shards", shards), extra, 2400 if thorough else 300)
    recs = {k: f.result() for k, f in rf.items()}
    t_rec = time.time() - t0

    # validate: byte-identical traces of several configurations are validated once
    jobs, seen, nident = [], {}, 0
    if plan.get("cross"):
        jobs = merge(units, cfgs, recs, tmp)
    for u in [] if plan.get("cross") else units:
        for c in u.get("configs", cfgs):
            for f in recs[(id(u), c)]:
                h = (u["spec"], hashlib.sha256(f.read_bytes()).hexdigest())
                if h in seen:
                    nident += 1
                    continue
                seen[h] = f
                jobs.append((u, c, f))
    jobs.sort(key=lambda j: -j[2].stat().st_size)
    vf = [(u, c, f, ex.submit(validate, u["spec"], f, tmp)) for u, c, f in jobs]
    viol = []
    trans = states = traces = events = 0
    ops = collections.Counter()
    samples = []
    extra_cov = {}
    for u, c, f, fut in vf:
        verdict, idx, g, d, out = fut.result()
        trans += g
        states += d
        rng = random.Random(seed)
        neps, pool = 0, []
        with open(f) as fh:
            for line in fh:
                events += 1
                op = line[7:line.find('"', 7)]
                ops[op] += 1
                if op == "Episode":
                    neps += 1
                elif len(line) < 400 and len(pool) < 200:
                    pool.append(line)
        if verdict == "ok":
            traces += neps
            if pool and len(samples) < 6:
                samples.append({"config": c, "spec": u["spec"], "event": json.loads(rng.choice(pool))})
        else:
            viol.append((u, c, f, idx, out))
    mstates = mtrans = 0
    mods = []
    for m, cfg, fut in mf:
        out = fut.result()
        g, d = counts(out)
        # a "refuted" model is a design known to be wrong: TLC has to find that out
        ok = (f"Invariant {m['refuted']} is violated" if "refuted" in m else "No error has been found") in out
        mods.append({"module": m["module"], "config": cfg, "distinct_states": d, "states_generated": g, "ok": ok,
                     **({"refuted": True} if "refuted" in m else {})})
        mstates += d
        mtrans += g
        if not ok:
            raise ToolError(f"design model {m['module']} {cfg} failed:\n{out[-3000:]}")
    ex.shutdown()
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states + mstates, "transitions": trans + mtrans,
            "traces_validated_against_impl": traces,
            "trace_events": events, "events_by_operation": dict(ops.most_common()),
            "identical_traces_of_other_configurations": nident,
            "configurations": cfgs, "design_models": mods,
            "samples": samples or [{"note": "no accepted trace"}],
            "exhaustive": False,
            **extra_cov,
        },
        "assumptions": plan.get("assumptions", []) + [
            "the recorder logs arguments and results faithfully (harness/src), TLC evaluates the specification correctly",
            "single-threaded executions of the x86-64 builds named under configurations"],
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop}: {traces} executions, {events} events accepted-checked by {sorted({u['spec'] for u, _, _ in jobs})}, "
          f"{len(mods)} design models ({mstates} states); build {t_build:.1f}s record {t_rec - t_build:.1f}s total {wall:.1f}s")
    if not viol:
        return 0
    (ROOT / "replays").mkdir(exist_ok=True)
    for k, (u, c, f, idx, out) in enumerate(viol[:5]):
        rp = ROOT / "replays" / f"{prop}-{c}-{k}.json"
        evs = episode_of(f, idx) if idx else []
        rp.write_text(json.dumps({
            "property": prop, "config": c, "recorder": f"{u['bin']} {u['cmd']}", "seed": seed, "spec": u["spec"],
            "rejected_event": json.loads(evs[-1]) if evs else None,
            "episode_up_to_rejection": [json.loads(x) for x in evs[:-1]][-50:] if evs else [],
            "tlc": out[-2500:]}, indent=0))
        s = evs[-1].strip()[:600] if evs else out[-600:]
        print(f"  rejected by {u['spec']} in config {c}, event {idx}: {s}")
        print(f"VIOLATION property={prop} replay={rp}")
    return 1


def generate(g, thorough, seed, tmp):
    """behaviours of the specification, produced by TLC, to be replayed into the code"""
    out = tmp / f"gen-{g['module']}.ndjson"
    num = g.get("num_thorough", g["num"]) if thorough else g["num"]
    cfg = g.get("cfg_thorough", g["cfg"]) if thorough else g["cfg"]
    ext = []
    if g.get("simulate", True):
        ext = ["-simulate", f"num={num}", "-depth", str(g["depth"]), "-seed", str(seed)]
    o = tlc(g["module"], cfg, tmp, {"GEN_OUT": str(out)}, 1, "3g", 600, ext)
    if not out.exists() or out.stat().st_size == 0:
        # behaviours are printed, one JSON text per line, when the module does not write a file
        lines = [l for l in o.splitlines() if l.startswith('"[') or l.startswith("[{") or l.startswith('"{')]
        with open(out, "w") as f:
            for l in dict.fromkeys(lines):
                f.write((json.loads(l) if l.startswith('"') else l) + "\n")
        if not lines:
            raise ToolError(f"no behaviours from {g['module']}:\n{o[-2000:]}")
    return out


def merge(units, cfgs, recs, tmp):
    """one trace per shard with the events of all configurations side by side"""
    jobs = []
    for k, u in enumerate(units):
        cs = u.get("configs", cfgs)
        for i in range(len(recs[(id(u), cs[0])])):
            out = tmp / f"merged-{k}-{i}.ndjson"
            with open(out, "w") as o:
                fs = [open(recs[(id(u), c)][i]) for c in cs]
                for ls in itertools.zip_longest(*fs, fillvalue='{"op":"Missing"}'):
                    op = ls[0][7:ls[0].find('"', 7)]
                    o.write('{"op":"' + op + '","c":[' + ",".join(x.rstrip("\n") for x in ls) + "]}\n")
                for f in fs:
                    f.close()
            jobs.append(({**u, "spec": "ConfigTrace"}, "+".join(cs), out))
    return jobs


if __name__ == "__main__":
    main()
