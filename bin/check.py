#!/usr/bin/env python3
"""Decide one property: build the code under test to whole-program LLVM IR, execute its harnesses symbolically,
replay every counterexample against the natively compiled code, write evidence.

usage: check.py <PROPERTY> [quick|thorough]
exit 0 held within bounds, 1 violated (VIOLATION line), 2 no verdict (engine limit, timeout, non-reproducing counterexample)
"""
import sys, os, json, subprocess, hashlib, time, re, fcntl, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
W = os.path.join(V, ".work")
def sh(cmd, **k): return subprocess.run(cmd, **k)
def log(*a): print(*a, file=sys.stderr, flush=True)
def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        fs = [base] if os.path.isfile(base) else sorted(os.path.join(d, f) for d, ds, fl in os.walk(base) if "/target" not in d and "/.git" not in d for f in fl)
        for f in fs:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()
def die(msg): print("INCONCLUSIVE: " + msg, flush=True); sys.exit(2)

def build_engine():
    out = os.path.join(V, "engine/build")
    with open(os.path.join(W, "engine.lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j8", "-C", os.path.join(V, "engine"), "OUT=" + out], capture_output=True, text=True)
        if r.returncode: die("engine build failed:\n" + r.stderr[-3000:])
    return os.path.join(out, "symx")

def build_module(feature):
    d = os.path.join(W, feature); os.makedirs(d, exist_ok=True)
    ll, exe = os.path.join(d, "module.ll"), os.path.join(d, "replay")
    key = tree_hash([REPO + "/svd-rs", REPO + "/svd-parser", REPO + "/svd-encoder", V + "/harness/src", V + "/harness/replay.c", V + "/harness/Cargo.toml", V + "/harness/Cargo.lock"])
    with open(os.path.join(W, "build.lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        kf = os.path.join(d, "key")
        if os.path.exists(kf) and open(kf).read() == key and os.path.exists(ll) and os.path.exists(exe): return ll, exe
        for f in (kf, ll, exe):
            if os.path.exists(f): os.remove(f)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -A warnings", CARGO_INCREMENTAL="0")
        for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"): env.pop(k, None)
        ro = os.path.join(d, "replay.o")
        sh(["gcc", "-O1", "-c", V + "/harness/replay.c", "-o", ro], check=True)
        t = os.path.join(W, "target")
        # stale fingerprints must never hide a source change: drop the fingerprints of the crates under test
        for g in glob.glob(t + "/release/.fingerprint/*"):
            if re.match(r"(svd-|harness-)", os.path.basename(g)): shutil.rmtree(g, ignore_errors=True)
        r = sh(["cargo", "rustc", "-q", "--release", "--offline", "--locked", "--target-dir", t, "--features", feature, "--bin", "harness", "--", "--emit=llvm-ir=" + ll + ",link", "-C", "link-arg=" + ro],
               cwd=V + "/harness", env=env, capture_output=True, text=True)
        if r.returncode: die("harness build failed:\n" + r.stderr[-6000:])
        shutil.copy(t + "/release/harness", exe)
        open(kf, "w").write(key)
    return ll, exe

def replay(exe, h, f, limit=60):
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)); resource.setrlimit(resource.RLIMIT_CPU, (limit, limit))
    try:
        r = sh([exe, h], env=dict(os.environ, SYMX_IN=f, RUST_BACKTRACE="0"), capture_output=True, text=True, errors="replace", timeout=limit + 5, preexec_fn=lim)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return -9, "", "TIMEOUT"

def parse_case(f):
    d = {"kind": "", "msg": "", "at": [], "inputs": [], "observed": []}; sec = None
    for line in open(f, errors="replace"):
        line = line.rstrip("\n")
        if line in ("inputs", "observed"): sec = line; continue
        if sec: d[sec].append(line)
        elif line.startswith("kind "): d["kind"] = line[5:]
        elif line.startswith("msg "): d["msg"] = line[4:]
        elif line.startswith("at "): d["at"].append(line[3:])
    return d
def inputs_file(case, path):
    with open(path, "w") as o: o.write("\n".join(case["inputs"]) + "\n")
    return path

def demangle(names):
    r = sh(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return r.stdout.split("\n") if r.returncode == 0 else names

def load_cfg(prop):
    """checks.json entry, completed from the harness source: harness order, doc comment = bounds of one harness, cover(k) literals = points that must be reached"""
    cfg = json.load(open(V + "/checks.json"))[prop]
    src = open(f"{V}/harness/src/{cfg['feature']}.rs").read()
    src = src[src.index("harness! {"):]
    found = re.split(r"^((?:///[^\n]*\n)*)(h_\w+) \{", src, flags=re.M)[1:]
    hs = {found[i + 1]: (" ".join(x.strip("/ ") for x in found[i].split("\n")).strip(), found[i + 2]) for i in range(0, len(found), 3)}
    mine = [h for h in hs if h.startswith("h_" + prop.lower() + "_")]
    th = cfg.get("thorough", [])
    skip = set(th) | {k["harness"] for k in json.load(open(V + "/known_findings.json"))["findings"]}
    cfg.setdefault("harnesses", [h for h in mine if h not in skip])
    base = cfg["bounds"].get("*", "")
    cfg["bounds"] = {"*": base, **{h: cfg["bounds"].get(h, hs[h][0] or base) for h in mine}}
    cfg["covers"] = {h: cfg.get("covers", {}).get(h, sorted({int(k) for k in re.findall(r"\bcover\((\d+)\)", hs[h][1])})) for h in mine}
    return cfg

def main():
    t0 = time.time()
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    cfg = load_cfg(prop)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(W, exist_ok=True); ev = V + "/evidence"; os.makedirs(ev, exist_ok=True)
    evf = f"{ev}/{prop}.json"
    if os.path.exists(evf): os.remove(evf)
    symx = build_engine(); ll, exe = build_module(cfg["feature"])
    tb = time.time()
    hs = list(cfg["harnesses"]) + (list(cfg.get("thorough", [])) if tier == "thorough" else [])
    kfs = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == prop]
    for k in kfs:
        if k["harness"] not in hs: hs.append(k["harness"])
    out = os.path.join(W, f"run-{prop}-{os.getpid()}"); os.makedirs(out)
    tl = cfg.get("timeout", {}).get(tier, 780 if tier == "quick" else 7200)
    cmd = [symx, ll, "-o", out, "-t", str(tl), "-s", str(cfg.get("samples", 12)), "-V", "12"] + cfg.get("symx_args", []) + hs
    try:
        r = sh(cmd, capture_output=True, text=True, errors="replace", start_new_session=True, timeout=tl + 60)
    except subprocess.TimeoutExpired:
        die("symbolic execution did not finish")
    log(r.stderr[-6000:])
    rc = finish(prop, tier, seed, cfg, hs, kfs, out, exe, ll, r, t0, tb, evf)
    shutil.rmtree(out, ignore_errors=True)
    sys.exit(rc)

def finish(prop, tier, seed, cfg, hs, kfs, out, exe, ll, r, t0, tb, evf):
    rj = os.path.join(out, "result.json")
    if not os.path.exists(rj): print("INCONCLUSIVE: symbolic executor failed (exit %d)\n%s" % (r.returncode, r.stderr[-2000:])); return 2
    res = json.load(open(rj)); H = res["harness"]
    problems, viols, known = [], [], []
    if res["timeout"]: problems.append("time limit reached before every path was decided")
    rep = os.path.join(V, "evidence", "replay"); os.makedirs(rep, exist_ok=True)
    for f in glob.glob(f"{rep}/{prop}-*"): os.remove(f)
    validated, samples, cex_replayed = 0, [], 0
    for h in hs:
        s = H[h]
        if s["error"] or s["errors"]: problems.append(f"{h}: engine could not decide: {s['error'][:400]}")
        if s["unknown"]: problems.append(f"{h}: solver answered unknown {s['unknown']} times")
        if s["unfinished"]: problems.append(f"{h}: {s['unfinished']} paths unfinished")
        seen = set()
        for f in sorted(glob.glob(f"{out}/{h}.viol.*")):
            c = parse_case(f); sig = (c["kind"], c["msg"])
            if sig in seen: continue
            seen.add(sig); inp = inputs_file(c, f + ".in"); code, so, se = replay(exe, h, inp); cex_replayed += 1
            ok = {"assert": code == 95 and ("ASSERT-FAILED " + c["msg"].split(" [in ")[0]) in so, "panic": code in (-6, 134, 101) or (code < 0 and code != -9)}.get(c["kind"])
            if ok is None: ok = code < 0 or code > 96  # recursion, steps, memory: crash, kill or timeout
            if not ok: problems.append(f"{h}: counterexample did not reproduce natively ({c['kind']} {c['msg'][:200]}; native exit {code}, {so[-200:]!r} {se[-200:]!r})"); shutil.copy(inp, f"{rep}/{prop}-{h}-nonrepro.txt"); continue
            kf = next((k for k in kfs if k["harness"] == h and re.search(k["match"], c["kind"] + " " + c["msg"])), None)
            if kf: known.append((kf, c)); continue
            dst = f"{rep}/{prop}-{h}-{len(viols)}.txt"
            with open(dst, "w") as o:
                o.write(open(inp).read())
            with open(dst + ".info", "w") as o:
                o.write(f"property {prop} harness {h}\nkind {c['kind']}\nmsg {c['msg']}\n" + "\n".join("at " + x for x in demangle(c["at"])) + f"\nnative exit {code}\n{so[-4000:]}\n{se[-2000:]}\nreplay: SYMX_IN={dst} {exe} {h}\n")
            viols.append((h, c, dst))
        if s["violations"] and not seen: problems.append(f"{h}: violations counted but none recorded")
        for f in sorted(glob.glob(f"{out}/{h}.path.*")):
            c = parse_case(f); inp = inputs_file(c, f + ".in"); code, so, se = replay(exe, h, inp)
            got = [x for x in so.split("\n") if x]
            if code != 0 or got != c["observed"]: problems.append(f"{h}: engine and native code disagree on a sampled path (native exit {code}; {se[-200:]})"); shutil.copy(inp, f"{rep}/{prop}-{h}-mismatch.txt"); continue
            validated += 1
            if len(samples) < 12: samples.append({"harness": h, "inputs": c["inputs"][:40], "observed": c["observed"][:16]})
        miss = [k for k in cfg.get("covers", {}).get(h, []) if k not in s["cover"]]
        if miss and not any(v[0] == h for v in viols): problems.append(f"{h}: cover points not reached: {miss}")
        if s["paths"] == 0 and not seen and h not in [k["harness"] for k in kfs]: problems.append(f"{h}: no path completed")
    tot = lambda k: sum(H[h][k] for h in hs)
    fn = sorted({f for h in hs for f in H[h]["functions"]})
    mine = [f for f in demangle([f for f in fn if re.search(r"\d+svd_(rs|parser|encoder)", f)])]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("assumed_away") + tot("violations"), "transitions": tot("branches"), "traces_validated_against_impl": validated + cex_replayed,
            "samples": samples, "explanation": "symbolic execution of the LLVM IR (opt-level 2, overflow checks on, fat LTO with std and all dependencies) compiled from the current /repo tree; states = symbolic paths explored to their end, transitions = branch decisions, traces_validated = paths/counterexamples re-run in the natively compiled program with identical observations",
            "exhaustive_within_bounds": not problems,
            "harnesses": {h: {k: H[h][k] for k in ("paths", "assumed_away", "violations", "asserts", "branches", "instrs", "queries", "sat", "unsat", "unknown", "dom_queries", "wall")} | {"solver_s": round(H[h]["solver_us"] / 1e6, 3), "cover": H[h]["cover"], "bounds": cfg["bounds"].get(h, cfg["bounds"].get("*", ""))} for h in hs},
            "functions_encoded": len(fn), "functions_encoded_of_repo": sorted(set(mine))[:400],
            "queries_discharged": tot("queries"), "finite_domain_queries": tot("dom_queries"), "assertions_checked": tot("asserts"), "solver_s": round(tot("solver_us") / 1e6, 2),
            "bounds": cfg["bounds"],
        },
        "assumptions": cfg.get("assumptions", []) + ["rustc/LLVM front end, the executor's IR semantics and Z3 4.8.12 are trusted; sampled paths and all counterexamples are cross-checked natively", "hash-map keys fixed; allocation never fails; single thread"],
        "wall_s": round(time.time() - t0, 2), "build_s": round(tb - t0, 2), "violations": len(viols), "known_findings": len(known), "problems": problems,
    }
    json.dump(ev, open(evf, "w"), indent=1)
    done = set()
    for kf, c in known:
        if kf["id"] in done: continue
        done.add(kf["id"]); print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    for h, c, dst in viols: print(f"  {h}: {c['kind']}: {c['msg'][:300]}")
    for p in problems: print("  problem: " + p)
    for h, c, dst in viols: print(f"VIOLATION property={prop} replay={dst}")
    log(f"{prop}: paths={tot('paths')} queries={tot('queries')} solver={tot('solver_us')/1e6:.1f}s wall={time.time()-t0:.1f}s build={tb-t0:.1f}s validated={validated}")
    if viols: return 1
    if problems: print("INCONCLUSIVE"); return 2
    print(f"OK property={prop} held on all {tot('paths')} paths within bounds"); return 0
if __name__ == "__main__": sys.exit(main())
