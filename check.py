#!/usr/bin/env python3
"""Decide one property: regenerate the encoding from /repo, run the symbolic executor, replay findings.

  check.py <property> [--tier quick|thorough] [--only harness,...] [--keep]
exit 0: held on everything explored; exit 1: VIOLATION line(s); exit 2: no verdict.
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import gen
from props import PROPS

BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
RUSTFLAGS = ("--emit=llvm-bc,metadata -C opt-level=1 -C codegen-units=16 -C no-vectorize-loops -C no-vectorize-slp -C debuginfo=0 "
             "-C panic=abort -C overflow-checks=on -C debug-assertions=on -C embed-bitcode=no --cfg symex")
STD = ["core", "alloc", "std", "gimli", "addr2line", "miniz_oxide", "object", "rustc_demangle", "memchr", "std_detect", "hashbrown", "adler2"]
TOOLCHAIN = "stable"
TRIPLE = "x86_64-unknown-linux-gnu"

class NoVerdict(Exception):
    pass

def env(extra=None):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"): e.pop(k, None)
    if extra: e.update(extra)
    return e

def sh(cmd, cwd=None, extra=None, timeout=None):
    r = subprocess.run(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace")

def must(cmd, what, **kw):
    rc, out = sh(cmd, **kw)
    if rc != 0: raise NoVerdict("%s failed:\n%s" % (what, out[-6000:]))
    return out

_sysroot = None
def sysroot():
    global _sysroot
    if _sysroot is None: _sysroot = must(["rustc", "--print", "sysroot"], "rustc").strip().splitlines()[-1]
    return _sysroot
def tool(n): return os.path.join(sysroot(), "lib/rustlib", TRIPLE, "bin", n)

def build_engine():
    t = time.time()
    must(["cargo", "build", "--release", "--quiet"], "engine build", cwd=os.path.join(VERIF, "engine"), extra={"CARGO_TARGET_DIR": os.path.join(BUILD, "engine")})
    return time.time() - t

def std_bitcode():
    d = os.path.join(BUILD, "std")
    stamp = os.path.join(d, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == sysroot(): return [os.path.join(d, x + ".bc") for x in STD]
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    libdir = os.path.join(sysroot(), "lib/rustlib", TRIPLE, "lib")
    for x in STD:
        c = glob.glob(os.path.join(libdir, "lib%s-*.rlib" % x))
        if len(c) != 1: raise NoVerdict("std library %s not found" % x)
        w = os.path.join(d, "x_" + x); os.makedirs(w)
        must([tool("llvm-ar"), "x", c[0]], "llvm-ar", cwd=w)
        os_ = sorted(glob.glob(os.path.join(w, "*.o")))
        outs = []
        for i, o in enumerate(os_):
            b = os.path.join(w, "%d.bc" % i)
            must([tool("llvm-objcopy"), "--dump-section", ".llvmbc=" + b, o, "/dev/null"], "llvm-objcopy", cwd=w)
            outs.append(b)
        if len(outs) == 1: shutil.copy(outs[0], os.path.join(d, x + ".bc"))
        else: must([tool("llvm-link"), "-o", os.path.join(d, x + ".bc")] + outs, "llvm-link")
        shutil.rmtree(w)
    open(stamp, "w").write(sysroot())
    return [os.path.join(d, x + ".bc") for x in STD]

LOCKS = {}
class locked:
    def __init__(self, path): self.path = path + ".lock"
    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()

def build_ir(pid, modules, names, variant):
    """-> (path of .ll, crate dir)"""
    w = os.path.join(BUILD, pid + ("" if not variant else "_" + variant))
    os.makedirs(w, exist_ok=True)
    # one crate directory per variant (so that incremental compilation helps); held until the native build is done
    crate = os.path.join(BUILD, "crate_" + variant)
    LOCKS[variant] = locked(crate).__enter__()
    try:
        disp = gen.generate(crate, modules, variant)
    except SystemExit as e:
        raise NoVerdict(str(e))
    have = [d[0] for d in disp]
    for n in names:
        if n not in have: raise NoVerdict("harness %s not defined" % n)
    p = lambda n: os.path.join(w, n)
    # dependencies (the models) are compiled once per variant, the crate under check on every run
    tgt = os.path.join(BUILD, "stgt_" + variant)
    deps = os.path.join(tgt, TRIPLE, "debug", "deps")
    key = hashlib.sha256((RUSTFLAGS + open(os.path.join(crate, "Cargo.toml")).read()).encode()).hexdigest()
    stamp = tgt + ".stamp"
    if not os.path.exists(stamp) or open(stamp).read() != key: shutil.rmtree(tgt, ignore_errors=True)
    open(stamp, "w").write(key)
    clean = lambda: [os.remove(f) for f in glob.glob(os.path.join(deps, "coerce-*")) + glob.glob(os.path.join(deps, "libcoerce-*"))]
    clean()
    must(["cargo", "build", "--lib", "--target", TRIPLE, "--target-dir", tgt, "--quiet"], "compiling the code under check (symbolic build)", cwd=crate, extra={"RUSTFLAGS": RUSTFLAGS + " -A warnings"})
    newest = {}  # crate -> invocation suffix of its newest object files
    allbc = sorted(glob.glob(os.path.join(deps, "*.rcgu.bc")), key=os.path.getmtime)
    part = lambda f: (os.path.basename(f).split(".")[0], "reg" if "-cgu." in os.path.basename(f) else os.path.basename(f).split(".")[-3])
    for f in allbc: newest[part(f)[0]] = part(f)[1]
    bcs = sorted(f for f in allbc if newest[part(f)[0]] == part(f)[1])
    must([tool("llvm-link"), "-o", p("a.bc")] + bcs, "llvm-link")
    clean()
    for f in glob.glob(os.path.join(tgt, TRIPLE, "debug", ".fingerprint", "coerce-*")): shutil.rmtree(f)
    std = std_bitcode()
    api = ",".join(have)
    must([tool("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + api, "--strip-debug", p("a.bc"), "-o", p("b.bc")], "opt")
    must([tool("llvm-link"), "-o", p("c.bc"), p("b.bc")] + std, "llvm-link")
    must([tool("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + api, "--strip-debug", "-S", p("c.bc"), "-o", p("all.ll")], "opt")
    for n in ("a.bc", "b.bc", "c.bc"): os.remove(p(n))
    return p("all.ll"), crate

def native_replay_bin(pid, crate, variant):
    tgt = os.path.join(BUILD, "ntgt_" + variant)
    out = os.path.join(BUILD, pid + ("" if not variant else "_" + variant), "replay")
    try:
        must(["cargo", "build", "--bin", "replay", "--target-dir", tgt, "--quiet"], "native replay build", cwd=crate)
        shutil.copy(os.path.join(tgt, "debug", "replay"), out)
    finally:
        LOCKS.pop(variant).__exit__()
    return out

def run_symex(ll, h, out, timeout, max_steps):
    try: os.remove(out)
    except FileNotFoundError: pass
    cmd = [os.path.join(BUILD, "engine", "release", "symex"), ll, h, out, "--timeout", str(timeout), "--max-steps", str(max_steps)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 60)
        txt = r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return {"harness": h, "status": "error", "what": "engine timeout"}
    if not os.path.exists(out): return {"harness": h, "status": "error", "what": "engine died: " + txt[-2000:]}
    return json.load(open(out))

def replay(binp, h, vals, path, what, pid, src):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("# property=%s harness=%s\n# finding: %s\n# replay: the inputs below, one per line (little endian hex), in the order the harness draws them\n# harness source: %s\n" % (pid, h, what.replace("\n", "\n#   "), src))
        for v in vals: f.write(v + "\n")
    try:
        r = subprocess.run([binp, h, path], env=env({"REPLAY_TRACE": "1", "RUST_BACKTRACE": "0"}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        o = r.stdout.decode("utf-8", "replace")
        rc = r.returncode
    except subprocess.TimeoutExpired:
        o, rc = "REPLAY-HANG", 1
    import re
    quiet = "\n".join(l for l in o.splitlines() if not re.match(r"\s*(\d+:\s+0x|at /|at \./|\d+: )", l))
    with open(path, "a") as f:
        f.write("# --- native run on these inputs ---\n" + "".join("# " + l + "\n" for l in quiet.splitlines()[-60:]))
    o = quiet
    bad = ("REPLAY-ASSUME-FAILED", "REPLAY-MISMATCH", "VERIF-BOUND-EXCEEDED")
    if any(b in o for b in bad): return False, o
    return ("REPLAY-OK" not in o), o

def replay_sample(binp, h, vals):
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".txt") as f:
        f.write("\n".join(vals) + "\n"); f.flush()
        try:
            r = subprocess.run([binp, h, f.name], env=env({"RUST_BACKTRACE": "0"}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            return r.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            return "REPLAY-HANG"

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--setup", action="store_true"); ap.add_argument("property", nargs="?"); ap.add_argument("--tier", default=None); ap.add_argument("--only")
    a = ap.parse_args()
    if a.setup:
        build_engine(); std_bitcode()
        with ThreadPoolExecutor(4) as ex:
            def one(v):
                _, crate = build_ir("SETUP", [], [], v)
                native_replay_bin("SETUP", crate, v)
            for f in [ex.submit(one, v) for v in ("", "pb")]: f.result()
        print("setup done"); return
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    pid = a.property
    P = PROPS[pid]
    t0 = time.time()
    hs = P["harnesses"]
    if tier == "quick": hs = [h for h in hs if not h.get("thorough")]
    if a.only: hs = [h for h in hs if h["name"] in a.only.split(",")]
    res, rc, err = [], 0, None
    viol = 0
    try:
        with ThreadPoolExecutor(2 + len(P["builds"])) as ex:
            fe = ex.submit(build_engine)
            std_bitcode()
            fi = {v: ex.submit(build_ir, pid, mods, [h["name"] for h in hs if h.get("variant", "") == v], v) for v, mods in P["builds"].items()}
            fe.result()
            irs = {v: f.result() for v, f in fi.items()}
        # the native replay binaries build while the solver works
        nat = ThreadPoolExecutor(2)
        fn = {v: nat.submit(native_replay_bin, pid, irs[v][1], v) for v in irs}
        tb = time.time() - t0
        budget = 600 if tier == "quick" else 3 * 3600
        with ThreadPoolExecutor(8) as ex:
            futs = []
            for h in sorted(hs, key=lambda h: -h.get("cost", 1)):
                ll, crate = irs[h.get("variant", "")]
                out = os.path.join(os.path.dirname(ll), h["name"] + ".json")
                futs.append((h, ex.submit(run_symex, ll, h["name"], out, h.get("timeout", budget), h.get("max_steps", 40_000_000))))
            for h, f in futs:
                r = f.result(); res.append((h, r))
        bins = {v: f.result() for v, f in fn.items()}
        known = load_known(pid)
        for h, r in res:
            line = "%s: %s paths=%s queries=%s solver=%ss wall=%ss" % (h["name"], r["status"], r.get("paths"), r.get("queries"), r.get("solver_s"), r.get("wall_s"))
            print(line)
            if r["status"] == "error":
                err = "%s: %s" % (h["name"], r["what"]); continue
            if r["status"] in ("violation", "hang"):
                v = h.get("variant", "")
                path = os.path.join(VERIF, "evidence", "replay", "%s_%s.txt" % (pid, h["name"]))
                ok, o = replay(bins[v], h["name"], r["values"], path, r["what"], pid, "/verif/harness")
                r["replayed"] = ok
                r["native"] = o[-1500:]
                if not ok:
                    err = "%s: solver finding does not reproduce natively: %s\n%s" % (h["name"], r["what"], o[-1500:]); continue
                r["replay"] = path
                k = [x for x in known if x["harness"] == h["name"] and x["match"] in o]
                if k:
                    print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"])); r["known"] = True
                    continue
                viol += 1
                print("  finding: " + r["what"].split("\n")[0]); print("  native : " + "\n           ".join(o.strip().splitlines()[-3:]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
            else:
                r["validated"] = 0
                for sv in r.get("samples", []):
                    o = replay_sample(bins[h.get("variant", "")], h["name"], sv)
                    if "REPLAY-OK" not in o:
                        err = "%s: a path the engine finished without a finding behaves differently natively: %s\n%s" % (h["name"], sv, o[-1500:]); break
                    r["validated"] += 1
                for lab in h.get("reach", []):
                    if lab not in r.get("reached", {}):
                        err = "%s: vacuous, never reached '%s'" % (h["name"], lab)
    except NoVerdict as e:
        err = str(e); tb = time.time() - t0
    evidence(pid, P, tier, res, time.time() - t0, tb, viol, err)
    if viol: sys.exit(1)
    if err:
        print("NO-VERDICT property=%s %s" % (pid, err)); sys.exit(2)
    print("OK property=%s tier=%s %.1fs" % (pid, tier, time.time() - t0))

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)).get("findings", []) if x["property"] == pid]

def evidence(pid, P, tier, res, wall, tb, viol, err):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    def tot(k): return sum(r.get(k, 0) or 0 for _, r in res)
    fns = sorted({f for _, r in res for f in r.get("functions", []) if "coerce::" in f and "verif_harness" not in f})
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": P["level"], "wall_s": round(wall, 2), "violations": viol,
          "coverage": {
              "technique": "path-complete symbolic execution of the LLVM IR rustc emits for /repo/coerce, branch feasibility and assertions decided by Z3 (QF_BV)",
              "harnesses": [{"name": h["name"], "what": h.get("what", ""), "bounds": h.get("bounds", ""), "status": r["status"], "finding": r.get("what", ""), "paths": r.get("paths"), "paths_cut_by_assumption": r.get("assumed_away"), "forks": r.get("forks"), "instructions": r.get("instructions"), "queries": r.get("queries"), "sat": r.get("sat"), "unsat": r.get("unsat"), "unknown": r.get("unknown"), "answered_from_cache": r.get("cached"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"), "reached": r.get("reached"), "known_finding": r.get("known", False)} for h, r in res],
              "states": tot("paths"), "transitions": tot("forks"), "traces_validated_against_impl": tot("validated"),
              "samples": [{"harness": h["name"], "inputs": v} for h, r in res for v in (r.get("samples") or [])[:2]],
              "explanation": "states: path-end states of the symbolic execution (each stands for all inputs satisfying its path condition); transitions: solver-decided forks; traces_validated_against_impl: finished symbolic paths whose solver model was replayed on the natively compiled code with the same outcome",
              "queries": tot("queries"), "solver_s": round(tot("solver_s"), 3), "instructions": tot("instructions"),
              "functions_encoded": fns, "functions_encoded_count": len(fns), "build_s": round(tb, 1), "outside_bounds": P.get("outside", "")},
          "assumptions": P.get("assumptions", [])}
    if err: ev["coverage"]["no_verdict"] = err[:3000]
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)

if __name__ == "__main__":
    main()
