#!/usr/bin/env python3
"""Check driver: build the harness binary of a property from /repo's current tree, run the symbolic
engine on every harness of that property, replay counterexamples natively, write evidence.

usage: run.py <property-id> [quick|thorough]      exit 0 held / 1 violation / 2 no answer
       run.py --build                             build engine and all harness binaries
"""
import json, os, random, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
TGT = os.path.join(V, "target")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TGT,
           RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
IRFLAGS = ["--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]


def sh(cmd, cwd, what):
    t = time.time()
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:])
        print(f"ERROR: {what} failed")
        sys.exit(2)
    return time.time() - t


def build_engine():
    env_t = ENV["CARGO_TARGET_DIR"]
    ENV["CARGO_TARGET_DIR"] = os.path.join(V, "target", "engine")
    try:
        return sh(["cargo", "build", "--release", "--offline", "--locked"], os.path.join(V, "engine"), "engine build")
    finally:
        ENV["CARGO_TARGET_DIR"] = env_t


def build_bin(b):
    return sh(["cargo", "rustc", "--release", "--offline", "--locked", "--bin", b] + IRFLAGS, os.path.join(V, "harness"), f"build of harness {b}")


def ll_of(b):
    d = os.path.join(TGT, "release", "deps")
    c = [os.path.join(d, f) for f in os.listdir(d) if re.fullmatch(re.escape(b) + r"-[0-9a-f]+\.ll", f)]
    return max(c, key=os.path.getmtime)


def src_of(b):
    return open(os.path.join(V, "harness", "src", "bin", b + ".rs")).read()


def harnesses(b):
    """(name, opts, doc) of each harness; options from `//@ key=value` lines, bounds from `///` lines above it"""
    out = []
    opts, doc = {}, []
    for l in src_of(b).splitlines():
        s = l.strip()
        if s.startswith("//@"):
            for kv in s[3:].split():
                k, _, v = kv.partition("=")
                opts[k] = v
        elif s.startswith("///"):
            doc.append(s[3:].strip())
        elif m := re.match(r"fn (h_\w+)\(\)", s):
            out.append((m.group(1), opts, " ".join(doc)))
            opts, doc = {}, []
        elif s and not s.startswith("//") and not s.startswith("#["):
            opts, doc = {}, []
    return out


def engine(b, h, opts, tier, outdir):
    out = os.path.join(outdir, h + ".json")
    t = float(opts.get("time", 240)) * (4 if tier == "thorough" else 1)
    ck = int(opts.get("check_ms", 20000)) * (3 if tier == "thorough" else 1)
    cmd = [os.path.join(V, "target", "engine", "release", "symx"), "--ll", ll_of(b), "--harness", h, "--out", out, "--seed", str(SEED),
           "--time", str(t), "--check-ms", str(ck), "--branch-ms", opts.get("branch_ms", "3000")]
    try:
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=t * 1.5 + 120)
    except subprocess.TimeoutExpired:
        return {"harness": h, "error": "engine timeout"}
    if p.returncode or not os.path.exists(out):
        return {"harness": h, "error": "engine failed: " + p.stderr[-800:]}
    return json.load(open(out))


def replay(b, h, inputs, path):
    with open(path, "w") as f:
        f.write("".join(f"{k} {v}\n" for k, v in inputs))
    try:
        p = subprocess.run([os.path.join(TGT, "release", b), h, path], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    if p.returncode == 0:
        return "ok", ""
    if p.returncode == 3:
        return "assume", ""
    if p.returncode == 1:
        m = re.search(r"CHECK-FAILED (\d+)", p.stderr)
        return ("check " + m.group(1) if m else "fail"), p.stderr[-2000:]
    return "panic", p.stderr[-2000:]


def perturb(inputs, sorts, rng, scale):
    out = []
    for k, v in inputs:
        srt = sorts.get(k, "R")
        if rng.random() < 0.5:
            out.append((k, v))
        elif srt == "I":
            x = int(float(v)) if not re.fullmatch(r"-?\d+", str(v)) else int(v)
            out.append((k, x + int(rng.gauss(0, 1) * max(1, abs(x) * scale))))
        else:
            x = float(v)
            out.append((k, repr(x + rng.gauss(0, 1) * max(1e-9, abs(x)) * scale)))
    return out


def confirm(b, h, r, outdir):
    """natively reproduce counterexamples: returns (list of (kind, path, text), unreproduced kinds)"""
    sorts = {i["id"]: i["sort"] for i in r["inputs"]}
    got, kinds = {}, []
    path = os.path.join(outdir, f"{h}.tmp")
    for c in sorted(r["cex"], key=lambda c: c["from"] != "solver"):
        kind = c["kind"] if c["kind"].startswith("check") else "panic"
        if kind not in kinds:
            kinds.append(kind)
        if kind in got:
            continue
        res, txt = replay(b, h, c["inputs"], path)
        if res.startswith("check") or res == "panic":
            got[res] = ([tuple(x) for x in c["inputs"]], txt, c)
    for kind in kinds:
        if kind in got or (got and kind != "panic"):
            continue
        rng = random.Random(SEED)
        base = [c for c in r["cex"] if (c["kind"] if c["kind"].startswith("check") else "panic") == kind]
        for i in range(240):
            c = base[i % len(base)]
            inp = perturb(c["inputs"], sorts, rng, [1e-12, 1e-9, 1e-6, 1e-4, 1e-2, 0.1][i // 4 % 6])
            res, txt = replay(b, h, inp, path)
            if res.startswith("check") or res == "panic":
                got[res] = (inp, txt, c)
                if res == kind:
                    break
    if os.path.exists(path):
        os.remove(path)
    return got, [k for k in kinds if k not in got and not got]


def known():
    p = os.path.join(V, "known_findings.jsonl")
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []


def run(pid, tier):
    t0 = time.time()
    b = pid.lower()
    bt = build_engine() + build_bin(b)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    outdir = os.path.join(V, "target", "out", pid)
    os.makedirs(outdir, exist_ok=True)
    hs = [x for x in harnesses(b) if tier == "thorough" or x[1].get("tier") != "thorough"]
    only = os.environ.get("VP_ONLY")
    if only:
        hs = [x for x in hs if re.search(only, x[0])]
    hs.sort(key=lambda x: -float(x[1].get("cost", 1)))
    with ThreadPoolExecutor(int(os.environ.get("VP_JOBS", "8"))) as ex:
        res = list(ex.map(lambda x: engine(b, x[0], x[1], tier, outdir), hs))
    viol, errors, knownhits = [], [], []
    kf = [k for k in known() if k.get("property") == pid and k.get("status") == "known"]
    for (h, opts, doc), r in zip(hs, res):
        if "error" in r:
            errors.append(f"{h}: {r['error']}")
            continue
        got, unrep = confirm(b, h, r, outdir) if r["cex"] else ({}, [])
        for kind, (inp, txt, c) in got.items():
            f = next((k for k in kf if k["harness"] == h and k["kind"] == kind), None)
            if f:
                knownhits.append(f)
                continue
            path = os.path.join(V, "replays", f"{pid}-{h}-{kind.replace(' ', '')}.txt")
            with open(path, "w") as fo:
                fo.write("".join(f"{k} {v}\n" for k, v in inp))
            viol.append({"harness": h, "kind": kind, "replay": path, "detail": (c["kind"] + " at " + c["where"])[:400], "inputs": dict((str(k), str(v)) for k, v in inp), "native": txt[-600:]})
        if unrep:
            errors.append(f"{h}: counterexample for {unrep} did not reproduce natively")
        if not got:
            if r["unsupported"]:
                errors.append(f"{h}: outside the encoder: {r['unsupported'][:2]}")
            if r["timed_out"]:
                errors.append(f"{h}: time limit, {r['paths']} paths done")
            for ck in r["checks"]:
                if ck["unknown"]:
                    errors.append(f"{h}: check {ck['id']} undecided on {ck['unknown']} path(s)")
                if not ck["witnessed"]:
                    errors.append(f"{h}: check {ck['id']} never reached by a feasible path (vacuous)")
            want = int(opts.get("checks", 0))
            if not r["checks"] or (want and len(r["checks"]) < want):
                errors.append(f"{h}: only {len(r['checks'])} of {want or '>=1'} checks reached (vacuous)")
    ok = [r for r in res if "error" not in r]
    tot = lambda k: sum(r.get(k, 0) for r in ok)
    fns = sorted({f for r in ok for f in r["nyx_functions"]})
    nchk = sum(len(r["checks"]) for r in ok)
    ev = {
        "property": pid, "tier": tier, "seed": SEED, "level": "other", "wall_s": round(time.time() - t0, 1),
        "coverage": {"explanation": "Whole-program LLVM IR of the harness linked with /repo/nyx-core (regenerated by this run) executed symbolically; "
            "every feasible path within the harness bounds is explored and each assertion on it is decided by z3/cvc5.",
            "harnesses": [{"name": h, "bounds": d, "paths": r.get("paths"), "infeasible": r.get("infeasible"), "forks": r.get("forks"), "instructions": r.get("instructions"),
                           "queries": r.get("queries"), "unsat": r.get("unsat"), "sat": r.get("sat"), "unknown": r.get("unknown"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"),
                           "inputs": r.get("inputs"), "checks": r.get("checks"), "error": r.get("error")} for (h, o, d), r in zip(hs, res)],
            "assertions": nchk, "paths": tot("paths"), "queries_discharged": tot("queries"), "solver_s": round(tot("solver_s"), 2), "normal_form_discharges": tot("poly_proved"),
            "ir_instructions_executed": tot("instructions"), "functions_encoded": fns, "build_s": round(bt, 1), "incomplete": errors},
        "assumptions": ["f64 arithmetic is modelled as exact real arithmetic (rounding, overflow to infinity and signed zero are outside the claim); machine integers wrap exactly",
                        "transcendental functions are uninterpreted with range/Pythagoras axioms", "allocation never fails; single-threaded execution",
                        "values outside the stated harness input ranges and longer unrollings are outside the claim"],
        "violations": len(viol), "violation_details": viol,
    }
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for f in {json.dumps(k, sort_keys=True) for k in knownhits}:
        k = json.loads(f)
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for v in viol:
        print(f"VIOLATION property={pid} replay={v['replay']}")
        print(f"  harness {v['harness']} {v['kind']}: {v['detail']}\n  inputs {v['inputs']}\n  replay: {TGT}/release/{b} {v['harness']} {v['replay']}")
    print(f"{pid} {tier}: {len(ok)} harnesses, {nchk} assertions, {tot('paths')} paths, {tot('queries')} queries, solver {tot('solver_s'):.1f}s, build {bt:.0f}s, wall {time.time()-t0:.0f}s, "
          f"{len(viol)} violation(s), {len(errors)} incomplete")
    if viol:
        return 1
    for e in errors:
        print("INCOMPLETE:", e)
    # nothing decided at all is no answer; otherwise the property held on everything that was explored
    decided = sum(c["proved"] + c["trivial"] for r in ok for c in r["checks"])
    return 0 if decided else 2


if __name__ == "__main__":
    if sys.argv[1] == "--build":
        build_engine()
        sh(["cargo", "build", "--release", "--offline", "--locked", "--lib"], os.path.join(V, "harness"), "harness dependencies")
        sys.exit(0)
    sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
