#!/usr/bin/env python3
"""Driver: check.py <property> [quick|thorough]

Rebuilds the harness against /repo's current working tree, regenerates the LLVM IR, executes it symbolically,
replays counterexamples and sampled paths natively and writes evidence/<property>.json.
Exit 0: held on everything explored. 1: VIOLATION (confirmed by native replay). 2: the check itself failed.
"""
import fcntl, glob, json, os, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
T0 = time.time()


def die(msg, code=2):
    print("CHECK-ERROR: " + msg)
    sys.exit(code)


def cargo(args, cwd, target, log):
    e = dict(ENV, CARGO_TARGET_DIR=target)
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.append(r.stdout)
    return r.returncode


def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_engine():
    log = []
    with locked("symx"):
        if cargo(["build", "--release", "--offline"], V + "/symx", BUILD + "/symx", log):
            die("engine build failed\n" + log[-1][-3000:])
    return BUILD + "/symx/release/symx"


def build_ir(binname, work, feat=""):
    log = []
    fl = ["--features", feat] if feat else []
    with locked("sym" + feat):
        t = BUILD + "/sym" + feat
        for f in glob.glob(f"{t}/release/deps/{binname}-*.ll"):
            os.remove(f)
        # a fresh rustc run for the last stage even when nothing changed
        main = f"{V}/harness/src/bin/{binname}.rs"
        for f in glob.glob(f"{t}/release/.fingerprint/harness-*/*bin-{binname}*"):
            os.remove(f)
        if cargo(["rustc", "--release", "--offline", "--bin", binname] + fl + ["--", "--emit=llvm-ir",
                  "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
                  "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"], V + "/harness/sym", t, log):
            die("harness IR build failed\n" + log[-1][-3000:])
        fs = glob.glob(f"{t}/release/deps/{binname}-*.ll")
        if len(fs) != 1:
            die(f"expected one IR file, found {fs}")
        out = f"{work}/{binname}{feat}.ll"
        shutil.copy(fs[0], out)
    return out


def build_native(binname, work, feat=""):
    log = []
    fl = ["--features", feat] if feat else []
    with locked("native" + feat):
        if cargo(["build", "--offline", "--bin", binname] + fl, V + "/harness/native", BUILD + "/native" + feat, log):
            die("native harness build failed\n" + log[-1][-3000:])
        out = f"{work}/{binname}{feat}-native"
        shutil.copy(f"{BUILD}/native{feat}/debug/{binname}", out)
    return out


def replay_line(r):
    return "|".join([r["entry"], ",".join(map(str, r["params"])), r["bytes"], ",".join(map(str, r["choices"]))])


def native_run(exe, line, timeout=30):
    """returns (obs, kind, message)"""
    try:
        p = subprocess.run([exe], input=line + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return [], "timeout", f"no answer within {timeout} s"
    obs, kind, msg = [], "crash", f"exit status {p.returncode} {p.stderr[-300:]}"
    for l in p.stdout.splitlines():
        if l.startswith("O "):
            _, t, v = (l + " ").split(" ", 2)
            v = v.strip()
            obs.append([int(t), [int(x) for x in v.split(",")] if v else []])
        elif l.startswith("END "):
            a = l[4:].split(" ", 1)
            kind, msg = a[0], a[1] if len(a) > 1 else ""
    return obs, kind, msg


def canon(obs):
    """consecutive NotifyPacketIdReleased events (tags 3, 103) come in the iteration order of a hash set: compared as a set"""
    r, run = [], []
    i = 0
    while i < len(obs):
        if obs[i][0] == 3 and i + 1 < len(obs) and obs[i + 1][0] == 103:
            run.append([obs[i], obs[i + 1]])
            i += 2
            continue
        r += sum(sorted(run), []) + [obs[i]]
        run = []
        i += 1
    return r + sum(sorted(run), [])


def known_findings(prop):
    r = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[8:].strip().split(" | ") if "=" in x)
                if d.get("property") == prop:
                    r.append(d)
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from checks.config import CHECKS
    cfg = CHECKS[prop]
    binname = cfg["bin"]
    work = f"{BUILD}/work/{prop}-{tier}-{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return run(prop, tier, seed, cfg, binname, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def merge(a, b):
    for k in ("jobs", "violations", "samples"):
        a[k] += b[k]
    for k, v in b["solver"].items():
        if k != "name":
            a["solver"][k] = max(a["solver"][k], v) if k == "max_query_s" else a["solver"][k] + v
    for k in ("functions_executed", "functions_with_branches", "crate_blocks_covered"):
        a[k] = max(a[k], b[k])
    a["crate_functions"] = [[n, 0] for n in sorted({x[0] for x in a["crate_functions"] + b["crate_functions"]})]
    a["wall_s"] = round(a["wall_s"] + b["wall_s"], 2)
    return a


def run(prop, tier, seed, cfg, binname, work):
    res = {}

    def par(k, f, *a):
        def g():
            try:
                res[k] = f(*a)
            except SystemExit as e:
                res[k] = e
        t = threading.Thread(target=g)
        t.start()
        return t
    jobs = [j for j in cfg["jobs"] if j.get("tier", "quick") != "thorough" or tier == "thorough"]
    # the library is analysed once per set of cargo features named by a job
    feats = sorted({j.get("feat", "") for j in jobs})
    ts = [par("engine", build_engine)]
    for f in feats:
        ts += [par("ll" + f, build_ir, binname, work, f), par("native" + f, build_native, binname, work, f)]
    for t in ts:
        t.join()
    for v in res.values():
        if isinstance(v, SystemExit):
            sys.exit(2)
    build_s = time.time() - T0
    budget = cfg.get("deadline", 560) if tier == "quick" else int(os.environ.get("VERIF_THOROUGH_S", cfg.get("thorough_deadline", 7200)))
    if tier == "quick":
        budget = max(60, min(budget, 760 - build_s))
    workers = os.cpu_count() or 4
    end = time.time() + budget
    d = None
    for f in feats:
        jf = f"{work}/jobs{f}.txt"
        with open(jf, "w") as o:
            for j in jobs:
                if j.get("feat", "") == f:
                    o.write("|".join([j["name"], j["entry"], str(j.get("max_steps", 20_000_000)),
                                      "0" if j.get("optional") else "1", ",".join(map(str, j.get("params", [])))]) + "\n")
        outf = f"{work}/out{f}.json"
        with open(work + "/log", "w") as lf:
            p = subprocess.run([res["engine"], "--ll", res["ll" + f], "--jobs", jf, "--out", outf, "--workers", str(workers),
                                "--deadline", str(max(30, int(end - time.time()))), "--seed", str(seed)], stdout=lf, stderr=subprocess.STDOUT)
        if p.returncode != 0 or not os.path.exists(outf):
            die(f"engine failed ({p.returncode}): " + open(work + "/log").read()[-2000:])
        x = json.load(open(outf))
        for k in ("jobs", "violations", "samples"):
            for y in x[k]:
                y["feat"] = f
        d = x if d is None else merge(d, x)

    # ---- counterexamples: replay against the real code
    os.makedirs(V + "/evidence/replays", exist_ok=True)
    for f in glob.glob(f"{V}/evidence/replays/{prop}-*"):
        os.remove(f)
    known = known_findings(prop)
    hits, confirmed, unconfirmed, seen = {}, [], [], set()
    nconf = 0
    for v in d["violations"]:
        sig = v["end"] + " " + v["msg"]
        kf = next((k for k in known if k["sig"] in sig), None)
        if kf is not None:
            hits[kf["sig"]] = (kf, v)
            continue
        if sig in seen and len(confirmed) > 3:
            continue
        obs, kind, msg = native_run(res["native" + v["feat"]], replay_line(v))
        if kind in ("assert", "panic", "timeout", "crash"):
            nconf += 1
            if sig not in seen:
                seen.add(sig)
                path = f"evidence/replays/{prop}-{len(confirmed) + 1}.txt"
                with open(f"{V}/{path}", "w") as f:
                    f.write(replay_line(v) + "\n")
                    f.write(f"# job {v['job']}; symbolic executor: {v['end']} {v['msg']} in {v['where']}\n")
                    f.write(f"# native replay: {kind} {msg}\n# observations before the end: {json.dumps(obs)}\n")
                    f.write(f"# rerun: (cd {V}/harness/native && cargo run --offline --bin {binname}{' --features ' + v['feat'] if v['feat'] else ''} < {V}/{path})\n")
                confirmed.append((path, v, kind, msg))
        else:
            unconfirmed.append((v, kind, msg))

    # ---- validate sampled complete paths against the native build
    validated, mism, samples = 0, [], []
    for s in d["samples"]:
        obs, kind, msg = native_run(res["native" + s["feat"]], replay_line(s))
        if kind == "ok" and canon(obs) == canon(s["obs"]):
            validated += 1
        else:
            mism.append((s, kind, msg, obs))
        if len(samples) < 12:
            samples.append({"job": s["job"], "entry": s["entry"], "params": s["params"], "symbolic_bytes": s["bytes"],
                            "choices": s["choices"], "observations": s["obs"][:60]})

    errs = {j["name"]: j["errors"] for j in d["jobs"] if j["errors"]}
    incomplete = [j["name"] for j in d["jobs"] if not j["complete"]]
    # situations every job (or, where the configuration says so, some job with the same entry point) must reach
    vac = []
    for j in d["jobs"]:
        same = [k for k in d["jobs"] if k["entry"] == j["entry"]] if cfg.get("vacuity") == "entry" else [j]
        if all(k["complete"] and not k["errors"] and not k["violations"] for k in same):
            vac += [j["entry" if cfg.get("vacuity") else "name"] + ": " + m for m in j["expected"] if not any(m in k["reached"] for k in same)]
    vac = sorted(set(vac))
    tot = lambda k: sum(j[k] for j in d["jobs"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("forks"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "explanation": "states = symbolic paths explored to their end (each stands for every value of its symbolic bytes "
                           "that satisfies its path condition); transitions = forks at branches/choices both sides of which the solver found feasible",
            "jobs": [{k: j[k] for k in ("name", "feat", "entry", "params", "complete", "paths", "forks", "sym_branches", "asserts",
                                        "asserts_symbolic", "assume_ended", "pruned", "instrs", "max_depth", "max_sym_bytes", "cpu_s", "reached", "violations")}
                     for j in d["jobs"]],
            "incomplete_jobs": incomplete,
            "undecided_paths": errs,
            "solver": d["solver"],
            "functions_encoded": d["functions_executed"],
            "library_functions_encoded": [x[0] for x in d["crate_functions"]],
            "library_branch_targets_covered": d["crate_blocks_covered"],
            "bounds": cfg["bounds"],
            "exhaustive": not incomplete and not errs,
            "build_s": round(build_s, 1), "engine_wall_s": d["wall_s"],
            "known_findings_hit": sorted(hits),
        },
        "assumptions": cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(confirmed),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    s = d["solver"]
    print(f"{prop} {tier}: {tot('paths')} paths, {tot('forks')} forks, {tot('asserts')} assertions, {tot('instrs')} instructions, "
          f"{s['queries']} solver queries ({s['time_s']:.1f} s), {validated}/{len(d['samples'])} traces validated, build {round(build_s)} s, wall {ev['wall_s']} s")
    for j in d["jobs"]:
        print(f"  job {j['name']}: paths {j['paths']} complete {j['complete']} cpu {j['cpu_s']} s")
    for k, (kf, v) in hits.items():
        print(f"KNOWN-FINDING: property={prop} {kf.get('what', k)}")
    if incomplete:
        print("NOTE: time budget reached before these jobs were exhausted (reported as incomplete in the evidence): " + ", ".join(incomplete))
    bad = False
    if confirmed:
        for path, v, kind, msg in confirmed:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['job']}: {v['end']} {v['msg']} | native: {kind} {msg}")
        sys.exit(1)
    for v, kind, msg in unconfirmed[:5]:
        print("UNCONFIRMED", v["job"], v["end"], v["msg"], v["where"], "native:", kind, msg, replay_line(v))
        bad = True
    for s_, kind, msg, obs in mism[:5]:
        print("TRACE-MISMATCH", s_["job"], replay_line(s_), "native:", kind, msg, obs[:20], "symbolic:", s_["obs"][:20])
        bad = True
    # paths the executor could not decide (unsupported operation, solver timeout): named here and in the evidence as not covered;
    # more than a twentieth of a job is no answer
    for n, e in errs.items():
        und = sum(c for m, c in e.items() if not m.startswith("stopped"))
        for m, c in list(e.items())[:5]:
            if not m.startswith("stopped"):
                print(f"UNDECIDED {n}: {c} x {m[:400]}")
        if und * 20 > next(j["paths"] for j in d["jobs"] if j["name"] == n):
            bad = True
    for m in vac:
        print("VACUOUS: expected situation never reached: " + m)
        bad = True
    if bad:
        die("see above")
    sys.exit(0)


COMMON_ASSUMPTIONS = [
    "the code analysed is the post-LTO LLVM IR that rustc (opt-level 1, overflow checks and debug assertions on, panic=abort) emits for the harness and /repo with default cargo features, or the features named with a job ('feat'); instantiations: as named in the harness",
    "memory allocation never fails; uninitialised bytes read as 0",
    "foldhash is replaced by a constant hash in the symbolic build (set/map iteration order is not varied); the native replay uses the real one",
    "the symbolic executor /verif/symx and Z3 are trusted; the executor is validated on every run by replaying sampled paths natively and comparing observation logs, and every counterexample is replayed natively before it is reported",
]

if __name__ == "__main__":
    main()
