#!/usr/bin/env python3
"""Driver: builds the harness against /repo's working tree, runs one property's engines, judges, writes evidence.

  check.py ID [--tier quick|thorough] [--replay FILE]
  check.py --setup            build everything

Exit 0: the property held on everything explored (known findings are printed). Exit 1: VIOLATION. Other: error.
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")

ENV = dict(os.environ)
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
    ENV.pop(k, None)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
           CARGO_INCREMENTAL="0", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
ENV.setdefault("HOME", "/root")

# property -> (level, engines); an engine is (crate, configuration)
EXP, MC = "exploration", "model_checking"
MIN, FULL, FEAT, SCHED = ("mc", "min"), ("mc", "full"), ("mc-feat", "all"), ("mc-sched", "all")
CHECKS = {
    "C01": (EXP, [MIN, FULL]),
    "C02": (EXP, [MIN, FULL]),
    "C03": (EXP, [MIN, FULL]),
    "C04": (EXP, [MIN, FULL]),
    "C05": (EXP, [MIN, FULL]),
    "C06": (EXP, [MIN, FULL]),
    "C07": (MC, [MIN, FULL]),
    "C08": (MC, [MIN, FULL]),
    "C09": (MC, [SCHED]),
    "C10": (MC, [SCHED]),
    "C11": (MC, [MIN, FULL]),
    "C12": (MC, [MIN, FULL]),
    "C13": (EXP, [MIN, FULL]),
    "C14": ("fault_enumeration", [FULL]),
    "C15": (MC, [MIN, FULL, SCHED]),
    "C16": (EXP, [MIN, FULL]),
    "C17": (EXP, [FEAT]),
    "C18": (EXP, [MIN, FULL]),
    "C19": (MC, [MIN, FULL, SCHED]),
    "C20": (EXP, [MIN, FULL]),
    "C21": (EXP, [MIN, FULL]),
    "C22": (EXP, [MIN, FULL]),
    "C23": (MC, [MIN, FULL]),
}


def die(msg, code=2):
    print("ERROR:", msg, flush=True)
    sys.exit(code)


def repo_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, dirs, fs in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def cargo(args, crate, target, env=None, timeout=1500):
    e = dict(ENV, CARGO_TARGET_DIR=target, **(env or {}))
    return subprocess.run(["cargo"] + args, cwd=os.path.join(VERIF, crate), env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)


# the crate as a user's release build has it; every other engine builds it with assertions and overflow checks
UNCHECKED = [x for k in ("debug-assertions", "overflow-checks") for x in ("--config", f"profile.release.package.gauss-quad.{k}=false")]

RELEASE = UNCHECKED + ["--config", "profile.release.package.gauss-quad.opt-level=3"]


def build(engine):
    """Build one engine; cargo decides by timestamps, so force gauss-quad when its content changed."""
    crate, cfg = engine
    target = os.path.join(TARGET, f"{crate}-{cfg}")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".repo-hash")
        h = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old and old != h:
            cargo(["clean", "--release", "--offline", "-p", "gauss-quad"], crate, target)
            os.unlink(stamp)
        args = ["build", "--release", "--offline"]
        if cfg == "full":
            args += ["--features", "full"]
        if cfg == "min":
            args += UNCHECKED
        env = {"RUSTC_WRAPPER": os.path.join(VERIF, crate, "rustc-wrapper.sh")} if crate == "mc-sched" else None
        r = cargo(args, crate, target, env)
        if r.returncode != 0:
            die(f"building {crate} ({cfg}) against {REPO} failed:\n{r.stdout[-6000:]}")
        with open(stamp, "w") as f:
            f.write(h)
    return os.path.join(target, "release", crate)


# ---- C17: one build per combination of features --------------------------------------------------------------------

EXTRAS = [[f for i, f in enumerate(("serde", "rkyv", "zerocopy")) if m >> i & 1] for m in range(8)]
BACKENDS = {  # target directory -> backend choices that share their dependency builds
    "libm": [["libm"]],
    "std": [["std"]],
    "std-libm": [["std", "libm"]],
    "rayon": [["rayon"], ["rayon", "std"]],
    "rayon-libm": [["rayon", "libm"], ["rayon", "std", "libm"]],
}
# builds that differ from the others for all crates: configuration, backends, and what the processor must have to run them
SETTINGS = {
    "abort": (["--config", 'profile.release.panic="abort"'], [["libm"], ["std"]], ""),
    "vector": (["--config", 'build.rustflags=["-Ctarget-feature=+avx2,+fma"]'], [["libm"], ["rayon", "std"]], "avx2 fma"),
}
LEVELS = [("level 0", "0"), ("size", '"s"')]


def forced(crate, cfg):
    """target directory for a crate, with gauss-quad forced to be rebuilt when /repo's content changed"""
    target = os.path.join(TARGET, f"feat-{cfg}")
    os.makedirs(target, exist_ok=True)
    stamp, h = os.path.join(target, ".repo-hash"), repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != h:
        cargo(["clean", "--release", "--offline", "-p", "gauss-quad"], crate, target)
    with open(stamp, "w") as f:
        f.write(h)
    return target


def feature_group(group, tier):
    """build and run every configuration of one backend; returns [(features, error or None, output path)]"""
    target, out = forced("mc-feat", group), []
    if group in SETTINGS:
        config, backends, needs = SETTINGS[group]
        with open("/proc/cpuinfo") as f:
            if not set(needs.split()) <= set(f.read().split()):
                return []
        builds = [(b, EXTRAS[-1], config + more, label) for b in backends
                  for more, label in ((["--config", "profile.release.package.gauss-quad.opt-level=3"], group), (RELEASE, group + " release"))]
    else:
        builds = [(b, e, [], "") for b in BACKENDS[group] for e in EXTRAS]
        # and as an optimised build without assertions and overflow checks has it
        builds += [(BACKENDS[group][0], e, RELEASE, "release") for e in (EXTRAS[0], EXTRAS[-1])]
        if group in ("libm", "rayon"):
            builds += [(BACKENDS[group][0], [], ["--config", f"profile.release.package.gauss-quad.opt-level={x}"], label) for label, x in LEVELS]
    for backend, extra, profile, label in builds:
        feats = ",".join(backend + extra)
        r = cargo(["build", "--release", "--offline", "-j", "3", "--features", feats] + profile, "mc-feat", target)
        feats += f" ({label})" if label else ""
        if r.returncode:
            out.append((feats, "does not compile:\n" + r.stdout[-3000:], None))
            continue
        path = os.path.join(OUT, "feat-" + re.sub("[^a-z0-9]+", "+", feats) + ".txt")
        with open(path, "w") as f:
            try:
                x = subprocess.run([os.path.join(target, "release", "mc-feat"), "40" if tier == "quick" else "130"], stdout=f,
                                   stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
                err = None if x.returncode == 0 else "the observation program failed: " + x.stderr[-1500:]
            except subprocess.TimeoutExpired:
                err = "the observation program does not terminate"
        out.append((feats, err, path))
    if group == "libm":
        # the same configurations must do without the standard library
        nostd = forced("mc-feat/nostd", "nostd")
        for extra in EXTRAS:
            feats = ",".join(extra)
            r = cargo(["build", "--release", "--offline", "-j", "3"] + (["--features", feats] if feats else []), "mc-feat/nostd", nostd)
            out.append((f"libm,{feats} in a no_std program", "does not build without the standard library:\n" + r.stdout[-3000:] if r.returncode else None, None))
    if group == "std":
        # without any math backend the crate must be refused
        none = forced("mc-feat", "none")
        for extra in EXTRAS:
            feats = ",".join(extra)
            r = cargo(["check", "--release", "--offline", "-j", "3"] + (["--features", feats] if feats else []), "mc-feat", none)
            refused = r.returncode != 0 and "could not compile `gauss-quad`" in r.stdout
            if r.returncode and not refused:
                die("checking a configuration without backend failed for another reason:\n" + r.stdout[-3000:])
            out.append((f"no backend,{feats}", None if refused else "compiles although there is no math backend", None))
    return out


def c17(prop, tier, case):
    t0 = time.time()
    with ThreadPoolExecutor(7) as ex:
        res = [x for g in ex.map(lambda g: feature_group(g, tier), [*BACKENDS, *SETTINGS]) for x in g]
    ref = [x for x in res if x[0] == "libm"][0]
    if ref[1] and "does not compile" in ref[1]:
        die("the default configuration is broken: " + ref[1])
    listing = os.path.join(OUT, "feat-list.json")
    with open(listing, "w") as f:
        json.dump([{"features": a, "error": b, "output": c} for a, b, c in res], f)
    os.environ["MC_FEATURES"] = ENV["MC_FEATURES"] = listing
    p = run_engine(MIN, prop, tier, case)
    if p:
        p["part"] = "features"
        p["wall_s"] = time.time() - t0
    return p


def load_known(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        k = json.load(f)
    return {e["signature"]: e for e in k["findings"] if e["property"] == prop}


def broken(engine, prop, case, what):
    """part of an engine that did not live to write its own: the code under test took the process down"""
    return {"property": prop, "part": engine[1], "cases": 1, "evaluations": 1, "states": 0, "transitions": 0, "traces": 0,
            "distinct_nontrivial": 1, "rule": [], "notes": {}, "counters": {}, "samples": [], "failures": 1, "wall_s": 0,
            "fails": [{"case": case or "(whole enumeration)", "sig": "", "detail": what, "repro": ""}]}


START = time.time()


def run_engine(engine, prop, tier, case):
    binary = build(engine)
    part = engine[1]
    out = os.path.join(OUT, f"{prop}.{engine[0]}-{part}.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [binary, prop, part, tier, out] + ([case] if case else [])
    # a run takes about a minute; cases have their own, much shorter watchdog
    limit = max(60, 850 - (time.time() - START)) if tier == "quick" else 4 * 3600
    try:
        r = subprocess.run(cmd, env=ENV, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=limit)
    except subprocess.TimeoutExpired:
        return broken(engine, prop, case, f"the enumeration does not finish within {limit:.0f} s")
    if r.returncode == 4 and case:
        return None
    if r.returncode < 0:
        # overflowed stack, abort, exhausted memory: nothing the harness does by itself
        return broken(engine, prop, case, f"the code under test ends the process with signal {-r.returncode}: {r.stdout[-1500:]}")
    if r.returncode != 0:
        die(f"{' '.join(cmd)} ended with {r.returncode}:\n{r.stdout[-4000:]}")
    with open(out) as f:
        return json.load(f)


def judge(prop, tier, parts, t0):
    level = CHECKS[prop][0]
    known = load_known(prop)
    kf, bad = {}, []
    for p in parts:
        for f in p["fails"]:
            if f["sig"] and f["sig"] in known:
                kf.setdefault(f["sig"], []).append((p, f))
            else:
                bad.append((p, f))
    total = {k: sum(p[k] for p in parts) for k in ("evaluations", "distinct_nontrivial", "states", "transitions", "traces", "cases")}
    samples = [s for p in parts for s in p["samples"]][:16]
    cov = {"samples": samples or ["(replay)"], "cases": total["cases"],
           "rule": " ".join(dict.fromkeys(s for p in parts for s in p["rule"])),
           "configurations": {p["part"]: {"wall_s": round(p["wall_s"], 2), "cases": p["cases"], "evaluations": p["evaluations"],
                                           "counters": p["counters"], **p["notes"]} for p in parts},
           "exhaustive": True}
    cov["evaluations"] = total["evaluations"]
    cov["distinct_nontrivial"] = total["distinct_nontrivial"]
    if level == MC:
        cov["states"], cov["transitions"] = total["states"], total["transitions"]
        cov["traces_validated_against_impl"] = total["traces"]
    if kf:
        cov["known_findings_met"] = {s: len(v) for s, v in kf.items()}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": ASSUME.get(prop, []) + ASSUME["*"], "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s, v in kf.items():
        print(f"KNOWN-FINDING: property={prop} {known[s]['what']} [{s}; {len(v)} recorded case(s), first: {v[0][1]['case']}: {v[0][1]['detail']}]")
    for i, (p, f) in enumerate(bad[:5]):
        path = os.path.join(OUT, f"{prop}-violation-{i}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "tier": tier, "engine": p["engine"], "case": f["case"], "detail": f["detail"],
                       "unit_test": f["repro"], "replay": f"python3 {VERIF}/check.py {prop} --replay {path}"}, fh, indent=1)
        print(f"  [{p['part']}] {f['case']}: {f['detail']}")
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop} {tier}: {total['cases']} cases, {total['evaluations']} evaluations, {total['states']} states, "
          f"{total['transitions']} transitions, {sum(p['failures'] for p in parts)} failures "
          f"({len(bad)} not listed), {time.time() - t0:.1f} s", flush=True)
    return 1 if bad else 0


ASSUME = {
    "*": ["The double-double oracle in mc-core and the reference models in the harness are right (cross-checked in DESIGN.md).",
          "rustc, cargo and the crates in the offline cache behave as documented."],
}


def main():
    a = sys.argv[1:]
    os.makedirs(OUT, exist_ok=True)
    if a and a[0] == "--setup":
        for e in dict.fromkeys(e for _, es in CHECKS.values() for e in es):
            if e != FEAT:
                t = time.time()
                build(e)
                print(f"built {e[0]}-{e[1]} in {time.time() - t:.1f} s", flush=True)
        t = time.time()
        with ThreadPoolExecutor(5) as ex:
            list(ex.map(lambda g: feature_group(g, "quick"), BACKENDS))
        print(f"built the feature configurations in {time.time() - t:.1f} s", flush=True)
        return 0
    if not a or a[0] not in CHECKS:
        die("usage: check.py ID [--tier quick|thorough] [--replay FILE] | --setup")
    prop, t0 = a[0], time.time()
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = None
    if "--replay" in a:
        with open(a[a.index("--replay") + 1]) as f:
            only = json.load(f)
        tier = only["tier"]
        if only["case"] == "(whole enumeration)":
            only["case"] = None
    parts = []
    for e in CHECKS[prop][1]:
        if only and only["engine"] != list(e):
            continue
        p = (c17 if e == FEAT else lambda *a: run_engine(e, *a))(prop, tier, only and only["case"])
        if p is None:
            die("the recorded case is not part of the enumeration any more")
        p["engine"] = list(e)
        parts.append(p)
    return judge(prop, tier, parts, t0)


if __name__ == "__main__":
    sys.exit(main())
