#!/usr/bin/env python3
"""Development helper: single-token mutants of the crate that pass its tests, and which checks see them.
Works on copies (repository and machinery) below a scratch directory; a mutant is one changed token or one removed
attribute or statement. usage: mutants.py SCRATCH OUT.jsonl [SHARD/SHARDS] [FILE...]"""
import glob, hashlib, json, os, re, subprocess, sys, time
ORDER = {
    "legendre": "C01 C10 C06 C09 C15", "chebyshev": "C05 C10 C16 C09", "hermite": "C02 C07 C09", "laguerre": "C03 C16 C07 C09",
    "jacobi": "C04 C16 C18 C07 C09", "golub_welsch": "C02 C03 C04 C06", "math": "C03 C04 C12 C17", "data_api": "C11 C12 C13 C14 C17",
    "midpoint": "C08 C09", "simpson": "C08 C09", "trapezoid": "C08 C09", "lib": "C17",
}
ALL = ["C14", "C18", "C02", "C03", "C07", "C13", "C12", "C04", "C19", "C16", "C11", "C06", "C10", "C05", "C09", "C17", "C08", "C15", "C01"]
SWAPS = [(r"(?<=[\w)\]] )\+(?= )", "-"), (r"(?<=[\w)\]] )-(?= )", "+"), (r"(?<=[\w)\]] )\*(?= )", "/"), (r"(?<=[\w)\]] )/(?= )", "*"),
         (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" % 2", " % 3"), (r"\b(alpha)\b(?=\.get|,|;)", "beta"), (r"\bbeta\b(?=\.get|,|;)", "alpha"), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""),
         (r"next_back\(", "next("), (r"\.next\(\)", ".next_back()"), (r"nth_back\(", "nth("), (r"\bp\.0\b", "p.1"), (r"\bp\.1\b", "p.0"), (r"\bsin\(", "cos("), (r"\bcos\(", "sin("),
         (r"\bSome\(Self\(value\)\)", "None"), (r"\.sum\(\)", ".sum::<f64>().abs()"), (r"\bdegree\.get\(\)", "(degree.get() + 1)"),
         (r"is_finite\(\)", "is_normal()"), (r"\.0\.len\(\)", ".0.len() + 1"), (r"\(\(b - a\)", "((a - b)"), (r"\{:e\}", "{}"), (r"\{:E\}", "{:e}"),
         (r"total_cmp\(node2\)", "total_cmp(&(node2 + 1.0))"), (r"new_degree;", "self.degree;")]

def sh(cmd, cwd, t):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", cwd])
        return subprocess.CompletedProcess(cmd, 124, "timeout")

def mutants(path, text):
    end = text.find("#[cfg(test)]")
    end = len(text) if end < 0 else end
    pos = 0
    data = path.endswith("data.rs")
    floats = 0
    for line in text[:end].splitlines(keepends=True):
        body = line.split("//")[0]
        attr = body.lstrip().startswith("#") or body.lstrip().startswith("use ")
        if not attr and body.strip():
            for m in re.finditer(r"(?<![\w.])\d[\d_]*\.\d[\d_]*(?:e-?\d+)?|(?<![\w.])\d+(?![\w.]|\.\d)", body):
                s = m.group()
                if "." in s or "e" in s:
                    floats += 1
                    if data and floats % 1499:
                        continue
                    v = float(s.replace("_", ""))
                    for f in ([1e-9] if data else [1e-4] if "bogaert" in path else [1e-12, 1e-6]):
                        yield pos + m.start(), pos + m.end(), repr(v * (1 + f) if v else f)
                else:
                    v = int(s)
                    yield pos + m.start(), pos + m.end(), str(v + 1)
                    if v:
                        yield pos + m.start(), pos + m.end(), str(v - 1)
            if not data:
                for a, b in SWAPS:
                    for m in re.finditer(a, body):
                        yield pos + m.start(), pos + m.end(), b
                if re.match(r"^\s+[^\s{}]+.*;\s*$", body) and not re.match(r"\s*(let|return|use|type|const)", body):
                    yield pos, pos + len(body.rstrip("\n")), ""
        elif "cfg_attr" in body and body.count("(") == body.count(")") and "derive" not in body:
            yield pos, pos + len(body.rstrip("\n")), ""
        pos += len(line)

def main():
    scratch, out = sys.argv[1:3]
    shard, shards = map(int, (sys.argv[3] if len(sys.argv) > 3 else "0/1").split("/"))
    only = sys.argv[4:]
    repo, ver = scratch + "/repo", scratch + "/verif"
    if not os.path.exists(repo):
        os.makedirs(scratch, exist_ok=True)
        sh(f"cp -a /repo {repo} && git clone -q /verif {ver} && rm -rf {ver}/seeded", "/", 600)
        sh(f"grep -rl '/repo' check.py mc*/Cargo.toml mc-feat/nostd/Cargo.toml | xargs sed -i 's#\"/repo\"#\"{repo}\"#'", ver, 60)
        sh(f"grep -rl '\"/verif' check.py | xargs -r sed -i 's#\"/verif#\"{ver}#'", ver, 60)
        print(sh("python3 check.py --setup", ver, 3000).returncode)
    files = sh("git ls-files 'src/*.rs'", repo, 60).stdout.split()
    done = {json.loads(l)["key"] for o in glob.glob(os.path.dirname(out) + "/*.jsonl") for l in open(o)}
    todo = []
    for f in files:
        if only and not any(o in f for o in only):
            continue
        text = open(f"{repo}/{f}").read()
        todo += [(f, *m) for m in mutants(f, text)]
    # in an order that mixes the files, so that an unfinished run shows a bit of everything
    todo.sort(key=lambda m: hashlib.sha1(repr(m).encode()).hexdigest())
    env = "RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= "
    print(len(todo), "mutants")
    for i, (f, a, b, new) in enumerate(todo):
        if i % shards != shard:
            continue
        p = f"{repo}/{f}"
        text = open(p).read()
        line = text.count("\n", 0, a) + 1
        key = f"{f}:{line}:{a}:{new}"
        if key in done:
            continue
        row = {"key": key, "old": text[max(0, a - 30):b + 30], "removed": text[a:b], "new": new}
        open(p, "w").write(text[:a] + new + text[b:])
        try:
            r = sh(env + "cargo test --offline --lib -q 2>&1 | tail -3 && " + env + "cargo test --offline --lib -q 2>&1 >/dev/null", repo, 300)
            if r.returncode == 0:
                r = sh(env + "cargo test --workspace --offline --all-features -q && " + env + "cargo test --offline -q", repo, 600)
            if r.returncode != 0:
                row["fate"] = "rejected by the build" if "could not compile" in r.stdout else "killed by the tests"
            else:
                stem = f.split("/")[1].replace(".rs", "")
                order = ORDER.get(stem, "").split()
                row["fate"], row["ran"] = "missed", []
                for c in order + [c for c in ALL if c not in order]:
                    t = time.time()
                    r = sh(f"python3 check.py {c}", ver, 900)
                    row["ran"].append([c, r.returncode, round(time.time() - t)])
                    if r.returncode:
                        row["fate"] = f"caught by {c}" if r.returncode == 1 else f"no answer from {c}"
                        row["why"] = next((l for l in r.stdout.splitlines() if l.startswith("  [")), r.stdout[-300:])[:300]
                        break
        finally:
            open(p, "w").write(text)
        with open(out, "a") as o:
            o.write(json.dumps(row) + "\n")

main()
