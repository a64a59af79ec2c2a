#!/usr/bin/env python3
"""Development helper: turns bug descriptions (/tmp/bugs/*.py, each defining BUGS) into /verif/seeded/<id>/ after confirming
in a scratch copy that the change builds, passes the existing tests and is shown by its demonstration.
usage: plant.py ID..."""
import glob, json, os, re, runpy, shutil, subprocess, sys
V, SW = "/verif", "/tmp/sw"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="0")
DEMO = '''#!/bin/bash
# Builds the program beside this script against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" || exit 3
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
gauss-quad = { path = "$repo", FEATURES }
DEPS
[profile.dev]
opt-level = 1
[workspace]
T
cd "$work" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
timeout 280 cargo run --offline --quiet
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    bugs = {}
    for f in sorted(glob.glob("/tmp/bugs/*.py")):
        for b in runpy.run_path(f)["BUGS"]:
            bugs[b["id"]] = b
    for i in sys.argv[1:] or bugs:
        b = bugs[i]
        sh(f"mkdir -p {SW} && rsync -a --delete --exclude target /repo/ {SW}/", "/") if shutil.which("rsync") else sh(f"[ -d {SW} ] || cp -a /repo {SW}; cd {SW} && git checkout -q -- . && git fetch -q /repo && git reset -q --hard {sh('git rev-parse HEAD','/repo').stdout.strip()}", "/")
        for f, old, new in b["edits"]:
            p = os.path.join(SW, f)
            s = open(p).read()
            n = s.count(old)
            assert n >= 1, (i, f, "text not found", old)
            if n > 1 and not b.get("all"):
                raise SystemExit(f"{i}: {n} matches in {f}: {old}")
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff", SW).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
        feats = b.get("features", "")
        feats = f'features = [{", ".join(chr(34)+x+chr(34) for x in feats.split(",") if x)}]' if not b.get("nodefault") else f'default-features = false, features = [{", ".join(chr(34)+x+chr(34) for x in feats.split(",") if x)}]'
        if "demo_sh" in b:
            open(d + "/demo.sh", "w").write(b["demo_sh"])
        else:
            open(d + "/demo.sh", "w").write(DEMO.replace("FEATURES", feats).replace("DEPS", b.get("deps", "")).replace("cargo run", "cargo run --release" if b.get("release") else "cargo run").replace("CARGO_NET_OFFLINE=true", f"CARGO_NET_OFFLINE=true RUSTFLAGS='{b['rustflags']}'" if b.get("rustflags") else "CARGO_NET_OFFLINE=true"))
            open(d + "/demo.rs", "w").write(b["demo"])
        os.chmod(d + "/demo.sh", 0o755)
        passed = failed = 0
        log = ""
        for flags in ("", "--all-features"):
            r = sh(f"cargo test --workspace --no-fail-fast --locked --offline {flags} -- --test-threads 8", SW)
            log += r.stdout
            passed += sum(map(int, re.findall(r"(\d+) passed", r.stdout)))
            failed += sum(map(int, re.findall(r"(\d+) failed", r.stdout)))
        good = sh(d + "/demo.sh", "/repo")
        bad = sh(d + "/demo.sh", SW)
        ok = passed >= 198 and failed == 0 and good.returncode == 0 and bad.returncode != 0
        print(f"{i}: {'OK' if ok else 'NOT OK'} tests {passed} passed {failed} failed; demo {good.returncode} unchanged, {bad.returncode} patched", flush=True)
        print("   ", bad.stdout.strip()[-300:].replace("\n", "\n    "), flush=True)
        if not ok:
            print("    unchanged:", good.stdout[-1500:])
            if failed or passed < 198:
                print("\n".join(l for l in log.splitlines() if "FAILED" in l or "error" in l or "panicked" in l)[:2500])
main()
