#!/usr/bin/env python3
"""Development tool: makes /verif/seeded/<id>/ from specs, after confirming each in a scratch copy.

  seed.py SPECFILE [id ...]

SPECFILE is Python defining BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)].
`demo` is the Rust main file of the demonstration (or, with shell=True, the script itself).
"""
import json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seed-wt"
ENV = {k: v for k, v in os.environ.items()}
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR="/tmp/seed-target",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")

DEMO = r'''#!/bin/bash
# Builds demo.rs against the tree in the current directory and runs it: 0 if the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
compact-thrift-runtime = { path = "$repo/runtime" }
compact-thrift-parquet = { path = "$repo/parquet" }
[profile.dev]
incremental = false
EOF
cd "$t" || exit 3
unset CARGO_TARGET_DIR RUSTFLAGS
CARGO_NET_OFFLINE=true timeout 200 cargo build --offline --quiet @PROFILE@ 2> build.log || { cat build.log; exit 4; }
ulimit -c 0
@ENV@timeout 60 ./target/@DIR@/demo
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, **k)


def tests():
    p = sh("cargo", "test", "--workspace", "--no-fail-fast", "--offline", cwd=WT)
    names = re.findall(r"^test (\S+)(?: - should panic)? \.\.\. ok$", p.stdout, re.M)
    return len(names), p


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = set(sys.argv[2:])
    bad = []
    if os.path.exists(WT):
        shutil.rmtree(WT)
    subprocess.check_call(["cp", "-a", "/repo", WT])
    base, _ = tests()
    print("baseline tests", base)
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        d = os.path.join(VERIF, "seeded", b["id"])
        why = None
        subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
        os.makedirs(d, exist_ok=True)
        prof = b.get("profile", "dev")
        with open(d + "/demo.sh", "w") as f:
            if b.get("shell"):
                f.write(b["demo"].lstrip("\n"))
            else:
                f.write(DEMO.replace("@PROFILE@", "--release" if prof == "release" else "").replace("@DIR@", "release" if prof == "release" else "debug").replace("@ENV@", b.get("env", "")))
                with open(d + "/demo.rs", "w") as g:
                    g.write(b["demo"].lstrip("\n"))
        os.chmod(d + "/demo.sh", 0o755)
        p = sh("bash", d + "/demo.sh", cwd=WT)
        if p.returncode != 0:
            why = f"demo fails on the unchanged tree: {p.returncode}\n{p.stdout[-1500:]}"
        if not why:
            for f, old, new in b["edits"]:
                path = os.path.join(WT, f)
                s = open(path).read()
                if s.count(old) != 1:
                    why = f"{f}: {s.count(old)} matches of {old[:80]!r}"
                    break
                open(path, "w").write(s.replace(old, new))
        if not why:
            diff = subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE, text=True).stdout
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            n, p = tests()
            if n < base:
                why = f"tests: {n} of {base}\n{p.stdout[-2500:]}"
        if not why:
            p = sh("bash", d + "/demo.sh", cwd=WT)
            if p.returncode == 0:
                why = "demo passes with the change"
            elif p.returncode == 4 and not b.get("unbuildable"):
                why = "demo does not build with the change\n" + p.stdout[-800:]
        if why:
            bad.append(b["id"])
            print("DROPPED", b["id"], why)
            shutil.rmtree(d)
        else:
            print("kept", b["id"], "demo rc", p.returncode)
    shutil.rmtree(WT)
    print("dropped:", bad)


main()
