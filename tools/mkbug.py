#!/usr/bin/env python3
"""Make planted bugs: mkbug.py <bugs.py> [id...]

Each bug in the file is a dict: id, property, needs, breaks, edits [(file, old, new)], demo (Rust source).
For each one: apply the edits in a scratch copy of /repo, check that it builds and passes the tests,
that the demonstration passes without and fails with the change, and write /verif/seeded/<id>/."""
import os, subprocess, sys, json, shutil, runpy

W = "/tmp/mkbug"
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
LOCK = os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs", "Cargo.lock")

DEMO = """#!/bin/bash
# Run in the repository's root: exit 0 if the code behaves as the property demands
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work=/tmp/prosemirror-demo-@ID@
rm -rf /tmp/prosemirror-demo-@ID@
trap 'rm -rf /tmp/prosemirror-demo-@ID@' EXIT
mkdir -p "$work/src" || exit 99
cp "$here/demo.rs" "$work/src/main.rs" || exit 99
cp "$here/Cargo.lock" "$work/Cargo.lock" || exit 99
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
prosemirror = { path = "$repo", features = ["cmark"] }
serde_json = "1.0.53"
EOF
export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTFLAGS=-Awarnings
cd "$work" || exit 99
CARGO_TARGET_DIR="$work/target" cargo run --offline -q
"""

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

def fresh():
    os.makedirs(W, exist_ok=True)
    sh(f"mkdir -p {W}/repo && cd {W}/repo && find . -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {{}} + && git -C /repo archive HEAD | tar x && cp /repo/Cargo.lock . && git init -q . && git add -A . && git -c user.email=a -c user.name=a commit -qm base")

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    for b in bugs:
        if want and b["id"] not in want:
            continue
        fresh()
        repo = W + "/repo"
        d = f"{W}/seed/{b['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        demo = b["demo"]
        open(d + "/demo.rs", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO.replace("@ID@", b["id"]))
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy(LOCK, d + "/Cargo.lock")
        rc, out = sh(f"bash {d}/demo.sh", cwd=repo)
        if rc != 0:
            print(b["id"], "DEMO FAILS ON BASE", rc, out[-1500:]); continue
        ok = True
        for f, old, new in b["edits"]:
            p = repo + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT does not match once:", f, s.count(old), old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        rc, out = sh("cargo test --workspace --all-features --offline 2>&1", cwd=repo, env={"CARGO_TARGET_DIR": W + "/target"})
        if rc != 0 or "30 passed" not in out:
            print(b["id"], "TESTS FAIL", "\n".join(l for l in out.splitlines() if "error" in l or "FAILED" in l or "panicked" in l)[:1500]); continue
        rc, out = sh(f"bash {d}/demo.sh", cwd=repo)
        if rc == 0:
            print(b["id"], "DEMO PASSES ON BUG"); continue
        if "error: could not compile" in out or rc == 99:
            print(b["id"], "DEMO BUILD", out[-500:]); continue
        _, diff = sh("git diff", cwd=repo)
        # original lines only: no removed line may come from a later commit
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, stdout=subprocess.PIPE, text=True).stdout.split()[0]
        mine = []
        for f, old, new in b["edits"]:
            orig = subprocess.run(f"git -C /repo show {base}:{f}", shell=True, stdout=subprocess.PIPE, text=True).stdout.splitlines()
            orig = set(l.strip() for l in orig)
            for l in diff.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].strip() not in orig:
                    mine.append(l)
        dst = f"{SEEDED}/{b['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print(b["id"], "ok", ("lines not in the original: %r" % mine) if mine else "", "|", [l for l in out.splitlines() if "panicked" in l or "thread" in l or l.strip()][:2])

main()
