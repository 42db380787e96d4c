#!/usr/bin/env python3
"""Mutation run: small edits of /repo/src, one at a time, in a scratch copy; says which ones no check reports.
usage: mutate.py list | mutate.py run OUT.jsonl WORKER NWORKERS [seed] [max] [scale]
"""
import os, random, re, subprocess, sys, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["model/content.rs", "model/fragment.rs", "model/marks.rs", "model/node.rs", "model/replace.rs",
         "model/resolved_pos.rs", "model/schema.rs", "model/util.rs", "transform/mark_step.rs",
         "transform/mod.rs", "transform/replace_step.rs", "transform/util.rs", "transform/step.rs",
         "markdown/attrs.rs", "markdown/content.rs", "markdown/from_markdown.rs", "markdown/helper.rs",
         "markdown/mod.rs", "markdown/schema.rs", "markdown/to_markdown.rs", "de.rs", "util.rs"]
FIRST = {"model/content": "C19", "model/fragment": "C03 C02 C18 C01", "model/marks": "C10 C15 C14", "model/node": "C04 C02 C19 C03",
         "model/replace": "C05 C12 C13 C06", "model/resolved": "C01", "model/util": "C01 C03 C18", "transform/mark_step": "C08 C09 C16 C14",
         "transform/replace_step": "C12 C11 C14 C13", "transform/": "C14 C15", "markdown/attrs": "C14 C15", "markdown/content": "C19",
         "markdown/from": "C20 C21 C23", "markdown/to": "C22 C23", "markdown/mod": "C24 C14 C08 C03", "markdown/schema": "C19 C24", "de.rs": "C14"}
RULES = [
    (r" <= ", [" < "]), (r" < ", [" <= "]), (r" >= ", [" > "]), (r" > ", [" >= "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", [""]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
    (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1"]),
    (r"\bfirst_child\b", ["last_child"]), (r"\blast_child\b", ["first_child"]), (r"\bfrom\b(?=[,)\];. ])", ["to"]), (r"\bto\b(?=[,)\];. ])", ["from"]),
    (r"\bstart\b(?=[,)\];. ])", ["end"]), (r"\bend\b(?=[,)\];. ])", ["start"]), (r"\bopen_start\b", ["open_end"]), (r"\bopen_end\b", ["open_start"]),
    (r"\bindex\(", ["index_after("]), (r"\bindex_after\(", ["index("]), (r"\bis_some\(\)", ["is_none()"]), (r"\bis_none\(\)", ["is_some()"]),
    (r"\| Self::\w+(?!\w*[({:])", [""]), (r"if !", ["if "]), (r"\bif (?!let)(?=[a-z*])", ["if !"]), (r"\.is_empty\(\)", [".is_empty() == false"]),
    (r"^(\s*)(\w[\w.]*\.(push|push_str|pop|insert|remove|extend_from_slice|append|add|truncate|clear)\(.*\).*;)$", [r"\1"]),
    (r"^(\s*)return .*;$", [r"\1"]), (r"^(\s*)self\.\w+\(.*\)\??;$", [r"\1"]), (r"^(\s*)break;$", [r"\1"]), (r"saturating_sub", ["wrapping_sub"]),
    (r"\bnode_before\b", ["node_after"]), (r"\bnode_after\b", ["node_before"]), (r"\brp_from\b", ["rp_to"]), (r"\brp_to\b", ["rp_from"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]),
    (r"#\[serde\(default\)\]", [""]), (r"skip_serializing_if = \"[^\"]*\"", [""]), (r"rename_all = \"camelCase\"", ['rename_all = "snake_case"']),
    (r"valid_end\(\)", ["valid_end() || true"]), (r"\.unwrap_or\(0\)", [".unwrap_or(1)"]), (r"\?;$", [".ok();"]),
]
def mutants():
    out = []
    for f in FILES:
        p = f"/repo/src/{f}"
        lines = open(p).read().split("\n")
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#[cfg(test)]"): break
            if s.startswith("//") or s.startswith("use ") or s.startswith("pub use") or not s: continue
            code = l.split("//")[0]
            if s.startswith("/*"): continue
            for pat, reps in RULES:
                for m in re.finditer(pat, code):
                    for r in reps:
                        new = code[:m.start()] + m.expand(r) + code[m.end():]
                        if new != code: out.append((f, i, l, new))
    seen = set(); res = []
    for m in out:
        k = (m[0], m[1], m[3])
        if k not in seen: seen.add(k); res.append(m)
    return res
def run(outp, w, n, seed, mx, scale):
    ms = mutants(); random.Random(seed).shuffle(ms)
    ms = ms[:mx][w::n]
    W = f"/tmp/mut{w}"
    os.makedirs(W, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", f"{W}/repo/"]) if shutil.which("rsync") else subprocess.run(f"rm -rf {W}/repo; mkdir -p {W}/repo; cd /repo && tar cf - --exclude target --exclude .git . | tar xf - -C {W}/repo", shell=True)
    shutil.copytree(f"{V}/harness/src", f"{W}/harness/src", dirs_exist_ok=True)
    shutil.copy(f"{V}/harness/Cargo.lock", f"{W}/harness/"); shutil.copy(f"{V}/known-findings.txt", W)
    open(f"{W}/harness/Cargo.toml", "w").write(open(f"{V}/harness/Cargo.toml").read().replace("/repo", f"{W}/repo"))
    cpus = os.cpu_count() // n
    ts = ["taskset", "-c", f"{w*cpus}-{w*cpus+cpus-1}"]
    env = dict(os.environ, CARGO_TARGET_DIR=f"{W}/target", VERIF_DIR=W, HARNESS_SECS="60")
    for f, i, old, new in ms:
        p = f"{W}/repo/src/{f}"
        lines = open(f"/repo/src/{f}").read().split("\n"); lines[i] = new
        open(p, "w").write("\n".join(lines))
        r = subprocess.run(ts + ["cargo", "build", "--offline", "--release"], cwd=f"{W}/harness", env=env, capture_output=True, text=True)
        rec = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        if r.returncode: rec["result"] = "no build"
        else:
            ids = subprocess.run([f"{W}/target/release/harness", "list"], capture_output=True, text=True).stdout.split()
            pref = []
            for k, v in FIRST.items():
                if f.startswith(k): pref = [x for x in v.split() if x in ids]; break
            order = pref + [x for x in ids if x not in pref]
            rec["result"] = "SURVIVED"
            for c in order:
                try:
                    q = subprocess.run(ts + [f"{W}/target/release/harness", "check", c, "--scale", str(scale)], env=env, capture_output=True, text=True, timeout=400)
                    rc = q.returncode
                except subprocess.TimeoutExpired: rc = 1
                if rc: rec["result"] = c; break
        shutil.copy(f"/repo/src/{f}", p)
        open(outp, "a").write(json.dumps(rec) + "\n")
if sys.argv[1] == "list":
    ms = mutants(); print(len(ms))
    import collections; print(collections.Counter(m[0] for m in ms))
else:
    a = sys.argv; run(a[2], int(a[3]), int(a[4]), int(a[5]) if len(a) > 5 else 1, int(a[6]) if len(a) > 6 else 10**9, float(a[7]) if len(a) > 7 else 0.15)
