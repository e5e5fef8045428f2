#!/usr/bin/env python3
"""Builds and confirms planted bugs (development tool, no check uses it).
usage: seed.py make <id>... | all      apply edits of seeds_src/*.py in a scratch copy, confirm, write seeded/<id>/
       seed.py run <id>... [-p C01,C02]  run the checks against a scratch copy with the change"""
import os, sys, subprocess, shutil, json, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
HEAD = '''#!/bin/bash
B="$PWD/target/debug/hibou_label"
HERE="$(cd "$(dirname "$0")" && pwd)"
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT; cd "$D" || exit 3
'''
def ana(hsf, hif, htf, want, hcf=None):
    """a demo that analyses and expects a verdict"""
    s = HEAD
    s += "cat > m.hsf <<'X'\n" + hsf + "\nX\ncat > m.hif <<'X'\n" + hif + "\nX\ncat > m.htf <<'X'\n" + htf + "\nX\n"
    a = ""
    if hcf:
        s += "cat > m.hcf <<'X'\n" + hcf + "\nX\n"
        a = " m.hcf"
    s += 'OUT=$("$B" analyze m.hsf m.hif m.htf%s 2>&1); echo "$OUT"\n' % a
    s += 'grep -q "verdict *: \'%s" <<< "$OUT"\n' % want
    return s
def sh(body, **files):
    s = HEAD
    for k, v in files.items():
        s += "cat > %s <<'X'\n%s\nX\n" % (k.replace("_", "."), v)
    return s + body + "\n"
def rust(code, hsf="", hif=""):
    """a demo made of a unit test added to a scratch copy of the crate"""
    s = HEAD
    s += """R="$OLDPWD"
mkdir c && cp -a "$R/Cargo.toml" "$R/Cargo.lock" "$R/src" c/ && cp -a "$R/target" t || exit 3
printf '\\n#[cfg(test)]\\nmod zz_demo;\\n' >> c/src/main.rs
cat > c/src/zz_demo.rs <<'X'
""" + code + """
X
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR="$D/t"
cd c && cargo test --offline zz_demo > ../log 2>&1; tail -30 ../log
grep -q "test zz_demo::demo ... ok" ../log
"""
    return s
def run(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def scratch():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(W + "/repo"):
        run(f"cp -a /repo {W}/repo")
    if not os.path.isdir(W + "/verif"):
        os.makedirs(W + "/verif")
    run(f"cd {W}/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq")
def build():
    e = dict(os.environ)
    r = run(f". /opt/vp/env.sh; export CARGO_TARGET_DIR={W}/repo/target; cd {W}/repo && cargo build --offline 2>&1 && cargo test --offline 2>&1")
    return r.returncode == 0 and "test result: ok. 10 passed" in r.stdout, r.stdout[-3000:]
def demo(f):
    try:
        return run(f"bash {f}", cwd=W + "/repo", timeout=280).returncode
    except subprocess.TimeoutExpired:
        return 124
def main():
    for f in sorted(glob.glob(ROOT + "/seeds_src/*.py")):
        exec(open(f).read(), globals())
    args = sys.argv[2:]
    props = None
    if "-p" in args:
        k = args.index("-p"); props = args[k+1].split(","); del args[k:k+2]
    ids = list(SEEDS) if args == ["all"] else args
    scratch()
    if sys.argv[1] == "make":
        todo = []
        for i in ids:
            s = SEEDS[i]
            d = f"{ROOT}/seeded/{i}"
            os.makedirs(d, exist_ok=True)
            open(d + "/demo.sh", "w").write(s["demo"])
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            os.chmod(d + "/demo.sh", 0o755)
        ok, o = build()
        assert ok, o
        for i in ids:
            r = demo(f"{ROOT}/seeded/{i}/demo.sh")
            if r != 0:
                print(i, "DEMO FAILS ON THE UNCHANGED TREE", r)
                print(run(f"bash {ROOT}/seeded/{i}/demo.sh", cwd=W + "/repo").stdout[-1500:])
            else:
                todo.append(i)
        for i in todo:
            s = SEEDS[i]
            bad = False
            for f, old, new in s["edits"]:
                p = f"{W}/repo/{f}"
                t = open(p).read()
                if t.count(old) < 1:
                    print(i, "old text not found in", f); bad = True; break
                if t.count(old) > 1:
                    print(i, "old text found", t.count(old), "times in", f); bad = True; break
                open(p, "w").write(t.replace(old, new))
            if not bad:
                open(f"{ROOT}/seeded/{i}/patch.diff", "w").write(run("git diff", cwd=W + "/repo").stdout)
                ok, o = build()
                if not ok:
                    print(i, "BUILD OR TESTS FAIL", o[-1500:])
                else:
                    r = demo(f"{ROOT}/seeded/{i}/demo.sh")
                    print(i, "ok" if r != 0 else "DEMO PASSES WITH THE CHANGE")
            run("git checkout -q -f FETCH_HEAD", cwd=W + "/repo")
    else:
        run(f"rsync -a --delete --exclude shim {ROOT}/harness/ {W}/verif/harness/ 2>/dev/null || cp -a {ROOT}/harness {W}/verif/")
        run(f"mkdir -p {W}/verif/harness; cp -a {ROOT}/harness/. {W}/verif/harness/; cp -a {ROOT}/bin {ROOT}/known_findings.txt {W}/verif/; mkdir -p {W}/verif/evidence {W}/verif/replays")
        if not os.path.isdir(W + "/verif/target"):
            run(f"cp -a {ROOT}/target {W}/verif/target")
        for i in ids:
            r = run(f"git apply {ROOT}/seeded/{i}/patch.diff", cwd=W + "/repo")
            if r.returncode != 0:
                print(i, "does not apply", r.stderr); continue
            for p in props or [json.load(open(f"{ROOT}/seeded/{i}/meta.json"))["property"]]:
                r = run(f"HIBOU_REPO={W}/repo bash bin/check.sh {p} quick", cwd=W + "/verif")
                print(i, p, {0: "MISSED", 1: "caught"}.get(r.returncode, r.returncode), "|", (r.stdout.strip().splitlines() or [""])[1 if r.returncode == 1 and len(r.stdout.splitlines()) > 1 else 0][:200], r.stderr[-300:] if r.returncode > 1 else "", flush=True)
            run("git checkout -q -f FETCH_HEAD", cwd=W + "/repo")
main()
