#!/usr/bin/env python3
"""Mirror /repo's working tree (src/ and the dependency list) into the shim library crate.

hibou_label is a binary-only crate, so no other crate can depend on it. The shim crate is the same sources,
byte for byte (but for the `pub` of modules), compiled as a library. Only files whose content differs are rewritten, so that cargo's
mtime-based fingerprints see exactly the changes."""
import os, re, sys, shutil

REPO = os.environ.get("HIBOU_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = os.path.join(HERE, "harness", "shim")

def read(p):
    with open(p, "rb") as f:
        return f.read()

def put(p, data):
    if os.path.isfile(p) and not os.path.islink(p) and read(p) == data:
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.lexists(p):
        os.remove(p)
    with open(p, "wb") as f:
        f.write(data)

def mirror(src, dst):
    keep = set()
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            keep.add(r)
            data = read(os.path.join(root, f))
            if r.endswith(".rs"):
                # modules are private to the executable; the checks call into some of them
                data = re.sub(rb"(?m)^(?:pub(?:\([^)]*\))?[ \t]+)?mod[ \t]+(\w+)[ \t]*;", rb"pub mod \1;", data)
            put(os.path.join(dst, r), data)
    for root, dirs, files in os.walk(dst, topdown=False):
        rel = os.path.relpath(root, dst)
        for f in files:
            if os.path.normpath(os.path.join(rel, f)) not in keep:
                os.remove(os.path.join(root, f))
        if root != dst and not os.listdir(root):
            os.rmdir(root)

def main():
    toml = read(os.path.join(REPO, "Cargo.toml")).decode()
    m = re.search(r"^\[dependencies\].*?(?=^\[(?!dependencies)|\Z)", toml, re.S | re.M)
    deps = m.group(0)
    ed = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M).group(1)
    ver = re.search(r'^version\s*=\s*"([^"]+)"', toml, re.M).group(1)
    put(os.path.join(SHIM, "Cargo.toml"), (
        '# generated by bin/sync.py\n[package]\nname = "hibou_label"\nversion = "%s"\nedition = "%s"\n'
        'autobins = false\nautotests = false\nautoexamples = false\nautobenches = false\n'
        'build = false\n\n[lib]\nname = "hibou_label"\npath = "src/main.rs"\ntest = false\ndoctest = false\n\n%s'
        % (ver, ed, deps)).encode())
    mirror(os.path.join(REPO, "src"), os.path.join(SHIM, "src"))
    lock = os.path.join(HERE, "harness", "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)

main()
