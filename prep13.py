#!/usr/bin/env python3
"""prep13.py <target dir> <instrument: 1|0>: copies the library's current sources and routes std through the controlled scheduler."""
import os, re, shutil, sys
dst, inst = sys.argv[1], sys.argv[2] == "1"
here = os.path.dirname(os.path.abspath(__file__))
new = {}
for root, _, files in os.walk("/repo/src"):
    for f in files:
        p = os.path.join(root, f)
        data = open(p, "rb").read()
        if f.endswith(".rs") and inst:
            t = data.decode()
            t = re.sub(r"(?<![A-Za-z0-9_:])(?:::)?std::", "::mcstd::", t)
            t = re.sub(r"(?<![A-Za-z0-9_:])(?:::)?core::sync::", "::mcstd::sync::", t)
            t = re.sub(r"\bextern crate std\b", "extern crate mcstd", t)
            data = t.encode()
        new[os.path.relpath(p, "/repo")] = data
toml = open("/repo/Cargo.toml").read()
toml = toml.replace("[dependencies]", '[dependencies]\nmcstd = { path = "%s/shims/mcstd" }' % here, 1)
toml = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", toml)
new["Cargo.toml"] = toml.encode()
for extra in ("README.md", "build.rs"):
    if os.path.exists("/repo/" + extra):
        new[extra] = open("/repo/" + extra, "rb").read()
for root, _, files in os.walk(dst):
    for f in files:
        p = os.path.join(root, f)
        if os.path.relpath(p, dst) not in new:
            os.remove(p)
for rel, data in new.items():
    p = os.path.join(dst, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p, "rb").read() != data:
        open(p, "wb").write(data)
