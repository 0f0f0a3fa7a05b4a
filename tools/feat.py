#!/usr/bin/env python3
"""Write harness/vfeat/Cargo.toml: a crate every harness depends on, so that all of them build the third-party crates
with the same features, once. To be run (some times over, until it says nothing changes) when dependencies change."""
import collections, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = f"{V}/harness/vfeat/Cargo.toml"
hs = [h for h in sorted(os.listdir(f"{V}/harness")) if h.startswith("h-")]
sets = collections.defaultdict(set)
for h in hs:
    t = subprocess.run(["cargo", "tree", "--offline", "-p", h, "-e", "normal,no-proc-macro", "--prefix", "none", "-f", "{p}|{f}"],
                       capture_output=True, text=True, cwd=f"{V}/.build/ws", check=True).stdout
    for l in set(t.splitlines()):
        p, f = l.replace(" (*)", "").split("|")
        if "(" not in p:
            sets[p.strip()].add(f)
have = {}
if os.path.exists(out):
    for l in open(out):
        if l.startswith("f_"):
            have[l.split()[0]] = l
lines = dict(have)
for p, fs in sorted(sets.items()):
    name, ver = p.split(" v")
    key = "f_" + name.replace("-", "_") + "_" + ver.split("+")[0].replace(".", "_")
    if (len(fs) > 1 or key in have) and not name.startswith("rustls"):
        f = sorted(x for x in set().union(*[x.split(",") for x in fs]) if x)
        lines[key] = f'{key} = {{ package = "{name}", version = "={ver.split("+")[0]}", default-features = false, features = [{", ".join(chr(34)+x+chr(34) for x in f)}] }}\n'
text = '[package]\nname = "vfeat"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\ntn-types = { workspace = true, features = ["test-utils"] }\n' + "".join(lines[k] for k in sorted(lines))
old = open(out).read() if os.path.exists(out) else ""
os.makedirs(f"{V}/harness/vfeat/src", exist_ok=True)
open(out, "w").write(text)
open(f"{V}/harness/vfeat/src/lib.rs", "w").write("//! Nothing: see tools/feat.py.\n")
print("changed" if text != old else "nothing changes", len(lines))
