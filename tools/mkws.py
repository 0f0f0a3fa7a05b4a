#!/usr/bin/env python3
"""Lay out /verif/.build/ws: a cargo workspace over the crates of /repo's *current working tree*.

reth (a git dependency) and the tn-contracts submodule are not available offline, so the real workspace
cannot be resolved. This workspace holds verbatim copies of the crates' sources (copied by content, so a
file's mtime changes exactly when its content does), manifests derived from the repo's own, the few reth
names those crates use provided by the crates in /verif/shims, and the harness crates of /verif/harness.
No source file of the repository is edited on the way, except that modules holding check code are declared at
the end of some (INSIDE below)."""

import os
import re
import shutil
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", f"{VERIF}/.build")
WS = f"{BUILD}/ws"

# crates of the repository taken as they are
CRATES = [
    "crates/tn-utils", "crates/types", "crates/storage", "crates/network-types", "crates/config",
    "crates/network-libp2p", "crates/consensus/primary", "crates/consensus/worker",
    "crates/consensus/executor", "crates/state-sync", "crates/batch-validator",
    "crates/test-utils-committee", "crates/tn-metrics",
]
# check code compiled inside a crate, because what it drives is private there:
# crate -> (dependencies added, [(file appended to, text appended)], [(source in /verif/harness/inside, place)])
INSIDE = {
    "crates/network-libp2p": (
        ["vcore", "vclock", "vgen"],
        [
            ("src/peers/mod.rs", "pub mod verif;"),
            ("src/kad.rs", "pub mod verif;"),
            ("src/consensus.rs", "pub mod verif;"),
            ("src/lib.rs", "pub use peers::verif as verif_peers;\npub use kad::verif as verif_kad;"),
        ],
        [
            ("network-libp2p/peers.rs", "src/peers/verif.rs"),
            ("network-libp2p/kad.rs", "src/kad/verif.rs"),
            ("network-libp2p/directory.rs", "src/consensus/verif.rs"),
        ],
    ),
    "crates/consensus/primary": (
        ["vcore", "vgen"],
        [
            ("src/lib.rs", "pub mod verif;"),
            ("src/network/mod.rs", "pub mod verif;"),
        ],
        [("primary", "src/verif"), ("primary-net.rs", "src/network/verif.rs")],
    ),
}
SHIMS = ["reth-primitives", "reth-chainspec", "reth-tasks", "reth-metrics", "reth-metrics-derive", "tn-reth", "rayon", "vlock"]
# dependencies that cannot be had and are optional or only used by what is left out
DROP = {"reth-libmdbx"}
# dev-dependencies are all dropped: nothing here builds the repo's own tests

wanted = set()


def put(path, data):
    wanted.add(path)
    if isinstance(data, str):
        data = data.encode()
    try:
        if not os.path.islink(path):
            with open(path, "rb") as f:
                if f.read() == data:
                    return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    with open(path, "wb") as f:
        f.write(data)


def copy_tree(src, dst, skip=()):
    for d, subdirs, files in os.walk(src):
        subdirs[:] = sorted(s for s in subdirs if s not in ("target", ".git") and s not in skip)
        for f in sorted(files):
            p = f"{d}/{f}"
            rel = os.path.relpath(p, src)
            if rel in skip:
                continue
            with open(p, "rb") as fh:
                put(f"{dst}/{rel}", fh.read())


def derive_manifest(text):
    """The repo's manifest without dev-dependencies and without what cannot be had."""
    # join multi-line inline tables
    text = re.sub(r"(?ms)^(\S+ = \{[^{}]*\n[^{}]*?\})", lambda m: re.sub(r"\s*\n\s*", " ", m.group(0)), text)
    out, table = [], ""
    for line in text.splitlines():
        if line.startswith("["):
            table = line.strip()
        if "dev-dependencies" in table or table in ("[[bench]]", "[[test]]", "[[example]]"):
            continue
        name = re.match(r"([\w-]+)(\.workspace)?\s*=", line)
        if name and name.group(1) in DROP:
            if table == "[features]":
                out.append(f"{name.group(1)} = []")
            continue
        if name and table == "[features]":
            line = re.sub(r'"dep:(reth-libmdbx|page_size)",?\s*', "", line)
            line = re.sub(r"^default = \[.*reth-libmdbx.*\]", 'default = ["redb"]', line)
        out.append(line)
    return "\n".join(out) + "\n"


def root_manifest(members):
    text = open(f"{REPO}/Cargo.toml", encoding="utf-8").read()
    text = re.sub(r"(?s)\bmembers = \[.*?\]\n", "members = [\n" + "".join(f'    "{m}",\n' for m in members) + "]\n",
                  text, count=1)
    # reth names come from the shims
    def reth(m):
        name = m.group(1)
        return f'{name} = {{ path = "shims/{name}" }}' if name in SHIMS else ""
    text = re.sub(r"(?ms)^(reth[\w-]*) = \{[^{}]*?git = [^{}]*?\}", reth, text)
    text = re.sub(r'(?m)^tn-reth = .*$', 'tn-reth = { path = "shims/tn-reth" }', text)
    text = re.sub(r'(?m)^rayon = .*$', 'rayon = { path = "shims/rayon" }', text)
    # in the real workspace this feature is unified in from members that are left out here
    text = text.replace('alloy = { version = "1.6.3", features = ["full"] }',
                        'alloy = { version = "1.6.3", features = ["full", "rand", "k256"] }')
    text = text.replace('\nclap = "4"', '\nclap = { version = "4", features = ["derive"] }')
    text = text.replace('tracing-subscriber = { version = "0.3.20", default-features = false }',
                        'tracing-subscriber = { version = "0.3.20", default-features = false, features = ["env-filter", "fmt"] }')
    text += """

[profile.dev]
opt-level = 1
debug = "line-tables-only"
debug-assertions = true
overflow-checks = true
incremental = true
codegen-units = 64
split-debuginfo = "unpacked"

[profile.dev.package."*"]
opt-level = 2
debug = false
debug-assertions = false
overflow-checks = false

[profile.dev.build-override]
opt-level = 0
"""
    return text


def main():
    members = list(CRATES)
    for c in CRATES:
        skip = {"Cargo.toml", "tests", "benches"} | {f for f, _ in INSIDE.get(c, ([], [], []))[1]}
        copy_tree(f"{REPO}/{c}", f"{WS}/{c}", skip=skip)
        # src/tests directories are kept (they are #[cfg(test)] there)
        if os.path.isdir(f"{REPO}/{c}/src/tests"):
            copy_tree(f"{REPO}/{c}/src/tests", f"{WS}/{c}/src/tests")
        text = derive_manifest(open(f"{REPO}/{c}/Cargo.toml", encoding="utf-8").read())
        deps, appended, placed = INSIDE.get(c, ([], [], []))
        up = "../" * (c.count("/") + 1)
        text = text.replace("[dependencies]\n", "[dependencies]\n" + "".join(
            f'{d} = {{ path = "{up}harness/{d}" }}\n' for d in deps), 1)
        put(f"{WS}/{c}/Cargo.toml", text)
        for f, more in appended:
            put(f"{WS}/{c}/{f}", open(f"{REPO}/{c}/{f}", encoding="utf-8").read() + f"\n{more}\n")
        for f, place in placed:
            if os.path.isdir(f"{VERIF}/harness/inside/{f}"):
                copy_tree(f"{VERIF}/harness/inside/{f}", f"{WS}/{c}/{place}")
                continue
            put(f"{WS}/{c}/{place}", open(f"{VERIF}/harness/inside/{f}", encoding="utf-8").read())
    copy_tree(f"{REPO}/chain-configs", f"{WS}/chain-configs")
    copy_tree(f"{VERIF}/shims/tn-contracts", f"{WS}/tn-contracts")
    for s in SHIMS:
        copy_tree(f"{VERIF}/shims/{s}", f"{WS}/shims/{s}")
        members.append(f"shims/{s}")

    # the worker gateway is a binary: the same sources are built as a library
    g = "bin/worker-gateway"
    copy_tree(f"{REPO}/{g}", f"{WS}/{g}", skip=("Cargo.toml", "deploy", "tests"))
    text = derive_manifest(open(f"{REPO}/{g}/Cargo.toml", encoding="utf-8").read())
    text = re.sub(r'\[\[bin\]\]\nname = "worker-gateway"\npath = "src/main.rs"\n',
                  '[lib]\nname = "worker_gateway"\npath = "src/verif_lib.rs"\n', text)
    text = text.replace("[package]\n", "[package]\nautobins = false\n", 1)
    # the check of the gateway is one more module of that library, as its items are private to it
    text = text.replace("[dependencies]\n", "[dependencies]\n" + "".join(
        f'{d} = {{ path = "../../harness/{d}" }}\n' for d in ("vcore", "vclock")) + 'alloy = { workspace = true }\n', 1)
    put(f"{WS}/{g}/Cargo.toml", text)
    main_rs = open(f"{REPO}/{g}/src/main.rs", encoding="utf-8").read()
    mods = re.findall(r"(?m)^(?:pub(?:\([a-z]+\))? )?mod (\w+);", main_rs)
    put(f"{WS}/{g}/src/verif_lib.rs",
        "#![allow(unused, missing_docs)]\n" + "".join(f"pub mod {m};\n" for m in mods)
        + "#[path = \"verif/mod.rs\"]\npub mod verif;\n")
    copy_tree(f"{VERIF}/harness/inside/worker-gateway", f"{WS}/{g}/src/verif")
    members.append(g)

    # single files of tn-reth that need no reth: taken into the tn-reth shim by #[path]
    copy_tree(f"{REPO}/crates/tn-reth/src", f"{WS}/crates-src/tn-reth")
    copy_tree(f"{REPO}/crates/node/src", f"{WS}/crates-src/node")

    for h in sorted(os.listdir(f"{VERIF}/harness")):
        if os.path.isfile(f"{VERIF}/harness/{h}/Cargo.toml"):
            copy_tree(f"{VERIF}/harness/{h}", f"{WS}/harness/{h}")
            members.append(f"harness/{h}")

    put(f"{WS}/Cargo.toml", root_manifest(members))
    # The lock file is the repo's; cargo drops what is not used and adds what the harness crates need
    # (pinned by /verif/Cargo.lock, which is this workspace's own lock file, committed).
    lock = f"{VERIF}/Cargo.lock"
    src = lock if os.path.exists(lock) else f"{REPO}/Cargo.lock"
    put(f"{WS}/Cargo.lock", open(src, "rb").read())

    for top in ("crates", "crates-src", "shims", "harness", "bin", "chain-configs", "tn-contracts"):
        for d, subdirs, files in os.walk(f"{WS}/{top}"):
            for f in files:
                if f"{d}/{f}" not in wanted:
                    os.remove(f"{d}/{f}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
