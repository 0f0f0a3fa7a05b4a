#!/bin/bash
# commit.sh "message": bring the generated files and the lock file up to date, and commit /verif
cd /verif && . tools/env.sh && python3 tools/mkws.py && (cd .build/ws && cargo metadata --offline --format-version 1 >/dev/null 2>&1; cp Cargo.lock /verif/Cargo.lock)
python3 tools/mkws.py && (cd .build/ws && cargo metadata --offline --locked --format-version 1 >/dev/null) || { echo "lock file"; exit 1; }
python3-vt tools/props.py && python3-vt tools/manifest.py && git add -A && git commit -qm "$1" && git status --short | head -3
