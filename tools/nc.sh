#!/bin/bash
# print rust files without comments and without their inline test modules
for f in "$@"; do echo "=== $f"; awk '/^(pub\(crate\) )?mod [a-z_]*test[a-z_]* \{/{exit} {print}' "$f" | grep -v '^\s*//' ; done
