#!/bin/bash
# Nothing to build ahead: every check builds a copy of /repo's current tree.
# Fails early where a tool is missing.
set -e
cd "$(dirname "$0")/.."
export PATH=/root/.cargo/bin:$PATH
cargo kani --version
python3 -c 'import sys; sys.path.insert(0, "bin"); import check; r = check.registry(); print(len(r), "harnesses")'
mkdir -p evidence
