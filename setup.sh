#!/bin/bash
# Builds the symbolic executor and warms the harness's dependencies.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import check
check.build_engine()
P
d=$(mktemp -d)
./harness/build.sh p01 "$d" >/dev/null
rm -rf -- "$d"
