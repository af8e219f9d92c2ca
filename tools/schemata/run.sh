#!/bin/bash
# run.sh SCRATCH JOBS [C15 ...]: conditional mutants of /repo's working tree against the monitors (see run.py)
set -e
H=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$1/repo"
cp -a /repo/Cargo.toml /repo/src "$1/repo/"
[ ! -d /repo/examples ] || cp -a /repo/examples "$1/repo/"
cp -a "$H/../../harness" "$H/../../bare" "$1/"
sed -i "s#path = \"/repo\"#path = \"$1/repo\"#" "$1/harness/Cargo.toml"
python3 "$H/instrument.py" "$1"
(cd "$1/harness" && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$1/t" cargo build -q --offline --bins)
python3 "$H/run.py" "$@"
