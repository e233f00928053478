#!/bin/bash
# developer tool: turns the current diff of /repo into a planted bug and undoes the diff.
# usage: newseed.sh <id> <property> <needs> <what_it_breaks> < main.rs
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
git -C /repo checkout -- .
cat > $d/main.rs
cp /verif/harness/Cargo.lock $d/Cargo.lock.txt
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
cat > $d/demo.sh <<'D'
#!/bin/bash
# builds main.rs against /repo/engine in a scratch directory and runs it: exit 0 iff the property holds on its input
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
s=$(mktemp -d /tmp/vp_demo.XXXXXX)
trap 'find "$s" -delete' EXIT
mkdir -p "$s/src"
cp "$here/main.rs" "$s/src/main.rs"
cp "$here/Cargo.lock.txt" "$s/Cargo.lock"
cat > "$s/Cargo.toml" <<'T'
[package]
name = "vp_harness"
version = "0.1.0"
edition = "2021"
[dependencies]
rust_road_router = { path = "/repo/engine" }
rand = "^0.8.4"
[profile.dev]
opt-level = 0
debug = 0
incremental = false
[workspace]
T
cd "$s" && CARGO_TARGET_DIR="$s/target" cargo build --offline 2>&1 | tail -20
[ -x "$s/target/debug/vp_harness" ] || exit 3
timeout 200 "$s/target/debug/vp_harness"
D
chmod +x $d/demo.sh
