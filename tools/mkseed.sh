#!/bin/bash
# mkseed.sh ID PROPERTY: turn the uncommitted edits of the scratch tree /tmp/w/seedrepo into seeded/ID
# (needs main.rs at /tmp/w/seed.rs, texts in $NEEDS and $BREAKS), and confirm it: builds, tests pass, demo tells the trees apart.
set -e
id=$1 prop=$2
S=/tmp/w/seedrepo D=/verif/seeded/$id
mkdir -p "$D"
git -C $S diff -- src > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no edit"; exit 1; }
cp /tmp/w/seed.rs "$D/main.rs"
cat > "$D/demo.sh" <<'X'
#!/bin/bash
# exit 0 when the library behaves as the property says
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
d=$(mktemp -d /tmp/husk-demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
husk = { path = "$repo" }
rand = { version = "^0.8", features = ["getrandom"] }
[workspace]
T
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q 2>&1 | tail -5
exit "${PIPESTATUS[0]}"
X
python3 - "$D" "$prop" <<'X'
import json,sys,os
json.dump({"property":sys.argv[2],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},open(sys.argv[1]+"/meta.json","w"),indent=1)
X
git -C $S checkout -q -- .
cd $S
bash "$D/demo.sh" > /tmp/w/d0.log 2>&1 || { echo "FAIL: demo fails on the clean tree"; tail -5 /tmp/w/d0.log; exit 1; }
git apply "$D/patch.diff"
. /opt/vp/env.sh
if ! cargo test --workspace --offline > /tmp/w/t.log 2>&1; then echo "FAIL: tests"; grep -E "FAILED|failed|^error" /tmp/w/t.log | head; git checkout -q -- .; exit 1; fi
if bash "$D/demo.sh" > /tmp/w/d1.log 2>&1; then echo "FAIL: demo passes with the patch"; git checkout -q -- .; exit 1; fi
tail -3 /tmp/w/d1.log
git checkout -q -- .
echo "OK $id"
