#!/bin/bash
# usage: plant.sh ID WORKTREE [release] [SECS] : turns WORKTREE's diff against its HEAD into seeded/ID and verifies it.
# Needs seeded/ID/{demo.rs,meta.json}.
id=$1; w=$2; mode=${3:-debug}; secs=${4:-60}
d=/verif/seeded/$id; mkdir -p "$d"
git -C "$w" diff > "$d/patch.diff"
flags=; [ "$mode" = release ] && flags=--release
sed -e "s/@ID@/$id/g; s/@FLAGS@/$flags/; s/@DIR@/$mode/; s/@SECS@/$secs/" /verif/tools/demo-template.sh > "$d/demo.sh"; chmod +x "$d/demo.sh"
cp "$d/demo.rs" /tmp/pl-demo.rs
( cd /repo && git apply --check "$d/patch.diff" ) || { echo "$id: does not apply"; exit 1; }
( export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TARGET_DIR=$w/target CARGO_PROFILE_DEV_DEBUG=line-tables-only
  cd "$w" && cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/pl.log 2>&1 )
echo "$id tests: $(grep -c '\.\.\. ok' /tmp/pl.log) ok, $(grep -c 'FAILED$' /tmp/pl.log) failed; $(grep -cE '^error' /tmp/pl.log) errors"
( cd /repo && bash "$d/demo.sh" > /tmp/pl.a 2>&1 ); a=$?
( cd "$w" && bash "$d/demo.sh" > /tmp/pl.b 2>&1 ); b=$?
echo "$id demo: unchanged $a, patched $b"; [ $a = 0 ] || tail -5 /tmp/pl.a; tail -3 /tmp/pl.b | cut -c1-200
python3 -c "import json;json.load(open('$d/meta.json'))" || echo bad meta
