#!/bin/bash
# newseed.sh <id> <property> <features> : takes /repo's uncommitted diff as the planted change, demo.rs from stdin
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff; test -s $d/patch.diff
git -C /repo checkout -- .
cat > $d/demo.rs
cat > $d/demo.sh <<EOF
#!/bin/bash
# Runs demo.rs against the combine in the current directory; fails if an assertion of it does.
here=\$(cd "\$(dirname "\$0")" && pwd)
repo=\$PWD
w=\$(mktemp -d) || exit 3
trap 'rm -rf "\$w"' EXIT
mkdir -p "\$w/src"
cp "\$here/demo.rs" "\$w/src/main.rs"
cat > "\$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
combine = { path = "\$repo", features = [$3] }
$4
T
cp "\$repo/Cargo.lock" "\$w/" 2>/dev/null
cd "\$w" || exit 3
export CARGO_TARGET_DIR="\$w/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
timeout 280 cargo run --offline --quiet
EOF
chmod +x $d/demo.sh
