#!/bin/bash
# Usage: check.sh <property> [--replay <file>] | check.sh --build
# Builds the harness against /repo's working tree and decides one property. VERIF_SEED, VERIF_TIER as for every check.
set -u
ID=${1:?property}
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR=$HERE
export HOME=${HOME:-/root}
export PATH=$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.85.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export RUSTC_WRAPPER=$HERE/tools/rustc-cov.sh
export RUSTFLAGS="--cfg dnssec_prover_verif -Awarnings"
export CARGO_TARGET_DIR=$HERE/target/cov
LOG=$HERE/target/build-$ID.log
mkdir -p "$HERE/target" "$HERE/evidence" "$HERE/replays"
FEATURES=
case "$ID" in
	C21) FEATURES="--features net"; export VERIF_JOBS=${VERIF_JOBS:-40} ;;
	C24) FEATURES="--features wasm" ;;
	C25)
		FEATURES="--features wasm"
		export JS_DIR=$HERE/target/js
		mkdir -p "$JS_DIR"
		cp "$HERE"/harness/js/* "$HERE"/../repo/wasmpack/*.js "$JS_DIR/" || exit 2
		;;
esac
if ! cargo build $FEATURES --offline --release --locked --manifest-path "$HERE/harness/Cargo.toml" > "$LOG" 2>&1; then
	tail -60 "$LOG" >&2
	echo "check.sh: the harness does not build" >&2
	exit 2
fi
if [ "$ID" = --build ]; then exit 0; fi
if [ "$ID" = C23 ]; then
	# The server itself, as its users build it.
	if ! RUSTC_WRAPPER= RUSTFLAGS=-Awarnings cargo build --offline --manifest-path "$HERE/../repo/Cargo.toml" --bin http_proof_gen --features build_server --target-dir "$HERE/target-http" > "$LOG" 2>&1; then
		tail -60 "$LOG" >&2
		echo "check.sh: the server does not build" >&2
		exit 2
	fi
	export HTTP_BIN=$HERE/target-http/debug/http_proof_gen VERIF_JOBS=${VERIF_JOBS:-32}
fi
BIN=$CARGO_TARGET_DIR/release/harness
if [ "${2:-}" = --replay ]; then exec "$BIN" replay "$ID" "$3"; fi
exec "$BIN" check "$ID"
