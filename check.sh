#!/bin/bash
# check.sh ID quick|thorough [FILE]   decide one property on /repo's current working tree
# check.sh ID replay FILE             judge one saved case
set -u
cd "$(dirname "$0")"
export VERIF_DIR=$PWD CARGO_NET_OFFLINE=true
id=$1 tier=$2
build() { # arguments for cargo; output only when it fails
	local log
	log=$(mktemp)
	if ! cargo "$@" >"$log" 2>&1; then
		cat "$log" >&2
		rm -f "$log"
		echo "$id: could not build" >&2
		exit 3
	fi
	rm -f "$log"
}
harness=harness
RUSTFLAGS=-Awarnings build build --offline --locked --manifest-path harness/Cargo.toml --target-dir target
if [ "$id" = C22 ]; then
	RUSTFLAGS=-Awarnings build build --offline --locked --manifest-path /repo/Cargo.toml --example main --target-dir target/cli --config profile.dev.opt-level=1 --config profile.dev.debug=0
	export VERIF_CLI=$PWD/target/cli/debug/examples/main
fi
if [ "$tier" = replay ]; then
	exec target/debug/harness replay "$id" "$3"
fi
if [ "$id" = C18 ]; then
	# the same histories once more under AddressSanitizer, then (thorough) a few under Miri
	RUSTFLAGS="-Zsanitizer=address -Awarnings" build +nightly build --offline --locked --manifest-path harness/Cargo.toml --target-dir target/asan --target x86_64-unknown-linux-gnu
	export VERIF_ASAN=$PWD/target/asan/x86_64-unknown-linux-gnu/debug/harness
	if [ "$tier" = thorough ]; then
		RUSTFLAGS=-Awarnings build +nightly miri setup --manifest-path harness/Cargo.toml
		scratch=$(mktemp -d)
		mkdir -p replay
		for k in 1 2 3 4 5 6 7 8; do
			(
				MIRIFLAGS=-Zmiri-disable-isolation RUSTFLAGS=-Awarnings timeout 330 cargo +nightly miri run --offline --locked --manifest-path harness/Cargo.toml \
					--target-dir target/miri -- mini $((k + 8 * ${VERIF_SEED:-1})) "$scratch/case$k" >"$scratch/out$k" 2>"$scratch/err$k"
				echo $? >"$scratch/rc$k"
			) &
		done
		wait
		n=0
		for k in 1 2 3 4 5 6 7 8; do
			if grep -q 'Undefined Behavior\|memory leaked\|panicked' "$scratch/err$k"; then
				cp "$scratch/case$k" "replay/C18-miri$k.case"
				head -c 2000 "$scratch/err$k"
				echo "VIOLATION property=C18 replay=replay/C18-miri$k.case"
				rm -rf "$scratch"
				exit 1
			fi
			n=$((n + $(head -1 "$scratch/out$k" | grep -x '[0-9]*' || echo 0)))
		done
		rm -rf "$scratch"
		export VERIF_EXTRA="inputs interpreted by Miri=$n"
	fi
fi
exec target/debug/harness run "$id" "$tier"
