#!/bin/bash
# run.sh PROPERTY quick|thorough      decide one property
# run.sh replay FILE                  replay a recorded violation
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself is broken.
cd "$(dirname "$0")" || exit 2
DIR=$PWD
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=$PATH:/usr/local/go/bin
mkdir -p "$DIR/.build" "$DIR/evidence" || exit 2
W=$(mktemp -d "$DIR/.build/w.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
PROP=$1 TIER=${2:-${VERIF_TIER:-quick}}
if [ "$1" = replay ]; then
	PROP=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
fi
if [ "$1" = setup ]; then
	# compiles everything once, so that the build cache is warm where it is kept
	bash sim/gen_gomod.sh "$W" && cd sim && go build -modfile="$W/go.mod" -o "$W/check" ./cmd/check
	exit $?
fi
bash sim/gen_gomod.sh "$W" || exit 2
MOD=-modfile=$W/go.mod
BUILD=()
case "$PROP" in
C01 | C02 | C03 | C04 | C05 | C06 | C07 | K01 | K02 | B05 | W02)
	# the scheduler's hooks are put into copies of /repo's current sources
	if [ -d sim/cmd/instrument ]; then
		(cd sim && go run "$MOD" ./cmd/instrument -repo /repo -out "$W/overlay") >"$W/instrument.log" 2>&1 || { cat "$W/instrument.log" >&2; exit 2; }
		bash sim/seam_serix.sh "$W"
		BUILD=(-race -overlay "$W/overlay/overlay.json")
	fi
	;;
*)
	# one thread of control: only the order in which maps are iterated is left to decide
	(cd sim && go run "$MOD" ./cmd/instrument -maps -repo /repo -out "$W/overlay") >"$W/instrument.log" 2>&1 || { cat "$W/instrument.log" >&2; exit 2; }
	bash sim/seam_serix.sh "$W"
	BUILD=(-overlay "$W/overlay/overlay.json")
	;;
esac
build() { (cd sim && go build "$MOD" "$@" -o "$W/check" ./cmd/check) >"$W/build.log" 2>&1; }
if ! build "${BUILD[@]}"; then
	# An instrumented copy that does not compile is left out, as long as that helps.
	ok=
	if [ -d "$W/serializer" ]; then
		bash sim/gen_gomod.sh "$W" && build "${BUILD[@]}" && ok=1
	fi
	if [ -z "$ok" ] && [ ${#BUILD[@]} -gt 0 ]; then
		for _ in 1 2 3 4 5; do
			python3 - "$W" <<-'E' || break
			import json, re, sys
			w = sys.argv[1]
			o = json.load(open(w + "/overlay/overlay.json"))
			log = open(w + "/build.log").read()
			bad = [k for k, v in o["Replace"].items() if re.search(r"(^|[\s/])%s:\d+" % re.escape(v.rsplit("/", 1)[-1]), log) or re.search(r"(^|[\s/])%s:\d+" % re.escape(k.rsplit("/", 1)[-1]), log)]
			for k in bad:
			    del o["Replace"][k]
			    print("not instrumented:", k, file=sys.stderr)
			json.dump(o, open(w + "/overlay/overlay.json", "w"))
			sys.exit(0 if bad else 1)
			E
			build "${BUILD[@]}" && ok=1 && break
		done
	fi
	[ -n "$ok" ] || { cat "$W/build.log" >&2; exit 2; }
fi
if [ "$1" = replay ]; then
	"$W/check" -dir "$DIR" -replay "$2"
	exit $?
fi
"$W/check" -property "$PROP" -tier "$TIER" -seed "${VERIF_SEED:-1}" -dir "$DIR"
