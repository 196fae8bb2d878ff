#!/bin/bash
# check.sh ID            run the check of property ID (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE   execute a replay file
# check.sh build DIR     only build the simulator of /repo's working tree into DIR
#
# Builds the simulator around an instrumented copy of /repo's current working
# tree in a scratch directory. /repo is only read.
set -u
V=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=readonly
build() { # into $1
	if [ "$R" != /repo ]; then # a copy of /repo, for experiments
		sed "s|=> /repo$|=> $R|" "$V/sim/go.mod" >"$1/go.mod" && cp "$V/sim/go.sum" "$1/go.sum" || return 2
		export GOFLAGS="-mod=readonly -modfile=$1/go.mod"
	fi
	(cd "$V/sim" && go build -o "$1/instrument" ./cmd/instrument) || return 2
	(cd "$V/sim" && "$1/instrument" "$R" "$1/ov") || return 2
	(cd "$V/sim" && go build -overlay "$1/ov/overlay.json" -o "$1/simcheck" ./cmd/simcheck) || return 2
}
case "${1:-}" in
build)
	mkdir -p "$2" && build "$2"
	exit $?
	;;
"")
	echo "usage: check.sh ID | replay FILE | build DIR" >&2
	exit 2
	;;
esac
T=$(mktemp -d "${TMPDIR:-/tmp}/goorcsim.XXXXXX") || exit 2
trap 'rm -rf -- "$T"' EXIT
export TMPDIR="$T"
mkdir "$T/gotmp"
export GOTMPDIR="$T/gotmp"
build "$T" || { echo "check.sh: the build failed" >&2; exit 2; }
if [ "$1" = replay ]; then
	"$T/simcheck" replay "$2"
	exit $?
fi
"$T/simcheck" check -prop "$1" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$V" -instr "$T/ov/instrument.json"
exit $?
