#!/bin/bash
# run.sh ID [options]     run the simulations of one property on /repo's tree
# run.sh -replay FILE     execute a replay file
# The code under test is instrumented and built afresh from the working tree.
[ "$1" = -replay ] && file=$(realpath "$2")
cd "$(dirname "$0")/sim" || exit 2
verif=$(cd .. && pwd)
build=
unset GOFLAGS GOWORK GOENV
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOTOOLCHAIN=local
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
if [ "$1" = -replay ]; then
	shift 2
	id=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
	set -- -replay "$file" "$@"
else
	id=$1
	shift
	[ "$1" = -build ] && build=1
	set -- -prop "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" "$@"
fi
[ -n "$id" ] || { echo "run.sh: no property" >&2; exit 2; }
dir=$(mktemp -d "${TMPDIR:-/tmp}/simv.XXXXXX") || exit 2
[ -n "$SIMV_KEEP" ] || trap 'rm -rf "$dir"' EXIT
race=() flag=
case $id in C11|C12)
	# The simulator itself is not watched. Without instrumentation the compiler
	# would let it allocate past the race detector's bookkeeping.
	export GOEXPERIMENT=nosizespecializedmalloc
	flag=-race race=(-race)
	for p in simrt simsync simos; do race+=("-gcflags=simv/$p=-race=false -l"); done
	;;
esac
go run ./cmd/instrument $flag -out "$dir/src" ./cmd/check || exit 2
go build -overlay "$dir/src/overlay.json" "${race[@]}" -o "$dir/check" ./cmd/check || exit 2
[ -n "$build" ] && exit 0
TMPDIR=$dir "$dir/check" -sites "$dir/src/sites.json" -verif "$verif" "$@"
exit $?
