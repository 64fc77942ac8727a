#!/bin/bash
# check.sh ID [--replay FILE]: build the monitors together with /repo's current
# working tree and run the check of a property (or one recorded violation).
# VERIF_SEED and VERIF_TIER (quick, thorough) come from the environment.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=${1:?usage: check.sh ID [--replay FILE]}
REPO=/repo
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}

export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOENV=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_ENABLED=0
export LC_ALL=C.UTF-8 TZ=UTC
unset GOGC GOMEMLIMIT GODEBUG GOMAXPROCS 2>/dev/null

S=$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXXXX") || exit 2
cleanup() { case "$S" in */vmon.*) chmod -R u+rwX "$S" 2>/dev/null; rm -rf "$S";; esac; }
trap cleanup EXIT
trap 'exit 2' INT TERM
if ! mkdir -p "$GOCACHE" 2>/dev/null || ! touch "$GOCACHE/.vmon" 2>/dev/null; then
	export GOCACHE=$S/gocache
fi

fail() { echo "check.sh: $*" >&2; exit 2; }

# The module files are copied, so that a build never touches the originals.
cp "$ROOT/harness/go.mod" "$S/h.mod" && cp "$ROOT/harness/go.sum" "$S/h.sum" || fail "no module file"
RACE=
case $ID in C14) RACE=-race; export CGO_ENABLED=1;; esac
(cd "$ROOT/harness" && go build $RACE -modfile="$S/h.mod" -o "$S/vmon" .) || fail "the harness doesn't build"
export CGO_ENABLED=0

case $ID in
C21|C22|C23|C24|C33|C37|C38|C40)
	cp "$REPO/cli/go.mod" "$S/cli.mod" && cp "$REPO/cli/go.sum" "$S/cli.sum" || fail "no module file"
	mkdir "$S/bin"
	(cd "$REPO/cli" && go build -modfile="$S/cli.mod" -o "$S/bin/" \
		./gotext-tools ./msgocat ./msgofmt ./msgomerge ./msgounfmt ./xgotext) || fail "the tools don't build"
	export VMON_BIN=$S/bin
	;;
esac

mkdir "$S/run"
if [ "${2:-}" = --replay ]; then
	COLORTERM=truecolor "$S/vmon" replay -file "${3:?}" -scratch "$S/run"
	exit $?
fi
"$S/vmon" run -id "$ID" -tier "$TIER" -seed "$SEED" -root "$ROOT" -scratch "$S/run"
