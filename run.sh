#!/bin/bash
# run.sh ID            decide one property against /repo's current tree
# run.sh replay FILE   run one saved case
# run.sh build DIR     build everything into DIR
# VERIF_REPO names another tree than /repo (scratch copies, while developing).
here=$(cd "$(dirname "$0")" && pwd) || exit 3
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off GONOSUMDB=* GOMAXPROCS=8
repo=${VERIF_REPO:-/repo}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXXXX") || exit 3
trap 'rm -rf "$tmp"' EXIT
build() { # build DIR
	mkdir -p "$1/mod" &&
	cp "$here/harness/go.mod" "$here/harness/go.sum" "$1/mod/" &&
	sed -i "s#=> /repo\$#=> $repo#" "$1/mod/go.mod" &&
	(cd "$here/harness" && go build $race -modfile="$1/mod/go.mod" -o "$1/" . ./regworker) &&
	(cd "$repo" && go build -o "$1/" ./cmd/ledger ./cmd/acc ./cmd/tacc ./cmd/muscular)
}
race=
if [ "$2" != "" ] && [ -f "$2" ] && grep -q C37 "$2" || [ "$2" = C37 ] || [ "$1" = C37 ]; then
	race=-race # see c_parallel.go
fi
if [ "$1" = build ]; then
	build "$2"
	exit
fi
if ! build "$tmp/bin" >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log" >&2
	echo "run.sh: cannot build" >&2
	exit 3
fi
export VH_BIN="$tmp/bin" VH_HOME="$here" VH_EVIDENCE="${VH_EVIDENCE:-$here/evidence}"
export GOMAXPROCS=2
# cases are run in memory, if there is enough
work=$tmp
if [ -d /dev/shm ] && [ "$(df --output=avail -k /dev/shm 2>/dev/null | tail -1)" -gt 1000000 ] 2>/dev/null; then
	work=$(mktemp -d /dev/shm/verif.XXXXXXXX) || work=$tmp
	trap 'rm -rf "$tmp" "$work"' EXIT
fi
export VH_TMP="$work"
if [ -n "$race" ]; then
	export VH_RACE="$work/race"
	export GORACE="log_path=$work/race exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0"
fi
unset LEDGER_FILE GOFLAGS
export TZ=UTC LC_ALL=C.UTF-8
if [ "$1" = replay ]; then
	"$tmp/bin/verif" replay "$2"
else
	"$tmp/bin/verif" check "$1"
fi
