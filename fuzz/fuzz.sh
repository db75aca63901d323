#!/bin/bash
# fuzz.sh TARGET TIME: exploration by coverage-guided fuzzing (FuzzJournal, FuzzNumber, FuzzTxtDB), outside the checks.
# It works in a scratch copy of the harness; the corpus is kept in ${FUZZ_DIR:-/var/tmp/verif-fuzz}.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off
dir=${FUZZ_DIR:-/var/tmp/verif-fuzz}
mkdir -p "$dir/testdata" "$dir/cache"
src=$(mktemp -d) || exit 3
trap 'rm -rf "$src"' EXIT
cp -r "$here/../harness/." "$src"
cp "$here/fuzz_test.go.txt" "$src/fuzz_test.go"
ln -s "$dir/testdata" "$src/testdata"
cd "$src" && TMPDIR=/dev/shm go test -run XXX -fuzz "^$1\$" -fuzzminimizetime 2s -fuzztime "${2:-60s}" -parallel "${P:-3}" . -test.fuzzcachedir="$dir/cache"
