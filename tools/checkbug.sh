#!/bin/bash
# checkbug.sh ID...: validates planted bugs in scratch copies and runs the check of their property
# (ALL=1: also the other checks). Prints one line per bug.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
one() {
	id=$1
	s=${SEEDS:-/verif/seeded}/$id
	w=$(mktemp -d /tmp/bug.XXXXXX)
	cp -a /repo "$w/repo"
	cd "$w/repo" || exit 1
	git checkout -q -- . 
	prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
	mkdir "$w/demo"; cp "$s/demo.sh" "$s"/demo.go.txt "$w/demo/"
	r="$id $prop:"
	bash "$w/demo/demo.sh" >"$w/out0" 2>&1 || r="$r DEMO-FAILS-UNCHANGED($(tail -1 "$w/out0" | cut -c1-200))"
	git apply "$s/patch.diff" 2>"$w/err" || r="$r NO-APPLY($(cat "$w/err"))"
	go build ./... >"$w/err" 2>&1 || r="$r NO-BUILD($(head -3 "$w/err"))"
	go test -vet=off -count=1 ./... >"$w/err" 2>&1 || r="$r TESTS-FAIL($(grep -m1 -e --- "$w/err"))"
	bash "$w/demo/demo.sh" >"$w/out1" 2>&1 && r="$r DEMO-PASSES-PATCHED"
	r="$r [$(tail -1 "$w/out1" | cut -c1-150)]"
	caught=""
	props=$prop
	[ -n "$ALL" ] && props=$(seq -f C%02g 1 37)
	[ -n "$PROPS" ] && props=$PROPS
	for p in $props; do
		VERIF_REPO="$w/repo" VH_EVIDENCE="$w/ev" timeout 900 bash /verif/run.sh "$p" >"$w/chk.$p" 2>&1
		rc=$?
		if [ $rc = 1 ] && grep -q "VIOLATION property=$p" "$w/chk.$p"; then caught="$caught $p"
		elif [ $rc != 0 ]; then caught="$caught $p(rc=$rc)"; fi
	done
	case " $caught " in *" $prop "*) r="$r CAUGHT by$caught";; *) r="$r MISSED ($caught )";; esac
	echo "$r"
	rm -rf "$w"
}
export -f one
printf '%s\n' "$@" | xargs -P "${P:-2}" -I{} bash -c 'one {}'
