#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the harness against /repo's working
# tree and runs the check of one property. check.sh replay FILE replays a case.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
[ -d /opt/veriftools/go1.27.3/bin ] && export GOROOT=/opt/veriftools/go1.27.3 PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_DIR=$here
work=$(mktemp -d /tmp/pbt.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work
file=
if [ "$id" = replay ]; then
	file=$(realpath "$2") || exit 2
	id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$file" | head -1)
fi
race=
[ "$id" = C29 ] && race=-race
cp "$here"/pbt/go.mod "$here"/pbt/go.sum "$work"/ || exit 2
printf '{"Replace": {"/repo/go.mod": "%s/pbt/repo.go.mod"}}\n' "$here" >"$work/overlay.json"
# For schedules, the locks of the code under test are those of pbt/vsync, which
# are the real ones as long as no scheduler runs.
{
	printf '{"Replace": {"/repo/go.mod": "%s/pbt/repo.go.mod"' "$here"
	grep -lE '^(import )?[[:space:]]*"sync"$' /repo/*.go | grep -v _test.go | while read -r f; do
		o=$work/locks_$(basename "$f")
		sed -E 's#^((import )?[[:space:]]*)"sync"$#\1sync "verif/pbt/vsync"#' "$f" >"$o"
		printf ', "%s": "%s"' "$f" "$o"
	done
	printf '}}\n'
} >"$work/overlay-race.json"
build() { # build OVERLAY [-race]
	(cd "$here/pbt" && go build $2 -overlay "$work/$1.json" -modfile "$work/go.mod" -o "$work/pbt" .)
}
if [ "$id" = build ]; then
	build overlay "" && build overlay-race -race || exit 2
	exit 0
fi
if [ -n "$race" ] && build overlay-race -race >"$work/build.log" 2>&1; then
	:
else
	build overlay "$race" >"$work/build.log" 2>&1
fi || {
	echo "check.sh: build failed" >&2
	cat "$work/build.log" >&2
	exit 2
}
if [ -n "$file" ]; then
	GORACE="halt_on_error=1 exitcode=66" "$work/pbt" replay "$file"
	code=$?
	if [ $code = 66 ]; then
		echo "VIOLATION property=$id replay=$file"
		code=1
	fi
	exit $code
else
	"$work/pbt" run "$id" "$tier"
fi
code=$?
[ $code = 0 ] || [ $code = 1 ] || code=2
exit $code
