#!/bin/bash
export GOROOT=/opt/veriftools/go1.27.3 PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
mkdir -p /tmp/w/ov
{ printf '{"Replace": {"/repo/go.mod": "/verif/pbt/repo.go.mod"'
for f in $(grep -lE '^(import )?[[:space:]]*"sync"$' /repo/*.go | grep -v _test); do
 b=$(basename $f); sed -E 's#^((import )?[[:space:]]*)"sync"$#\1sync "verif/pbt/vsync"#' $f >/tmp/w/ov/$b; printf ', "%s": "%s"' $f /tmp/w/ov/$b; done
printf '}}\n'; } >/tmp/w/overlay_race.json
cp /verif/pbt/go.mod /verif/pbt/go.sum /tmp/w/
cd /verif/pbt && gofmt -l . ; go vet -overlay /tmp/w/overlay_race.json -modfile /tmp/w/go.mod . ; go build -race -overlay /tmp/w/overlay_race.json -modfile /tmp/w/go.mod -o /tmp/w/pbt .
