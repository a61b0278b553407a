#!/bin/bash
# dev: build harness to /tmp/w/pbt
export GOROOT=/opt/veriftools/go1.27.3 PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
cp /verif/pbt/go.mod /verif/pbt/go.sum /tmp/w/
printf '{"Replace": {"/repo/go.mod": "/verif/pbt/repo.go.mod"}}\n' >/tmp/w/overlay.json
cd /verif/pbt && gofmt -l . ; go vet -overlay /tmp/w/overlay.json -modfile /tmp/w/go.mod . 2>&1 | grep -v '^#' | head -20; go build $RACE -overlay /tmp/w/overlay.json -modfile /tmp/w/go.mod -o /tmp/w/pbt .
