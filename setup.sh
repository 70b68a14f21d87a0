#!/bin/bash
# Compiles the checker and the harnesses once, which fills the build cache.
root=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
(cd "$root/engine" && go build -o /dev/null .) && (cd "$root/harness" && go vet ./vf ./model)
