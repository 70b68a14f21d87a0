#!/bin/bash
# check.sh <property id> [quick|thorough] [engine flags...]   decides one property
# check.sh --replay FILE                                     replays a violation
root=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
bin=$(mktemp -d /tmp/vcheck-engine.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$root/engine" && go build -o "$bin/vengine" .) || exit 2
if [ "$1" = "--replay" ]; then
  "$bin/vengine" -root "$root" -replay "$2"
  exit $?
fi
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift 2 2>/dev/null || shift
"$bin/vengine" -root "$root" -id "$id" -tier "$tier" "$@"
