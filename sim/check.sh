#!/bin/bash
# usage: check.sh ID | setup | replay FILE | run ID [N]
here=$(cd "$(dirname "$0")" && pwd)
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export SIM_VERIF=${SIM_VERIF:-$(dirname "$here")} SIM_REPO=${SIM_REPO:-/repo}
export GOROOT=$(go env GOROOT)
cache=${SIM_CACHE:-$SIM_VERIF/.cache}
mkdir -p "$cache/bin"
(cd "$here" && GOCACHE="$cache/go-build" GOFLAGS=-buildvcs=false go build -o "$cache/bin/simctl" ./cmd/simctl) || exit 2
case $1 in
C[0-9]*) exec "$cache/bin/simctl" check "$1" ;;
*) exec "$cache/bin/simctl" "$@" ;;
esac
