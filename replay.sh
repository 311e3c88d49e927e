#!/bin/bash
# replay.sh PROPERTY: run the replay harness of a property alone against /repo's working tree
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
bin=$(mktemp -d)
trap 'rm -rf "$bin"' EXIT
(cd gvc && go build -o "$bin/gvc" .) && "$bin/gvc" replay "$1"
