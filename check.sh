#!/bin/bash
# check.sh PROPERTY [quick|thorough]: verify one property against /repo's working tree
set -u
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
bin=$(mktemp -d)
trap 'rm -rf "$bin"' EXIT
if ! (cd gvc && go build -o "$bin/gvc" .); then
	echo "cannot build the verifier"
	exit 2
fi
"$bin/gvc" check -prop "$1" -tier "${2:-quick}"
rc=$?
if [ $rc != 0 ] && [ $rc != 1 ]; then
	# the verifier itself died (never an answer): once more
	"$bin/gvc" check -prop "$1" -tier "${2:-quick}"
	rc=$?
fi
exit $rc
