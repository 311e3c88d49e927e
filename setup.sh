#!/bin/bash
# builds the verifier once (the checks build it again themselves: nothing is kept between runs)
cd "$(dirname "$0")/gvc"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go build -o /dev/null . && go vet .
