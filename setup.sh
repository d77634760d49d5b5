#!/bin/bash
# Warms the build cache; the checks build what they need themselves.
cd "$(dirname "$0")/harness" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local GO111MODULE=on
exec go test -vet=off -c -o /dev/null .
