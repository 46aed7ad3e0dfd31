#!/bin/bash
# Builds the analyser once, so that a build problem shows early.
set -e
cd "$(dirname "$0")/tool"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 GOFLAGS=
go build -mod=vendor -o /dev/null .
