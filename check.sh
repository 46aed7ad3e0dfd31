#!/bin/bash
# usage: check.sh ID   -- builds the analyser and decides one property of /repo.
id="$1"
root="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$root"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p "$root/evidence"
fail() {
  echo "$1" > "$root/evidence/$id.replay.txt"
  echo "$1"
  echo "VIOLATION property=$id replay=$root/evidence/$id.replay.txt"
  exit 1
}
bin="$(mktemp -d)"
trap 'rm -rf "$bin"' EXIT
(cd "$root/tool" && GOFLAGS= go build -mod=vendor -o "$bin/tool" .) > "$bin/log" 2>&1 || fail "the analyser does not build: $(tail -5 "$bin/log")"
timeout 850 "$bin/tool" check "$id"
rc=$?
case $rc in
  0|1) exit $rc ;;
  *) fail "the analyser gave no verdict (exit $rc)" ;;
esac
