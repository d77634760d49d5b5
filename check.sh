#!/bin/bash
# usage: check.sh <property> [quick|thorough] [--case NAME]
# Builds the harness against the current tree of /repo and runs one check.
set -u
root=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
tier=${VERIF_TIER:-quick}
export VERIF_CASE=
while [ $# -gt 0 ]; do
  case $1 in
    quick|thorough) tier=$1 ;;
    --case) shift; export VERIF_CASE=$1 ;;
  esac
  shift
done
export VERIF_TIER=$tier VERIF_PROP=$prop VERIF_ROOT=$root
export VERIF_SEED=${VERIF_SEED:-1}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local GO111MODULE=on
unset GOEXPERIMENT GODEBUG 2>/dev/null
export PATH=$PATH:/usr/local/go/bin
export HOME=${HOME:-/root}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 3
trap 'rm -rf "$tmp"' EXIT
cd "$root/harness" || exit 3
build() { # the harness against /repo
  case $prop in
    C19|C20) # with mint under a controlled scheduler: see instrument/
      mode=all; [ $prop = C20 ] && mode=shared
      mkdir "$tmp/ins" &&
        go run ./instrument -mode $mode -vsched "$PWD/_vsched" -out "$tmp/ins" &&
        go test -vet=off -tags vsched -overlay "$tmp/ins/overlay.json" -ldflags=-checklinkname=0 -c -o "$tmp/check.bin" . || return 1
      if go test -race -vet=off -tags vsched -overlay "$tmp/ins/overlay.json" -ldflags=-checklinkname=0 -c -o "$tmp/race.bin" .; then
        export VERIF_RACE_BIN=$tmp/race.bin
      fi ;;
    *) go test -vet=off -c -o "$tmp/check.bin" . ;;
  esac
}
if ! build >"$tmp/build.log" 2>&1; then
  echo "ERROR: the harness does not build against /repo"; tail -30 "$tmp/build.log"; exit 3
fi
cd "$tmp" || exit 3
run() { "$tmp/check.bin" -test.run '^TestCheck$' -test.timeout 0 >"$tmp/out" 2>"$tmp/err"; }
run; rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && [ $rc -ne 3 ]; then
  # The process itself died (e.g. a Go runtime fatal error in mint): believe
  # it only if it happens again.
  cp "$tmp/err" "$tmp/err1"
  run; rc=$?
  if [ $rc -ne 0 ] && [ $rc -ne 1 ] && [ $rc -ne 3 ]; then
    mkdir -p "$root/replays"
    { echo "the check process died twice (exit $rc)"; head -c 6000 "$tmp/err"; } >"$root/replays/$prop-crash.txt"
    cat "$tmp/out"; head -c 3000 "$tmp/err"
    echo "VIOLATION property=$prop replay=$root/replays/$prop-crash.txt"
    exit 1
  fi
fi
cat "$tmp/out"
[ $rc -eq 3 ] && head -c 3000 "$tmp/err"
exit $rc
