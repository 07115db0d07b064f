#!/bin/bash
# check.sh ID [quick|thorough]   runs the check of one property against /repo
# check.sh replay FILE           runs a saved failing case
# check.sh build                 warms the build cache (setup_cmd)
# Builds the harness from /repo's current working tree, in a scratch directory.
set -u
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
export HOME=${HOME:-/root}
export PATH=/usr/lib/go-1.21/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
RACE_PROPS=" C18 C23 "
CLI_PROPS=" C29 "
OUT=$(mktemp -d /tmp/verifbuild.XXXXXX) || exit 2
trap 'rm -rf "$OUT"' EXIT
build() { # build OUTPUT [flags]
    local o=$1; shift
    (cd "$VERIF_DIR/harness" && go build "$@" -o "$o" .) || { echo "error: the harness does not build against /repo" >&2; exit 2; }
}
build_cli() { # the command line tool
    (cd "$VERIF_DIR/harness" && go build -o "$OUT/bond-cli" github.com/go-bond/bond/cmd/bond-cli) || { echo "error: bond-cli does not build" >&2; exit 2; }
    export VERIF_CLI="$OUT/bond-cli"
}
case "${1:-}" in
build)
    build "$OUT/verifbond"
    build "$OUT/verifbond-race" -race
    build_cli
    "$OUT/verifbond" list
    ;;
replay)
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2")
    case "$RACE_PROPS" in *" $id "*) build "$OUT/verifbond" -race ;; *) build "$OUT/verifbond" ;; esac
    case "$CLI_PROPS" in *" $id "*) build_cli ;; esac
    "$OUT/verifbond" replay "$2"; exit $?
    ;;
C*)
    build "$OUT/verifbond"
    case "$RACE_PROPS" in
    *" $1 "*) build "$OUT/verifbond-race" -race; export VERIF_RACE_BIN="$OUT/verifbond-race" ;;
    esac
    case "$CLI_PROPS" in *" $1 "*) build_cli ;; esac
    "$OUT/verifbond" run "$1" ${2:+"$2"}; exit $?
    ;;
*)
    echo "usage: check.sh ID [quick|thorough] | replay FILE | build" >&2; exit 2
    ;;
esac
