#!/bin/bash
# usage: check.sh ID [--replay FILE] [extra vh flags]
# Builds the harness (and tools) from /repo's working tree in a scratch directory and runs one property.
# exit 0: held; 1: VIOLATION line printed; 2: error of the check.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOENV=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
export LC_ALL=C.UTF-8 LANGUAGE=
verif=$(cd "$(dirname "$0")" && pwd)
build=; if [ "$1" = --build ]; then build=1; shift; fi
id=${1:?usage: check.sh ID}; shift
tier=${VERIF_TIER:-quick} seed=${VERIF_SEED:-1}
args=()
while [ $# -gt 0 ]; do
  case "$1" in
    --replay) args+=(-replay "$2"); shift 2;;
    *) args+=("$1"); shift;;
  esac
done
work=$(mktemp -d /tmp/verif-"$id"-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$verif/harness" "$work/h" || exit 2
race= ; export CGO_ENABLED=0
if [ "$id" = P39 ]; then race=-race; export CGO_ENABLED=1; fi
(cd "$work/h" && go build $race -o "$work/vh" .) >"$work/build.log" 2>&1 || { cat "$work/build.log" >&2; echo "harness build failed" >&2; exit 2; }
case "$id" in
  P4[0-7]|P55)
    mkdir "$work/bin"
    for t in msgofmt msgounfmt msgocat msgomerge xgotext gotext-tools; do
      (cd /repo/cli && CGO_ENABLED=0 go build -o "$work/bin/$t" ./$t) >"$work/build.log" 2>&1 || { cat "$work/build.log" >&2; echo "tool build failed" >&2; exit 2; }
    done;;
esac
[ -n "$build" ] && exit 0
mkdir "$work/scratch"
limit=840; [ "$tier" = thorough ] && limit=${VERIF_LIMIT:-5400}
timeout -k 10 "$limit" "$work/vh" -id "$id" -tier "$tier" -seed "$seed" -verif "$verif" -tools "$work/bin" -scratch "$work/scratch" "${args[@]}"
rc=$?
case $rc in 0|1) exit $rc;; *) exit 2;; esac
