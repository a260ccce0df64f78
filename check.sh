#!/bin/bash
# check.sh PROPERTY [--replay FILE]: builds the instrumented harness from
# /repo's working tree and decides one property.
# VERIF_SEED and VERIF_TIER select seed and tier. Exit 0 held, 1 violation, 2 error.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop=${1:?usage: check.sh PROPERTY [--replay FILE]}; shift
repo=${VERIF_REPO:-/repo}
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${VERIF_GOCACHE:-/root/.cache/go-build}"
work=$(mktemp -d /tmp/zverif.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
race=
case "$prop" in C22|C23|C30) race=-race ;; esac
( cd "$here/harness/instr" && go build -o "$work/instr" . ) || { echo "ERROR building instrumenter"; exit 2; }
mkdir "$work/src" "$work/run"
"$work/instr" "$repo" "$here/harness" "$work/src" || { echo "ERROR instrumenting"; exit 2; }
( cd "$repo" && go build $race -overlay "$work/src/overlay.json" -o "$work/zrun" ./zverif/cmd ) || { echo "ERROR building harness"; exit 2; }
[ -n "${VERIF_SETUP:-}" ] && exit 0
if [ "${1:-}" = --replay ]; then
  "$work/zrun" replay -file "${2:?}"
  exit $?
fi
"$work/zrun" check -prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$here" -work "$work/run" "$@"
exit $?
