#!/bin/bash
# run.sh PROP          check one property (tier from VERIF_TIER)
# run.sh --build       build the engine
# run.sh --replay FILE replay a recorded counterexample on the real code
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export HOME=${HOME:-/root}
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
build() {
    mkdir -p .build
    (cd engine && GOFLAGS=-mod=mod go build -o ../.build/engine.tmp.$$ .) && mv .build/engine.tmp.$$ .build/engine
}
newest=$(ls -t engine/*.go engine/go.mod .build/engine 2>/dev/null | head -1)
if [ "$1" = --build ] || [ ! -x .build/engine ] || [ "$newest" != .build/engine ]; then
    build || { echo "cannot build the engine"; exit 2; }
fi
[ "$1" = --build ] && exit 0
if [ "$1" = --replay ]; then
    exec .build/engine -harness "$here/harness" -replay "$2"
fi
prop=$1
tier=${VERIF_TIER:-quick}
[ -n "$2" ] && tier=$2
budget=${ZZ_BUDGET:-}
ev=evidence/$prop.json
mkdir -p evidence
rm -f "$ev"
GOMEMLIMIT=14GiB timeout -k 5 880 .build/engine -prop "$prop" -tier "$tier" -harness "$here/harness" -known "$here/known_findings.txt" -evidence "$ev" ${budget:+-budget $budget}
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
    echo "the engine ended abnormally (code $rc): no answer"
    exit 2
fi
exit $rc
