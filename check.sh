#!/bin/bash
# check.sh <property> [quick|thorough]   decide a property on /repo's working tree
# check.sh replay <property>             run its recorded failing input again
# check.sh build                         build the verifier
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} GOENV=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on GOPROXY=off
export PATH=$PATH:/usr/local/go/bin:/usr/local/bin
export GOVC_VERIF=$PWD
mkdir -p bin evidence
( flock 9; cd govc && GOFLAGS=-mod=vendor go build -o ../bin/govc . ) 9>bin/.lock || exit 2
case "$1" in
build) exit 0 ;;
replay) exec bin/govc replay -p "$2" -repo "${GOVC_REPO:-/repo}" ;;
esac
tier=${2:-${VERIF_TIER:-quick}}
t=
[ "$tier" = thorough ] && t=-thorough
exec bin/govc check -p "$1" -repo "${GOVC_REPO:-/repo}" -seed "${VERIF_SEED:-1}" $t
