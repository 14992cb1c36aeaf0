#!/bin/bash
# check.sh PROP [TIER]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
if [ ! -x bin/govc ] || [ -n "$(find govc -newer bin/govc -name '*.go' -print -quit)" ]; then
  mkdir -p bin && (cd govc && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o "$V/bin/govc" .) || exit 2
fi
exec bin/govc check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${VERIF_REPO:-/repo}" -verif "$V"
