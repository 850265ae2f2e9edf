#!/bin/bash
# Usage: bash /verif/check.sh PROPERTY [quick|thorough]
# Builds the verifier, regenerates every proof obligation of the property from /repo's current source and discharges it.
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?usage: check.sh PROPERTY [tier]}
tier=${2:-${VERIF_TIER:-quick}}
work=$(mktemp -d /tmp/vvbin.XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
if ! (cd "$here/engine" && GOFLAGS=-mod=vendor go build -o "$work/vverif" .); then
  echo "the verifier does not build" >&2
  exit 2
fi
"$work/vverif" -prop "$prop" -tier "$tier" -root "$here" -repo "${VV_REPO:-/repo}"
rc=$?
exit $rc
