#!/bin/bash
# Usage: bash /verif/replay.sh PROPERTY [tier]
# Runs the property's input search against the real code of /repo (in-package Go tests laid over the tree); prints VVFAIL lines
# for inputs on which the real code breaks the property.
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
here=$(cd "$(dirname "$0")" && pwd)
repo=${VV_REPO:-/repo}
prop=${1:?}
export VV_TIER=${2:-quick} VV_SEED=${VERIF_SEED:-1}
work=$(mktemp -d /tmp/vvreplay.XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
export VV_SCRATCH=$work TMPDIR=$work
cd "$here/replay" || exit 1
dirs=$(grep -rlE "func TestVV_$prop\b" --include=*.go . | xargs -r -n1 dirname | sort -u)
st=0
for d in $dirs; do
  d=${d#./}
  { echo '{"Replace":{'; sep=
    for f in "$here/replay/$d"/*.go; do
      b=$(basename "$f" .go)
      printf '%s"%s/%s/%s_test.go":"%s"' "$sep" "$repo" "$d" "$b" "$f"; sep=,
    done; echo '}}'; } > "$work/overlay.json"
  (cd "$repo" && timeout 170 go test -vet=off -count=1 -timeout 150s -overlay "$work/overlay.json" -run "^TestVV_$prop\$" "./$d") 2>&1 | head -c 20000 || st=1
done
exit $st
