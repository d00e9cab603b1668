#!/bin/bash
# bash run.sh PROPERTY [race]   -- builds the harness against /repo's working tree and runs one check.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here GOFLAGS=-mod=readonly
bld=$(mktemp -d /tmp/vhb.XXXXXX) || exit 2
trap 'rm -rf "$bld"' EXIT
race=
[ "$2" = race ] && race=-race
cd "$here/harness" || exit 2
if ! go build $race -o "$bld/vh" . ; then
  echo "harness build failed" >&2
  exit 3
fi
cd "$bld" && "$bld/vh" "$1"
