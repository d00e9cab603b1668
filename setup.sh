#!/bin/bash
# Sanity-builds the harness (both flavours) against /repo; each check builds again from the current tree.
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
cd "$(dirname "$0")/harness" || exit 2
d=$(mktemp -d /tmp/vsetup.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/vh" . && go build -race -o "$d/vhr" . && "$d/vh" -list
