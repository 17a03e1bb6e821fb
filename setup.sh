#!/bin/bash
# Sanity: the driver builds against /repo and every specification module parses.
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off
w=$(mktemp -d /tmp/vp-setup-XXXXXX)
trap 'rm -rf -- "$w"' EXIT
cp harness/go.mod harness/go.sum "$w"/
(cd harness && go build -modfile "$w/go.mod" -o "$w/vh" .)
cd spec
for m in Gen Cursor Stream Sched Pure Trace; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > "$w/sany" 2>&1 || { cat "$w/sany"; exit 1; }
done
echo setup ok
