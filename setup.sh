#!/bin/bash
# Builds the instrumenter once to make sure the toolchain works; checks build
# what they need from /repo's working tree themselves.
set -e
cd "$(dirname "$0")"
[ -r /opt/vp/env.sh ] && V=$PWD && . /opt/vp/env.sh && cd "$V"
W=$(mktemp -d /tmp/zkcverif.XXXXXX)
trap 'rm -rf "$W"' EXIT
export GOFLAGS= GOWORK=off
(cd fw/prep && go build -trimpath -o "$W/prep" .)
"$W/prep" -repo "${ZKC_REPO:-/repo}" -fw "$PWD/fw" -out "$W/zkc"
(cd "$W/zkc" && go build ./zzh/...)
echo setup ok
