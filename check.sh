#!/bin/bash
# check.sh ID [quick|thorough] [extra flags for the check binary]
# Instruments /repo's current working tree into a scratch module, builds the
# check binary against it and runs it.  Exit 0: held; 1: violated (with a
# VIOLATION line); anything else: the check itself failed.
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift 2 2>/dev/null || shift
V=$(cd "$(dirname "$0")" && pwd)
REPO=${ZKC_REPO:-/repo}
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_SEED=${VERIF_SEED:-1}
line=$(awk -F'\t' -v id="$ID" '$1==id' "$V/fw/checks.tsv")
[ -n "$line" ] || { echo "unknown property $ID" >&2; exit 2; }
BIN=$(echo "$line" | cut -f2); QS=$(echo "$line" | cut -f3); TS=$(echo "$line" | cut -f4)
SECS=$QS; [ "$TIER" = thorough ] && SECS=$TS
W=$(mktemp -d /tmp/zkcverif.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export GOFLAGS= GOWORK=off
(cd "$V/fw/prep" && go build -trimpath -o "$W/prep" .) || { echo "building the instrumenter failed" >&2; exit 2; }
fake=; case $BIN in session) fake="-fakesession=false";; esac
"$W/prep" -repo "$REPO" -fw "$V/fw" -out "$W/zkc" $fake >"$W/prep.log" 2>&1 || { cat "$W/prep.log" >&2; exit 2; }
(cd "$W/zkc" && go build -trimpath -o "$W/bin" "./zzh/$BIN") >"$W/build.log" 2>&1 || { head -40 "$W/build.log" >&2; exit 2; }
cd "$W"
mkdir -p "$V/evidence"
"$W/bin" -check "$ID" -tier "$TIER" -secs "$SECS" -out "$V/evidence/$ID.json" -replays "${REPLAYS:-$V/evidence/replays}" \
	-known "$V/KNOWN_FINDINGS" "$@"
