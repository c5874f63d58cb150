#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness against /repo's working tree and runs the check of one property.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}; case "$SEED" in ''|*[!0-9]*) SEED=1;; 0) SEED=4294967291;; esac
START=$(date +%s)
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-check.XXXXXX") || exit 3
trap 'rm -rf "$W"' EXIT
trap 'exit 3' INT TERM
NEED=nofake
grep -qx "$ID" "$HERE/harness/fake_properties.txt" && NEED=fake
"$HERE/build.sh" "$W/b" $NEED >"$W/build.log" 2>&1 || { cat "$W/build.log" >&2; echo "harness build failed" >&2; exit 3; }
mkdir -p "$W/tmp"
TMPDIR="$W/tmp" "$W/b/vrun" -prop "$ID" -tier "$TIER" -seed "$SEED" -fake "$W/b/vrun-fake" -known "$HERE/known_findings.txt" \
  -evidence "$HERE/evidence" -started "$START" ${VRUN_ARGS:-}
exit $?
