#!/bin/bash
# setup.sh: builds the harness once, so that a broken toolchain shows early. Leaves only Go's build cache behind.
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup.XXXXXX") || exit 1
trap 'rm -rf "$W"' EXIT
"$HERE/build.sh" "$W/b" fake
