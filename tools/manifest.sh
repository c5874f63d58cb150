#!/bin/bash
# tools/manifest.sh: regenerates properties.jsonl, MANIFEST.json and harness/fake_properties.txt
HERE=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
python3 "$HERE/tools/mkprops.py" && "$HERE/build.sh" "$W/b" nofake && "$W/b/vrun" -list | python3 "$HERE/tools/mkmanifest.py"
