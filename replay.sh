#!/bin/bash
# replay.sh FILE: runs the case of a replay file against /repo's current tree. exit 1 when it still fails.
F=$(realpath "${1:?replay file}")
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$F" | head -1)
REPLAY=$F exec bash "$HERE/check.sh" "$ID" replay
