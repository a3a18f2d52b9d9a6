#!/bin/bash
# replay.sh FILE: rebuilds the harness of a replay file and replays it.
V=$(cd "$(dirname "$0")/.." && pwd)
id=$(sed -n 's/^property //p' "$1" | head -1)
bin=$("$V/tools/build.sh" "$id" | tail -1) || exit 2
exec "$bin" replay "$1"
