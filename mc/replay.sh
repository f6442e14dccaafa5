#!/bin/bash
# replay.sh FILE: runs the one scenario (and schedule) recorded in a replay file again.
here="$(cd "$(dirname "$0")" && pwd)"
bin="$(bash "$here/build.sh" 2>/dev/null)" || exit 2
exec "$bin" replay "$1"
