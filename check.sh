#!/bin/bash
# check.sh ID [quick|thorough]: builds the model checker against /repo's working tree and decides property ID.
# Exit 0: held on everything explored; 1: violated (see the VIOLATION line); 2: no answer (for example /repo does not build).
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
mkdir -p mc/target evidence
bin="$( (flock 9; bash mc/build.sh 2>mc/target/build.$$.log) 9>mc/target/lock )" || { tail -n 30 mc/target/build.$$.log >&2; /bin/rm -f "$here/mc/target/build.$$.log"; echo "check $id: the build failed" >&2; exit 2; }
/bin/rm -f "$here/mc/target/build.$$.log"
exec "$bin" check "$id" "$tier"
