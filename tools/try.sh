#!/bin/bash
# tools/try.sh SEED [PID]: run the check of a planted bug's property against a patched scratch copy
set -o pipefail
S=$1; D=/verif/seeded/$S; P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
W=/tmp/try-$S; rm -rf "$W"; git -C /repo worktree prune
mkdir "$W"; git -C /repo archive HEAD | tar -x -C "$W"; (cd "$W"; git init -q .; git apply "$D/patch.diff")
cd /verif; CAPUT_REPO=$W python3 checks/run.py "$P" | tail -c 700 && echo "MISSED $S" || echo "CAUGHT $S"
rm -rf "$W"
