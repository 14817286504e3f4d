#!/bin/sh
# Nothing to build ahead of time: every check compiles what it needs from /repo's
# current tree. Verify that the tools are there and that the specifications parse.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp spec/*.tla "$d"/
cd "$d"
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > out 2>&1 || { cat out; exit 1; }
done
echo "specifications parse"
