#!/bin/sh
# Nothing is compiled ahead: every check builds /repo's working tree itself.  This only makes sure
# that the tools are there and that every module of the specification parses.
set -e
cd "$(dirname "$0")"
command -v gcc >/dev/null
command -v make >/dev/null
command -v java >/dev/null
d=$(mktemp -d)
cp spec/*.tla "$d"
cd "$d"
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >out 2>&1 || { cat out; exit 1; }
  if grep -q "^\*\*\* Errors\|Fatal errors\|Could not find" out; then cat out; exit 1; fi
done
cd /
rm -r "$d"
echo ok
