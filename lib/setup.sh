#!/bin/bash
# Everything is built by the checks themselves; here: the toolchain is present and every specification parses.
cd "$(dirname "$0")/.." || exit 1
set -e
for t in g++ java python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
for f in spec/*.tla; do
  java -DTLA-Library=$PWD/spec -Djava.io.tmpdir=$tmp -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $f >$tmp/out 2>&1 || { cat $tmp/out; exit 1; }
  if grep -q 'Errors: [1-9]' $tmp/out; then cat $tmp/out; exit 1; fi
done
echo "setup ok"
