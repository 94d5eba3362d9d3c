#!/bin/sh
# Checks the tools and builds EasyMock once (later checks rebuild when /repo changes).
set -e
cd "$(dirname "$0")"
python3 -c 'import sys; sys.path.insert(0,"vlib"); import common; common.Tree()'
for m in spec/*.tla; do
  java -DTLA-Library=spec -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
