#!/bin/bash
# Nothing to install: every check builds ucc from /repo itself. Sanity-check the tools and parse the specifications.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
command -v java gcc make python3 >/dev/null
d=$(mktemp -d)
for m in spec/*.tla; do
  java -Djava.io.tmpdir=$d -DTLA-Library=$PWD/spec -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >$d/log 2>&1 || { cat $d/log; exit 1; }
done
rm -r "$d"
