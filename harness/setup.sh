#!/bin/bash
# Nothing to build: checks the tools and parses the specification.
set -e
cd "$(dirname "$0")/../spec"
command -v java >/dev/null
test -x /opt/venv/bin/python || command -v python3 >/dev/null
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in *.tla; do
  [ "$m" = SessionsProof.tla ] && continue   # needs the library of TLAPS; C12 runs it
  java -cp "$CP" tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
mkdir -p ../evidence
echo "setup ok"
