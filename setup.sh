#!/bin/sh
# Nothing to build: the specifications are checked for syntax and the library is imported once.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
java -version >/dev/null 2>&1
mkdir -p evidence replays
cd spec
for m in *Trace.tla MC*.tla; do
  test -e "$m" || continue
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
  rm -f /tmp/sany.$$
done
