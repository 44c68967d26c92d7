#!/bin/sh
# Nothing is compiled: check that the tools are there and that every specification parses.
cd "$(dirname "$0")/spec" || exit 1
test -x /opt/venv/bin/python || exit 1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
java -cp $CP tla2sany.SANY $(ls *.tla) > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
rm -f /tmp/sany.$$
echo "specifications parse"
