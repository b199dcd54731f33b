#!/bin/bash
# Drives the built command-line tool in a scratch directory: 0 = the property held.
set -u
bin="$PWD/target/debug/cambrian"
work=/tmp/cambrian-demo-@ID@
rm -rf /tmp/cambrian-demo-@ID@
mkdir -p "$work"
trap 'rm -rf /tmp/cambrian-demo-@ID@' EXIT
cd "$work"
fail() { echo "demo: VIOLATED: $*"; exit 1; }
script() { { echo '#!/bin/sh'; cat; } > "$1"; chmod +x "$1"; }
@BODY@
echo "demo: held"
exit 0
