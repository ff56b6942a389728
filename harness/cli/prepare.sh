#!/bin/bash
# Shim that lets the monitors move the monotonic clock of the program under test.
set -eu
. "$(dirname "$(readlink -f "$0")")/../../env.sh"
SO=$HERE/.build/clock.so
SRC=$HERE/harness/cli/clock.c
if [ ! -e "$SO" ] || [ "$SRC" -nt "$SO" ]; then
  gcc -O1 -shared -fPIC -o "$SO.tmp.$$" "$SRC" && mv "$SO.tmp.$$" "$SO"
fi
