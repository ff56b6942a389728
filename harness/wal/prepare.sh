#!/bin/bash
# The patched copy of bip157 and the shim the command line monitors use.
D=$(dirname "$(readlink -f "$0")")
bash "$D/../orc/prepare.sh" && bash "$D/../cli/prepare.sh"
