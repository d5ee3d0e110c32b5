#!/bin/sh
# where.sh Pxx REPLAY: source lines of the crash a replay file makes
cd "$(dirname "$0")/.."
exe=$(ls build/$1-* | head -1)
PBT_VERBOSE=1 ./check $1 --replay $2 2>&1 | grep -v '^\[vm.*\*\*\*' | grep -v "^\[vm" | tail -15
for a in $(PBT_VERBOSE=1 ./check $1 --replay $2 2>&1 | grep -o "$1-[0-9a-f]*(+0x[0-9a-f]*)" | head -12 | grep -o '0x[0-9a-f]*'); do addr2line -Cfpe $exe $a | cut -c1-220; done
