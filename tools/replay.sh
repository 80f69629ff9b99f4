#!/bin/bash
# replay.sh REPLAYFILE: run a reported program under its recorded schedule on the current tree and validate the history
cd "$(dirname "$0")/.." && bash harness/build.sh 2>/dev/null >/dev/null
w=$(mktemp -d)
sed -n 's/^program  *//p' "$1" > $w/s
d=$(sed -n 's/^schedule  *//p' "$1"); [ "$d" = - ] && d=x
./build/target/release/explore --scen $w/s --index 0 --replay "${d:-x}" | grep -a '^P {' | tail -1 | cut -c3- > $w/h.json
./tools/tlctrace.sh $w/h.json $w/md | grep -aE 'REJECTED|No error' > $w/out
m=$(sed -n 's/.*"REJECTED", 1, \([0-9]*\).*/\1/p' $w/out)
python3 tools/show.py $w/h.json 1 $m
[ -n "$m" ] && echo REJECTED || echo ACCEPTED
/bin/rm -rf $w
