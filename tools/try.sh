#!/bin/bash
# try.sh SCENFILE [explore args]: explore, validate, print rejected histories
f=$1; shift
cd "$(dirname "$0")/.."; w=$(mktemp -d)
E=${EXPLORE:-./build/target/release/explore}
$E --scen $f "$@" > $w/out; echo "exit $?"
grep -aE '^(S|X|CRASH)' $w/out | cut -c1-200
grep -a '^CRASH' $w/out | while read _ k s i d; do echo "crash $k $s in $i"; $E --scen $f --replay "$d" --index $i | grep '^P' | tail -1 | cut -c3- | sed 's/\],"fault":""}/,0],"fault":"crash"}/' > $w/c; cat $w/c >> $w/h.json; done
grep -a '^H' $w/out | cut -d' ' -f5- >> $w/h.json
./tools/tlctrace.sh $w/h.json $w/md > $w/tlc
grep -aE 'REJECTED|rror|states gen|violated' $w/tlc | cut -c1-200 | head -${MAXR:-20}
grep REJECTED $w/tlc | tr -d '<>,"' | awk '{print $2,$3}' | head -${SHOW:-3} | while read i m; do python3 tools/show.py $w/h.json $i $m; done
/bin/rm -rf $w
