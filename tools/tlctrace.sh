#!/bin/bash
# tlctrace.sh HISTORIES.ndjson [metadir]: trace validation of all histories with one TLC
here=$(cd "$(dirname "$0")/.." && pwd)
md=${2:-$(mktemp -d)}
TRACES=$1 exec java -Xmx${TLC_MEM:-2g} -Xss64m -XX:+UseSerialGC -XX:TieredStopAtLevel=${TIER:-4} -Dtlc2.tool.queue.IStateQueue=StateDeque -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 1 -noGenerateSpecTE -metadir "$md" -config "$here/spec/Trace.cfg" "$here/spec/Trace.tla"
