#!/usr/bin/env python3
"""show.py HISTORIES.ndjson N [MATCHED]: print a history as a time line"""
import json, sys
def show(h, upto=None):
    out = []
    for n, e in enumerate(h["ev"], 1):
        mark = "  <-- no behaviour of the specification continues here" if upto == n else ""
        if e == 0: out.append(f"   !! {h['fault']}{mark}")
        else:
            c = h["calls"][abs(e) - 1]
            w = f":slice{c['s']}" if c["s"] else ""
            if e > 0: out.append(f"   t{c['t']} {'call':4} {c['o']}{w}({', '.join(map(str, c['a'][:40]))}{'...' if len(c['a'])>40 else ''})" + (" [callback panics]" if c["p"] >= 0 else "") + mark)
            else: out.append(f"   t{c['t']} {'ret':4} {c['o']} -> {c['k']} {c['r'][:60]}{mark}")
    return "\n".join(out)
if __name__ == "__main__":
    for i, l in enumerate(open(sys.argv[1]), 1):
        if i == int(sys.argv[2]): h = json.loads(l); print(h["cfg"]); print(show(h, int(sys.argv[3]) if len(sys.argv) > 3 else None))
