"""What the compiler accepts (borrow/) against what the specification spec/Borrow.tla allows: no part of the vector may be kept across a call that ends its values."""
import json, os, re, subprocess

def run(V, build, work, tlc, counts, ToolError, say):
    """list of (what, text) that are wrong, and what was covered"""
    src = os.path.join(V, "borrow")
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTC_WRAPPER")}
    env.update(CARGO_TARGET_DIR=os.path.join(build, "borrow"), CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    b = subprocess.run("[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; unset RUSTC_WRAPPER; exec cargo check --offline --locked --message-format=json", shell=True, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    lines = open(os.path.join(src, "src/lib.rs")).read().split("\n")
    wrong, seen = {}, False
    for l in b.stdout.decode().split("\n"):
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["target"]["name"] != "borrow" or m["message"]["level"] != "error": continue
        e = m["message"]
        c = (e.get("code") or {}).get("code")
        if not e["spans"]: continue                # the summary
        if c not in (None, "E0499", "E0502", "E0503", "E0505", "E0506", "E0515", "E0521", "E0597", "E0713", "E0716"):
            raise ToolError(f"borrow/ does not compile for another reason than borrowing: {e['rendered'][:1500]}")
        seen = True
        for s in e["spans"]:
            if s["is_primary"]: wrong[s["line_start"]] = e["rendered"]
    rows = []
    for n, l in enumerate(lines, 1):
        if l.startswith("fn q"):
            p, c = l.split("// ")[1].split(" ")
            rows.append(dict(part=p, call=c, granted=0 if n in wrong else 1, line=n))
    if not seen and b.returncode: raise ToolError("borrow/ does not build:\n" + b.stderr.decode("latin1")[-2000:])
    f = os.path.join(work, "borrowed.ndjson")
    with open(f, "w") as o:
        for r in rows: o.write(json.dumps(r) + "\n")
    o = tlc(os.path.join(V, "spec/Borrow.tla"), os.path.join(V, "spec/Borrow.cfg"), os.path.join(work, "mb"), {"BORROWED": f})
    if "Model checking completed. No error has been found." not in o or '"ROWS"' in o or '"MISUSABLE"' not in o: raise ToolError("TLC on Borrow.tla:\n" + o[-3000:])
    bad = [int(i) for i in re.findall(r'"UNSOUND", (\d+)', o)]
    refused = [int(i) for i in re.findall(r'"REFUSED", (\d+)', o)]
    mis = int(re.findall(r'"MISUSABLE", (\d+)', o)[0])
    say(f"{len(rows)} questions to the borrow checker, {mis} of them lead to a use of dead values, {len(bad)} of these are accepted, {len(refused)} harmless ones refused")
    viol = []
    for i in bad:
        r = rows[i - 1]
        viol.append((f"the compiler accepts to keep {r['part']} across {r['call']}", f"accepted although the part (the stored value) is used after what it refers to is gone:\n  {lines[r['line'] - 1]}\n"))
    return viol, dict(questions_to_the_borrow_checker=len(rows), misusable=mis, accepted_wrongly=len(bad), refused_needlessly=len(refused))
