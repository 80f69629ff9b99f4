"""C16: what the compiler grants (probe/) against what the specification spec/Share.tla allows."""
import json, os, random, re, shutil, subprocess, time

def run(pid, tier, seed, V, build, work, tlc, counts, ToolError, say):
    t0 = time.time()
    src = os.path.join(V, "probe")
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTC_WRAPPER")}
    env.update(CARGO_TARGET_DIR=os.path.join(build, "probe"), CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    b = subprocess.run("[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; unset RUSTC_WRAPPER; exec cargo build --offline --locked --quiet", shell=True, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if b.returncode: raise ToolError("the probe does not build:\n" + b.stdout.decode("latin1")[-3000:])
    out = subprocess.run([os.path.join(build, "probe/debug/probe")], stdout=subprocess.PIPE, check=True, timeout=60).stdout.decode()
    rows = []
    for l in out.split("\n"):
        if l:
            k, st, how, snd, syn, g = l.split(" ")
            rows.append(dict(kind=k, st=st, how=how, snd=int(snd), syn=int(syn), granted=int(g)))
    say(f"{len(rows)} answers of the compiler, {sum(r['granted'] for r in rows)} granted")
    f = os.path.join(work, "granted.ndjson")
    with open(f, "w") as o:
        for r in rows: o.write(json.dumps(r) + "\n")
    spec = os.path.join(V, "spec/Share.tla")
    # one worker: the set of misuses is collected in a TLC register
    o = tlc(spec, os.path.join(V, "spec/Share.cfg"), os.path.join(work, "m"), {"GRANTED": f})
    if "Model checking completed. No error has been found." not in o or '"POLICY"' in o or '"MISUSABLE"' not in o:
        raise ToolError("TLC on Share.tla:\n" + o[-3000:])
    gen, dist = counts(o)
    bad = [("UNSOUND", int(i)) for i in re.findall(r'"UNSOUND", (\d+)', o)] + [("MISSING", int(i)) for i in re.findall(r'"MISSING", (\d+)', o)]
    misusable = int(re.findall(r'"MISUSABLE", (\d+)', o)[0])
    say(f"{dist} states, {misusable} of 104 (part, way, Send, Sync) can be misused, {len(bad)} wrong answers")
    viol = []
    for kind, i in bad:
        r = rows[i - 1]
        el = {(1, 1): "Send and Sync", (1, 0): "Send, not Sync", (0, 1): "Sync, not Send", (0, 0): "neither Send nor Sync"}[(r["snd"], r["syn"])]
        what = f"{r['kind']} of a vec with {r['st']} storage, elements {el}: the compiler {'grants' if r['granted'] else 'refuses'} to {r['how']} it"
        text = "no thread can misuse it then\n"
        if kind == "UNSOUND":
            t = tlc(spec, os.path.join(V, "spec/ShareTrace.cfg"), os.path.join(work, "t"), {"GRANTED": f, "ROW": str(i)})
            text = "a behaviour of the specification that misuses it:\n" + t[t.find("Error: The behavior"):][:6000]
            if "Error: The behavior" not in t: raise ToolError("no counterexample:\n" + t[-2000:])
        viol.append((what, text))
        if len(viol) == 3: break
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 1), violations=len(bad),
        coverage=dict(states=dist, transitions=gen, traces_validated_against_impl=len(rows), samples=random.Random(seed).sample(rows, 5), exhaustive=True,
            answers_of_the_compiler=len(rows), granted=sum(r["granted"] for r in rows), parts=sorted({r["kind"] for r in rows}), misusable=misusable),
        assumptions=["the methods reachable through each part are listed by hand in spec/Share.tla", "an element type is either movable between threads or not, and either sharable or not; four types stand for all"])
    d = os.path.join(V, "evidence"); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, f"{pid}.json"), "w"), indent=1)
    kn = [l.strip() for l in open(os.path.join(V, "known_findings.txt")) if l.startswith(f"known: property={pid} ")]
    d = os.path.join(V, "replays"); os.makedirs(d, exist_ok=True)
    n = 0
    for what, text in viol:
        if any(what in l for l in kn): print(f"KNOWN-FINDING: property={pid} {what}"); continue
        n += 1
        path = os.path.join(d, f"{pid}-{n}.txt")
        open(path, "w").write(f"property  {pid}\n{what}\n\n{text}\n")
        if n == 1: print(what); print(text[:2500])
        print(f"VIOLATION property={pid} replay={path}")
    if n: return 1
    say("held")
    return 0
