#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

1. builds the explorer from /repo's working tree,
2. runs the property's programs (tools/scen.py) under enumerated and random schedules,
3. lets TLC accept or reject every recorded history against spec/Trace.tla (AbsVec),
4. model-checks the specifications the property rests on (spec/*.cfg listed in MODELS),
5. replays behaviours generated from the specification on the real code,
6. writes evidence/PROPERTY.json.
exit 0: held; 1: VIOLATION printed; 2: the check itself failed.
"""
import json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import scen, show

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)
T0 = time.time()

class ToolError(Exception): pass
def say(*a): print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)

# ------------------------------------------------------------------ exploration
def explore(args):
    exe, scenfile, lines, extra, timeout = args
    p = subprocess.run([exe, "--scen", scenfile] + extra, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    out = p.stdout.decode("latin1").split("\n")
    hs, stats, stop, crashes = {}, [], False, []
    for l in out:
        if l.startswith("H "):
            _, i, n, d, j = l.split(" ", 4)
            hs.setdefault(int(i), []).append((d, j))
        elif l.startswith("S "): stats.append(l)
        elif l.startswith("STOP"): stop = True
        elif l.startswith("X "): raise ToolError(f"explorer: {l}")
        elif l.startswith("CRASH "):
            f = l.split(" ")
            crashes.append((f[1], f[2], int(f[3]), f[4] if len(f) > 4 else ""))
    if p.returncode != 0: raise ToolError(f"explorer exit {p.returncode}: {out[-3:]}")
    if not stop and len(stats) + len(crashes) < len(lines): raise ToolError(f"explorer finished {len(stats)}+{len(crashes)} of {len(lines)} programs")
    for kind, num, i, dec in crashes:
        q = subprocess.run([exe, "--scen", scenfile, "--index", str(i), "--replay", dec or "x"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        ps = [x for x in q.stdout.decode("latin1").split("\n") if x.startswith("P {")]
        j = json.loads(ps[-1][2:]) if ps else {"cfg": {"name": "crash", "st": "?", "maxc": 0}, "calls": [], "ev": []}
        if not j.get("fault"): j["fault"] = f"crash: {kind} {num}"
        if 0 not in j["ev"]: j["ev"].append(0)
        hs.setdefault(i, []).append((dec, json.dumps(j, separators=(",", ":"))))
    res, total = [], 0
    for i, l in hs.items():
        total += len(l)
        for d, j in maximal(l): res.append((lines[i], d, j))
    return res, total, stats

def maximal(hist):
    """of histories with the same results keep those with the most precedence constraints: every history of a less ordered
    one is a history of the specification if the more ordered one is (calls may start earlier and return later)"""
    groups = {}
    for d, j in hist:
        x = json.loads(j)
        calls = x["calls"]
        if x["fault"]: groups.setdefault(("fault", j), []).append((0, d, j)); continue
        # number calls by (thread, position in thread) so that equal programs have equal numbers
        cnt, key = {}, []
        for c in calls:
            k = cnt.get(c["t"], 0); cnt[c["t"]] = k + 1
            key.append((c["t"], k))
        order = {k: n for n, k in enumerate(sorted(key))}
        num = [order[k] for k in key]
        g = tuple(sorted((key[i], calls[i]["o"], calls[i]["p"], calls[i]["k"], tuple(calls[i]["r"]) if len(calls[i]["r"]) < 200 else hash(tuple(calls[i]["r"]))) for i in range(len(calls))))
        n, done, prec = len(calls), 0, 0
        for e in x["ev"]:
            if e > 0: prec |= done << (num[e - 1] * n)
            else: done |= 1 << num[-e - 1]
        groups.setdefault(g, []).append((prec, d, j))
    out = []
    for l in groups.values():
        l.sort(key=lambda x: -bin(x[0]).count("1"))
        kept = []
        for p, d, j in l:
            if not any(p | q == q for q, _, _ in kept): kept.append((p, d, j))
        out += [(d, j) for _, d, j in kept]
    return out

# ------------------------------------------------------------------ TLC
def tlc(spec, cfg, meta, env=None, workers="1", extra=(), mem="2g", timeout=600, dfs=False):
    cmd = ["java", f"-Xmx{mem}", "-Xss64m", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC"]
    if dfs: cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JAR, "tlc2.TLC", "-workers", workers, "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, spec]
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env={**os.environ, **(env or {})}, cwd=os.path.dirname(spec))
    except subprocess.TimeoutExpired as e: return (e.stdout or b"").decode("latin1") + "\nTIMEOUT"
    finally: shutil.rmtree(meta, ignore_errors=True)
    return p.stdout.decode("latin1")
def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    return tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)

def validate(args):
    n, hist, work, timeout = args
    f = os.path.join(work, f"h{n}.ndjson")
    with open(f, "w") as o:
        for _, _, j in hist: o.write(j + "\n")
    out = tlc(os.path.join(V, "spec/Trace.tla"), os.path.join(V, "spec/Trace.cfg"), os.path.join(work, f"m{n}"), {"TRACES": f}, dfs=True, timeout=timeout)
    if "Model checking completed. No error has been found." not in out:
        raise ToolError("TLC failed on recorded histories:\n" + "\n".join(out.split("\n")[-30:]))
    rej = [(int(a) - 1, int(b)) for a, b in re.findall(r'"REJECTED", (\d+), (\d+)', out)]
    os.unlink(f)
    return [(hist[i], m) for i, m in rej], counts(out), len(hist)

def weigh(h): return len(h[2])
def split(hist, n):
    parts = [[] for _ in range(n)]
    load = [0] * n
    for h in sorted(hist, key=weigh, reverse=True):
        k = load.index(min(load)); parts[k].append(h); load[k] += weigh(h) + 300
    return [p for p in parts if p]

# ------------------------------------------------------------------ main
TIERS = dict(quick=dict(ms=400, cap=16000, rounds=1, model_timeout=200, tlc_timeout=420),
             thorough=dict(ms=6000, cap=200000, rounds=3, model_timeout=3000, tlc_timeout=6000))

def known():
    p = os.path.join(V, "known_findings.txt")
    return [l.strip() for l in open(p)] if os.path.exists(p) else []

def report(pid, seed, viol, matched, n):
    line, dec, j = viol
    h = json.loads(j)
    d = os.path.join(V, "replays"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{n}.txt")
    with open(path, "w") as f:
        f.write(f"property  {pid}\nprogram   {line}\nschedule  {dec}\nrerun     tools/replay.sh {path}\n")
        if h["fault"]: f.write(f"fault     {h['fault']}\n")
        f.write(f"\nhistory recorded from the real code; the specification (spec/AbsVec.tla) has no such behaviour:\n{show.show(h, matched)}\n\nhistory   {j}\n")
    return path

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    T = TIERS[tier]
    build = os.path.join(V, "build")
    work = os.path.join(build, f"run-{pid}-{os.getpid()}")
    os.makedirs(work)
    try:
        if pid == "C16":
            import share
            return share.run(pid, tier, seed, V, build, work, tlc, counts, ToolError, say)
        return run(pid, tier, seed, T, build, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(pid, tier, seed, T, build, work):
    b = subprocess.run([os.path.join(V, "harness/build.sh"), build], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if b.returncode != 0: raise ToolError("the explorer does not build:\n" + b.stdout.decode()[-3000:])
    exe = os.path.join(work, "explore")
    shutil.copy(os.path.join(build, "target/release/explore"), exe)
    say("explorer built")
    stats = dict(executions=0, schedule_steps=0, programs=0, programs_enumerated_to_2_preemptions=0, histories_distinct=0)
    hist = []
    with ProcessPoolExecutor(NCPU) as ex:
        for rnd in range(T["rounds"]):
            lines = scen.scenarios(pid, tier if rnd == 0 else "thorough", seed + 1000 * rnd)
            if rnd > 0: lines = [l for l in lines if l.startswith(("rs.", "rc."))]
            jobs = []
            order = list(range(len(lines)))
            random.Random(seed).shuffle(order)
            for k in range(NCPU):
                part = [lines[i] for i in order[k::NCPU]]
                f = os.path.join(work, f"s{rnd}.{k}")
                open(f, "w").write("\n".join(part) + "\n")
                jobs.append((exe, f, part, ["--ms", str(T["ms"]), "--seed", str(seed + rnd)], 3000 if tier == "thorough" else 300))
            for res, total, st in ex.map(explore, jobs):
                hist += res
                stats["histories_distinct"] += total
                for s in st:
                    kv = dict(x.split("=") for x in s.split(" ") if "=" in x)
                    stats["executions"] += int(kv["execs"]); stats["schedule_steps"] += int(kv["steps"])
                    stats["programs"] += 1
                    stats["programs_enumerated_to_2_preemptions"] += int(kv["pbdone"]) >= 2
    say(f"{stats['programs']} programs, {stats['executions']} executions, {stats['histories_distinct']} distinct histories, {len(hist)} maximal")
    # faults first, one of every program next, a seeded sample of the rest
    rng = random.Random(seed)
    rng.shuffle(hist)
    seen, first, rest = set(), [], []
    for h in hist:
        if not h[2].endswith('"fault":""}'): first.insert(0, h); continue
        (rest if h[0] in seen else first).append(h)
        seen.add(h[0])
    dropped = max(0, len(first) + len(rest) - T["cap"])
    rest = rest[:max(0, T["cap"] - len(first))]
    nfault = sum(not h[2].endswith('"fault":""}') for h in first)
    batches = [first[:400] if nfault == 0 else first[:200], first[400 if nfault == 0 else 200:] + rest]
    viol, tstates, ttrans, validated = [], 0, 0, 0
    with ThreadPoolExecutor(NCPU) as ex:
        for bn, batch in enumerate(batches):
            if viol: break
            for rej, (gen, dist), n in ex.map(validate, [(f"{bn}.{k}", p, work, T["tlc_timeout"]) for k, p in enumerate(split(batch, NCPU))]):
                viol += rej; ttrans += gen; tstates += dist; validated += n
    say(f"{validated} histories validated ({ttrans} transitions), {len(viol)} rejected")
    models = []
    if not viol:
        import models as M
        models = M.run(pid, tier, seed, T, work, exe, tlc, counts, ToolError, say, explore, validate, split)
        for m in models: viol += [x for x in m.pop("rejected", [])]
    bviol = []
    if pid == "C10":
        import borrow
        bviol, stats["borrow_checker"] = borrow.run(V, build, work, tlc, counts, ToolError, say)
        bviol = [(w, t) for w, t in bviol if not any(w in l for l in known() if l.startswith("known: property=C10 ")) or print(f"KNOWN-FINDING: property={pid} {w}")]
    # known findings: "known: property=<id> program=<exact program> ..." (none at present)
    shown = 0
    kn = [l for l in known() if l.startswith(f"known: property={pid} ")]
    real = []
    for v, m in viol:
        hit = [l for l in kn if f"program={v[0].split(' @ ', 1)[1]}" in l]
        if hit: print(f"KNOWN-FINDING: property={pid} {hit[0]}")
        else: real.append((v, m))
    samples = [dict(program=h[0], schedule=h[1], history=show.show(json.loads(h[2])).split("\n")[:40]) for h in rng.sample(hist, min(3, len(hist)))]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - T0, 1), violations=len(real) + len(bviol),
        coverage=dict(states=sum(m["states"] for m in models) + tstates, transitions=sum(m["transitions"] for m in models) + ttrans,
            traces_validated_against_impl=validated, samples=samples, **stats, histories_maximal=len(hist), histories_not_validated=dropped,
            trace_validation=dict(states=tstates, transitions=ttrans), models=models),
        assumptions=["sequentially consistent interleavings of the atomic operations; orderings are judged by happens-before (vector clocks), values read are always the latest ones",
                     "the dependency crates orx-* are part of the system under test and compiled from the cargo registry"])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, f"evidence/{pid}.json"), "w"), indent=1)
    for n, (what, text) in enumerate(bviol[:3]):
        path = os.path.join(V, "replays", f"{pid}-b{n + 1}.txt")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "w").write(f"property  {pid}\n{what}\n\n{text}\n")
        if n == 0: print(what); print(text)
        print(f"VIOLATION property={pid} replay={path}")
    if real:
        real.sort(key=lambda x: len(x[0][2]))
        for n, (v, m) in enumerate(real[:3]):
            path = report(pid, seed, v, m, n + 1)
            if n == 0: print(open(path).read()[:3000])
            print(f"VIOLATION property={pid} replay={path}")
    if real or bviol: return 1
    say("held")
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except (ToolError, subprocess.TimeoutExpired) as e:
        print(f"CHECK FAILED: {e}"); sys.exit(2)
