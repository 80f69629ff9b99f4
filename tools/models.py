"""model checking of the specifications themselves

impl     spec/Impl.tla: the algorithm, one action per atomic access, refines AbsVec; design mistakes (Variant) must fail
parts    spec/Growth.tla, spec/Locks.tla: what Impl does about growth, len() and reserved elements. Their claims are proved
         for any number of threads and any sizes (TLAPS: GrowthProof, LocksProof); TLC checks that Impl refines them
abstract spec/MCAbs.tla: the listed properties as invariants over what AbsVec lets a client observe; mutants must fail
gen      spec/MCGen.tla: behaviours generated from AbsVec, replayed on the real code
"""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

IMPL_CFG = """SPECIFICATION Spec
CONSTANTS
  Threads = {threads}
  Batch = FALSE
  Menu <- {menu}
  Calls = {calls}
  N0 = {n0}
  CapSteps <- {caps}
  Variant = "{variant}"
INVARIANTS Refines Mapping LenWritten Growth Exclusive WellFormed OwnedOnce {refine}
CHECK_DEADLOCK TRUE
"""
REFINE = "GrowthInv LocksInv\nPROPERTIES RefinesGrowth RefinesLocks"
# proofs of the parts; in the quick tier for a few properties
PROOFS = {"C01": ["Growth"], "C02": ["Growth"], "C03": ["Growth"], "C05": ["Locks"], "C06": ["Locks"], "C07": ["Growth", "Locks"], "C08": ["Growth"], "C12": ["Locks"], "C13": ["Locks"], "C14": ["Locks"]}
QUICK_PROOFS = ("C01", "C03", "C06", "C07")
T2, T3, T4 = "{0, 1, 2}", "{0, 1, 2, 3}", "{0, 1, 2, 3, 4}"
# property: ([(menu, threads, calls, n0, caps)] quick, thorough, variants)
G = [("MGrow", T2, 2, 1, "Caps124"), ("MGrow", T2, 2, 3, "Caps48"), ("MPush", T3, 1, 0, "Caps124")]
GT = [("MGrow", T3, 1, 1, "Caps124"), ("MGrow", T2, 3, 0, "Caps2468"), ("MPush", T3, 2, 1, "Caps137"), ("MPush", T4, 1, 1, "Caps124"), ("MGrow", T3, 1, 3, "Caps48"), ("MGrow", T2, 3, 1, "Caps6")]
IMPL = {
 "C01": (G, GT, ["permit-first", "capacity-first"]),
 "C02": (G, GT, ["permit-first"]),
 "C03": ([("MLenS", T2, 2, 2, "Caps124"), ("MLenS", T3, 1, 1, "Caps124")], [("MLen", T2, 2, 2, "Caps124"), ("MLen", T3, 1, 2, "Caps124"), ("MLenS", T3, 2, 1, "Caps124"), ("MLen", T2, 3, 0, "Caps124")], ["len-reserved", "len-some-only", "len-add"]),
 "C04": ([("MGetS", T2, 2, 1, "Caps124"), ("MGetS", T3, 1, 1, "Caps124")], [("MGet", T2, 2, 1, "Caps124"), ("MGet", T3, 1, 1, "Caps124"), ("MGetS", T3, 2, 1, "Caps124")], ["state-before-value", "raw-beyond", "read-unlocked"]),
 "C05": ([("MElemS", T2, 2, 1, "Caps124"), ("MElemS", T3, 1, 1, "Caps124")], [("MElem", T2, 2, 1, "Caps124"), ("MElem", T3, 1, 1, "Caps124"), ("MElemS", T3, 2, 1, "Caps124")], ["read-unlocked"]),
 "C06": ([("MSwap", T2, 2, 2, "Caps124"), ("MSwap", T3, 1, 2, "Caps124")], [("MMulti", T2, 2, 2, "Caps124"), ("MMulti", T3, 1, 3, "Caps124"), ("MSwap", T3, 2, 2, "Caps124")], ["swap-twice", "swap-unordered"]),
 "C07": ([("MWait", T2, 2, 2, "Caps124"), ("MWait", T3, 1, 3, "Caps48")], [("MAll", T2, 2, 2, "Caps124"), ("MAll", T3, 1, 2, "Caps124"), ("MWait", T3, 2, 3, "Caps48")], ["closure-before-growth", "permit-edge", "swap-unordered", "eq-nested", "panic-keeps-lock"]),
 "C08": ([("MGrow", T2, 2, 2, "Caps3"), ("MPush", T3, 1, 2, "Caps3")], [("MGrow", T3, 1, 2, "Caps3"), ("MGrow", T2, 3, 5, "Caps6"), ("MGrow", T2, 3, 1, "Caps3")], ["permit-first"]),
 "C09": ([("MRaw", T2, 2, 1, "Caps124"), ("MRaw", T3, 1, 1, "Caps124")], [("MRaw", T3, 2, 1, "Caps124"), ("MRaw", T2, 3, 1, "Caps124")], ["raw-some-only", "raw-beyond"]),
 "C12": ([("MIterS", T2, 2, 2, "Caps124"), ("MIterS", T3, 1, 1, "Caps124")], [("MIter", T2, 2, 1, "Caps124"), ("MIter", T3, 1, 2, "Caps124")], ["iter-no-bound"]),
 "C13": ([("MCmp", T2, 2, 2, "Caps124"), ("MCmp", T3, 1, 2, "Caps124")], [("MCmp", T3, 2, 2, "Caps124"), ("MIter", T3, 1, 2, "Caps124")], ["eq-nested"]),
 "C14": ([("MPanic", T2, 2, 1, "Caps124"), ("MPanic", T3, 1, 1, "Caps124")], [("MPanic", T3, 2, 1, "Caps124"), ("MPanic", T2, 3, 1, "Caps124")], ["panic-keeps-lock", "closure-before-growth"]),
}
# where a design mistake shows
VARIANTS = {
 "closure-before-growth": ("MGrow", T2, 2, 1, "Caps124"), "permit-edge": ("MGrow", T2, 1, 3, "Caps48"), "permit-first": ("MGrow", T2, 1, 3, "Caps48"),
 "capacity-first": ("MGrow", T2, 2, 1, "Caps124"), "state-before-value": ("MGet", T2, 2, 1, "Caps124"), "len-reserved": ("MLen", T2, 2, 1, "Caps124"),
 "len-some-only": ("MLenS", T2, 2, 2, "Caps124"), "len-add": ("MLenS", T2, 2, 2, "Caps124"), "read-unlocked": ("MElem", T2, 2, 2, "Caps124"),
 "raw-beyond": ("MGet", T2, 2, 1, "Caps124"), "raw-some-only": ("MGet", T2, 2, 2, "Caps124"), "panic-keeps-lock": ("MElem", T2, 2, 2, "Caps124"),
 "swap-twice": ("MMulti", T2, 1, 2, "Caps124"), "swap-unordered": ("MMulti", T2, 1, 2, "Caps124"), "eq-nested": ("MMulti", T2, 1, 2, "Caps124"),
 "iter-no-bound": ("MIter", T2, 1, 2, "Caps124"),
}

ABS_CFG = """SPECIFICATION Spec
CONSTANTS
  Threads = {threads}
  Batch = FALSE
  Menu <- {menu}
  Calls = {calls}
  Total = {total}
  N0 = {n0}
  MaxC = {maxc}
{override}
INVARIANTS {invs}
{props}
CHECK_DEADLOCK FALSE
"""
INVS = "OnceEach Ordered LenPrefix Visible Linearizable SwapsPermute FillWindow Limits RawViews RefViews AsPlain WindowsStay Snapshot Searches PanicHarmless ClearedAnyway Conserved WellFormed OwnedOnce"
T1 = "{0}"
# property: [(menu, threads, calls, total, n0, maxc)] quick, thorough, mutants
ABS = {
 "C01": ([("AGrow", T2, 2, 3, 1, 4), ("AGrow3", T3, 1, 2, 0, 4)], [("AGrowT", T2, 2, 3, 0, 6), ("AGrow3", T3, 1, 3, 0, 4), ("AGrow3", T2, 2, 4, 1, 4)], []),
 "C02": ([("AGrow", T2, 2, 3, 1, 4)], [("AGrowT", T2, 2, 3, 0, 6), ("AGrow3", T3, 1, 3, 1, 6)], []),
 "C03": ([("AGrow", T2, 2, 3, 0, 4)], [("AGrow3", T3, 1, 3, 0, 4), ("AGrow3", T2, 2, 4, 0, 4)], ["LenHi", "LenLo", "Contig"]),
 "C04": ([("AGet", T2, 2, 3, 1, 4)], [("AGet", T3, 1, 3, 1, 4)], ["MayIn", "MayOut"]),
 "C05": ([("AElem", T2, 2, 3, 1, 4), ("AElem", T3, 1, 3, 1, 4)], [("AElem", T2, 2, 4, 1, 4), ("AElem", T3, 2, 3, 1, 4)], ["Fired"]),
 "C06": ([("ASwap", T2, 2, 3, 2, 4), ("ASwapOnly", T2, 2, 3, 3, 4)], [("ASwap", T2, 2, 4, 3, 4), ("ASwapOnly", T3, 1, 3, 3, 4), ("ASwapOnly", T2, 2, 4, 3, 4)], ["Put"]),
 "C07": ([("ASwap", T2, 1, 2, 2, 4), ("AIter", T2, 1, 2, 2, 4), ("AGrow", T2, 1, 2, 1, 4)], [("AGrowT", T2, 1, 2, 1, 4), ("AElem", T2, 2, 3, 2, 4), ("APanic", T2, 1, 2, 1, 4)], []),
 "C08": ([("ALimit", T2, 2, 3, 2, 3)], [("ALimit", T2, 2, 4, 2, 3), ("ALimit", T2, 2, 3, 0, 4)], []),
 "C09": ([("AGet", T2, 2, 3, 1, 4)], [("AGet", T3, 1, 3, 1, 4)], ["MayOut"]),
 "C10": ([("ASeq", T1, 4, 4, 3, 6)], [("ASeq", T1, 5, 5, 3, 6)], []),
 "C11": ([("AWinS", T1, 3, 3, 4, 8), ("AWin", T1, 2, 2, 4, 8)], [("AWinS", T1, 4, 4, 4, 8), ("AWin", T1, 3, 3, 4, 8)], ["SubRange", "Win", "CeilDiv"]),
 "C12": ([("AIter", T2, 2, 3, 2, 4), ("AWin", T1, 2, 2, 3, 8)], [("AIter", T3, 1, 3, 2, 4)], []),
 "C13": ([("AEq", T1, 4, 4, 5, 8), ("AIter", T2, 2, 3, 2, 4)], [("AEq", T1, 5, 5, 4, 8), ("AIter", T3, 1, 3, 2, 4)], ["Same"]),
 "C14": ([("APanic", T2, 2, 3, 1, 4)], [("APanic", T3, 1, 3, 1, 4)], ["Fired", "Contig", "DropOps"]),
 "C15": ([("ASeq", T1, 4, 4, 3, 6)], [("ASeq", T1, 5, 5, 2, 9)], []),
}
MUTANTS = {
 "LenHi": ("AGrow", T2, 2, 3, 1, 4), "LenLo": ("AGrow", T2, 2, 3, 1, 4), "MayIn": ("AGet", T2, 2, 3, 1, 4), "MayOut": ("AGet", T2, 2, 3, 1, 4),
 "Put": ("ASwap", T2, 2, 3, 2, 4), "SubRange": ("AWin", T1, 2, 2, 4, 8), "Win": ("AWinS", T1, 3, 3, 4, 8), "CeilDiv": ("AWin", T1, 2, 2, 4, 8),
 "Same": ("AEq", T1, 4, 4, 5, 8), "Contig": ("APanic", T2, 2, 3, 1, 4), "Fired": ("APanic", T2, 2, 3, 1, 4), "DropOps": ("APanic", T2, 2, 3, 1, 4),
}

GEN_CFG = """SPECIFICATION Spec
CONSTANTS
  Threads = {{0}}
  Batch = FALSE
  Depth = {depth}
  MaxC = 28
  Focus = {{{focus}}}
INVARIANTS WellFormed Show
CHECK_DEADLOCK FALSE
"""
FOCUS = {
 "C01": "one many odd", "C02": "one many odd", "C03": "one many odd meas write", "C04": "one odd read", "C05": "write read hold find", "C06": "multi cut write", "C07": "one many multi find write",
 "C08": "one many odd meas again", "C09": "one many read", "C10": "write multi again odd hold", "C11": "cut many lazy", "C12": "iter adapt lazy one write", "C13": "find cut multi", "C14": "odd one meas read",
 "C15": "again many iter adapt"}
# storages whose maximum capacity is 28
GEN_ST = ["dbl:3", "lin:2:7", "lin:1:14", "fix:28"]
def program(name, st, walk):
    txt = lambda c: c["o"] + (f":{c['s']}" if c["s"] else "") + ("!0" if c["p"] >= 0 else "") + (" " + ",".join(map(str, c["a"])) if c["a"] else "")
    return f"{name} @ S={st} E=tok @ {';'.join(txt(c) for c in walk)} @  @ len;itc"

def cfgfile(work, name, text):
    p = os.path.join(work, name + ".cfg")
    open(p, "w").write(text)
    return p

def outcome(out):
    """'ok', 'violated X', 'deadlock', or None when TLC did not finish"""
    m = re.search(r"Error: (?:Invariant|Action property|Temporal properties) ?(\S*) ?(?:is|were) violated", out)
    if m: return "violated " + m.group(1)
    if "Temporal properties were violated" in out: return "violated liveness"
    if "Deadlock reached" in out: return "deadlock"
    if "Model checking completed. No error has been found." in out: return "ok"
    return None

def impl_jobs(pid, tier):
    if pid not in IMPL: return []
    q, t, vs = IMPL[pid]
    jobs = [("impl", c, "") for c in (q if tier == "quick" else q + t)]
    menu, threads, calls, n0, caps = q[0]
    jobs.append(("refine", (menu, threads, 1, n0, caps) if tier == "quick" else q[0], ""))
    for v in (vs if tier == "quick" else sorted(VARIANTS)): jobs.append(("impl", VARIANTS[v], v))
    return jobs

def generated(pid, tier, seed, T, work, exe, tlc, counts, ToolError, say, explore, validate, split):
    """behaviours of AbsVec (TLC -simulate) as programs; the real code must agree with the results AbsVec predicts"""
    procs, num, depth = (4, 150, 14) if tier == "quick" else (8, 4000, 30)
    cfg = cfgfile(work, "gen", GEN_CFG.format(depth=depth, focus=", ".join(f'"{x}"' for x in FOCUS[pid].split())))
    def sim(k):
        out = tlc(os.path.join(V, "spec/MCGen.tla"), cfg, os.path.join(work, f"mg{k}"), extra=["-simulate", f"num={num}", "-depth", "3000", "-seed", str(seed * 100 + k)], timeout=T["model_timeout"])
        w = [json.loads(json.loads(l)[5:]) for l in out.split("\n") if l.startswith('"WALK ')]
        if not w or "Error:" in out: raise ToolError("MCGen:\n" + out[-3000:])
        return w, int(re.findall(r"number of states generated: ([\d,]+)", out)[-1].replace(",", ""))
    with ThreadPoolExecutor(8) as ex: walks = list(ex.map(sim, range(procs)))
    states = sum(n for _, n in walks)
    walks = [w for l, _ in walks for w in l]
    lines = [program(f"walk.{i}", GEN_ST[i % 4], w) for i, w in enumerate(walks)]
    hist, jobs = [], []
    for k in range(8):
        f = os.path.join(work, f"walks{k}")
        part = lines[k::8]
        open(f, "w").write("\n".join(part) + "\n")
        jobs.append((exe, f, part, ["--seed", str(seed)], 600))
    with ThreadPoolExecutor(8) as ex:
        for h, _, _ in ex.map(explore, jobs): hist += h
    byname = {l: w for l, w in zip(lines, walks)}
    def exact(line, j):
        h = json.loads(j)
        got = [(c["k"], c["r"]) for c in h["calls"][1:len(byname[line]) + 1]]
        return not h["fault"] and got == [(c["k"], c["r"]) for c in byname[line]]
    n_exact = sum(exact(l, j) for l, _, j in hist)
    rejected, tr = [], 0
    with ThreadPoolExecutor(8) as ex:
        for rej, (gen, _), _ in ex.map(validate, [(f"g{k}", p, work, T["tlc_timeout"]) for k, p in enumerate(split(hist, 8))]): rejected += rej; tr += gen
    say(f"{len(lines)} programs generated from the specification, {n_exact} with exactly the predicted results, {len(rejected)} rejected")
    return dict(name="MCGen: programs generated from AbsVec, run on the real code", outcome=f"{len(hist)} runs, {n_exact} with exactly the predicted results, the others differ where AbsVec leaves the result open", states=states, transitions=states + tr, rejected=rejected)

def run(pid, tier, seed, T, work, exe, tlc, counts, ToolError, say, explore, validate, split):
    res = [generated(pid, tier, seed, T, work, exe, tlc, counts, ToolError, say, explore, validate, split)]
    if res[0]["rejected"]: return res
    jobs = impl_jobs(pid, tier)
    def impl(n, job):
        kind, (menu, threads, calls, n0, caps), variant = job
        cfg = cfgfile(work, f"impl{n}", IMPL_CFG.format(threads=threads, menu=menu, calls=calls, n0=n0, caps=caps, variant=variant, refine=REFINE if kind == "refine" or (tier == "thorough" and not variant) else ""))
        out = tlc(os.path.join(V, "spec/MCImpl.tla"), cfg, os.path.join(work, f"mi{n}"), workers="4" if not variant else "1", mem="6g" if tier == "thorough" else "3g", timeout=T["model_timeout"])
        r, (gen, dist) = outcome(out), counts(out)
        name = f"Impl{' refines Growth and Locks,' if kind == 'refine' else ''} {menu} {len(threads.split(',')) - 1} threads x {calls} calls, {n0} elements, {caps}" + (f", design mistake {variant}" if variant else "")
        if variant:
            if r == "ok" or (r is None and "TIMEOUT" not in out): raise ToolError(f"{name}: not noticed\n" + out[-2000:])
        elif r != "ok" and not (r is None and "TIMEOUT" in out):
            raise ToolError(f"{name}: {r}\n" + out[-6000:])
        return dict(name=name, outcome=r or "no error within the time limit", states=dist, transitions=gen)
    def abstract(n, cfg, mutant, live):
        menu, threads, calls, total, n0, maxc = cfg
        f = cfgfile(work, f"abs{n}{mutant}", ABS_CFG.format(threads=threads, menu=menu, calls=calls, total=total, n0=n0, maxc=maxc, invs=INVS,
                    override=f"  {mutant} <- Bad{mutant}" if mutant else "", props="PROPERTY Terminates" if live else ""))
        out = tlc(os.path.join(V, "spec/MCA.tla"), f, os.path.join(work, f"ma{n}{mutant}"), workers="4" if not mutant else "1", mem="6g" if tier == "thorough" else "3g", timeout=T["model_timeout"])
        r, (gen, dist) = outcome(out), counts(out)
        name = f"properties of AbsVec, {menu} {len(threads.split(','))} threads, {total} calls, {n0} elements" + (", termination" if live else "") + (f", mutant {mutant}" if mutant else "")
        if mutant:
            if r == "ok" or (r is None and "TIMEOUT" not in out): raise ToolError(f"{name}: not noticed\n" + out[-2000:])
        elif r != "ok" and not (r is None and "TIMEOUT" in out): raise ToolError(f"{name}: {r}\n" + out[-6000:])
        return dict(name=name, outcome=r or "no error within the time limit", states=dist, transitions=gen)
    def proof(m):
        d = os.path.join(work, "proof" + m)
        os.makedirs(d, exist_ok=True)
        for f in (m, m + "Proof"): shutil.copy(os.path.join(V, "spec", f + ".tla"), d)
        p = subprocess.run(["tlapm", "--strict", "--threads", "4", "--stretch", "20", m + "Proof.tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=T["model_timeout"])
        out = p.stdout.decode()
        n = re.search(r"All (\d+) obligations? proved", out)
        if p.returncode or not n: raise ToolError(f"{m}Proof: not proved\n" + out[-3000:])
        return dict(name=f"{m}: proved for any number of threads and any sizes (TLAPS)", outcome=f"{n.group(1)} obligations proved", states=0, transitions=0)
    for m in PROOFS.get(pid, []) if tier == "thorough" or pid in QUICK_PROOFS else []: res.append(proof(m))
    aq, at, am = ABS[pid]
    ajobs = [(c, "", pid == "C07") for c in (aq if tier == "quick" else aq + at)] + [(MUTANTS[m], m, False) for m in (am if tier == "quick" else sorted(MUTANTS))]
    with ThreadPoolExecutor(4 if tier == "quick" else 2) as ex:
        res += list(ex.map(lambda x: abstract(x[0], *x[1]), enumerate(ajobs)))
    with ThreadPoolExecutor(4 if tier == "quick" else 2) as ex:
        res += list(ex.map(lambda x: impl(*x), enumerate(jobs)))
    say(f"{len(res)} model runs, {sum(r['states'] for r in res)} states")
    return res
