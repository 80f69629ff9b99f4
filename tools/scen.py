#!/usr/bin/env python3
"""Programs run on the real code, per property: systematic families plus seeded random ones.

scen.py PROPERTY TIER SEED prints them, one per line (format: harness/src/prog.rs).
The oracle for all of them is spec/AbsVec.tla; nothing here predicts results, the little
bookkeeping below only keeps programs legal (no use of a slice that does not exist, no
conversion of a vector with inner gaps, no racy use of the unsafe api, no self-made deadlock).
"""
import itertools, random, sys

STS = ["dbl", "lin:2:8", "fix:16"]
def prog(name, st, setup, threads, teardown, el="tok", opts=""):
    j = lambda ops: ";".join(ops) if isinstance(ops, (list, tuple)) else ops
    if el != "tok" and len(threads) > 1: opts = (opts + " post=1").strip()
    return f"{name} @ S={st} E={el}{' ' + opts if opts else ''} @ {j(setup)} @ {' // '.join(j(t) for t in threads)} @ {j(teardown)}"

class Out(list):
    def add(self, name, st, setup, threads=(), teardown="len;itc", el="tok", opts=""):
        # plain values: of 16, of 4 and of 168 bytes
        for e in ("cp", "sm", "lg") if el == "cp" else (el,): self.append(prog(f"{name}.{len(self)}", st, setup, threads, teardown, e, opts))

# ------------------------------------------------------------------ calls made by callbacks of other calls
# {}: a new value.  FREE: nothing is locked while the callback runs; HELD: at most elements 0, 1 are
N_GROW = ["pushf {}", "ext {},{}", "extn 2,{},{}", "exti {},{}", "extni 2,{},{}", "extfi {},{}", "extf {},{},{}", "extv {},{}"]
N_FREE = N_GROW + ["fillw {}", "fillw:1 {}"]
N_HELD = ["getm 0", "getc 0", "gcl 1", "upd 0,{}", "add 1,1000", "eqt 0,{}", "eqe 0,1", "getm:1 1", "upd:1 0,{}", "dbge 1"]
N_ITER = [x + ":1" for x in ("itc", "itm", "itcl", "map", "fold", "filt", "cvec", "dbg")] + ["idxof:1 99", "cont:1 99", "eqsl:1 1,2", "red:1", "ita:1 2,6,0", "chk:1 1"]
I_LEN = ["len", "isempty", "cap", "maxcap", "len:1", "get 0", "get 9"]
I_GROW = ["push {}", "ext {},{}", "pushf {}", "extf {},{}", "extn 1,{}", "ext", "extf"]
I_ELEM = ["getc 2", "gcl 3", "rep 2,{}", "set 3,{}", "upd 2,{}", "getm 3", "swap 2,3", "eqe 2,3", "hold 2,9;hr 9,{}"]
I_ALL = ["getc 0", "gcl 1", "rep 0,{}", "upd 1,{}", "swap 0,1", "swap 0,3", "fill {}", "fillw {}", "itc", "fold", "cvec", "itcl", "idxof 1", "cont 3", "eqr 1", "eqsl 1,2", "dbg", "eqe 0,1"]
I_CUT = ["asl 2", "slice 2,0,1,9", "slice:1 2,3,1,0", "spat 2,3,1", "spf 2", "spl 2", "chk 2", "slice 2,5,0,-1"]
I_RAWO = ["raw 3", "raw 9", "rawm 2", "ref 2", "mutg 3"]               # without touching elements 0, 1
I_RAW = ["raw 0", "raw 3", "ref 2", "itref", "raw 9", "mutg 3", "itmutn"]
def nest(o, name, sts, outers, inners, pre="ext 1..4;slice 1,0,0,2", per=10, after="len;itc", conc=None, opts=""):
    """every outer call whose first (and second) callback makes every inner call"""
    v = [100]
    def f(x):
        while "{}" in x: v[0] += 1; x = x.replace("{}", str(v[0]), 1)
        return x
    pairs = [(a, b, k) for a in outers for b in inners for k in ((0,) if conc or a.split(" ")[0].split(":")[0] in ("pushf", "getc", "gcl", "getm", "upd", "add", "eqt") else (0, 1))]
    for st in sts:
        v[0] = 100
        todo = []
        for n, (a, b, k) in enumerate(pairs):
            c = f(a) + "".join(f"~{k} {f(y)}" for y in b.split(";"))
            if conc:
                if n % len(sts) == sts.index(st): o.add(name, st, pre, [c, f(conc)], after, opts=opts)
            else: todo += [c] + after.split(";")
        k = per * (1 + after.count(";") + 1)
        for q in range(0, len(todo), k): o.add(name, st, [pre] + todo[q:q + k], [])
N_ST = ["dbl", "lin:2:90", "fix:300"]

OVER = [("fix:3", 3), ("lin:1:2", 4), ("lin:2:2", 8), ("dbl:1", 4), ("dbl:2", 12), ("fix:1", 1)]

# ------------------------------------------------------------------ systematic families
END = "len;isempty;itc;cvec;tovec"
ENDG = "len;isempty;itc;cvec;itref"          # with possible inner gaps

def c01(o):
    for st in STS:
        o.add("push2", st, "ext 1,2,3", ["push 11;push 12", "push 21;push 22"], END)
        o.add("push3", st, "ext 1,2", ["push 11;push 12", "push 21", "push 31;push 32"], END)
        o.add("pushcross", st, "ext 1..3", ["push 11", "push 21", "push 31"], END, opts="pb=3")
        o.add("mix", st, "ext 1,2", ["ext 11,12,13", "push 21;pushf 22"], END)
        o.add("mix2", st, "", ["extn 3,11,12,13", "extf 21,22,23;push 24", "pushf 31"], END)
        o.add("extcross", st, "ext 1,2,3", ["ext 11,12,13,14,15", "ext 21,22,23,24"], END)
        o.add("extfar", st, "push 1", ["ext 11..23", "push 41"], "len;itc")
        o.add("ext0", st, "ext", ["ext;push 11;extn 0", "push 21;ext;len"], END)
        o.add("three", st, "", ["push 11;extv 12,13", "exti 21,22;pushf 23", "extfi 31,32"], END, opts="dfs=6000")
        o.add("cp", st, "ext 1,2,3", ["push 11;ext 12,13", "push 21;extn 2,22,23"], END, el="cp")
    for st in ["dbl", "lin:3:64", "lin:1:32", "fix:600"]:
        o.add("big", st, ["ext 1..50" if st == "lin:1:32" else "ext 1..500", "push 1001", "pushf 1002"], [], "len;itc;tovec")
    for k in (1, 3, 4, 5, 11, 12, 13, 27, 28, 29, 60, 61):
        o.add("at", "dbl", f"ext 1..{k};push 1001", [], END)
        o.add("ext", "dbl", f"push 1;ext 2..{k + 1};push 1001", [], END)
        o.add("atl", "lin:2:32", f"ext 1..{k};push 1001;ext 1002,1003", [], END)
    for k in (3, 4, 11, 12):
        for th in (["push 101", "push 201", "push 301"], ["ext 101,102", "push 201;push 202"], ["pushf 101;extf 102,103", "extn 2,201,202"]):
            o.add("edge", "dbl", f"ext 1..{k}", th, END)
            o.add("edgel", "lin:2:8", f"ext 1..{k}", th, END)
            o.add("edgelow", "lin:1:16", f"ext 1..{k}", th, END)
    o.add("many", "dbl", "", ["push 101;push 102;push 103;push 104;push 105", "push 201;push 202;push 203;push 204;push 205", "ext 301,302,303;ext 304,305,306"], END, opts="dfs=3000 rand=3000")
    o.add("many", "lin:1:32", "", ["push 101;push 102;push 103;push 104;push 105", "ext 201,202,203;pushf 204;push 205", "extf 301,302,303;ext 304,305,306"], END, opts="dfs=3000 rand=3000")
    o.add("four", "dbl", "ext 1,2,3", ["push 101", "push 201", "push 301", "push 401"], END, opts="dfs=4000 rand=3000")
    o.add("five", "lin:1:16", "", ["push 101", "push 201", "push 301", "push 401", "ext 501,502"], END, opts="dfs=4000 rand=3000")

    nest(o, "nest", ["dbl", "lin:1:300"], N_GROW, I_GROW)
    for k in (2, 3, 4): nest(o, f"nestc{k}", ["dbl", "lin:1:300", "lin:2:90"], N_GROW, ["push {}", "ext {},{}"], f"ext 1..{k}", conc="push {}", opts="dfs=1500 rand=200")


def c02(o):
    for st in STS:
        o.add("batch", st, "ext 1,2,3", ["ext 11,12,13", "push 21;push 22;push 23"], END)
        o.add("batch2", st, "", ["ext 11,12,13,14,15", "extn 3,21,22,23"], END)
        o.add("clos", st, "ext 1,2", ["pushf 11;pushf 12", "extf 21,22,23"], END)
        o.add("clos3", st, "", ["pushf 11", "pushf 21;extf 22,23", "extf 31,32"], END)
        o.add("order", st, "", ["push 11;push 12;push 13", "pushf 21;ext 22,23;push 24"], END)
        o.add("orderx", st, "ext 1,2,3", ["extf 11,12;extf 13,14", "extv 21,22;extn 2,23,24"], END)
        o.add("ext0", st, "push 1;extf;ext;extv;extn 0;push 2;extf;pushf 3", [], END)
        o.add("recur", st, "pushr 1,2;push 3;pushr 4,5", [], END)
        o.add("recur2", st, "ext 1,2", ["pushr 11,12", "push 21;pushf 22"], ENDG, opts="dfs=4000")
        o.add("long", st, "ext 1..7;extf 8,9,10,11,12,13,14;pushf 15", [], END)
        o.add("three", st, "", ["ext 11,12,13", "ext 21,22,23", "ext 31,32,33"], END, opts="dfs=6000")
    for a, b in itertools.product((1, 3, 4, 5, 11), (1, 2, 9, 17, 30)):
        o.add("seq", "dbl", f"ext 1..{a};extf 101..{100 + b};pushf 901;extn {b},201..{200 + b};ext 301,302", [], END)
        o.add("seql", "lin:2:64", f"extf 1..{a};ext 101..{100 + b};pushf 901;extn {b + 2},201..{204 + b};extv 301,302", [], END)
    o.add("huge", "dbl", "extf 1..3000;pushf 5000;extf 6001..6100", [], "len;itc")
    # one batch whatever its size, against another growing thread
    for n in (17, 33, 65, 129, 260, 515, 1030, 2050, 4100):
        few = "dfs=4 rand=4" if n > 200 else "dfs=40 rand=40"
        for st in ("dbl", "lin:4:600", f"fix:{2 * n + 40}"):
            o.add("large", st, "ext 1,2,3", [("ext", "extn", "extf", "extv")[n % 4] + (f" {n},10001..{10000 + n}" if n % 4 == 1 else f" 10001..{10000 + n}"), "push 4;ext 5,6,7;pushf 8"], "len;itc", opts=few)
        o.add("larges", "dbl", f"push 1;ext 10001..{10000 + n};push 2;extf 20001..{20000 + n};extn {n},30001..{30000 + n};extv 40001..{40000 + n};push 3", [], "len;itc")

    nest(o, "nest", ["dbl", "lin:1:300"], N_GROW, I_GROW, after="len;cvec")
    for k in (2, 3, 4): nest(o, f"nestc{k}", ["dbl", "lin:1:300"], ["extf {},{}", "ext {},{}", "exti {},{}", "extni 2,{},{}", "extfi {},{}"], ["extf {},{}", "pushf {}"], f"ext 1..{k}", conc="pushf {}", opts="dfs=1500 rand=200")


def c03(o):
    for st in STS:
        o.add("len", st, "ext 1,2", ["push 11;push 12", "len;len;len"])
        o.add("len2", st, "ext 1,2,3", ["ext 11,12,13", "len;push 21;len"])
        o.add("len3", st, "", ["push 11", "push 21", "len;len;isempty"])
        o.add("empty", st, "", ["push 11", "isempty;len;isempty", "isempty"])
        o.add("read", st, "ext 1,2,3", ["getm 2;add 2,5", "len;getc 2;len"])
        o.add("read0", st, "push 1", ["getm 0;rep 0,7", "isempty;len"])
        o.add("readw", st, "ext 1,2,3", ["mapw 1,3", "len;isempty;len"])
        o.add("updw", st, "ext 1,2,3", ["updw 1,9,3", "len;isempty;len"])
        o.add("updw0", st, "ext 1,2,3", ["updw 0,9,4", "len;push 11;len;isempty"])
        o.add("pushw", st, "ext 1,2,3", ["pushw 11,3", "push 21;len;len"])
        o.add("extw", st, "ext 1,2,3", ["extw 3,11,12", "push 21;len;len"])
        o.add("gap", st, "ext 1,2;pushf!0 3;push 4;len;push 5;len;isempty", [], "len;itc")
        o.add("gap0", st, "pushf!0 3;push 4;len;push 5;len;isempty", [], "len;itc")
        o.add("gapc", st, "ext 1,2", ["ext!1 11,12,13;len", "push 21;len"], "len;itc")
        o.add("swap", st, "ext 1,2,3,4", ["swap 0,3;swap 1,2", "len;len;isempty"])
        o.add("fill", st, "ext 1,2,3,4", ["fill 9", "len;push 21;len"])
        o.add("mono", st, "", ["push 11;push 12;push 13", "len;len;len", "len;push 31;len"], opts="dfs=8000")
        o.add("seq", st, "len;isempty;push 1;len;isempty;ext 2,3,4,5;len;clear;len;isempty;push 6;len;resv 64;len;push 7;len", [], "len;rt;len;push 8;len;itc")
        o.add("slice", st, "ext 1,2,3;slice 1,0,1,3;asl 2;push 4;len:1;len:2;isempty:1;isempty:2;slice 3,0,1,1;len:3;isempty:3", [])
    for k in (3, 4, 11, 12, 27, 28):
        o.add("edge", "dbl", f"ext 1..{k}", ["push 101;len", "push 201;len"])
        o.add("edgel", "lin:2:16", f"ext 1..{k}", ["ext 101,102;len", "push 201;len", "len"])
    o.add("big", "dbl", "ext 1..2000;len;push 3001;len", ["push 3002;len", "len;push 3003"], "len")
    for st in ("fix:3", "lin:1:2", "dbl:1"):
        o.add("over", st, "ext 1,2;push 3;push 4;push 5;len;push 6;len;ext 7,8;len;isempty", [], "len;itc")
        o.add("overc", st, "ext 1,2", ["push 11;len", "push 21;len", "push 31;len"], "len;itc")

    nest(o, "nest", N_ST, N_FREE + N_HELD + N_ITER, ["len", "isempty", "len:1", "push {};len"])
    nest(o, "nestc", N_ST, N_GROW + N_HELD[:4], ["len", "isempty"], "ext 1,2", conc="push {}", opts="dfs=800 rand=100")


def c04(o):
    for st in STS:
        o.add("get", st, "ext 1,2", ["push 11", "getc 2;getc 1", "gcl 2;get 2"])
        o.add("get2", st, "ext 1,2,3", ["ext 11,12,13", "gcl 3;gcl 5;getc 3;gcl 4"])
        o.add("get3", st, "", ["push 11;push 12", "gcl 1;gcl 0;getm 0", "getc 1"])
        o.add("idx", st, "ext 1,2", ["push 11;push 12", "idx 2;idx 1;idx 3"])
        o.add("cp", st, "ext 1,2", ["ext 11,12,13", "gcp 2;gcp 4;getcp 3", "gcl 3"], el="cp")
        o.add("cp2", st, "ext 1,2,3", ["rep 1,7;push 11;set 3,8", "gcp 1;gcp 3;gcp 3"], el="cp")
        o.add("gap", st, "ext 1,2;pushf!0 3;push 4;gcl 2;gcl 3;getc 2;getc 3;get 3;idx 2;gcl 4;getm 3", [])
        o.add("gapc", st, "ext 1,2", ["ext!1 11,12,13", "gcl 2;gcl 3;gcl 4;getc 3"])
        o.add("out", st, "gcl 0;getc 0;get 0;idx 0;ext 1,2,3;gcl 3;gcl 4;gcl -1;getc 3;getc -1;get 3;idx 3;idx -1;gcl 1000;getc 1000000;getm 3", [])
        o.add("slice", st, "ext 1,2,3,4,5,6;slice 1,0,1,4;slice:1 2,0,1,3", ["gcl:1 0;gcl:1 2;gcl:1 3;get:1 -1", "getc:2 1;idx:2 2;idx:2 0", "rep 2,77"])
        o.add("slcp", st, "ext 1,2,3,4,5;slice 1,0,1,4", ["gcp:1 0;gcp:1 2;gcp:1 3", "getcp:1 1;set:1 1,9"], el="cp")
        if st in STS[:2]: torn(o, [f"{x}{w} {i}" for x in ("gcp", "gcl", "getcp", "getc", "idx") for w in ("", ":1") for i in (0, 1)], [st])
        o.add("emptysl", st, "ext 1,2,3;slice 1,0,1,1;get:1 0;gcl:1 0;idx:1 0", ["push 11"])
        o.add("after", st, "ext 1,2,3,4,5;clear;gcl 0;get 0;gcl 4;push 7;gcl 0;gcl 1;get 1;idx 0;idx 1", [])
        o.add("lock", st, "ext 1,2,3", ["mapw 1,4", "gcl 0;getc 2;get 1;gcl 3"])
        o.add("updlock", st, "ext 1,2,3", ["updw 1,9,4", "gcl 0;getc 2;get 1;gcl 3"])
    for k in (3, 4, 11, 12):
        o.add("edge", "dbl", f"ext 1..{k}", ["push 101;push 102", f"gcl {k};gcl {k + 1};getc {k}"])
        o.add("edgel", "lin:2:8", f"ext 1..{k}", ["ext 101,102", f"gcl {k + 1};getc {k};idx {k}"])
        o.add("far", "dbl", f"ext 1..{k}", ["ext 101..120", f"gcl {k + 9};gcl {k + 19};getc {k + 15}"], "len;itc", opts="dfs=1500 rand=500")
    for st in ("fix:3", "lin:1:2", "dbl:1"):
        o.add("over", st, "ext 1,2;push 3;push 4;push 5;gcl 2;gcl 3;gcl 4;gcl 5;get 4;idx 3", [])
        o.add("overc", st, "ext 1,2", ["push 11;push 12", "push 21;gcl 3", "gcl 4;gcl 2"])
    o.add("big", "dbl", "ext 1..3000;gcl 2999;gcl 3000;getc 2047;getc 2044;idx 1020;idx 3000;get 4091", [], "len")
    o.add("bigl", "lin:5:100", "ext 1..1000;gcl 999;gcl 1000;getc 31;getc 32;idx 992;idx 1000;get 1023", [], "len")

    nest(o, "nest", N_ST, N_FREE, ["gcl 3", "gcl 4", "getc 4", "get 4", "gcl 5", "idx 4", "idx 3", "push {};gcl 4;gcl 5;get 5"], "ext 1..4;slice 1,0,0,2", after="len")
    nest(o, "nestl", N_ST, N_HELD, ["gcl 2", "get 0", "get 4", "idx 3", "gcl -1"], after="len")


def c05(o):
    ops = ["getc 0", "getm 0", "rep 0,{}", "set 0,{}", "upd 0,{}", "add 0,{}"]
    n = 10
    for a, b in itertools.combinations_with_replacement(ops, 2):
        o.add("pair", "dbl", "ext 1,2", [a.format(11) + ";getc 0", b.format(21) + ";getc 0"])
        o.add("pairx", STS[n % 3], "push 1", [a.format(11) + ";" + b.format(12), b.format(21) + ";" + a.format(22)])
        n += 1
    for st in STS:
        o.add("add3", st, "push 1000", ["add 0,1;add 0,2", "add 0,10", "add 0,100"], opts="dfs=8000")
        o.add("rep3", st, "push 1", ["rep 0,11;rep 0,12", "rep 0,21", "rep 0,31;getc 0"], opts="dfs=8000")
        o.add("two", st, "ext 1,2", ["add 0,10;rep 1,11", "add 1,10;rep 0,21", "getm 0;getm 1"], opts="dfs=8000")
        o.add("new", st, "push 1", ["push 11", "add 1,5;rep 0,22", "rep 1,31;getc 1"], opts="dfs=8000")
        o.add("slice", st, "ext 1,2,3;slice 1,0,1,3", ["add:1 0,10;rep:1 1,11", "add 1,100;getc 2", "upd:1 0,50"], opts="dfs=8000")
        o.add("hold", st, "ext 1,2,3;hold 1,0;hold 2,1", ["hr 0,11;hc 1", "rep 1,21;hu 1,22", "ext 31,32;hm 0"], opts="dfs=8000")
        o.add("cp", st, "ext 1,2", ["add 0,10;getcp 0", "rep 0,21;getcp 0", "set 0,31"], el="cp", opts="dfs=8000")
        o.add("pan", st, "ext 1,2", ["getm!0 0;add!0 0,5", "rep 0,21;getc 0", "upda 0,31"], opts="dfs=8000")
        for x in ("getcp 0", "getc 0", "gcp 0", "gcl 0", "getm 0", "getcp 1;getcp 0"):
            o.add("cpu", st, "ext 1,2", ["upd 0,31;add 0,100", x + ";" + x], el="cp", opts="dfs=3000 rand=300")
            o.add("cpus", st, "ext 1,2,3;slice 1,0,0,2", ["upd 0,31;add:1 0,100", x.replace(" ", ":1 ") + ";" + x], el="cp", opts="dfs=1500 rand=200")
        for x in ("rep 0,{}", "set 0,{}", "upd 0,{}", "swap 0,1", "fill {}", "hold 0,0;hr 0,{}", "upda 0,{}"):
            o.add("cpw", st, "ext 1,2", ["add 0,100;upd 0,32", x.format(41) + ";" + x.format(42)], el="cp", opts="dfs=3000 rand=300")
        o.add("panc", st, "ext 1,2", ["getc!0 0;rep 0,11", "add 0,21;gcl!0 0", "getc 0"], opts="dfs=8000")
        o.add("dbg", st, "ext 1,2", ["dbge 0;eqt 0,1", "rep 0,21;set 0,1"])
        o.add("seq", st, "ext 1,2,3;getc 0;getcp 1;getm 2;rep 0,11;set 1,12;upd 2,13;add 0,5;getc 0;getc 1;getc 2;rep 3,9;set 3,9;upd 3,9;upda 1,14;getc 1;getm!0 1;upd!0 1,3;getc 1;hold 2,0;push 4;hr 0,20;hu 0,21;hm 0;hc 0", [])

    nest(o, "nest", N_ST[:2], N_HELD, I_ELEM, after="itc")
    nest(o, "nestf", N_ST[:1], N_FREE, ["getc 0", "rep 0,{}", "upd 1,{}", "add 3,10"], after="itc")


def descending(o, pairs, end="itc"):
    """storage whose later fragments lie at lower addresses: index order and address order of elements differ"""
    for st in ("dbl", "lin:2:7", "lin:1:14"):
        for k, th in enumerate(pairs): o.add(f"desc{k}", st, "ext 1..6;slice 1,0,2,4;slice 2,0,4,6;slice 3,0,3,6", list(th), end, opts="desc=1 dfs=4000 rand=300")

def c06(o):
    for st in STS:
        o.add("sw2", st, "ext 1,2", ["swap 0,1", "swap 1,0"])
        o.add("sw2b", st, "ext 1,2,3", ["swap 0,1;getc 0", "swap 1,2;getc 1"])
        o.add("sw3", st, "ext 1,2,3", ["swap 0,1", "swap 1,2", "swap 2,0"])
        o.add("swself", st, "ext 1,2", ["swap 0,0;swap 1,1", "rep 0,21;swap 0,1"])
        o.add("swup", st, "ext 1,2", ["swap 0,1;swap 0,1", "add 0,10;add 1,100", "getc 0;getc 1"], opts="dfs=6000")
        o.add("swpush", st, "ext 1,2", ["swap 1,2;swap 0,2", "push 21", "getc 2"], opts="dfs=6000")
        o.add("swrange", st, "ext 1,2,3;swap 0,3;swap 3,0;swap -1,0;swap 0,-1;swap 3,3;swap -1,-1;swap 2,2;swap 2,0;swap 1,2;swap 0,1", [])
        o.add("swsl", st, "ext 1..8;slice 1,0,2,6;swap:1 0,3;swap:1 0,4;swap:1 4,0;swap:1 4,4;swap:1 -1,0;swap:1 3,3;swap:1 2,1;slice:1 2,0,1,3;swap:2 0,1;swap:2 0,2;itc", [])
        o.add("swslc", st, "ext 1..6;slice 1,0,1,4;slice 2,0,2,6", ["swap:1 0,2;getc 1", "swap:2 0,3;getc 5", "swap 2,3"], opts="dfs=6000")
        o.add("swgap", st, "ext 1,2;pushf!0 3;push 4;swap 0,3;swap 2,3;swap 0,2;swap 0,1;swap 1,3;itref", [])
        o.add("swfar", st, "ext 1..14", ["swap 0,13;getc 13", "swap 13,0;getc 0", "swap 3,13"], opts="dfs=6000")
        o.add("swcp", st, "ext 1,2,3", ["swap 0,2;getcp 0", "rep 2,21;getcp 2", "swap 1,2"], el="cp", opts="dfs=6000")
        o.add("fill", st, "ext 1,2,3", ["fill 11", "itc", "rep 1,21;getc 1"], opts="dfs=6000")
        o.add("fillp", st, "ext 1,2", ["fill 11", "push 21;push 22", "len"], opts="dfs=6000")
        o.add("fill2", st, "ext 1,2", ["fill 11", "fill 21"])
        o.add("fillw", st, "ext 1,2,3", ["fillw 100", "push 21;itc"])
        o.add("fillwp", st, "ext 1,2", ["fillw 100;getc 0", "rep 0,21;swap 0,1"])
        o.add("fillsl", st, "ext 1..8;slice 1,0,2,6;fill:1 50;itc;fillw:1 100;itc;slice:1 2,0,1,3;fillw:2 200;itc;slice 3,0,3,3;fill:3 9;fillw:3 9;itc", [])
        o.add("fillslc", st, "ext 1..6;slice 1,0,1,4;slice 2,0,3,6", ["fill:1 50", "fillw:2 100", "itc"], opts="dfs=6000")
        o.add("fillseq", st, "fill 1;fillw 1;ext 1..5;fill 9;itc;fillw 10;itc;fill!0 11;itc;fill!2 12;itc;fillw!0 20;itc;fillw!3 30;itc;push 7;fillw 40;itc", [])
        o.add("fillgap", st, "ext 1,2;pushf!0 3;push 4;fill 9;fillw 20;itref", [])
    o.add("bigfill", "dbl", "ext 1..600;fillw 1000;swap 0,599;swap 511,512;fill 7;fillw 2000;swap 3,4;swap 11,12", [], "itc")
    o.add("bigfilll", "lin:3:100", "ext 1..100;fillw 1000;swap 0,99;swap 7,8;slice 1,0,10,90;fillw:1 3000;swap:1 0,79;swap:1 0,80", [], "itc")

    descending(o, [("swap 3,4", "swap 4,3"), ("swap 3,4", "eqe 3,4"), ("swap 4,3", "eqe 4,3"), ("swap 1,4", "swap 4,1", "swap 1,5"), ("swap:3 0,1", "swap 4,3", "eqe 4,3"),
        ("swap 0,5", "swap 5,0;getc 5", "add 0,1000"), ("swap 3,4;swap 4,5", "swap 5,3", "fill 9")])
    nest(o, "nest", N_ST[:2], ["fillw {}", "fillw:1 {}"], I_ALL + I_ELEM + I_GROW, after="itc", per=4)
    nest(o, "nestc", N_ST, ["fillw {}", "fillw:1 {}"], ["rep 0,{}", "swap 0,1", "push {}", "getc 0"], "ext 1,2,3;slice 1,0,0,2", conc="swap 0,1", opts="dfs=1500 rand=200")


def c07(o):
    descending(o, [(a, b) for a in ("swap 3,4", "swap 4,3", "eqe 3,4", "eqe 4,3") for b in ("swap 3,4", "swap 4,3", "eqe 3,4", "eqe 4,3") if a <= b] + [
        ("swap 1,4", "eqe 4,5", "swap 5,1"), ("swap:3 0,1", "eqe 4,3", "swap 3,4"), ("swap 3,4", "push 21;swap 4,3", "swap 4,6")])
    descending(o, [(a, b) for a in ("eqr:1 2", "eqr:2 1", "swap 4,2", "swap 2,4") for b in ("eqr:1 2", "eqr:2 1", "swap 2,4")])
    for st in STS:
        o.add("pushw", st, "ext 1,2", ["pushw 11,3", "push 21;push 22;len"])
        o.add("pushw4", st, "ext 1,2,3,4", ["pushw 11,3", "push 21;ext 22,23,24;len"])
        o.add("pushw12", st, "ext 1..12", ["pushw 101,3", "push 201;ext 202,203,204;len"])
        o.add("extw", st, "ext 1,2,3", ["extw 3,11,12,13", "push 21;push 22;len"])
        o.add("extw12", st, "ext 1..12", ["extw 3,101,102,103", "ext 201,202;pushf 203;getc 3"])
        o.add("mutualw", st, "ext 1..4", ["pushw 11,1", "push 21;pushf 22", "push 31"], ENDG)
        o.add("mapw", st, "ext 1,2,3,4", ["mapw 0,4", "push 21;len;getc 1;swap 1,2"])
        o.add("mapw2", st, "ext 1,2,3,4", ["mapw 3,4", "ext 21,22;rep 0,23;itopen 0;isempty"])
        o.add("updw", st, "ext 1,2,3", ["updw 0,9,4", "push 21;len;get 0;cap"])
        o.add("updw2", st, "ext 1,2,3", ["updw 1,9,4", "swap 0,2;split 0" if False else "swap 0,2;slice 4,0,0,3;gcl 0;len"])
        o.add("swdead", st, "ext 1,2", ["swap 0,1;swap 0,1", "swap 1,0;swap 1,0"])
        o.add("swdead3", st, "ext 1,2,3", ["swap 0,1", "swap 1,2", "swap 2,0"], opts="pb=3")
        o.add("swself", st, "ext 1,2;swap 0,0;swap 1,1", ["swap 1,1", "swap 0,1"])
        o.add("sweq", st, "ext 1,2", ["swap 0,1", "eqe 0,1;eqe 1,0"])
        o.add("eqdead", st, "ext 1,2", ["eqe 0,1;eqe 1,0", "eqe 1,0;eqe 0,1", "swap 1,0"], opts="dfs=6000")
        o.add("eqself", st, "ext 1,2;eqe 0,0", ["eqe 1,1", "eqe 0,0;rep 0,4"])
        o.add("pan", st, "ext 1..4", ["pushf!0 11", "push 21;push 22", "len"], "len;itc")
        o.add("panx", st, "ext 1..4", ["ext!0 11,12", "push 21;push 22", "extf!0 31,32"], "len;itc", opts="dfs=6000")
        o.add("pani", st, "ext 1..4", ["exti!0 11,12", "push 21;push 22", "extni!0 2,31,32"], "len;itc", opts="dfs=6000")
        o.add("pan12", st, "ext 1..12", ["pushf!0 101", "push 201;push 202"], "len;itc")
        o.add("recur", st, "ext 1,2,3;pushr 11,12;pushr 13,14", ["pushr 21,22", "push 31"], ENDG, opts="dfs=4000")
        o.add("panel", st, "ext 1,2", ["getm!0 0;getc 0", "add!0 0,5;rep 0,21", "upda 0,9"], opts="dfs=6000")
        o.add("growall", st, "ext 1,2,3", ["push 11;len;swap 0,1", "ext 21,22;eqe 0,1", "fill 9;len"], opts="dfs=6000")
    for st in ("fix:3", "lin:1:2", "dbl:1"):
        o.add("over", st, "ext 1,2", ["push 11;push 12", "push 21;push 22", "len"], "len;itc")
        o.add("overx", st, "ext 1", ["ext 11,12,13", "push 21", "push 31"], "len;itc")
    o.add("eqr", "dbl", "ext 1,1,1;asl 1;slice 2,0,0,2;slice 3,0,1,3", ["eqr:1 0;eqr:2 3", "eqr:3 2;swap 0,1", "swap 2,0"], opts="dfs=6000")
    o.add("eqrr", "dbl", "ext 1,1;asl 1", ["eqr 0", "eqr:1 0;eqr 1", "rep 0,5"], opts="dfs=6000")
    o.add("many", "dbl", "ext 1,2,3", ["push 11;swap 0,2;add 1,5;push 12", "ext 21,22;swap 2,0;fill 7", "len;itc;swap 1,0;eqe 2,1"], opts="dfs=2000 rand=4000")
    o.add("many", "lin:1:64", "ext 1,2,3", ["push 11;push 12;push 13;swap 0,1", "push 21;ext 22,23,24", "swap 1,0;push 31;itc"], opts="dfs=2000 rand=4000")
    o.add("five", "dbl", "ext 1,2,3", ["swap 0,1", "swap 1,2", "swap 2,0", "push 41", "eqe 2,0"], opts="dfs=2000 rand=4000")


    nest(o, "nestf", N_ST[:2], N_FREE, I_LEN + I_GROW + I_ELEM + I_ALL + I_CUT + I_RAW, after="len")
    nest(o, "nesth", N_ST[:2], N_HELD + N_ITER, I_LEN + I_GROW + I_ELEM + I_RAWO + I_CUT[:4], after="len")
    for k in (3, 4): nest(o, f"nestc{k}", N_ST, N_GROW, ["push {}", "ext {},{}", "len", "swap 0,1", "itc"], f"ext 1..{k}", conc="push {}", opts="dfs=600 rand=100")
    nest(o, "nesthc", N_ST, ["getm 0", "upd 0,{}", "eqe 0,1"], ["push {}", "len", "getc 2", "swap 2,3"], "ext 1..4", conc="swap 0,1", opts="dfs=1500 rand=200")

def c08(o):
    for st, m in OVER:
        pre = f"ext 1..{m - 1};" if m > 1 else ""
        full = f"ext 1..{m};"
        for end in ("len;itc;tovec", "len;into", "clear;len;push 91;itc;maxcap", "intoit 1", "intoit 0", "drop", "itcl;itref;cvec", f"resv {m + 4};len;push 91;itc;cap;maxcap", "rt;push 92;len"):
            o.add("o", st, f"{full}push 101;{'maxcap;cap'}", [], end)
            o.add("p", st, f"{pre}push 100;push 101;pushf 102;ext 103,104;len", [], end)
            o.add("q", st, f"{pre}ext 103,104,105;push 106;len", [], end)
        o.add("exact", st, f"{full}cap;maxcap;len;gcl {m - 1};gcl {m}", [], "tovec")
        o.add("zero", st, f"{full}ext;extn 0;extv;len;push 101;ext;len", [], "tovec")
        o.add("each", st, f"{full}pushf 101;extf 102,103;extv 104;extn 2,105,106;len;cap;itc", [], "tovec")
        o.add("conc", st, pre, ["push 101;push 102", "push 201;len", "pushf 301"], "len;itc;tovec")
        o.add("concx", st, pre, ["ext 101,102", "push 201;gcl 0", "len;cap"], "len;itc;into")
        o.add("concy", st, pre, ["ext 101,102;len", "ext 201,202,203;len"], "len;itc;clear;push 1;itc")
        o.add("grow", st, "", ["cap;push 101;cap", "ext 201,202;cap;maxcap"], "cap;len;itc;tovec")
        o.add("raw", st, f"{full}push 101;raw {m - 1};raw {m};raw {m + 1};ref {m};ref {m - 1};itref;itmutn;mutg {m};idx {m};swap 0,{m};slice 1,0,0,{m + 3};asl 2;chk 2;spat 1,2,{m};spl 3;fill 7;itc", [], "tovec")
        o.add("again", st, f"{full}push 101;clear;ext 1..{m};push 102;clear;push 103;len;cap;maxcap", [], "tovec")
        o.add("cp", st, f"{full}push 101;ext 102,103;itc", [], "tovec", el="cp")
    for st in ("dbl", "lin:2:8", "fix:40"):
        o.add("cap", st, "cap;maxcap;push 1;cap;ext 2..5;cap;ext 6..30;cap;maxcap;len", [], "cap;itc")
        o.add("capc", st, "ext 1,2,3", ["push 11;cap;push 12;cap", "cap;ext 21..30;cap", "cap;cap"], "cap;len")
    # batches that can never fit, up to usize::MAX: nothing is lost or overwritten afterwards
    for st, m in OVER + [("dbl", 0), ("lin:2:8", 0), ("fix:16", 0)]:
        k = min(m, 3) if m else 3
        for x in ("extn -1,101,102", "extfl -1,101,102", "extlie -1,101,102", "extn 999999999", "extlie 536870911,101"):
            if st == "dbl" and "-1" not in x: continue          # would fit
            o.add("never", st, f"ext 1..{k};len;cap;{x};len;itc;push 91;len;itc;{x};push 92;ext 93,94;pushf 95;len;itc;gcl {k}", [], "len;itc;clear;push 96;itc" if m else "tovec")
        for x in ("extn -1,101,102", "extfl -1,101,102", "extlie -1,101,102") if st in ("dbl", "lin:1:2", "fix:16") else ():
            o.add("neverc", st, f"ext 1..{k - 1}" if k > 1 else "", [x + ";push 11", "push 21;push 22", "len;gcl 0"], "len;itc;push 91;itc")
    o.add("lin0", "lin:1:1", "push 1;cap;push 2;cap;push 3;cap;push 4;len", [], "tovec")
    o.add("n", "fix:8", "ext 1..6;extn 3,7,8,9;push 10;len", [], "tovec")
    o.add("huge", "fix:1000", "ext 1..999;ext 1001,1002;push 1003;len", [], "tovec")
    o.add("huge", "lin:4:50", "ext 1..799;push 800;push 801;len;cap", [], "tovec")

    for st, m in OVER:
        if m >= 4: nest(o, "nest", [st], N_GROW, ["push {}", "ext {},{}", "len", "itc"], f"ext 1..{m - 2};slice 1,0,0,2", per=1, after="len;cap;itc")


def c09(o):
    for st in STS:
        o.add("pin", st, "ext 1,2,3;ref 0;ref 2;raw 1", ["ext 11..20", "push 21;reref;raw 1"], "reref;ref 0;raw 1;raw 5;itref")
        o.add("view", st, "ext 1,2", ["getm 1;getc 0", "raw 0;raw 1;rawm 1;mutg 0"])
        o.add("view2", st, "ext 1,2,3", ["getm 1;getc 0;getm 2", "itref;itmutn"])
        o.add("view3", st, "ext 1,2,3", ["getc 0;getm 1", "ref 0;ref 1;ref 2", "len"])
        o.add("viewu", st, "ext 1,2", ["rep 1,7;add 0,5", "raw 0;rawm 1;itmutn;raw 2"])
        o.add("push", st, "ext 1,2,3", ["push 11;push 12", "ref 3;ref 4;itref", "raw 3;rawm 4"], opts="dfs=6000")
        o.add("pushi", st, "", ["push 11;ext 12,13", "itref;itref", "itmutn;ref 1"], opts="dfs=6000")
        o.add("gap", st, "ext 1,2;pushf!0 3;push 4;ref 2;ref 3;raw 2;raw 3;itref;itmutn;itmut 10;mutg 2;rawm 3", [], "itref")
        o.add("gapc", st, "ext 1,2", ["ext!1 11,12,13", "itref;ref 3;raw 2"], "itref")
        o.add("slice", st, "ext 1..8;slice 1,0,2,6;slice:1 2,0,1,3;ref:1 0;ref:1 3;ref:1 4;ref:2 0;ref:2 2;raw:1 0;raw:1 4;rawm:2 1;rawm:2 2;itref:1;itref:2;itmut:1 100;itmut:2 1000;mutset:1 3,7;mutset:1 4,7;mutset:2 0,8;rawmset:2 1,9;rawmset:1 -1,3;rawv:1 0;rawv 3;itref;itmutn:1;itmutn:2", [])
        o.add("slicec", st, "ext 1..6;slice 1,0,1,5", ["push 21;push 22;getm 2", "itref:1;ref:1 3;raw:1 4;raw:1 0"])
        o.add("out", st, "raw 0;rawm 0;ref 0;mutg 0;itref;itmutn;ext 1,2,3;raw 3;rawm 3;ref 3;mutset 3,5;rawmset 3,5;raw -1;ref -1;rawv 4;rawv 2;ref 2;mutset 2,5;rawmset 1,6;itmut 10;itref", [])
        o.add("cp", st, "ext 1,2,3", ["ext 11,12,13", "rawv 2;ref 3;itref;rawv 4"], el="cp")
        o.add("after", st, "ext 1,2,3;clear;raw 0;ref 2;itref;push 4;ref 0;raw 1;itref;resv 40;ref 0;itref", [])
        o.add("lockw", st, "ext 1,2,3", ["mapw 1,4", "raw 0;ref 2;rawm 3;mutg 0"])
    for k in (3, 4, 11, 12):
        o.add("edge", "dbl", f"ext 1..{k};ref 0;ref {k - 1}", [f"push 101;reref;ref {k}", "ext 201..210;reref"], "reref;itref")
        o.add("edgel", "lin:2:8", f"ext 1..{k};ref 0;ref {k - 1}", [f"push 101;reref;ref {k}", "ext 201,202;reref"], "reref;itref")
    for st in ("fix:3", "lin:1:2", "dbl:1"):
        o.add("over", st, "ext 1,2;push 3;push 4;push 5;raw 2;raw 3;raw 4;raw 5;ref 4;itref;itmutn;itmut 10", [], "itref")
        o.add("overc", st, "ext 1,2", ["push 11;push 12", "push 21;itref", "raw 4;ref 3;itmutn"])
    o.add("pinbig", "dbl", "ext 1..10;ref 0;ref 9;raw 4;ext 11..3000;reref;raw 4;ref 2000;ext 3001..4000;reref", [], "reref")
    o.add("pinbigl", "lin:3:200", "ext 1..10;ref 0;ref 9;raw 4;ext 11..1000;reref;raw 4;ref 900;push 1001;reref", [], "reref")

    nest(o, "nest", N_ST[:2], N_FREE, I_RAW, after="len")
    nest(o, "nesth", N_ST[:2], N_HELD + N_ITER, I_RAWO + ["push {};raw 4;ref 4"], after="len")


def c10(o):
    ends = ("", "clear;live", "tovec", "into", "intoit 0", "intoit 1", "intoit 3", "intoit -1", "rt;live", "rt;clear;live", "fill 90;live", "fillw 90;live", "clear;clear;live;push 80;live", "resv 100;live;clear;live", "resv 100;live;tovec", "rt;rt;intoit 2", "cvec;live;clone;live".replace("clone", "clonev"))
    for st in ("dbl", "lin:2:16", "fix:13", "lin:1:8"):
        for n in (0, 1, 3, 4, 5, 12, 13):
            s = [f"ext 1..{n}"] if n else []
            for e in ends:
                o.add("e", st, s + ["live"], [], e)
    for st, m in OVER:
        for e in ends[:9] + ("resv 20;live;clear;live", "resv 20;push 80;live;tovec"):
            o.add("over", st, f"ext 1..{m};push 101;live;ext 102,103;live;pushf 104;extf 105,106;live", [], e)
            if m > 1: o.add("overp", st, f"ext 1..{m - 1};ext 101,102,103;live;push 104;live", [], e)
    for st in STS:
        o.add("els", st, "ext 1..5;rep 0,11;live;set 1,12;live;upd 2,13;add 3,5;live;swap 0,4;live;rep 9,99;set 9,99;live;swap 1,1;live;getc 0;gcl 1;live;itc;itcl;cvec;red;live;idxof 4;cont 77;eqt 0,4;live", [], "tovec")
        o.add("pan", st, "ext 1..4;getm!0 0;upd!0 1,9;upda 2,8;getc!0 3;fill!1 50;fillw!2 60;live;red!1;red!2;itcl!2;cvec!1;live;idxof!1 3;live", [], "tovec")
        o.add("pang", st, "ext 1,2;pushf!0 3;live;ext!0 4,5;live;ext!1 6,7,8;live;extn!2 3,9,10,11;live;extf!0 12,13;extf!2 14,15,16;live;exti!0 18,19;exti!2 20,21;exti!3 22,23;extni!0 2,24,25;extfi!1 26,27;extfi!3 28,29;live;push 17;live", [], "clear;live;push 18;live;tovec")
        o.add("pang2", st, "ext 1,2;ext!1 6,7,8;push 9;live", [], "")
        o.add("pang3", st, "ext!1 6,7,8;push 9;live", [], "clear;live;ext 1,2,3,4,5,6,7,8;tovec")
        o.add("pang4", st, "ext 1,2;ext!1 6,7,8;push 9;live", [], "resv 100;live;drop;live")
        o.add("short", st, "ext 1,2;extn 3,6,7;live;push 8;extlie 3,9,10;live;extlie 2,11,12,13,14;live;extfl 2,15,16,17;live;extfl 3,18,19;live;extn 2,20,21,22;live", [], "clear;live")
        o.add("c1", st, "ext 1,2,3", ["rep 0,11;set 1,12", "rep 0,21;upd 1,22", "swap 0,1"], "live;tovec", opts="dfs=6000")
        o.add("c2", st, "ext 1,2,3", ["push 11;fill 50", "ext 21,22;set 0,23"], "live;intoit 2")
        o.add("c3", st, "ext 1,2,3", ["gcl 3;getc 0;itcl", "push 21;rep 0,22;set 3,23"], "live")
        o.add("c4", st, "ext 1,2,3", ["ext!1 11,12,13", "push 21;pushf!0 22", "fill!1 31"], "live;clear;live", opts="dfs=6000")
    # every call that replaces, drops or hands out values, each followed by a count of all values alive
    each = ["rep{} 0,{}", "rep{} 1,{}", "rep{} 9,{}", "set{} 0,{}", "set{} 1,{}", "set{} 9,{}", "upd{} 0,{}", "upd{} 9,{}", "add{} 1,{}", "fill{} {}", "fillw{} {}", "swap{} 0,1", "swap{} 1,1", "swap{} 0,9", "getc{} 0", "gcl{} 1",
            "getm{} 0", "itc{}", "itcl{}", "itm{}", "map{}", "fold{}", "filt{}", "red{}", "cvec{}", "dbg{}", "idxof{} {}", "cont{} {}", "eqt{} 0,{}", "eqe{} 0,1", "eqsl{} 1,2,3", "eqar{} 1,2,3", "eqv{} 0,1,2,3", "eqr{} 0",
            "chk{} 2", "spf{} 9", "spl{} 9", "spat{} 9,10,1", "raw{} 0", "itref{}", "rawmset{} 0,{}", "mutset{} 1,{}", "itmut{} 1000", "icopen{} 0;itnext 0;live;itnext 0", "imopen{} 0;itnext 0", "chkopen{} 0,2;chknext 0,11;itc:11"]
    for st in STS:
        for w in ("", ":1", ":2"):
            s, v = ["ext 1..7", "asl 1", "slice:1 2,0,2,6"], 1000
            for x in each:
                v += 50
                s += [x.format(w, v) if x.count("{}") > 1 else x.format(w), "live"]
            for q in range(3, len(s), 48): o.add("each", st, s[:3] + s[q:q + 48], [], "live;tovec")
    for st in ("fix:2", "lin:1:2", "dbl:1"):
        m = 2 if st == "fix:2" else 4
        for x in ("push 91", "pushf 91", "exti 91,92", "extni 2,91,92", "extfi 91,92", "exti!0 91,92", "extni!0 2,91,92", "extfi!3 91,92", "ext 91,92", "extv 91,92,93", "extn 2,91,92", "extf 91,92", "pushf!0 91", "ext!0 91,92", "extn 3,91,92"):
            o.add("eacho", st, f"ext 1..{m};live;{x};live;{x};live;rep 0,77;live;getc 0;live", [], "live;clear;live;push 1;live")
    for h in (0, 1, 3, 4, 5, 6, 7, 8, 101, 108, 111, 129, 191):
        for n in (1, 2, 5, 13):
            o.add("coll", "dbl", [f"coll {h},1..{n}", "live", "push 91", "live"], [], "clear;live")
    for st in ("dbl", "lin:2:16", "fix:13", "lin:1:16"):
        for n in (0, 1, 5, 13):
            for d in range(8):
                for m in (1, 3, 12) if d < 4 else (2,): o.add("intoa", st, ([f"ext 1..{n}"] if n else []) + ["live"], [], f"intoa {d},{m};live")
    for n in (60, 61, 200):
        o.add("big", "dbl", f"ext 1..{n};live", [], "clear;live;ext 1..9;live")
        o.add("bigi", "dbl", f"ext 1..{n};live", [], f"intoit {n - 2}")

    nest(o, "nest", N_ST[:1], N_FREE + N_HELD[:6], I_GROW[:4] + I_ELEM, after="live", per=14)
    nest(o, "nestp", N_ST[:2], ["pushf!0 {}", "ext!1 {},{}", "upd!0 0,{}", "fillw!1 {}", "itcl!1", "cvec!1"], ["push {}", "rep 3,{}", "ext {},{}"], after="live", per=6)


def c11(o):
    idx = ("0", "1", "3", "5", "6", "9", "-1")
    for st in ("dbl", "lin:1:16", "fix:16"):
        s, k = ["ext 1..5"], 0
        for f in range(8):
            for a, b in itertools.product(idx, idx):
                if f == 2 and a != "0" or f == 4 and (a, b) != ("0", "0") or f == 5 and a != "0" or f in (3, 7) and b != "0": continue
                s += [f"slice 1,{f},{a},{b}", "itc:1"]
                k += 1
                if k % 24 == 0: o.add("rng", st, s); s = ["ext 1..5"]
        o.add("rng", st, s)
        s = ["ext 1..9", "slice 1,0,2,8"]
        for f in range(8):
            for a, b in itertools.product(("0", "2", "6", "7"), ("0", "4", "6", "8")): s += [f"slice:1 2,{f},{a},{b}", "itc:2"]
        o.add("nest", st, s[:90]); o.add("nest", st, ["ext 1..9", "slice 1,0,2,8"] + s[90:])
        o.add("max", st, "ext 1..5;slice 1,0,0,-1;itc:1;slice 1,0,-1,-1;itc:1;slice 1,3,-1,0;itc:1;slice 1,2,0,-1;itc:1;slice:1 2,0,1,-1;itc:2;slice 1,0,4,2;itc:1;spat 1,2,-1", [])
        o.add("split", st, "spat 1,2,0;itc:1;itc:2;spat 1,2,1;spf 3;spl 4;chk 1;ext 1..5;spat 1,2,0;itc:1;itc:2;spat 1,2,2;itc:1;itc:2;spat 1,2,5;itc:1;itc:2;spat 1,2,6;spf 3;itc:3;spl 4;itc:4;spat:3 5,6,2;itc:5;itc:6;spat:3 5,6,4;spat:3 5,6,5;spf:3 7;itc:7;spl:3 8;itc:8;spf:8 9;spl:9 10;itc:10;spf:10 11;itc:11;spl:10 12;itc:12", [])
        o.add("split1", st, "push 1;spf 1;itc:1;spl 2;itc:2;spf:1 3;spl:1 3;spf:2 3;spl:2 3;spat:1 4,5,0;spat:1 4,5,1;chk:1 2;chk 1;chk 2", [])
        for n in (0, 1, 2, 3, 4, 5, 6, 12, 13):
            o.add("chk", st, ([f"ext 1..{n}"] if n else []) + [f"chk {k}" for k in (1, 2, 3, 4, 5, 7, 12, 13, 100)] + ["chk 0", "asl 1"] + [f"chk:1 {k}" for k in (1, 2, 3, 5, 100, 0)] + (["slice 2,0,1,5", "chk:2 2", "chk:2 3", "chk:2 4", "chk:2 5"] if n > 5 else []))
        o.add("grow", st, "ext 1,2,3;slice 1,0,1,3;asl 2;spat 3,4,1;slice 5,0,3,9", ["push 11;push 12;itc:1;len:2", "itc:2;itc:4;gcl:1 2;len:5"])
        o.add("growc", st, "ext 1,2", ["push 11;ext 12,13", "asl 1;itc:1;len:1", "slice 2,0,1,9;itc:2"], opts="dfs=6000")
        o.add("growd", st, "ext 1,2,3", ["push 11;push 12", "spat 1,2,1;itc:2;itc:1", "chk 2"], opts="dfs=6000")
        o.add("growe", st, "ext 1,2,3", ["push 11;ext 12,13", "spl 1;itc:1", "spf 2;itc:2"], opts="dfs=6000")
        o.add("growf", st, "", ["push 11;push 12", "spl 1", "spf 2", "chk 1"], opts="dfs=6000")
        o.add("upd", st, "ext 1..6;slice 1,0,1,5;slice:1 2,0,1,3", ["rep:2 0,21;getc 2", "add:1 1,100;getc:2 0", "rep 2,31"], opts="dfs=6000")
        o.add("hold", st, "ext 1..6;slice 1,0,2,5;hold:1 1,0;rep 3,44;hc 0;hr 0,45;getc 3;getc:1 1;hold:1 3,0;hc 0", [])
        o.add("same", st, "ext 1..9;slice 1,0,3,8;slice:1 2,0,1,4;slice:2 3,0,1,2;getc:3 0;rep:3 0,77;getc 5;getc:1 2;getc:2 1;idx:3 1;ref:3 0;itref:3;idxof:2 77;cont:3 77;map:2;fold:2;filt:2;red:2;cvec:2;dbg:2;itcl:2;itm:2", [])
        # chunks consumed while the vector grows
        for n, q in ((3, 2), (4, 2), (5, 3), (6, 4), (2, 5), (12, 5), (3, 1)):
            o.add("chkl", st, f"ext 1..{n};chkopen 0,{q};" + ";".join("chknext 0,1;itc:1;len:1;push %d" % (50 + i) for i in range(n // q + 2)) + f";ext 61,62;asl 2;chkopen:2 1,{q};push 70;" + ";".join("chknext 1,3;itc:3" for i in range(4)), [])
            if n < 7: o.add("chkc", st, f"ext 1..{n}", [f"chkopen 0,{q};chknext 0,1;itc:1;chknext 0,1;itc:1;chknext 0,1", "push 11;ext 12,13"], opts="dfs=1500 rand=300")
        o.add("chke", st, "chkopen 0,2;chknext 0,1;push 1;chknext 0,1;chkopen 1,0;chknext 1,2;chkopen 2,-1;push 2;chknext 2,3;itc:3;chknext 2,3;slice 4,0,1,2;chkopen:4 3,7;chknext 3,5;itc:5;chknext 3,5;slice 4,0,2,2;chkopen:4 3,1;chknext 3,5", [])
        o.add("gap", st, "ext 1,2;pushf!0 3;push 4;asl 1;itc:1;slice 2,0,0,9;len:2;spat 3,4,2;spat 3,4,3;spl 5;itc:5;chk 2;slice 6,3,1,0;itc:6", [])
    for n in (28, 60, 100):
        o.add("big", "dbl", f"ext 1..{n};slice 1,0,3,{n - 1};itc:1;slice:1 2,0,9,{n - 20};itc:2;chk 7;chk:1 11;spat 3,4,12;itc:4;spat:1 5,6,9;itc:5;itc:6", [])
    o.add("huge", "dbl", "ext 1..2100;slice 1,0,4,2050;spat:1 2,3,1016;itc:3;chk:1 500;spl:1 4;len:4", [])

    nest(o, "nest", N_ST, N_GROW, ["asl 2;itc:2", "slice 2,0,1,9;len:2;itc:2", "slice 2,3,1,0;itc:2", "spat 2,3,1;itc:2;itc:3", "spat 2,3,4;len:3", "spat 2,3,5", "spf 2;itc:2", "spl 2;itc:2", "chk 2", "slice 2,5,0,-1;len:2", "slice 2,1,3,7;itc:2"], after="len", per=8)


SHORT = ("itc", "itm", "itcl", "map", "fold", "filt", "red", "cvec", "dbg")
def c12(o):
    # exactly one callback for every element of the window and none for others
    for st in STS:
        for x in ("itc", "itm", "itcl", "map", "fold", "filt", "cvec", "dbg", "idxof{} 99", "cont{} 99", "eqsl{} 5,6,7", "eqar{} 5,6,7", "eqv{} 0,5,6,7"):
            f = lambda q: x.format(q) if "{}" in x else x + q
            if st != "dbl" and x.startswith("eq"): continue
            o.add("once", st, "ext 1..8;slice 1,0,4,7;" + ";".join(f(f":1!{k}") for k in range(6)) + ";" + f(":1"), [])
            if st == "dbl" or not x.startswith("eq"): o.add("oncev", st, "ext 5,6,7;" + ";".join(f(f"!{k}") for k in range(6)) + ";" + f(""), [])
    for k in range(6): o.add("onceclone", "dbl", f"ext 5,6,7;clonev!{k};clonev;itc", [])
    for st in STS + ["lin:1:8"]:
        for n in (0, 1, 2, 4, 5, 12, 13):
            s = [f"ext 1..{n}"] if n else []
            o.add("seq", st, s + list(SHORT) + ["clonev", "asl 1"] + [x + ":1" for x in SHORT])
        o.add("sl", st, "ext 1..13;slice 1,0,2,11;slice:1 2,0,1,4;slice 3,0,5,5;" + ";".join(f"{x}:{k}" for x in SHORT for k in (1, 2, 3)), [])
        o.add("open", st, "ext 1,2,3;itopen 0;itnext 0;push 4;itnext 0;rep 2,9;itnext 0;itnext 0;itnext 0;asl 1;itopen:1 1;itnext 1;itnext 1;push 5;rep 2,10;itnext 1;itnext 1;itnext 1", [])
        for y in ("icopen", "imopen"):
            o.add("lazy", st, f"ext 1,2,3;{y} 0;itnext 0;push 4;rep 1,8;itnext 0;rep 2,9;itnext 0;itnext 0;itnext 0;asl 1;{y}:1 1;itnext 1;itnext 1;push 5;rep 2,10;itnext 1;itnext 1;itnext 1;slice 2,0,1,3;{y}:2 2;push 6;rep 1,7;itnext 2;swap 2,3;itnext 2;itnext 2", [])
            o.add("lazyc", st, "ext 1,2", ["push 11;rep 1,7;push 12", f"{y} 0;itnext 0;itnext 0;itnext 0;itnext 0"], opts="dfs=4000")
            o.add("lazysl", st, "ext 1,2,3;slice 1,0,1,3", ["push 11;rep 2,12;swap 1,2", f"{y}:1 0;itnext 0;itnext 0;itnext 0"], opts="dfs=4000")
            o.add("lazyp", st, f"ext 1,2,3;{y} 0;itnext!0 0;itnext 0;itnext 0;itnext 0;itnext!0 0;rep 0,5;len", [])
        o.add("gap", st, "ext 1,2;pushf!0 3;push 4;" + ";".join(SHORT) + ";clonev;asl 1;" + ";".join(x + ":1" for x in SHORT), [])
        o.add("gap0", st, "pushf!0 3;push 4;" + ";".join(SHORT) + ";clonev;red", [])
    # iterators consumed by adaptors, overridden or not
    for st in STS:
        for n in (0, 1, 4, 5, 13):
            a = [f"ita{w} {k},{d},{m}" for w in ("", ":1", ":2") for k in range(3) for d in range(8) for m in ((1, 2, 3) if d < 4 else (2,) if d == 7 else (0,))]
            if n == 13: a = [x for x in a if x[-1] in "03"] + [f"ita{w} {k},{d},{m}" for w in ("", ":2") for k in range(3) for d in range(4) for m in (5, 12, 20)]
            for q in range(0, len(a), 60): o.add("ada", st, ([f"ext 1..{n}"] if n else []) + ["asl 1", "slice 2,0,1,4"] + a[q:q + 60], [])
        o.add("adagap", st, "ext 1,2;pushf!0 3;push 4;asl 1;" + ";".join(f"ita{w} {k},{d},1" for w in ("", ":1") for k in range(3) for d in range(8)), [])
    for k in range(3):
        for d in range(8):
            st = STS[(k + d) % 3]
            o.add("adac", st, "ext 1,2", ["push 11;rep 1,12", f"ita {k},{d},1"], opts="dfs=1500 rand=100")
            o.add("adas", st, "ext 1,2,3,4;slice 1,0,1,4", ["rep 3,11;push 12", f"ita:1 {k},{d},{1 + d % 2}"], opts="dfs=800 rand=100")
    for i, x in enumerate(SHORT + ("clonev",)):
        for st in ("dbl", STS[1 + i % 2]):
            if x == "clonev" and st != "dbl": continue
            o.add("grow", st, "ext 1,2,3", ["push 11;push 12", f"{x};{x}"])
            o.add("upd", st, "ext 1,2,4", ["rep 0,11;rep 2,12;rep 1,13", x])
            if x != "clonev": o.add("sl", st, "ext 1,2,3,4;slice 1,0,1,4", ["rep 1,11;swap 2,3;push 12", x + ":1"])
            o.add("both", st, "ext 1,2", ["ext 11,12,13;add 1,10", x, "push 31"], opts="dfs=5000")
    for st in STS:
        o.add("openc", st, "ext 1,2", ["push 11;push 12", "itopen 0;itnext 0;itnext 0;itnext 0;itnext 0"], opts="dfs=5000")
        o.add("opensl", st, "ext 1,2,3;slice 1,0,1,3", ["push 11;rep 2,12", "itopen:1 0;itnext 0;itnext 0;itnext 0"], opts="dfs=5000")
        o.add("cp", st, "ext 1,2", ["ext 11,12;rep 0,13", "itcl;fold"], el="cp")
    torn(o, [x + w for x in SHORT for w in ("", ":1")] + ["clonev"])
    for k in (3, 4, 11, 12):
        o.add("edge", "dbl", f"ext 1..{k}", ["push 101;ext 102,103", "itc;map"], opts="dfs=4000")
        o.add("edgel", "lin:2:8", f"ext 1..{k}", ["push 101;ext 102,103", "cvec;fold"], opts="dfs=4000")
    o.add("big", "dbl", "ext 1..700;fold;itcl;cvec;slice 1,0,11,650;map:1;fold:1", [])
    o.add("bigl", "lin:3:100", "ext 1..300;fold;itcl;cvec;clonev;slice 1,0,7,250;map:1;fold:1;dbg:1", [])
    o.add("lockw", "dbl", "ext 1,2,3,4;slice 1,0,0,2;slice 2,0,3,4", ["mapw 2,4", "itc:1;fold:2;itcl:1;red:2"])

    nest(o, "nest", N_ST, N_ITER, I_LEN + I_GROW + I_ELEM, after="len")
    nest(o, "nestv", N_ST, ["itc", "itm", "itcl", "map", "fold", "filt", "cvec", "dbg", "red", "ita 2,6,0", "ita 1,3,1"], ["len", "push {}", "ext {},{}", "pushf!0 {}"], after="len", per=6)
    nest(o, "nestf", N_ST, N_GROW, ["itc", "fold", "cvec", "red", "filt", "itcl", "itm", "map", "dbg", "ita 0,1,2", "ita 0,5,0"], after="len")


def c13(o):
    descending(o, [("eqe 3,4", "eqe 4,3", "rep 4,4"), ("eqe 3,4", "swap 4,3"), ("eqr:1 2", "eqr:2 1", "swap 2,4;swap 5,3"), ("eqe 4,3", "swap 3,4;swap 4,3")])
    for st in STS + ["lin:1:16"]:
        o.add("find", st, "idxof 1;cont 1;ext 1,2,1,3,2,777777;idxof 1;idxof 2;idxof 3;idxof 4;idxof 777777;cont 1;cont 9;cont 777777;asl 1;idxof:1 3;cont:1 9;slice 2,0,1,4;idxof:2 1;idxof:2 2;idxof:2 777777;cont:2 3;slice 3,0,2,2;idxof:3 1;cont:3 1;push 9;idxof 9;idxof:1 9;cont 9;cont:1 9", [])
        o.add("elem", st, "ext 1,2,1,777777;eqe 0,0;eqe 0,1;eqe 0,2;eqe 2,0;eqe 3,3;eqe 1,3;eqe 0,4;eqt 0,1;eqt 0,2;eqt 3,777777;eqt 4,1", [])
        o.add("elemc", st, "ext 1,2", ["eqe 0,1;eqe 1,0", "rep 0,2;rep 1,1"])
        o.add("elemd", st, "ext 1,1", ["eqe 0,1;eqe 0,0", "add 0,1;add 1,1", "set 0,1"], opts="dfs=6000")
        o.add("tok", st, "ext 5,5", ["eqt 0,5;eqt 1,6", "set 0,6;rep 1,6"])
        o.add("findc", st, "ext 1,2,3", ["idxof 3;idxof 11", "push 11;rep 2,9", "cont 11"], opts="dfs=6000")
        o.add("finds", st, "ext 1,2,3,4;slice 1,0,1,4", ["idxof:1 4;cont:1 9", "rep 3,9;swap 1,2", "idxof:1 3"], opts="dfs=6000")
        o.add("gap", st, "ext 1,2;pushf!0 3;push 4;idxof 4;cont 4;idxof 2;idxof 3", [])
        o.add("pan", st, "ext 1,2,3;idxof!1 3;cont!0 1;idxof 3;eqe!0 0,1;eqe 0,1;eqt!0 0,1;eqt 0,1;rep 0,5;rep 1,6", [])
    for n in (0, 1, 2, 4, 5, 6):
        v = ",".join(str(i) for i in range(1, n + 1))
        alts = [v, (v + ",9").strip(","), ",".join(v.split(",")[:-1]), v.replace("1", "8"), (v[:-1] + "9") if v else "", v.replace("2", "777777")]
        s = [f"ext {v}".strip(), "asl 1", "slice 2,0,1,5", "slice 3,0,0,2"]
        for a in alts:
            s += [f"eqsl {a}".strip(), f"eqsl:1 {a}".strip()]
            if len(a.split(",")) <= 6: s += [f"eqar {a}".strip(), f"eqar:1 {a}".strip(), f"eqar:2 {a}".strip()]
            for d in range(4): s += [f"eqv {d},{a}".strip(","), f"eqv:1 {d},{a}".strip(","), f"eqv:2 {d},{a}".strip(",")]
        s += [f"eqr{w} {x}" for w in ("", ":1", ":2", ":3") for x in range(4)]
        for q in range(0, len(s) - 4, 40): o.add("const", "dbl", s[:4] + s[4 + q:44 + q])
    o.add("nan", "dbl", "ext 1,777777,2;asl 1;slice 2,0,0,1;eqr 0;eqr:1 1;eqr 1;eqr:2 2;eqsl 1,777777,2;eqar 1,777777,2;eqv 0,1,777777,2;idxof 777777;cont 777777", [])
    o.add("win", "dbl", "ext 1,2,1,2,1;slice 1,0,0,2;slice 2,0,2,4;slice 3,0,1,3;slice 4,0,2,5;slice 5,0,3,3;" + ";".join(f"eqr:{a} {b}" for a in range(1, 6) for b in range(0, 6)), [])
    for th in (["eqr 1", "push 11"], ["eqr:1 0;eqr 0", "ext 11,12"], ["eqr:1 2", "rep 0,9;swap 1,2"], ["eqr 0", "rep 0,9;push 11"], ["eqr 1;eqr:1 0", "swap 0,1"], ["eqr 2;eqr:2 3", "swap 2,3;push 5", "swap 0,1"]):
        o.add("winc", "dbl", "ext 1,2,1,2;asl 1;slice 2,0,0,2;slice 3,0,2,4", th, opts="dfs=6000")
    for th in (["eqsl 1,2,3", "push 3;rep 0,1"], ["eqsl 1,2;eqsl 1,2,3", "push 3"], ["eqv 0,1,2,3;eqv 1,1,2", "push 3;rep 1,9"], ["eqv:1 2,1,2;eqv:1 3,1,9", "rep 1,9;swap 0,1"], ["eqar 1,2;eqar:1 1,9", "rep 1,9", "push 3"], ["eqar 1,2,3", "push 3;swap 0,1;swap 1,0"], ["eqsl:1 1,2;eqv 2,1,2,3", "rep 1,9;push 3;rep 1,2"]):
        o.add("constc", "dbl", "ext 1,2;asl 1", th, opts="dfs=6000")
    o.add("pan", "dbl", "ext 1,2,3;asl 1;eqsl!1 1,2,3;eqsl 1,2,3;eqar!0 1,2,3;eqar 1,2,3;eqv!2 0,1,2,3;eqv 0,1,2,3;eqr!1 1;eqr 1;fill 9", [])
    torn(o, [x for w in ("", ":1") for x in (f"eqsl{w} 1,2,3", f"eqar{w} 1,2", f"eqv{w} 0,1,2,3", f"eqr{w} 1", f"idxof{w} 3", f"cont{w} 31", f"eqe{w} 0,1", f"eqt{w} 0,31")])
    o.add("cp", "dbl", "ext 1,2,3;asl 1", ["eqr 1;idxof 3;eqar 1,2,3", "rep 2,9;push 4", "eqe 0,2;cont 9"], el="cp", opts="dfs=6000")
    o.add("big", "dbl", "ext 1..300;asl 1;eqr 1;eqsl 1..300;eqsl 1..299;eqsl 1..301;eqv 0,1..300;eqv 3,1..299;idxof 300;idxof 13;cont 301;slice 2,0,12,300;idxof:2 300;eqsl:2 13..300", [])

    # comparisons while a value is about to be pushed, and behind gaps
    nest(o, "nest", ["dbl"], ["pushf {}", "extf {},{}", "ext {},{}"], ["eqsl 1,2,3", "eqar 1,2,3", "eqv 0,1,2,3", "eqv 1,1,2,3", "eqv 2,1,2,3", "eqv 3,1,2,3", "eqr 1", "eqr:1 0", "eqsl:1 1,2,3", "eqar:1 1,2,3", "eqsl 1,2,3,4", "eqar 1,2,3,4", "idxof 3", "cont 3", "idxof 4"], "ext 1,2,3;asl 1", per=1, after="len")
    for pre in ("ext 1,2;pushf!0 9", "ext 1,2;pushf!0 9;push 3", "ext 1,2;ext!1 3,4,5", "pushf!0 9;push 1", "ext!2 1,2,9"):
        o.add("gaps", "dbl", pre + ";asl 1;" + ";".join(f"{x}{w} {y}" for w in ("", ":1") for x in ("eqsl", "eqar", "eqv 0,", "eqv 1,", "eqv 2,", "eqv 3,") for y in ("1,2", "1,2,3", "1", "3")).replace(", ", ",").replace(",:1 ", ":1 ").replace("eqv 0:1 ", "eqv:1 0,").replace("eqv 1:1 ", "eqv:1 1,").replace("eqv 2:1 ", "eqv:1 2,").replace("eqv 3:1 ", "eqv:1 3,") + ";eqr 0;eqr 1;eqr:1 0;idxof 3;idxof 9;cont 3;cont 2", [], "len;itref")
    nest(o, "nesth", ["dbl"], ["eqe 0,1", "eqt 0,{}", "idxof:1 99", "cont:1 99", "eqsl:1 1,2", "eqar:1 1,2", "eqr:1 1"], I_LEN + I_GROW[:3] + ["getc 2", "eqe 2,3", "rep 2,{}"], after="len")


def c14(o):
    # every callback of every call that runs user code, sequentially and with another thread behind it
    one = ["pushf 11", "ext 11,12,13", "extn 3,11,12,13", "extf 11,12,13", "exti 11,12,13", "extni 3,11,12,13", "extfi 11,12,13", "getm 1", "getc 1", "gcl 1", "upd 1,11", "add 1,5", "idx 1", "dbge 1", "eqt 1,2", "eqe 0,1",
           "fill 11", "fillw 11", "itc", "itm", "itcl", "map", "fold", "filt", "red", "cvec", "dbg", "idxof 3", "cont 3", "chk 2", "spf 5", "spl 5", "hm 0", "hu 0,11", "hc 0"]
    onl = ["clonev", "eqr 1", "eqsl 1,2,3", "eqar 1,2,3", "eqv 0,1,2,3"]
    for i, x in enumerate(one + onl):
        for k in range(0, 5):
            h, _, a = x.partition(" ")
            for st in (("dbl", STS[1 + (i + k) % 2]) if x in one else ("dbl",)):
                p = f"{h}!{k} {a}".strip()
                o.add("seq", st, f"ext 1,2,3;asl 1;hold 1,0;{p};len;getc 0;getc 1;getc 2;rep 0,21;rep 1,22;rep 2,23;add 1,5;push 31;len;fill 40;fillw 50;swap 0,2;itc;live", [], "itref;clear;push 1;push 2;itc")
                if k < 3 and h in ("pushf", "ext", "extn", "extf", "exti", "extni", "extfi"):
                    o.add("four", st, f"ext 1,2,3,4;{p};len;push 31;ext 32..50;len;gcl 4;gcl 5;gcl 6;gcl 7;gcl 8;itref;live", [], "drop;live")
                if k < 3:
                    o.add("conc", st, "ext 1,2,3;asl 1;hold 1,0", [f"{p};len", "rep 1,21;add 0,5;push 22", "getm 2;itc"], "len;itc;live;itref", opts="dfs=1500 rand=300")
                if h not in ("pushf", "ext", "extn", "extf", "exti", "extni", "extfi", "hm", "hu", "hc", "clonev") and k < 3 and x in one:
                    o.add("sl", st, f"ext 1,2,3,4;slice 1,0,1,4;{h}:1!{k} {a};itc;fill:1 9;rep 2,8;itc;live", [], "tovec")
    for st in STS:
        o.add("short", st, "ext 1,2;extn 3,6,7;len;push 8;len;gcl 2;gcl 3;gcl 4;gcl 5;itref;extlie 3,9,10;push 11;itref;live", [], "len;clear;ext 1,2,3;itc")
        o.add("wrong", st, "ext 1,2;extfl 2,6,7,8;len;push 9;extfl 3,6,7;len;gcl 2;gcl 4;itref;live", [], "len;clear;ext 1,2,3;itc")
        o.add("upda", st, "ext 1,2,3", ["upda 1,9;getc 1", "getc 1;add 1,5", "rep 1,7"], opts="dfs=6000")
        o.add("two", st, "ext 1,2,3", ["pushf!0 11;push 12", "ext!1 21,22,23;len", "len;gcl 3;gcl 4"], "len;itref;live", opts="dfs=6000")
        o.add("swp", st, "ext 1,2,3", ["getm!0 1;swap 0,1", "swap 1,2;add!0 1,7", "itc"], "len;itc", opts="dfs=6000")
        o.add("fillp", st, "ext 1,2,3", ["fill!1 50;itc", "fillw!2 60;add 0,1"], "len;itc;live", opts="dfs=6000")
        o.add("coll", st, "coll!1 0,1,2,3;new;push 4;live" if st == "dbl" else "ext!1 1,2,3;clear;push 4;live", [])
    for k in (0, 1, 2, 4):
        o.add("coll", "dbl", f"coll!{k} 0,1,2,3,4,5;live;new;push 4;live", [])
        o.add("coll", "dbl", f"coll!{k} 1,1,2,3,4,5;live;new;push 4;live", [])
        o.add("coll", "dbl", f"coll!{k} 3,1,2,3,4,5;live;new;push 4;live", [])

    nest(o, "nest", N_ST[:2], ["pushf!0 {}", "ext!1 {},{}", "extf!1 {},{}", "upd!0 0,{}", "getm!0 1", "fillw!1 {}", "fold!1", "map!1", "itcl:1!1", "cvec!1", "eqe!0 0,1"], ["push {}", "rep 3,{}", "len", "push {};gcl 4", "swap 2,3"], after="len;itref", per=6)
    nest(o, "nestc", N_ST, ["pushf!0 {}", "ext!1 {},{}", "upd!0 0,{}"], ["push {}", "getc 2"], "ext 1,2,3", conc="push {}", opts="dfs=1000 rand=200", after="len;itref")


def c15(o):
    for st in ("dbl", "lin:2:16", "lin:1:10", "fix:14", "lin:1:16"):
        for n in (0, 1, 3, 4, 5, 12, 13):
            v = f" 1..{n}" if n else ""
            for e in ("len;itc;tovec", "rt;push 91;len;rt;itc;into", "push 91;itc;rt;clear;rt;push 92;itc;tovec", "clear;len;isempty;push 91;itc;maxcap;cap;tovec", "resv 40;maxcap;len;itc;ext 101..120;itc;tovec", "resv 0;maxcap;itc;push 91;tovec", "clear;resv 30;push 91;rt;clear;push 92;itc", "rt;resv 30;ext 101..112;itc;intoit -1", "clear;clear;rt;rt;len;ext 1..5;itc;maxcap", "resv 25;resv 35;push 91;clear;ext 101..130;len;itc;maxcap"):
                o.add("c", st, [f"ext{v}"], [], e)
            for e in ("len;maxcap;itc;tovec", "push 91;itc;rt;itc;into", "resv 40;maxcap;push 91;ext 101..115;itc;tovec", "clear;push 91;maxcap;itc"):
                o.add("from", st, [f"from{v}"], [], e)
            for d in range(8): o.add("a", st, ([f"ext{v}"] if n else []), [], f"intoa {d},{1 + (d + n) % 4}")
    for h in [*range(9), 100, 101, 102, 105, 108, 109, 110, 111, 118, 119, 120, 121, 129, 190, 191, 198, 199]:
        for n in (0, 1, 2, 4, 5, 13):
            if h in (3, 4, 6, 7) and n == 0: continue
            v = f",1..{n}" if n else ""
            o.add("coll", "dbl", [f"coll {h}{v}"], [], "len;itc;push 91;itc;clonev;rt;push 92;tovec")
    o.add("coll", "dbl", "coll 0,1..500", [], "len;itc;clonev;rt;itcl")
    o.add("coll", "dbl", "coll 1,1..500", [], "len;push 91;tovec")
    o.add("def", "dbl", "newdef;push 1;itc;clonev", [], "tovec")
    o.add("conc", "dbl", "ext 1,2,3;rt;clear;ext 1,2,3;resv 50", ["push 11;push 12", "ext 21,22;len"], "len;itc;rt;len;tovec")
    for st in STS:
        o.add("conc", st, "from 1,2,3;rt", ["push 11;push 12", "ext 21,22;len"], "len;itc;rt;len;tovec")
        o.add("concr", st, "ext 1,2,3,4;clear", ["push 11;push 12", "ext 21,22,23;len"], "len;itc;rt;clear;push 1;tovec")
        o.add("concs", st, "ext 1,2,3,4;resv 64", ["push 11;ext 12..20", "ext 21..30;len"], "len;itc;resv 90;itc;tovec", opts="dfs=3000 rand=500")
        o.add("clone", st, "ext 1,2,3", ["clonev;clonev", "push 11;rep 0,12", "cvec"], "tovec")
    for st, m in OVER:
        for e in ("rt;maxcap;itc;tovec", "clear;maxcap;ext 1..%d;push 99;itc" % m, "resv %d;maxcap;push 91;itc;tovec" % (m + 8), "into", "intoit -1", "clear;rt;maxcap;push 91;itc", "resv %d;clear;push 91;maxcap;itc" % (2 * m)):
            o.add("over", st, f"ext 1..{m};push 101;pushf 102", [], e)
    for st in ("fix:2", "fix:3", "lin:1:2", "lin:2:2", "dbl:2"):
        o.add("resvgrow", st, "push 1;resv 20;ext 2..20;len;maxcap;cap", [], "itc;resv 10;maxcap;itc;tovec")
        o.add("resvgrow2", st, "ext 1,2;resv 7;maxcap;ext 3..7;len;resv 9;ext 8,9;len", [], "itc;tovec")
        o.add("resvgap", st, "push 1;pushf!0 2;resv 20;len;gcl 1;push 3;push 4;len;itref", [], "clear;ext 1..9;itc;tovec")
        o.add("resvgap2", "lin:2:4", "push 1;pushf!0 2;push 3;resv 30;len;gcl 1;gcl 2;push 4;itref", [], "clear;ext 1..9;itc;tovec")
    o.add("big", "dbl", "ext 1..1500;rt;push 5001;clear;ext 1..2000;rt;len;resv 5000;ext 2001..2100;len", [], "tovec")
    o.add("bigl", "lin:4:64", "ext 1..500;rt;push 5001;clear;ext 1..600;rt;len;resv 2000;ext 2001..2100;len", [], "tovec")
    o.add("bigf", "fix:700", "ext 1..500;rt;push 5001;clear;ext 1..600;rt;len;resv 2000;ext 2001..2100;len", [], "tovec")

    nest(o, "nestc", N_ST[:1], ["clonev", "cvec"], ["push {}", "len", "ext {},{}"], after="len;clonev")


def torn(o, reads, sts=STS[:1], opts="dfs=1500 rand=200"):
    """plain values: an unlocked read sees an update half done"""
    for x in reads:
        for st in sts: o.add("torn", st, "ext 1,2,3;slice 1,0,0,2", ["upd 0,31;add 1,100", f"{x};{x}"], el="cp", opts=opts)

# ------------------------------------------------------------------ all pairs of calls
P_GROW = ["exti {},{}", "extni 2,{},{}", "extfi {},{}", "exti!0 {},{}", "extni!0 2,{},{}", "extfi!1 {},{}", "push {}", "pushf {}", "pushf!0 {}", "ext {}", "ext {},{},{}", "extf {},{}", "extf!0 {},{}", "extn 2,{},{}", "extlie 3,{},{}", "extfl 3,{},{}", "ext", "ext!1 {},{},{}"]
P_ELEM = ["upd 0,{}", "add 1,100", "rep 0,{}", "set 1,{}", "upda 0,{}", "upd!0 1,{}"]
P_MULTI = ["swap 0,1", "swap 2,1", "swap 1,1", "swap 0,9", "swap:1 0,1", "swap:1 0,2", "fill {}", "fillw {}", "fill:1 {}", "fillw:1 {}", "fillw!1 {}"]
P_READ = [x + " " + i for x in ("get", "getc", "getcp", "getm", "gcl", "gcp", "idx", "dbge") for i in ("0", "2", "3")] + [x + ":1 " + i for x in ("get", "getc", "getcp", "getm", "gcl", "gcp", "idx") for i in ("0", "1", "2")]
P_MEAS = ["len", "isempty", "cap", "maxcap"]
P_ITER = [x + w for x in SHORT for w in ("", ":1")] + ["clonev", "ita 0,0,2", "ita 1,2,1", "ita:1 2,4,0", "ita 0,5,0"]
P_CMP = [x for w in ("", ":1") for x in (f"eqsl{w} 1,2,3", f"eqar{w} 1,2", f"eqv{w} 0,1,2,3", f"eqr{w} 1", f"idxof{w} 3", f"cont{w} 2", f"eqe{w} 0,1", f"eqt{w} 1,2")] + ["eqe 0,2", "idxof 99", "cont 4"]
P_CUT = ["asl 2", "slice 2,0,1,3", "slice 2,0,0,9", "slice:1 2,0,0,1", "spat 2,3,1", "spat 2,3,3", "spat 2,3,4", "spat:1 2,3,1", "spf 2", "spl 2", "spf:1 2", "spl:1 2", "chk 2", "chk:1 1"]
P_RAWO = [f"{x}{w} {i}" for x in ("raw", "rawm", "mutg") for w in ("", ":1") for i in (0, 1, 2, 3)] + ["itmutn", "itmutn:1"]
P_RAW = P_RAWO + [f"{x}{w} {i}" for x in ("rawv", "ref") for w in ("", ":1") for i in (0, 1, 2, 3)] + ["itref", "itref:1"]
P_QUIET = ["getm 1", "getc 0", "gcl 2", "itc", "eqe 0,1", "len", "dbg", "asl 2"]
P_OTHER = ["push {}", "pushf {}", "pushf!0 {}", "ext {},{},{}", "extf {},{}", "extn 2,{},{}", "upd 0,{};add 1,100", "rep 0,{};set 1,{}", "upd:1 1,{}", "swap 0,1", "swap 1,2", "fill {}", "fillw:1 {}", "getm 1", "itc", "eqe 1,2"]
PAIRS = dict(C01=(P_GROW, P_GROW + P_QUIET), C02=(P_GROW, P_GROW + P_QUIET), C03=(P_MEAS, P_OTHER + P_GROW), C04=(P_READ, P_OTHER), C05=(P_ELEM + P_READ, P_ELEM + P_MULTI), C06=(P_MULTI, P_OTHER + P_MULTI),
             C07=(P_GROW + P_MULTI + P_ELEM + P_CMP + P_ITER + ["getm 0", "gcl 1", "len"], P_OTHER), C08=(P_GROW, P_GROW + P_QUIET), C09=(P_RAW, P_GROW + P_QUIET), C11=(P_CUT, P_OTHER), C12=(P_ITER, P_OTHER), C13=(P_CMP, P_OTHER),
             C14=(["getm!0 0", "upd!0 1,{}", "add!0 0,5", "fill!0 {}", "fill!1 {}", "fillw!0 {}", "fillw:1!1 {}", "itc!1", "map!0", "fold!1", "filt!1", "red!1", "cvec!1", "dbg!1", "eqe!0 0,1", "idxof!1 9", "pushf!0 {}", "ext!1 {},{},{}", "extf!0 {},{}", "extf!1 {},{}", "exti!0 {},{}", "exti!3 {},{}", "extni!0 2,{},{}", "extfi!1 {},{}", "extlie 3,{}", "extfl 3,{}", "gcl!0 1", "getc!0 0", "dbge!0 2"], P_OTHER), C15=(["clonev", "cvec"], P_OTHER))
def pairs(o, pid, quick):
    """every call of the property together with every other one; storage and element type take turns"""
    if pid not in PAIRS: return
    A, B = PAIRS[pid]
    v = [0]
    def f(x):
        while "{}" in x: v[0] += 1; x = x.replace("{}", str(v[0]), 1)
        return x
    n = 0
    for a in A:
        for b in B:
            for st in ("dbl", "lin:1:8", "fix:5" if pid != "C08" else "fix:4") if not quick else (("dbl", "lin:1:8", "fix:5" if pid != "C08" else "fix:4")[n % 3],):
                for el in ("tok", "sm", "lg") if not quick else (("tok", "sm", "tok", "cp", "tok", "lg")[(n // 3) % 6],):
                    v[0] = 100
                    o.add("pair", st, "ext 1,2,3;slice 1,0,0,2", [f(a), f(b)], "len;itref", el, "dfs=400 rand=40" if quick else "dfs=1500 rand=150")
            n += 1

def drops(o, pid):
    """the drop of a value panics: when it is replaced, filled over or cleared"""
    chk = "len;itc;live"
    for st in ("dbl", "lin:2:16", "fix:60"):
        if pid in ("C05", "C14"):
            for x in ("set!0 1,11", "updd!0 1,11", "updd 1,11", "set:1!0 0,11"):
                o.add("dp", st, f"ext 1,2,3;slice 1,0,1,3;{x};{chk};{x.replace('11', '12')};rep 1,13;add 1,5;push 14;{chk}", [], "clear;live;push 1;itc")
            o.add("dpc", st, "ext 1,2,3", ["set!0 1,11;getc 1", "getc 1;rep 1,21"], "len;itc;live", opts="dfs=4000")
            o.add("dpu", st, "ext 1,2,3", ["updd!0 1,11;push 12", "set 1,21;len", "getm 1"], "len;itc;live", opts="dfs=4000")
        if pid in ("C06", "C14", "C10"):
            for k in range(6):
                for f in ("filld", "fillwd"):
                    o.add("dpf", st, f"ext 1,2,3,4;{f}!{k} 50;{chk};slice 1,0,1,3;{f}:1!{k} 70;{chk};push 9;swap 0,4;fill 3;{chk}", [], "tovec")
            o.add("dpfc", st, "ext 1,2,3", ["filld!1 50;len", "rep 1,21;getc 2", "push 22"], "len;itc;live", opts="dfs=4000")
        if pid in ("C10", "C14", "C15", "C03", "C04"):
            for n in (1, 2, 4, 5, 6, 13):
                for k in sorted({0, 1, n // 2, n - 1, n}):
                    v = f"ext 1..{n}"
                    o.add("dpk", st, f"{v};clear!{k};live;len;isempty;itc;push 101;{chk};ext 102..{106 + n};{chk}", [], ("tovec", "clear;live", "rt;itc;live", "resv 50;itc;live", "drop;live")[(n + k) % 5])
                    # positions are handed out again: nothing of the old content shows before they are written
                    o.add("dpv", st, f"{v};clear!{k};pushf 101~0 len~0 get 0~0 gcl 0~0 gcl 1~0 itc;pushf 102~0 len~0 gcl 1~0 raw 1~0 itref~0 gcl 2;extf 103,104,105~0 len~0 itref;exti 106,107~1 len~1 gcl 5~1 gcl 6;{chk}", [], "tovec")
                    if n == 4 and k < 2: o.add("dpw", st, f"{v};clear!{k}", ["push 101;pushf 102", "len;gcl 0;gcl 1", "ext 103,104,105"], "len;itc;live", opts="dfs=800")
            o.add("dpg", st, "ext 1,2;pushf!0 3;ext 4,5;clear!2;live;len;ext 11..16;len;itc;live;clear!5;live", [], "drop;live")
            o.add("dpo", "fix:4", "ext 1,2,3;ext 4,5;push 6;clear!1;live;len;ext 11..14;len;push 15;itc;live", [], "drop;live")

def zero(o, pid):
    """storage for nothing: every call, alone and together with rejected pushes"""
    one = ["len;isempty;cap;maxcap", "push 1;len", "pushf 2;len", "ext 1,2;len", "ext;len", "extf;len", "extn 0;len", "extf 1,2;len", "extfl 0,1", "get 0;getc 0;gcl 0;getm 0;get -1", "rep 0,1;set 0,1;upd 0,1;add 0,1", "swap 0,0;swap 0,1",
           "fill 3;fillw 4", "itc;itm;itcl;map;fold;filt;red;cvec;dbg", "idxof 3;cont 3;eqsl;eqsl 1;eqar;eqr 0", "slice 1,0,0,-1;len:1;itc:1;fill:1 3;swap:1 0,0;spf:1 2;spl:1 3;chk:1 2;spat:1 2,3,0", "asl 1;gcl:1 0;idxof:1 1;eqsl:1;raw:1 0;ref:1 0;itref:1",
           "spat 2,3,0", "spat 2,3,1", "spf 2", "spl 2", "chk 1", "chk 2", "raw 0;rawm 0;ref 0;itref;mutg 0", "clear;len", "rt;len;maxcap", "resv 4;maxcap;len", "clonev"]
    for n, x in enumerate(one): o.add("zero", "fix:0", [x, "len", "push 9", "len", x, "clear", x], [], ("tovec", "into", "intoit 1", "drop")[n % 4])
    for n, x in enumerate(one[1:-5]): o.add("zeroc", "fix:0", [], [x, "push 7;len", x], "clear;len;push 8;tovec", opts="dfs=300 rand=30")

N = 66000
VAST = dict(
    C01=[("dbl", "tok", f"ext 1..{N};push 9;len;getc 65535;getc {N};getc {N + 1}", "len;tovec"), ("lin:10:80", "sm", f"push 1;extf 2..{N};pushf 9;extv 7,8", "len;itc")],
    C02=[("dbl", "tok", f"extf 1..{N};pushf 9;extn 2,8,9;extfi 5,6", "len;itc"), ("lin:9:140", "sm", f"extn {N},1..{N};pushf 9;extf 8,9", "len;itc")],
    C03=[("dbl", "sm", f"len;ext 1..{N};len;isempty;pushf 9;len;clear;len", ""), ("lin:10:80", "sm", f"ext 1..65535;len;push 1;len;push 2;len", "len")],
    C04=[("dbl", "tok", f"ext 1..{N};getc 65535;gcl 65536;idx 65537;get {N - 1};getm {N};gcl {N};idx {N}", ""), ("lin:10:80", "sm", f"ext 1..{N};getcp 65535;gcp 65536;getcp 65537;gcp {N - 1};gcp {N};slice 1,0,3,-1;gcp:1 65535;gcp:1 {N - 4};gcp:1 {N - 3}", "")],
    C05=[("dbl", "tok", f"ext 1..{N};rep 65535,5;add 65536,7;set 65537,6;upd {N - 1},8;getc 65535;getm 65536;getc 65537;getc {N - 1};getc 0;getc 1", "")],
    C06=[("dbl", "tok", f"ext 1..{N};swap 3,65537;swap 65535,65536;swap {N - 1},0;swap {N},0;fillw 100;swap 1,65537", "itc"), ("lin:10:80", "sm", f"ext 1..{N};slice 1,0,5,-1;fill:1 7;swap:1 65530,0;fillw:1 200;swap:1 65530,0;swap:1 {N - 6},{N - 5}", "itc")],
    C08=[(f"fix:{N}", "sm", f"ext 1..{N - 1};push 9;len;cap;push 10;ext 11,12;len;cap;gcl {N - 1};gcl {N}", "into"), ("lin:6:1025", "tok", f"ext 1..65599;len;maxcap;push 9;cap;push 10;ext 11,12;len;cap;maxcap", "tovec")],
    C09=[("dbl", "tok", f"ext 1..{N};raw 65537;ref 65538;mutset 65539,4;ref 3;itref;ext 70001..76000;reref", "reref")],
    C10=[("dbl", "tok", f"ext 1..{N};rep 65537,5;set 65538,6;live", "clear;live;push 1;live"), ("lin:10:80", "tok", f"ext 1..{N};live", "intoit 65540")],
    C11=[("dbl", "tok", f"ext 1..{N};slice 1,0,65530,65550;itc:1;getc:1 6;set:1 7,5;slice 2,1,2,9;itc:2;spat 3,4,65536;len:3;len:4;getc:4 0;spat:4 5,6,100;itc:5;asl 7;len:7;spl 8;len:8", "len")],
    C12=[("dbl", "sm", f"ext 1..{N};cvec;map;fold;itcl;slice 1,0,65000,65800;itc:1;itcl:1;fold:1", "itc"), ("lin:10:80", "tok", f"ext 1..{N};itc;dbg", "cvec;clonev")],
    C13=[("dbl", "sm", f"ext 1..{N};eqsl 1..{N};eqsl 1..{N - 1};eqsl 1..{N + 1};idxof 65539;cont 65539;cont {N + 1};eqv 0,1..{N};slice 1,0,1,-1;idxof:1 65539;eqsl:1 2..{N}", "")],
    C14=[("dbl", "tok", f"ext 1..{N};upd!0 65537,3;pushf!0 7;getc 65537;push 9;len", "itref"), ("lin:10:80", "sm", f"ext 1..65534;extf!2 1,2,3,4;len;push 9;len", "itref")],
    C15=[("dbl", "sm", f"ext 1..{N};rt;len;push 7;gcl {N};clear;len;push 8;ext 1..{N};len", "into"), ("dbl", "tok", f"coll 0,1..{N};len;itcl", "tovec"), ("lin:10:10", "tok", f"ext 1..10000;resv {N};maxcap;ext 20001..{N + 10000};len", "into")],
)
def vast(o, pid):
    """one thread, more than 2^16 elements"""
    for st, el, ops, td in VAST.get(pid, ()): o.add("vast", st, ops, [], td, el)

FAM = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15)

# ------------------------------------------------------------------ random programs
GROW = ["push", "pushf", "ext", "extv", "extf", "extn", "push", "pushf", "ext", "exti", "extfi", "extni"]
MEAS = ["len", "isempty", "cap", "maxcap"]
READ = ["get", "getc", "getcp", "getm", "gcl", "gcp", "idx", "dbge", "eqt"]
WRITE = ["rep", "set", "upd", "add"]
HAND = ["hold", "hc", "hm", "hr", "hu"]
MULTI = ["swap", "fill", "fillw"]
ITER = list(SHORT) + ["ita"]
OPEN = ["itopen", "icopen", "imopen", "itnext", "itnext", "itnext"]
CHKL = ["chkopen", "chknext", "chknext"]
RAWS = ["raw", "rawm", "mutg", "itmutn"]
RAWR = ["ref", "rawv", "itref", "reref"]
RAWW = ["mutset", "rawmset", "itmut"]
CMP = ["idxof", "cont", "eqe"]
CMPD = ["eqr", "eqsl", "eqar", "eqv", "clonev"]
SLIC = ["slice", "asl", "spat", "spf", "spl", "chk"]
EXCL = ["clear", "resv", "rt"]
LIVE = ["live"]
BAD = ["extn-", "extlie", "extfl", "upda"]
# weights of the groups: (sequential programs, concurrent programs)
G = dict(grow=GROW, meas=MEAS, read=READ, write=WRITE, hand=HAND, multi=MULTI, iter=ITER, open=OPEN, raws=RAWS, rawr=RAWR, raww=RAWW, cmp=CMP, cmpd=CMPD, slice=SLIC, chkl=CHKL, excl=EXCL, live=LIVE, bad=BAD)
W = {
    "C01": dict(grow=10, meas=1, read=1, iter=1),
    "C02": dict(grow=10, meas=1, iter=1, slice=1),
    "C03": dict(grow=5, meas=8, read=2, write=2, multi=1, slice=1, excl=1),
    "C04": dict(grow=4, read=9, write=2, slice=3, multi=1, excl=1),
    "C05": dict(grow=1, read=5, write=9, hand=4, multi=1, slice=1),
    "C06": dict(grow=2, multi=9, read=2, write=2, slice=2, iter=1),
    "C07": dict(grow=5, multi=4, read=2, write=3, cmp=3, iter=2, meas=1, cmpd=1),
    "C08": dict(grow=9, meas=4, read=2, iter=1, raws=1, slice=1, excl=2, live=1),
    "C09": dict(grow=4, raws=5, rawr=6, raww=4, slice=2, read=2, excl=1),
    "C10": dict(grow=4, live=4, write=4, multi=2, iter=2, excl=3, bad=1, read=1),
    "C11": dict(grow=3, slice=9, chkl=3, iter=3, read=2, meas=1, multi=1),
    "C12": dict(grow=3, iter=8, open=3, write=2, slice=3, multi=1, cmpd=1),
    "C13": dict(grow=3, cmp=7, cmpd=7, write=2, slice=4, multi=1),
    "C14": dict(grow=4, read=2, write=3, multi=2, iter=2, cmp=1, bad=2, live=1, meas=2),
    "C15": dict(grow=5, excl=6, iter=2, meas=2, read=1, cmpd=1, raws=1),
}
PANIC = {"C14": 0.3, "C10": 0.1, "C03": 0.08, "C07": 0.08, "C04": 0.05, "C05": 0.06}
CALLBACK = {"ita", "pushf", "exti", "extfi", "extni", "ext", "extf", "extn", "getm", "getc", "gcl", "upd", "add", "idx", "dbge", "eqt", "eqe", "fill", "fillw", "itc", "itm", "itcl", "map", "fold", "filt", "red", "cvec", "dbg", "idxof", "cont", "chk", "hm", "hu", "hc", "eqr", "eqsl", "eqar", "eqv", "clonev"}
GROWCB = {"pushf", "ext", "extf", "extn", "exti", "extfi", "extni"}

class Gen:
    def __init__(s, pid, rnd):
        s.pid, s.r = pid, rnd
        s.val = 0
    def reset(s, st, conc):
        s.st, s.conc, s.n, s.gap = st, conc, 0, False
        k = st.split(":")
        s.max = {"dbl": 10**9 if len(k) == 1 else 4 * (2 ** int(k[-1]) - 1), "lin": 2 ** int(k[1]) * int(k[-1]) if len(k) > 2 else 0, "fix": int(k[-1]) if k[0] == "fix" else 0}[k[0]]
        s.win, s.its, s.chs, s.hnd = {}, set(), set(), set()
    def v(s):
        if s.r.random() < .12: return s.r.choice((1, 2, 3))
        s.val += 1
        return s.val + 10
    def i(s, n):
        r = s.r.random()
        if r < .7 and n > 0: return s.r.randrange(n)
        if r < .9: return s.r.choice((0, max(n - 1, 0), n, n + 1, 3, 4, 11, 12))
        return s.r.choice((-1, n, n + 5, 100))
    def vals(s, k): return [s.v() for _ in range(k)]
    def op(s, name, t):
        """text of one call, or None when it is not possible now"""
        r, base = s.r, 0
        w = ""
        n = s.n
        if name in READ + WRITE + MULTI + ITER + RAWS + RAWR + RAWW + ["idxof", "cont", "eqe", "eqr", "eqsl", "eqar", "eqv", "len", "isempty", "hold", "itopen", "icopen", "imopen", "chkopen"] + SLIC and name not in ("reref", "asl"):
            own = [k for k, (o, _) in s.win.items() if o in (0, t)]
            if own and r.random() < (.6 if s.pid == "C11" else .3):
                k = r.choice(own)
                w, n = f":{k}", s.win[k][1]
        def txt(*a, nm=None):
            p = ""
            if name in CALLBACK and r.random() < PANIC.get(s.pid, 0) and not (name == "extn" and nm):
                p = f"!{r.choice((0, 0, 0, 1, 1, 2, 3))}"
                if name in GROWCB: s.gap = True
            l = []
            for x in a: l += x if isinstance(x, list) else [x]
            return f"{nm or name}{w}{p}" + (" " + ",".join(map(str, l)) if l else "")
        def grown(k):
            if s.n + k <= s.max: s.n += k
        newreg = lambda: (8 * t + r.randrange(8) if t else 1 + r.randrange(7)) if t < 4 else None
        if name in ("push", "pushf"): grown(1); return txt(s.v())
        if name in ("ext", "extv", "extf", "extn", "exti", "extfi", "extni"):
            k = r.choice((0, 1, 1, 2, 2, 3, 4, 5) if s.conc else (0, 1, 2, 3, 4, 5, 8, 9, 16, 20))
            grown(k)
            v = s.vals(k)
            return txt(k, v) if name in ("extn", "extni") else txt(v)
        if name == "extn-": s.gap = True; k = r.choice((1, 2, 3)); return f"extn {k + r.choice((1, 2))},{','.join(map(str, s.vals(k)))}"
        if name == "extlie":
            k, m = r.choice(((3, 2), (2, 3), (2, 2), (1, 3), (4, 1)))
            if m < k: s.gap = True
            return txt(k, s.vals(m))
        if name == "extfl":
            k, m = r.choice(((3, 2), (2, 3), (2, 2), (0, 1)))
            if m != k: s.gap = True
            return txt(k, s.vals(m))
        if name in ("get", "getc", "getcp", "getm", "gcl", "gcp", "idx", "dbge", "raw", "rawm", "mutg", "ref", "rawv"): return txt(s.i(n))
        if name in ("eqt", "rep", "set", "upd", "mutset", "rawmset"): return txt(s.i(n), s.v())
        if name == "upda": return txt(s.i(n), s.v())
        if name == "add": return txt(s.i(n), r.choice((1000, 2000, 5000)))
        if name == "hold": h = 4 * t + r.randrange(4); s.hnd.add((t, h)); return txt(s.i(n), h) if t < 4 else None
        if name in HAND:
            c = [h for o, h in s.hnd if o in (0, t)]
            if not c: return None
            return txt(r.choice(c), s.v()) if name in ("hr", "hu") else txt(r.choice(c))
        if name == "swap": return txt(s.i(n), s.i(n))
        if name == "fill": return txt(s.v())
        if name == "fillw": s.val += 40; return txt(s.val - 30)
        if name == "ita": return txt(r.randrange(3), r.randrange(8), r.choice((1, 1, 2, 3, 5)))
        if name in ITER + ["itmutn", "itref", "clonev", "live"] + MEAS: return txt()
        if name == "reref": return txt() if not s.conc else None
        if name == "itmut": return txt(1000)
        if name in ("itopen", "icopen", "imopen"):
            if t >= 4: return None
            k = 2 * t + r.randrange(2); s.its.add((t, k)); return txt(k)
        if name == "chkopen":
            if t >= 4: return None
            k = 2 * t + r.randrange(2); s.chs.add((t, k)); return txt(k, r.choice((1, 2, 2, 3, 5)))
        if name == "chknext":
            c = [k for o, k in s.chs if o == t]
            k = newreg()
            if not c or k is None: return None
            s.win.pop(k, None)
            return txt(r.choice(c), k)
        if name == "itnext":
            c = [k for o, k in s.its if o == t]
            return txt(r.choice(c)) if c else None
        if name in ("idxof", "cont"): return txt(r.choice((s.v(), 1, 2, max(s.val, 1) + 9)))
        if name == "eqe": return txt(s.i(n), s.i(n))
        if name in ("eqr", "eqsl", "eqar", "eqv") and s.st.split(":")[0] != "dbl": return None
        if name == "eqr":
            own = [k for k, (o, _) in s.win.items() if o in (0, t)] + [0]
            return txt(r.choice(own))
        if name in ("eqsl", "eqar"): return txt([r.choice((1, 2, 3)) for _ in range(r.randrange(4))])
        if name == "eqv": return txt(r.randrange(4), [r.choice((1, 2, 3)) for _ in range(r.randrange(4))])
        if name == "slice":
            k = newreg()
            if k is None: return None
            f = r.choice((0, 0, 0, 1, 2, 3, 4, 5, 6, 7))
            a, b = s.i(n), s.i(n)
            s.win[k] = (t, max(0, min(n, b if b >= 0 else n) - (a if a >= 0 else n)))
            return txt(k, f, a, b)
        if name == "asl":
            k = newreg()
            if k is None: return None
            s.win[k] = (t, s.n); return txt(k)
        if name == "spat":
            k, j = newreg(), newreg()
            if k is None or k == j: return None
            for q in (k, j): s.win.pop(q, None)
            m = r.choice((s.i(n), n // 2, 0))
            return txt(k, j, m)
        if name in ("spf", "spl"):
            k = newreg()
            if k is None: return None
            s.win.pop(k, None)
            return txt(k)
        if name == "chk": return txt(r.choice((1, 1, 2, 3, 5, 7, 0)))
        if name in EXCL:
            if s.conc: return None
            if name == "rt" and s.gap: return None
            s.win, s.its, s.chs, s.hnd = {}, set(), set(), set()
            if name == "clear": s.n, s.gap = 0, False; return txt()
            if name == "resv":
                m = r.choice((0, s.n, s.n + 3, 20, 33))
                s.max = max(s.max, m)
                return txt(m)
            return txt()
        raise KeyError(name)
    def pick(s, w, t, deny=()):
        for _ in range(50):
            g = s.r.choices(list(w), list(w.values()))[0]
            name = s.r.choice(G[g])
            if name in deny: continue
            x = s.op(name, t)
            if x and t < 3 and name in ("pushf", "ext", "extf", "extn", "exti", "extni", "extfi", "fillw") and s.r.random() < .15:
                y = s.r.choice(["push", "pushf", "len", "getc", "gcl", "rep", "swap", "ext", "extf", "itc", "fold", "idxof", "slice", "asl", "get", "len", "upd", "fill", "isempty", "cvec"])
                y = s.op(y, t) if y not in deny else None
                if y: x += f"~{s.r.choice((0, 0, 1))} {y}"
            if x: return x
        return "len"
    def seq(s, k):
        r = s.r
        st = r.choice(("dbl", "dbl", "lin:2:8", "lin:1:16", "lin:1:12", "fix:20", "fix:7", "dbl:2", "lin:1:3", "fix:4") if s.pid != "C08" else ("dbl:2", "dbl:1", "lin:1:3", "lin:1:2", "lin:2:2", "fix:4", "fix:7", "fix:1"))
        el = r.choice(("cp", "sm", "lg")) if r.random() < .2 else "tok"
        s.reset(st, False)
        ops = []
        if r.random() < .8: n = r.choice((1, 2, 3, 4, 5, 11, 12)); ops.append(f"ext {','.join(map(str, s.vals(n)))}"); s.n = min(n, s.max) if n <= s.max else 0
        for _ in range(r.randrange(8, 22)): ops.append(s.pick(W[s.pid], 0))
        td = ["len", "itc"] + ([r.choice(("tovec", "into", "intoit 2", "rt;push 3;itc", "intoit -1", f"intoa {r.randrange(8)},{r.choice((1, 2, 3, 7))}"))] if not s.gap else ["clear", "push 1", "itc"])
        return prog(f"rs.{k}", st, ops, [], td, el)
    def con(s, k):
        r = s.r
        st = r.choice(("dbl", "dbl", "lin:2:8", "lin:1:16", "lin:1:12", "fix:20", "fix:5", "lin:1:3") if s.pid != "C08" else ("dbl:1", "lin:1:2", "lin:1:2", "fix:4", "fix:5", "lin:1:3"))
        el = r.choice(("cp", "sm", "lg")) if r.random() < .15 else "tok"
        s.reset(st, True)
        # a client that reads through unguarded references or writes through raw pointers must not do so while others write / read
        mode = r.choice(("w", "w", "r")) if s.pid == "C09" else r.choice(("w", "w", "w", "r"))
        deny = set(RAWW) | (set(RAWR) - {"reref"} if mode == "w" else set(WRITE) | {"upda", "hr", "hu", "swap", "fill", "fillw"}) | {"live"}
        ops = []
        n = r.choice((0, 1, 2, 3, 3, 4))
        if n: ops.append(f"ext {','.join(map(str, s.vals(n)))}"); s.n = min(n, s.max) if n <= s.max else 0
        if r.random() < .35: ops.append(s.pick(dict(slice=1), 0, deny))
        s.conc = True
        nt = r.choice((2, 2, 3))
        ths = []
        for t in range(1, nt + 1):
            ths.append([s.pick(W[s.pid], t, deny) for _ in range(r.choice((1, 2, 2, 3) if nt == 2 else (1, 1, 2)))])
        td = ["len", "itc"] + (["itref"] if s.gap else [r.choice(("tovec", "into", "intoit 2", "rt;push 3;itc"))])
        return prog(f"rc.{k}", st, ops, ths, td, el, "dfs=2500 rand=400")

def scenarios(pid, tier, seed):
    o = Out()
    FAM[pid](o)
    pairs(o, pid, tier == "quick")
    vast(o, pid)
    if pid in ("C03", "C08", "C11", "C12", "C13", "C15"): zero(o, pid)
    drops(o, pid)
    g = Gen(pid, random.Random(f"{pid}-{seed}"))
    ns, nc = (120, 120) if tier == "quick" else (1500, 1500)
    for k in range(ns): o.append(g.seq(k))
    for k in range(nc): o.append(g.con(k))
    return list(o)

if __name__ == "__main__":
    for l in scenarios(sys.argv[1], sys.argv[2], int(sys.argv[3])): print(l)
