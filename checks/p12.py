"""No hidden state: no writable static data is ever written, no heap, no I/O, no clock, no environment."""
import re, subprocess
import xk, flow

ALLOWED_EXT = {"memcpy", "memset", "memmove", "memcmp", "bcmp", "bzero", "abort", "__assert_fail", "__assert_func", "__stack_chk_fail"}

def asm_globals(rep, prods):
    units = [u for p in prods for u in p.units if u.kind == "s" and u.src.startswith("lib/")]
    objs = {}
    bad = []
    for u in {u.key(): u for u in units}.values():
        try:
            objs.update({u.key(): (u, o) for _, o in xk.assemble([u]).items()})
        except xk.Broken as e:
            bad.append(u)
    defined = set()
    for u, o in objs.values():
        r = xk.run(["readelf", "-SWs", o])
        if r.returncode:
            raise xk.Broken(f"readelf {u.src}: {r.stderr[:200]}")
        secs = {}
        for m in re.finditer(r"\[\s*(\d+)\]\s+(\S+)\s+(\S+)\s+\S+\s+\S+\s+(\S+)\s+\S+\s+(\S*)", r.stdout):
            secs[int(m.group(1))] = (m.group(2), m.group(3), int(m.group(4), 16), m.group(5))
        rep.require(any(n == ".text" and sz > 0 for n, t, sz, fl in secs.values()), f"{u.src}: no code in the object")
        rep.obl += 1
        ok = True
        for n, t, sz, fl in secs.values():
            if "W" in fl and "A" in fl and sz > 0:
                ok = False
                rep.violation(f"asm-data:{u.src}:{n}", u.src, f"{sz} bytes of writable static data in section {n} of an assembly implementation")
        for m in re.finditer(r"^\s*\d+:\s+\S+\s+\d+\s+(\S+)\s+(\S+)\s+\S+\s+(\S+)\s+(\S+)$", r.stdout, re.M):
            if m.group(3) == "UND":
                if m.group(4) not in ALLOWED_EXT and not m.group(4).startswith(("$", "_GLOBAL_OFFSET")):
                    rep.obl += 1
                    rep.violation(f"asm-ext:{u.src}:{m.group(4)}", u.src, f"assembly code refers to external symbol {m.group(4)}")
            elif m.group(2) == "GLOBAL":
                defined.add(m.group(4))
        rep.dis += ok
    rep.cov["assembly_objects"] = len(objs)
    rep.cov["assembly_not_assembling"] = sorted({u.src for u in bad})
    return defined

def compilable(rep, prods):
    out = []
    for p in prods:
        try:
            xk.compile_bc([u for u in p.units if u.src.startswith(("lib/", "Standalone/"))])
            out.append(p)
        except xk.Broken as e:
            rep.cov.setdefault("not_compiling", []).append(p.name())
    return out

def check(rep):
    prods = compilable(rep, flow.all_products())
    rep.require(len(prods) >= 40, f"only {len(prods)} products compile")
    defined = asm_globals(rep, prods)
    rep.require(rep.cov["assembly_objects"] >= 12, "assembly implementations vanished")
    fl = flow.flows(prods)
    nfun = nstore = 0
    for f in fl:
        nfun += f.stat.get("functions", 0); nstore += f.stat.get("stores", 0)
        consts = {g[0] for g in f.rec["GLOB"] if g[1] == "const"}
        written = {}
        for fn, g, loc, inner in f.rec["MODG"]:
            if g in consts and g.startswith(".str"):
                continue
            written.setdefault(re.sub(r"\.\d+$", "", g), (loc, inner))
        for g in f.rec["GLOB"]:
            rep.obl += 1
            n = re.sub(r"\.\d+$", "", g[0])
            if n in written:
                loc, inner = written[n]
                rep.violation(f"static:{inner}:{n}", f"{xk.rel(loc)} ({inner})", f"static object '{n}' may be written (product {f.name})")
            else:
                rep.dis += 1
        funs = {x[0] for x in f.rec["FUN"]}
        for name, callers in ((x[0], x[1] if len(x) > 1 else "") for x in f.rec["EXT"]):
            rep.obl += 1
            if name in ALLOWED_EXT or name in defined or name in funs:
                rep.dis += 1
            elif name == "fprintf" and all("Display" in c.split("@")[0] for c in callers.split()):  # explicit display helpers of the reference code (FILE* parameter)
                rep.dis += 1
            else:
                rep.violation(f"ext:{name}", xk.rel(callers.split(" ")[0].split("@")[-1]) + " (" + callers.split("@")[0] + ")", f"library code calls external function {name} (product {f.name})")
        rep.sample(f"{f.name}: {f.stat.get('functions')} functions, {len(f.rec['GLOB'])} static objects, external calls: {sorted({x[0] for x in f.rec['EXT']} - defined)}")
    rep.require(nfun > 3000 and nstore > 20000, "too little code analysed")
    # the rule must still see a write when there is one
    selftest(rep)
    rep.cov.update(products=len(fl), functions=nfun, stores=nstore, static_objects=sum(len(f.rec["GLOB"]) for f in fl))
    rep.rules = ["no store, memory intrinsic or callee may write an object with static storage duration (interprocedural points-to/mod analysis on LLVM IR)",
                 "library code calls nothing but memcpy/memset/memmove/memcmp and the library's own functions",
                 "assembly objects have no writable allocated section and no foreign undefined symbol"]
    rep.expl = "Interprocedural may-write analysis of every product's linked LLVM IR plus ELF section/symbol inspection of assembly objects."
    rep.assume = ["clang's IR at -O0 represents the C semantics of the source", "functions implemented in assembly write only through their pointer parameters (checked separately for static data: no writable section)"]

def selftest(rep):
    import os
    src = os.path.join(xk.workdir(), "self12.c")
    with open(src, "w") as f:
        f.write("static int n; static unsigned char b[4]; static void put(unsigned char *p){p[1]=2;}\nint f(void){ put(b); return n++; }\n")
    bc = src + ".bc"
    r = xk.run(["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-c", src, "-o", bc])
    r = xk.run([xk.BUILD + "/xkflow", bc])
    rep.require("MODG\tf\tn\t" in r.stdout and "MODG\tf\tb\t" in r.stdout, "self-test: a written static object is not seen")
