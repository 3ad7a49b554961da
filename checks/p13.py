"""const buffers are never written; caller buffers are not retained."""
import os, re
import xk, flow, p12

def check(rep):
    prods = p12.compilable(rep, flow.all_products())
    rep.require(len(prods) >= 40, f"only {len(prods)} products compile")
    fl = flow.flows(prods)
    nconst = 0
    pubs = set()
    for f in fl:
        bad = {}
        for fn, argno, arg, cq, loc, inner in f.rec["MODP"] + f.rec["MODD"]:
            if cq == "const":
                bad[(fn, argno)] = (loc, inner, arg)
        ext = {x[0]: x[1] for x in f.rec["FUN"]}
        for fn, argno, arg, cq in f.rec["PTRARG"]:
            if cq != "const":
                continue
            nconst += 1
            rep.obl += 1
            pubs.add((fn, argno))
            if (fn, argno) in bad:
                loc, inner, arg = bad[(fn, argno)]
                rep.violation(f"const:{inner}:{fn}:{argno}", f"{xk.rel(loc)} ({inner})", f"memory behind read-only parameter #{argno} of {fn} may be written (product {f.name})")
            else:
                rep.dis += 1
        for fn, dst, src, file in f.rec["KEEP"]:
            if ext.get(fn) == "extern":
                rep.violation(f"keep:{fn}:{dst}:{src}", f"{xk.rel(file)} ({fn})", f"pointer parameter #{src} is stored in the object behind parameter #{dst} and outlives the call (product {f.name})")
        for fn, g, src in f.rec["KEEPG"]:
            rep.violation(f"keepg:{fn}:{g}:{src}", fn, f"pointer parameter #{src} is stored in static object {g} (product {f.name})")
        rep.sample(f"{f.name}: {sum(1 for x in f.rec['PTRARG'] if x[3]=='const')} read-only parameters, {len(f.rec['MODP'])} parameter-write facts")
    rep.require(nconst > 2500, f"only {nconst} const parameters seen")
    src = os.path.join(xk.workdir(), "self13.c")
    with open(src, "w") as f:
        f.write("struct S {const char *p;};\nstatic void put(unsigned char *p){p[1]^=2;}\nint f(const unsigned char *b, struct S *s, const char *q){ put((unsigned char*)b+3); s->p = q; return 0; }\n")
    bc = src + ".bc"
    xk.run(["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-c", src, "-o", bc])
    r = xk.run([xk.BUILD + "/xkflow", bc])
    rep.require("MODP\tf\t0\tb\tconst" in r.stdout or "MODP\tf\t0\t\tconst" in r.stdout, "self-test: a write through a cast-away const is not seen")
    rep.require("KEEP\tf\t1\t2" in r.stdout, "self-test: a retained pointer is not seen")
    rep.cov.update(products=len(fl), const_parameters=nconst, distinct_parameters=len(pubs), functions=sum(f.stat.get("functions", 0) for f in fl))
    rep.rules = ["for every parameter declared pointer-to-const, no store reachable through it (including through callees and casts)",
                 "no public function stores a caller-supplied pointer in memory that outlives the call"]
    rep.expl = "Interprocedural may-write (mod) and pointer-retention analysis on every product's linked LLVM IR; const-ness from debug info of the definitions."
    rep.assume = ["clang's IR at -O0 represents the C semantics of the source", "assembly functions respect the const qualifiers of their C prototypes"]
