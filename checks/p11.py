"""No secret-dependent control flow, address, length or variable-time operation in C code."""
import os, re, collections
import xk, flow, p12

VERIFY = re.compile(r"(Unwrap|Decipher|Verify)", re.I)

def roots(f):
    callers = collections.defaultdict(set)
    for a, b in f.rec["CALL"]:
        callers[b].add(a)
    linkage = {x[0]: x[1] for x in f.rec["FUN"]}
    memo = {}
    def up(fn):
        seen, todo, out = set(), [fn], set()
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if linkage.get(x) == "extern":
                out.add(x)
            if linkage.get(x) != "extern":
                todo += callers[x]
        return out
    return up

def check(rep):
    prods = p12.compilable(rep, flow.all_products())
    rep.require(len(prods) >= 40, f"only {len(prods)} products compile")
    fl = flow.flows([p for p in prods if not p.low.startswith('Standalone/')])
    tot = collections.Counter()
    allowed = set()
    for f in fl:
        up = roots(f)
        for k, v in f.stat.items():
            tot[k] += v
        n = f.stat.get("branches", 0) + f.stat.get("addresses", 0)
        bad = 0
        for kind, fn, loc, where, ins in f.rec["SINK"]:
            rs = up(fn)
            if kind in ("branch", "switch") and where == "once" and rs and all(VERIFY.search(x) for x in rs):
                allowed.add((fn, "accept/reject decision"))
                continue
            bad += 1
            what = {"branch": "branches on secret data", "switch": "branches on secret data", "address": "accesses memory at a secret-dependent address",
                    "length": "copies a secret-dependent number of bytes", "division": "divides secret data", "memcmp": "compares secret data with a variable-time library function"}[kind]
            rep.violation(f"{kind}:{fn}:{re.sub('.*/', '', xk.rel(loc).split(':')[0])}", f"{xk.rel(loc)} ({fn})", f"{what} (product {f.name}): {ins[:100]}")
        rep.obl += n
        rep.dis += n - bad
        rep.sample(f"{f.name}: {f.stat.get('branches')} branches, {f.stat.get('addresses')} memory accesses, {f.stat.get('taintedValues')} secret-dependent values")
    rep.require(tot["taintedValues"] > 50000, "hardly any secret-dependent value found: the analysis lost its sources")
    src = os.path.join(xk.workdir(), "self11.c")
    with open(src, "w") as f:
        f.write("#include <string.h>\nstruct I {unsigned char s[8]; unsigned n;};\nstatic unsigned g(const unsigned char *p){unsigned x=0; for(int i=0;i<4;i++) x+=p[i]; return x;}\nint f(const unsigned char *b, unsigned char *o, struct I *s){ if (s->n>3) return 1; if (g(b)>4) return 2; o[s->s[1]&7]=1; memcpy(o, b, b[1]); return memcmp(b,o,4)!=0; }\n")
    bc = src + ".bc"
    xk.run(["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-c", src, "-o", bc])
    r = xk.run([xk.BUILD + "/xkflow", bc])
    kinds = [l.split("\t")[1] for l in r.stdout.splitlines() if l.startswith("SINK")]
    rep.require(sorted(kinds) == ["address", "branch", "length", "memcmp"], f"self-test: {kinds}")
    rep.cov.update(products=len(fl), **tot)
    rep.cov["accept_reject_decisions"] = sorted(x[0] for x in allowed)
    rep.rules = ["no conditional branch, switch, memory address, copy length or variable division depends on the contents of caller buffers, keys or permutation states",
                 "exempt: a single (non-loop) accept/reject branch in an unwrap/decipher function, and values that are a partial byte under its public delimiter bit"]
    rep.expl = "Interprocedural taint analysis (field-sensitive for instance structs, flow-insensitive memory) on every product's linked LLVM IR before optimisation; sources are all buffer contents and state bytes, sinks are branches, addresses, lengths, divisions and memcmp."
    rep.assume = ["lengths, offsets, control fields of instances and all scalar parameters are public", "a compiler does not introduce secret-dependent branches the source does not have", "assembly implementations are not covered by this property"]
