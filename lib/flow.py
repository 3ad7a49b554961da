"""Runs xkflow over every product and parses its records."""
import concurrent.futures, os, re, subprocess, collections
import xk

class Flow:
    def __init__(self, name):
        self.name = name
        self.rec = collections.defaultdict(list)
        self.stat = {}

def untraced(p):
    """The tracing build of the reference code (KeccakReference) prints intermediate values; analyse it without."""
    for u in p.units:
        u.defines = [d for d in u.defines if not d.startswith("-DKeccakReference")] + ([d for d in u.defines if d == "-DKeccakReference32BI"] and [])
    return p

def prototypes(p, units):
    """const-ness of pointer parameters of the functions implemented in assembly, from their C prototypes (clang AST)."""
    if not any(u.kind == "s" for u in p.units):
        return None
    src = os.path.join(xk.workdir(), f"proto_{re.sub('[^A-Za-z0-9]', '_', p.name())}.c")
    hdrs = []
    for tag, t, _ in p.items:
        if tag == "h" and t.endswith("SnP.h"):
            hdrs.append(t)
    own = [xk.REPO + "/" + t for t in hdrs]
    with open(src, "w") as f:
        f.write("#include <stdint.h>\n#include <stddef.h>\n#include <string.h>\n" + "".join(f'#include "{h}"\n' for h in own))
        x = xk.REPO + "/lib/high"
        for h in ("Xoofff/Xoofff.h",):
            f.write(f'#include "{x}/{h}"\n')
    u = p.units[0]
    r = xk.run(["clang", *xk.TOOLS[p.tool], "-fsyntax-only", "-w", "-Xclang", "-ast-dump", "-fno-color-diagnostics", *(f"-I{i}" for i in u.incs), src])
    out = {}
    protos(r.stdout, out)
    # prototypes declared inside high-level sources
    for un in units:
        if un.kind == "c" and un.src.startswith("lib/high"):
            r = xk.run(["clang", *xk.TOOLS[p.tool], "-fsyntax-only", "-w", "-Xclang", "-ast-dump", "-Wno-error=implicit-function-declaration", "-fno-color-diagnostics", *un.flags, *un.defines, *(f"-I{i}" for i in un.incs), f"{xk.REPO}/{un.src}"])
            protos(r.stdout, out)
    path = src + ".proto"
    with open(path, "w") as f:
        for k, v in sorted(out.items()):
            f.write(f"{k} {v}\n")
    return path

def protos(text, out):
    for l in text.splitlines():
        m = re.search(r"FunctionDecl 0x.* (\w+) '([^']*)\(([^']*)\)'", l)
        if m:
            ps = [a.strip() for a in m.group(3).split(",")]
            out[m.group(1)] = "".join("c" if a.startswith("const ") and "*" in a else "m" for a in ps) or "m"

def flows(prods):
    units = [u for p in prods for u in p.units if u.src.startswith(("lib/", "Standalone/", "@"))]
    bc = xk.compile_bc(units)
    def one(p):
        us = [u for u in p.units if u.src.startswith(("lib/", "Standalone/"))]
        files = list(dict.fromkeys(bc[u.key()] for u in us if u.kind == "c"))
        f = Flow(p.name())
        f.product = p
        if not files:
            return f
        pr = prototypes(p, us)
        r = xk.run([xk.BUILD + "/xkflow", *(["-P", pr] if pr else []), *files])
        if r.returncode:
            raise xk.Broken(f"xkflow failed on {p.name()}: {r.stderr[:500]}")
        for l in r.stdout.splitlines():
            x = l.split("\t")
            f.rec[x[0]].append(x[1:])
        for s in f.rec["STAT"][0]:
            k, v = s.split("=")
            f.stat[k] = int(v)
        return f
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, prods))

def standalone_products():
    """The self-contained C implementations."""
    out = []
    C = "Standalone/CompactFIPS202/C"
    for n, srcs in (("more-compact", ["Keccak-more-compact.c"]), ("readable", ["Keccak-readable-and-compact.c"]), ("tweetable", ["TweetableFIPS202.c", "TweetableFIPS202-stub.c"])):
        p = xk.Product.__new__(xk.Product)
        p.tool, p.low, p.high, p.items, p.config, p.missing = "x86_64", "Standalone/" + n, None, [], "", []
        p.units = [xk.Unit("x86_64", p.low, f"{C}/{s}", "c", [], [], []) for s in srcs]
        out.append(p)
    return out

def all_products():
    return [untraced(p) for p in xk.products()] + xk.low_fragment_products() + standalone_products()
