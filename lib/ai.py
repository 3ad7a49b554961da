"""Abstract-interpretation units: library sources + contract model + most-general client,
analysed by engine/xkai.cpp (a polyhedral abstract interpreter for LLVM IR)."""
import concurrent.futures, hashlib, os, subprocess
import xk

class Unit:
    def __init__(self, name, src, model, client, entries, props, inc=("snp",), defs=(), target="x86_64", conf=("XKCP_has_KeccakP1600",), t=300, tier="quick", opts=(), reach=(), pre=()):
        self.__dict__.update(locals())

UNITS = []
def unit(*a, **k):
    UNITS.append(Unit(*a, **k))

def highdirs():
    out = []
    for d, _, fs in sorted(os.walk(f"{xk.REPO}/lib/high")):
        out.append(d)
    return out + [f"{xk.REPO}/lib/common"]

def build(u):
    M = f"{xk.VERIF}/model"
    conf = os.path.join(xk.workdir(), "aiconf." + hashlib.sha1(repr(u.conf).encode()).hexdigest()[:8])
    os.makedirs(conf, exist_ok=True)
    if not os.path.exists(f"{conf}/config.h"):          # units are built concurrently
        tmp = f"{conf}/{u.name}.tmp"
        with open(tmp, "w") as f:
            f.write("".join(f"#define {c}\n" for c in u.conf))
        os.replace(tmp, f"{conf}/config.h")
    incs = [f"-I{xk.REPO}/{d}" if d.startswith("lib/") else f"-I{M}/{d}" for d in u.inc] + [f"-I{M}", f"-I{conf}"] + [f"-I{d}" for d in highdirs()]
    files = [f"{xk.REPO}/{s}" for s in u.src] + [f"{M}/{s}" for s in u.model] + [f"{M}/{u.client}"]
    out = []
    for i, s in enumerate(files):
        o = os.path.join(xk.workdir(), f"ai.{u.name}.{i}.bc")
        r = xk.run(["clang", *xk.TOOLS[u.target], "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-builtin", "-emit-llvm", "-c", *incs, *(f"-D{d}" for d in u.defs), *(x for p in u.pre for x in ("-include", f"{M}/{p}")), s, "-o", o])
        if r.returncode:
            raise xk.Broken(f"{xk.rel(s)} does not compile against the contract model ({u.name}): {r.stderr[:800]}")
        out.append(o)
    return out

class Ob:
    __slots__ = ("ok", "kind", "id", "fn", "where", "n", "msg", "unit", "api")

def analyse(units, tier="thorough"):
    """Run every (unit, entry); returns {unit.name: ([Ob], [entries])}."""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(build, units))
    jobs = [(u, bc, e.lstrip('+')) for u, bc in zip(units, bcs) for e in dict.fromkeys(u.entries) if tier == "thorough" or e[0] != '+']   # +: thorough only
    jobs.sort(key=lambda j: -j[0].t)
    def one(j):
        u, bc, e = j
        e, *eo = e.split()
        try:
            r = xk.run([f"{xk.BUILD}/xkai", *bc, "-e", e, "-t", str(u.t), *u.opts, *eo], timeout=u.t + 60)
        except subprocess.TimeoutExpired:
            raise xk.Broken(f"{u.name}/{e}: analysis timed out")
        if r.returncode:
            raise xk.Broken(f"{u.name}/{e}: analysis gave no answer: {r.stderr.strip()[-300:]}")
        obs = []
        for l in r.stdout.splitlines():
            p = l.split("\t")
            if p[0] == "OB":
                o = Ob()
                o.ok, o.kind, o.id, o.fn, o.where, o.n, o.msg = p[1] == "ok", p[2], p[3], p[4], p[5], int(p[6]), (p[7] if len(p) > 7 else "")
                o.api = o.msg.rsplit('] ', 1)[1].strip() if '] ' in o.msg else o.fn
                o.unit = u.name
                obs.append(o)
        return u.name, e, obs
    res = {u.name: ([], []) for u in units}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for n, e, obs in ex.map(one, jobs):
            res[n][0].extend(obs); res[n][1].append(e)
    return res

_SELF = """#include "xk.h"
struct S { unsigned i; unsigned char b[8]; };
void good(void){ struct S s; unsigned n = xk_range32(0, 8), i; for(i = 0; i < n; i++) s.b[i] = 0; s.i = n; xk_assert(s.i <= 8, "P01:good"); }
void bad(void){ struct S s; unsigned n = xk_range32(0, 9), i; for(i = 0; i < n; i++) s.b[i] = 0; s.i = n; xk_assert(s.i <= 7, "P01:bad"); }
"""
def selftest(rep):
    src = os.path.join(xk.workdir(), "aiself.c")
    with open(src, "w") as f:
        f.write(_SELF)
    xk.run(["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", f"-I{xk.VERIF}/model", "-emit-llvm", "-c", src, "-o", src + ".bc"])
    r = xk.run([f"{xk.BUILD}/xkai", src + ".bc", "-e", "good", "-e", "bad", "-t", "60"])
    ls = [l.split("\t") for l in r.stdout.splitlines() if l.startswith("OB\t")]
    bad = {(p[2], p[4]) for p in ls if p[1] != "ok"}
    rep.require(bad == {("MEM", "bad"), ("P01", "bad")}, f"self-test of the abstract interpreter failed: {bad} {r.stderr[-200:]}")

def check(rep, prop, rule, expl, minobs, mem=False, also=lambda u: True):
    import units  # noqa: fills UNITS
    us = [u for u in UNITS if prop in u.props and (u.tier == "quick" or rep.tier == "thorough")]
    rep.require(us, "no analysis unit")
    selftest(rep)
    res = analyse(us, rep.tier)
    fns, total, reached = set(), 0, 0
    ids = set()
    for u in us:
        obs, entries = res[u.name]
        marks = {o.id for o in obs if o.kind == "REACH"}
        mine = [o for o in obs if prop in o.kind.split('+') or (mem and o.kind == "MEM")]
        for m in u.reach:
            if m not in marks and not any(not o.ok for o in obs):
                raise xk.Broken(f"{u.name}: the analysis never reaches '{m}'")
        reached += len(marks)
        for o in mine:
            rep.obl += 1; total += o.n
            inlib = o.where.startswith(xk.REPO + "/")
            if inlib:
                fns.add(o.fn)
            ids.add(o.id)
            if o.ok:
                rep.dis += 1
            else:
                rep.violation(f"{'MEM' if o.kind == 'MEM' else prop}|{o.id}|{o.api}", f"{xk.rel(o.where)} ({o.fn})", f"{o.id} [{u.name}] {o.msg[:200]}")
        rep.require(mine, f"{u.name}: no {prop} obligation")
        rep.sample(f"{u.name}: {len(mine)} obligations of {prop} over entries {', '.join(entries)}; reached: {', '.join(sorted(marks))}", 40)
    rep.require(rep.obl >= minobs, f"only {rep.obl} obligations")
    rep.cov.update(units=len(us), library_functions=len(fns), obligation_instances=total, reach_marks=reached, distinct_rules=len(ids))
    rep.rules = [rule] + sorted(ids)[:60]
    rep.expl = expl
    rep.assume = ["clang's IR at -O0 represents the C semantics of the source", "the contract models in /verif/model describe the permutation interface (its implementations are the subject of P03, P10 and P16)",
                  "caller objects are valid, disjoint and smaller than 2^58 bytes (2^30 on 32-bit targets)"]
