"""Build description of /repo (fragments of the .build files) and bitcode compilation.

Everything here reads /repo's current working tree; nothing is cached between runs.
"""
import concurrent.futures, hashlib, os, subprocess, sys, tempfile, shutil
import xml.etree.ElementTree as ET

REPO = os.environ.get("XK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
XI = "{http://www.w3.org/2001/XInclude}include"

class Broken(Exception):
    """The analysis itself cannot be carried out (exit 2)."""

PICO = "/usr/lib/picolibc/arm-none-eabi/include"
TOOLS = {
    "x86_64": ["--target=x86_64-linux-gnu"],
    "i686": ["--target=i686-linux-gnu", "-msse2"],
    "armv6": ["--target=arm-linux-gnueabi", "-march=armv6"],
    "armv7a": ["--target=arm-linux-gnueabi", "-march=armv7-a"],
    "aarch64": ["--target=aarch64-linux-gnu", "-march=armv8.6-a"],
    "cortex-m0": ["--target=thumbv6m-none-eabi", "-isystem", PICO],
    "cortex-m3": ["--target=thumbv7m-none-eabi", "-isystem", PICO],
}
GCC = {
    "x86_64": ["gcc", "-fPIC"],
    "i686": ["i686-linux-gnu-gcc", "-msse2"],
    "armv6": ["arm-linux-gnueabi-gcc", "-march=armv6", "-mtune=arm1136j-s"],
    "armv7a": ["arm-linux-gnueabi-gcc", "-march=armv7-a", "-mtune=cortex-a15"],
    "aarch64": ["aarch64-linux-gnu-gcc", "-march=armv8.6-a"],
    "cortex-m0": ["arm-none-eabi-gcc", "-march=armv6-m", "-mtune=cortex-m0", "-specs=picolibc.specs"],
    "cortex-m3": ["arm-none-eabi-gcc", "-march=armv7-m", "-mtune=cortex-m3", "-specs=picolibc.specs"],
}
X86 = ("reference reference32bits compact generic32 generic32lc generic64 generic64lc "
       "SSSE3 AVX XOP AVX2 AVX2noAsm AVX512 AVX512noAsm").split()
GENERIC = "generic32 generic32lc generic64 generic64lc".split()
# (tool, low): every product of Makefile.build that the installed toolchains can compile
PRODUCTS = [("x86_64", l) for l in X86]
PRODUCTS += [(t, l) for t in ("i686", "armv6", "armv7a", "aarch64") for l in GENERIC]
PRODUCTS += [("armv6", "ARMv6"), ("armv7a", "ARMv7A"), ("aarch64", "ARMv8A"), ("cortex-m0", "ARMv6M"), ("cortex-m3", "ARMv7M")]


def fragments():
    found = {}
    def walk(node):
        for child in node:
            if child.tag == XI:
                walk(ET.parse(f"{REPO}/{child.get('href')}").getroot())
            elif child.tag == "fragment":
                found[child.get("name")] = child
            else:
                walk(child)
    try:
        walk(ET.parse(f"{REPO}/Makefile.build").getroot())
    except Exception as e:
        raise Broken(f"cannot read the build description: {e}")
    return found

_FR = None
def FR():
    global _FR
    if _FR is None:
        _FR = fragments()
    return _FR

def resolve(names):
    seen, out = set(), []
    def visit(name):
        if name in seen:
            return
        seen.add(name)
        if name not in FR():
            raise Broken(f"no such fragment: {name}")
        node = FR()[name]
        for parent in (node.get("inherits") or "").split():
            visit(parent)
        for e in node:
            if isinstance(e.tag, str):
                item = (e.tag, (e.text or "").strip(), e.get("gcc") or "")
                if item not in out:
                    out.append(item)
    for name in names:
        visit(name)
    return out


class Unit:
    """One C or asm source file with the flags of one product."""
    def __init__(self, tool, low, src, kind, flags, defines, incs):
        self.tool, self.low, self.src, self.kind = tool, low, src, kind
        self.flags, self.defines, self.incs = flags, defines, incs
    def key(self):
        return (self.tool, self.src, tuple(self.flags), tuple(self.defines), tuple(self.incs))

class Product:
    def __init__(self, tool, low, high="All", extra_inc=()):
        self.tool, self.low, self.high = tool, low, high
        self.items = resolve([high, low] if high else [low])
        items = self.items
        self.config = "".join(f"#define {t}\n" for tag, t, _ in items if tag == "config")
        gcc = [t for tag, t, _ in items if tag == "gcc" and not t.endswith("=native") and not t.startswith("-l")]
        self.gas = [t for tag, t, _ in items if tag == "gas"]
        self.dirs = list(dict.fromkeys(os.path.dirname(t) for tag, t, _ in items if tag in ("h", "inc")))
        self.missing = [t for tag, t, _ in items if tag in ("h", "inc", "c", "s") and not os.path.exists(f"{REPO}/{t}")]
        self.defines = [f"-D{t}" for tag, t, _ in items if tag == "define"]
        h = hashlib.sha1(self.config.encode()).hexdigest()[:8]
        self.confdir = os.path.join(workdir(), "conf", h)
        os.makedirs(self.confdir, exist_ok=True)
        with open(f"{self.confdir}/config.h", "w") as f:
            f.write(self.config)
        self.units = []
        for tag, src, own in items:
            if tag not in ("c", "s"):
                continue
            incs = [*extra_inc, self.confdir, *(f"{REPO}/{d}" for d in self.dirs)]
            m = [x for x in [*gcc, *own.split()] if x.startswith("-m")]
            if tag == "s":
                m = list(self.gas)
            self.units.append(Unit(tool, low, src, tag, m, self.defines, incs))
    def name(self):
        return self.low if self.tool == "x86_64" else f"{self.tool}/{self.low}"

_WORK = None
def workdir():
    global _WORK
    if _WORK is None:
        os.makedirs(BUILD, exist_ok=True)
        _WORK = tempfile.mkdtemp(prefix="run.", dir=BUILD)
        import atexit
        atexit.register(lambda: shutil.rmtree(_WORK, ignore_errors=True))
    return _WORK

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

_BC = {}
def compile_bc(units, extra=(), opt=("-O0", "-Xclang", "-disable-O0-optnone", "-g")):
    """Compile C units to bitcode (in parallel, deduplicated). Returns {unit.key(): path}."""
    jobs = {}
    for u in units:
        if u.kind != "c":
            continue
        k = (u.key(), tuple(extra), tuple(opt))
        if k in _BC:
            continue
        jobs[k] = u
    def one(item):
        k, u = item
        out = os.path.join(workdir(), hashlib.sha1(repr(k).encode()).hexdigest()[:16] + ".bc")
        cmd = ["clang", *TOOLS[u.tool], *opt, "-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types", "-w", "-emit-llvm", "-c", *u.flags, *u.defines, *extra,
               *(f"-I{i}" for i in u.incs), f"{REPO}/{u.src}", "-o", out]
        r = run(cmd)
        if r.returncode:
            raise Broken(f"{u.src} ({u.tool}/{u.low}) does not compile: {r.stderr[:600]}")
        return k, out
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for k, out in ex.map(one, jobs.items()):
            _BC[k] = out
    return {u.key(): _BC[(u.key(), tuple(extra), tuple(opt))] for u in units if u.kind == "c"}

def assemble(units):
    """Assemble .s units with the project's assembler (gcc -x assembler). Returns {key: object}."""
    def one(u):
        out = os.path.join(workdir(), hashlib.sha1(repr(u.key()).encode()).hexdigest()[:16] + ".o")
        r = run([*GCC[u.tool], "-x", "assembler", *u.flags, "-c", f"{REPO}/{u.src}", "-o", out])
        if r.returncode:
            raise Broken(f"{u.src} ({u.tool}/{u.low}) does not assemble: {r.stderr[:400]}")
        return u.key(), out
    uniq = {u.key(): u for u in units if u.kind == "s"}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, uniq.values()))

_PRODS = None
def products():
    global _PRODS
    if _PRODS is None:
        _PRODS = [Product(t, l) for t, l in PRODUCTS]
    return _PRODS

def islib(src):
    return src.startswith("lib/") or src.startswith("Standalone/")

def rel(path):
    return os.path.relpath(path, REPO) if path.startswith("/") else path

# every low-level fragment on its own (covers the implementations no product selects)
def low_fragment_products():
    used = set()
    for t, l in PRODUCTS:
        seen = set()
        def visit(n):
            if n in seen: return
            seen.add(n)
            for p in (FR()[n].get("inherits") or "").split(): visit(p)
        visit(l); used |= seen
    out = []
    for n in sorted(FR()):
        if not n.startswith(("K1600", "Xoodoo")) or n in used or "AVR8" in n or "Apple" in n or n in ("K1600",):
            continue
        items = resolve([n])
        if not any(t == "c" or t == "s" for t, _, _ in items):
            continue
        tool = "x86_64"
        if "ARMv6M" in n or n.endswith("ARMv6"): tool = "cortex-m0" if "ARMv6M" in n else "armv6"
        if "ARMv7M" in n: tool = "cortex-m3"
        if "ARMv7A" in n: tool = "armv7a"
        if "ARMv8A" in n: tool = "aarch64"
        base = {"K1600x2": ["K1600-plain-64bits-ua"], "K1600x4": ["K1600-plain-64bits-ua", "K1600x2-on1"], "K1600x8": ["K1600-plain-64bits-ua", "K1600x2-on1", "K1600x4-on2"],
                "Xoodoox4": ["Xoodoo-plain-ua"], "Xoodoox8": ["Xoodoo-plain-ua", "Xoodoox4-on1"], "Xoodoox16": ["Xoodoo-plain-ua", "Xoodoox4-on1", "Xoodoox8-on1"]}.get(n.split("-")[0], [])
        if not n.endswith(("-on1", "-on2", "-on4")):
            base = []
        p = Product.__new__(Product)
        FR()["@" + n] = ET.fromstring(f'<fragment name="@{n}" inherits="{" ".join(base + [n])}"/>')
        p.__init__(tool, "@" + n, None)
        out.append(p)
    return out
