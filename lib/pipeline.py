"""Builds the IR the analyses read, from /repo's current working tree, in a scratch directory."""
import atexit, os, re, shutil, subprocess, sys, tempfile
from irlib import *

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_scratch = None


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf_")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


CXX = ["clang++-18", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-Xclang", "-mno-constructor-aliases",
       "-fno-exceptions", "-DNDEBUG",
       "-march=haswell", "-g", "-w", "-emit-llvm", "-c"]
CC = ["clang-18", "-std=gnu11", "-O1", "-Xclang", "-disable-llvm-passes", "-DNDEBUG", "-D__x86_64__",
      "-march=haswell", "-g", "-w", "-emit-llvm", "-c"]
CLEAN = "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg"
PASSES = f"always-inline,globaldce,function({CLEAN},{CLEAN})"


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("command failed: " + " ".join(cmd) + "\n" + r.stderr[:3000])


def incs():
    return ["-I" + REPO + "/include", "-I" + REPO + "/include/wormhole"]


_c = {}


def diva_bc():
    if "diva" not in _c:
        o = os.path.join(scratch(), "diva.bc")
        run(CXX + incs() + [os.path.join(HERE, "drivers", "diva_drv.cpp"), "-o", o])
        _c["diva"] = o
    return _c["diva"]


def c_bc(name):
    k = "c:" + name
    if k not in _c:
        o = os.path.join(scratch(), name.replace("/", "_") + ".bc")
        run(CC + incs() + [os.path.join(REPO, "include", "wormhole", name), "-o", o])
        _c[k] = o
    return _c[k]


STD_OPAQUE = ("std::sort", "std::__intro", "std::__final_ins", "std::__unguarded", "std::__insertion", "std::__heap",
              "std::__adjust", "std::__partial", "std::__move_median", "std::__push", "std::__pop", "std::__make_heap",
              "mersenne_twister", "std::lower_bound", "std::__lower_bound", "std::upper_bound", "std::__upper_bound",
              "std::stable_sort", "std::basic_ostream", "std::ios", "std::setw", "std::setfill")


def is_opaque_std(d):
    h = d.split("(")[0] if not d.startswith("void std::") else d
    return any(d.startswith(p) or (" " + p) in h or h.startswith(p) or p in d.split("<")[0] for p in STD_OPAQUE)


PUBLIC = ("Insert(unsigned char", "Delete(unsigned char", "PointQuery(unsigned char", "RangeQuery(unsigned char",
          "~Diva", "Diva(", "Diva<", "ShrinkInfixSize(", "Size(", "Serialize(", "BulkLoadStreaming(unsigned char",
          "BulkLoadStreamingFinish(")


def local(d):
    """a lambda or a member of a class declared inside a function"""
    d = re.sub(r"operator(<=>|<<=?|>>=?|<=?|>=?|->\*?)", "operator", d.replace("(anonymous namespace)", ""))
    out, depth = [], 0
    for ch in d:
        depth += ch == "<"
        if not depth:
            out.append(ch)
        depth -= ch == ">"
    return bool(re.search(r"\)( const)?( &{1,2})?::", "".join(out)))


def method(d):
    """Diva<b>::name(args) -> name(args); None for other functions, also for what is local to a method (lambdas)"""
    head = d
    if local(d):
        return None
    depth = 0
    for k, ch in enumerate(d):
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == "(" and depth == 0:
            head = d[:k]
            break
    ms = list(re.finditer(r"(?:^| )Diva<(true|false)>::", head))
    if not ms:
        return None
    return d[ms[-1].end():]


def is_entry(d):
    m = method(d)
    return m is not None and any(m.startswith(p) for p in PUBLIC) and "::" not in m.split("(")[0].split("<")[0]


def variant(d):
    return 1 if d.startswith("Diva<true>") else 0


class Layout:
    """constants exported by the driver"""

    def __init__(self, mod):
        self.v = {}
        for n, g in mod.globs.items():
            if n.startswith("vf_"):
                self.v[n[3:]] = ZExt(GetInit(g))

    def __getitem__(self, k):
        return self.v[k]


def diva_module(keep=(), tag="all", entries=is_entry, inline_extra=None):
    """IR of the public operations with every helper inlined, except functions whose method name is in `keep`."""
    k = "divamod:" + tag
    if k in _c:
        return _c[k]
    keep = set(keep)

    def mname(d):
        m = method(d)
        return m.split("(")[0] if m else None

    def ent(n, d):
        # complete-object constructors and destructors only forward to the base-object ones
        return entries(d) and not re.match(r"_ZN4DivaILb[01]EE(C1|D1|D0)", n)

    def inl(n, d):
        if is_opaque_std(d):
            return False
        return mname(d) not in keep
    o = os.path.join(scratch(), "diva_" + tag + ".bc")
    prep(diva_bc(), o, inl, ent, PASSES)
    m = Module(o)
    m.layout = Layout(m)
    _c[k] = m
    return m


def c_module(name, inline_pred, entry_pred, tag):
    k = "cmod:" + name + tag
    if k in _c:
        return _c[k]
    o = os.path.join(scratch(), name.replace("/", "_") + tag + ".bc")
    prep(c_bc(name), o, inline_pred, entry_pred, PASSES)
    m = Module(o)
    _c[k] = m
    return m


def wh_bc(var):
    """one boundary index (0: byte keys, 1: integer keys) linked with the support library"""
    k = "wh%d" % var
    if k not in _c:
        d = os.path.join(scratch(), "whdrv%d.bc" % var)
        run(CC + incs() + (["-DVF_INT"] if var else []) + [os.path.join(HERE, "drivers", "wh_drv.c"), "-o", d])
        o = os.path.join(scratch(), "wh%d.bc" % var)
        run(["llvm-link-18", d, c_bc("kv.c"), c_bc("lib.c"), "-o", o])
        _c[k] = o
    return _c[k]


def is_external(mod, name):
    return GetLinkage(mod.fns[name].ref) == 0


def wh_module(var, inline_pred, entry_pred, tag, inline_entries=False):
    k = "whmod%d:%s" % (var, tag)
    if k in _c:
        return _c[k]
    o = os.path.join(scratch(), "wh%d_%s.bc" % (var, tag))
    prep(wh_bc(var), o, lambda n, d: inline_pred(n), lambda n, d: entry_pred(n), PASSES, inline_entries=inline_entries)
    m = Module(o)
    m.layout = Layout(m)
    _c[k] = m
    return m
