"""Shared model of the boundary indexes (wh.c, wh_int.c): which functions are analysed in place, which are summarised,
and what the support library's locks and grace periods do."""
import re
import pipeline
from engine import *
from terms import *
from divamodel import has_loop, summary_of, NEW, DEL, PURE

VARIANTS = (0, 1)
ENTRY = re.compile(r"^(wormhole|whsafe|whunsafe)_")
LOCK = re.compile(r"^(rwlock|spinlock|mutex)_(.*)$")


def libfns():
    """functions of the support library: never analysed in place"""
    r = set()
    for c in ("lib.c", "kv.c"):
        m = pipeline.Module(pipeline.c_bc(c))
        r |= {n for n, f in m.fns.items() if not f.decl}
    return r - {"u64_to_ptr", "ptr_to_u64", "entry13", "entry13_update_e3"}


_raw = {}


def raw(var):
    if var not in _raw:
        m = pipeline.Module(pipeline.wh_bc(var))
        lib = libfns()
        info = {}
        for n, f in m.fns.items():
            if f.decl or n in lib:
                continue
            m.body(n)
            cs, ind = set(), False
            for b in f.blocks:
                for i in b.insts:
                    if i.op in ("call", "invoke") and not i.dbg:
                        if i.callee.kind == "fn":
                            cs.add(i.callee.v)
                        elif i.callee.kind != "asm":
                            ind = True
            info[n] = (cs, ind, has_loop(f), f)
        _raw[var] = (m, lib, info)
    return _raw[var]


def module(var, event, tag, keep=frozenset(), extra=frozenset(), own=frozenset()):
    """event(name) -> bool for callees that matter.  Own functions that reach an event, and loop-free ones, are inlined
    into the public entry points; loops without events are summarised by what they may write.  Functions in `keep` are
    never inlined, those in `extra` are entry points as well; functions in `own` count as events themselves."""
    m, lib, info = raw(var)
    ev = {n: n in own or ind or any(event(c) for c in cs) for n, (cs, ind, lp, f) in info.items()}
    rec = {n: n in cs for n, (cs, ind, lp, f) in info.items()}
    ch = True
    while ch:
        ch = False
        for n, (cs, ind, lp, f) in info.items():
            if not ev[n] and any(ev.get(c) for c in cs):
                ev[n] = ch = True
    # mutual recursion
    def reach(n):
        seen, st = set(), list(info[n][0])
        while st:
            x = st.pop()
            if x in info and x not in seen:
                seen.add(x)
                st += info[x][0]
        return seen
    for n in info:
        if n in reach(n):
            rec[n] = True
    opaque = {n for n, (cs, ind, lp, f) in info.items() if rec[n] or (lp and not ev[n]) or n in keep}
    ent = {n for n in info if ENTRY.match(n) and pipeline.is_external(m, n)} | (set(extra) & set(info))
    mod = pipeline.wh_module(var, lambda n: n not in lib and n not in opaque, lambda n: n in ent, tag, inline_entries=not extra)
    mod.entries_ = sorted(n for n in ent if n in mod.fns)
    mod.events_ = ev
    mod.opaque_ = opaque
    return mod


class WhClient(Client):
    """memory effects of the support library and of summarised helpers"""

    def __init__(self, mod, var):
        self.mod = mod
        self.var = var
        self.count = {}

    def hit(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def on_call(self, eng, st, i, callee, args):
        return None

    def call(self, eng, st, i, callee, args):
        if callee in ("atomicrmw", "cmpxchg", "fence"):
            return NotImplemented
        r = self.on_call(eng, st, i, callee, args)
        if r is not None:
            return r
        if not isinstance(callee, str):
            return NotImplemented
        if callee in ("malloc", "calloc", "aligned_alloc"):
            t = eng.fresh(st, ("new", i.id), ptr=True)
            st.env[i.id] = t
            return None
        if callee in DEL or callee in PURE:
            return None
        f = self.mod.fns.get(callee)
        if f is not None and not f.decl:
            for w in summary_of(self.mod, callee).writes:
                if w[0] == "direct" and w[1] < len(args) and (args[w[1]].ptr or args[w[1]].op == "lin"):
                    b, o, v = addr_parts(args[w[1]])
                    lo = o + (w[2] or 0)
                    eng.clobber(st, b, ("op", i.id, w[1], w[2] or 0), lo,
                                lo + w[3] if w[3] is not None and v is None and w[2] is not None else None)
            if i.ty.kind != "void":
                st.env[i.id] = eng.fresh(st, ("r", i.id), w=width(i.ty), ptr=i.ty.kind == "ptr")
            return None
        return NotImplemented


_job = []


def _one(n):
    mod, var, mkc = _job[-1]
    c = mkc(mod, var, n)
    e = Engine(mod, n, c)
    try:
        v = e.run()
    except AnalysisError as x:
        # what was found before the analysis gave up stands; otherwise the function is recorded as undecided
        return e.viol, dict(c.count), {"function": n, "undecided": str(x)[:200]}
    return v, dict(c.count), {"function": n, "index": "wh_int.c" if var else "wh.c", "blocks": e.stats["blocks"],
                              "states": e.stats["states"]}


def run_all(mod, var, names, mkc, viol, cov, tot):
    """analyses the entry points in parallel (results are in the order of names)"""
    import multiprocessing as mp
    import sys
    _job.append((mod, var, mkc))
    for n in names:
        mod.body(n)
    sys.stdout.flush()
    with mp.get_context("fork").Pool(8) as p:
        for v, cnt, f in p.imap(_one, names, 1):
            viol += v
            for k, x in cnt.items():
                tot[k] = tot.get(k, 0) + x
            cov["functions"].append(f)
    _job.pop()
