"""Shared model of the filter's environment: boundary-index API, allocator, opaque helpers."""
import re
import pipeline
from engine import *
from terms import *

API = re.compile(r"^(wh|wormhole|wormleaf|whsafe)_(int_)?(.*)$")
NEW = {"_Znam", "_Znwm", "malloc", "calloc", "_ZnamRKSt9nothrow_t", "_ZnwmRKSt9nothrow_t", "aligned_alloc"}
DEL = {"_ZdaPv", "_ZdlPv", "_ZdaPvm", "_ZdlPvm", "free"}
PURE = {"memcmp", "strlen", "strnlen", "bcmp", "memchr", "strcmp"}
EVENT_PREFIX = ("wh_", "wh_int_", "wormhole_", "wormleaf_", "whsafe_")


def api(name):
    """-> operation name without the variant marker, or None"""
    if not isinstance(name, str):
        return None
    m = API.match(name)
    if not m:
        return None
    pre, _, op = m.groups()
    if pre == "wormleaf":
        return "leaf_" + op
    return op


def is_event(name):
    return name.startswith(EVENT_PREFIX) or name in NEW or name in DEL


_keep = None


def event_free_helpers():
    """methods of the filter that (transitively) touch neither the index nor the allocator and contain a loop or are
    large: analysed through a mod summary instead of being inlined"""
    global _keep
    if _keep is not None:
        return _keep
    m = pipeline.Module(pipeline.diva_bc())
    calls, ev, big = {}, {}, {}
    for n, f in m.fns.items():
        if f.decl:
            continue
        m.body(n)
        calls[n] = set()
        ev[n] = False
        size = 0
        for b in f.blocks:
            size += len(b.insts)
            for i in b.insts:
                if i.op in ("call", "invoke"):
                    if i.callee.kind == "fn":
                        calls[n].add(i.callee.v)
                        if is_event(i.callee.v):
                            ev[n] = True
                    elif i.callee.kind not in ("asm",):
                        ev[n] = True
        big[n] = size
    ch = True
    while ch:
        ch = False
        for n in calls:
            if not ev[n] and any(ev.get(c, False) for c in calls[n]):
                ev[n] = True
                ch = True
    loops = {n: has_loop(m.fns[n]) for n in calls}
    ch = True
    while ch:
        ch = False
        for n in calls:
            if not loops[n] and any(loops.get(c, False) for c in calls[n]):
                loops[n] = True
                ch = True
    res = set()
    evm = set()
    for n in calls:
        mt = pipeline.method(m.fns[n].dem)
        if mt is None or pipeline.is_entry(m.fns[n].dem):
            continue
        nm = mt.split("(")[0]
        if ev[n]:
            evm.add(nm)
        elif loops[n]:
            res.add(nm)
    _keep = res - evm
    return _keep


def has_loop(f):
    color = {}
    st = [(f.blocks[0], iter(f.blocks[0].succs))]
    color[f.blocks[0]] = 1
    while st:
        b, it = st[-1]
        for s in it:
            c = color.get(s)
            if c == 1:
                return True
            if c is None:
                color[s] = 1
                st.append((s, iter(s.succs)))
                break
        else:
            color[b] = 2
            st.pop()
    return False


class ModSummary:
    """which objects a helper may write: ('direct', param, offset, size) or ('deref', param) / ('other',)"""

    def __init__(self, mod, fname, busy=()):
        busy = tuple(busy) + (fname,)
        self.writes = set()
        self.derefs = set()       # parameters through whose pointer fields memory is accessed
        f = mod.body(fname)
        if f.decl:
            self.writes.add(("unknown",))
            return
        def roots(v, seen, off=0):
            if v.kind == "arg":
                return {("arg", v.v, off)}
            if v.kind == "glob":
                return {("glob",)}
            if v.kind != "inst":
                return set()
            i = v.v
            if (i.id, off) in seen:
                return set()
            seen.add((i.id, off))
            if i.op == "gep":
                b, o, var = i.gep
                if off is None:
                    return roots(b, seen, None)
                return roots(b, seen, off + o) if not var else \
                    {(r[0], r[1], r[2], True) if r[0] == "arg" and r[2] is not None else r
                     for r in roots(b, seen, off + o)}
            if i.op in ("bitcast", "inttoptr", "ptrtoint", "freeze"):
                return roots(i.ops[0], seen, off)
            if i.op in ("add", "sub"):
                return roots(i.ops[0], seen, None) | roots(i.ops[1], seen, None)
            if i.op == "phi":
                r = set()
                for _, x in i.inc:
                    r |= roots(x, seen, None)
                return r
            if i.op == "select":
                return roots(i.ops[1], seen, off) | roots(i.ops[2], seen, off)
            if i.op == "alloca":
                return {("alloca", i.id)}
            if i.op == "load":
                r = set()
                for x in roots(i.ops[0], seen, 0):
                    if x[0] == "arg":
                        r.add(("deref", x[1]))
                    elif x[0] == "alloca":
                        r.add(("localptr",))
                    else:
                        r.add(x)
                return r
            return {("unknown",)}
        for b in f.blocks:
            for i in b.insts:
                tgt = []
                if i.op in ("load", "store"):
                    for r in roots(i.ops[-1], set()):
                        if r[0] == "deref":
                            self.derefs.add(r[1])
                if i.op == "store":
                    tgt = [(i.ops[1], i.ops[0].ty.size)]
                elif i.op in ("call", "invoke") and not i.dbg:
                    if i.callee.kind == "fn":
                        n = i.callee.v
                        if n.startswith("llvm.mem"):
                            tgt = [(i.ops[0], None)]
                            for v in i.ops[:2]:
                                for r in roots(v, set()):
                                    if r[0] == "deref":
                                        self.derefs.add(r[1])
                        elif n.startswith("llvm.") or n in PURE:
                            tgt = []
                        else:
                            g = mod.fns.get(n)
                            if g is not None and not g.decl and n not in busy:
                                sub = summary_of(mod, n, busy)
                                for w in sub.writes:
                                    if w[0] == "direct" and w[1] < len(i.ops):
                                        for r in roots(i.ops[w[1]], set()):
                                            if r[0] == "arg":
                                                o2 = None if r[2] is None or w[2] is None else r[2] + w[2]
                                                self.writes.add(("direct", r[1], o2, w[3] if len(r) == 3 else None))
                                            elif r[0] == "deref":
                                                self.writes.add(r)
                                            elif r[0] not in ("alloca", "localptr"):
                                                self.writes.add(("unknown",))
                                    elif w[0] == "deref" and w[1] < len(i.ops):
                                        for r in roots(i.ops[w[1]], set()):
                                            if r[0] == "arg":
                                                self.writes.add(("deref", r[1]))
                                for k in sub.derefs:
                                    if k < len(i.ops):
                                        for r in roots(i.ops[k], set()):
                                            if r[0] == "arg":
                                                self.derefs.add(r[1])
                            else:
                                tgt = [(o, None) for o in i.ops if o.ty.kind == "ptr"]
                elif i.op in ("atomicrmw", "cmpxchg"):
                    tgt = [(i.ops[0], 8)]
                for v, sz in tgt:
                    for r in roots(v, set()):
                        if r[0] == "arg":
                            self.writes.add(("direct", r[1], r[2], sz if len(r) == 3 else None))
                        elif r[0] == "deref":
                            self.writes.add(r)
                        elif r[0] in ("alloca", "localptr"):
                            pass
                        else:
                            self.writes.add(("unknown",))


_sums = {}


def summary_of(mod, fname, busy=()):
    k = (id(mod), fname)
    if k not in _sums:
        _sums[k] = ModSummary(mod, fname, busy)
    return _sums[k]


class DivaClient(Client):
    """memory effects of the environment; subclasses add the typestate"""

    def __init__(self, mod, var):
        self.mod = mod
        self.var = var
        self.L = mod.layout
        self.leaf_off = self.L["iter_leaf_%d" % var]
        self.ptr_off = self.L["store_ptr_%d" % var]
        self.modsum = {}
        self.count = {}

    def hit(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def summary(self, name):
        return summary_of(self.mod, name)

    # hooks for subclasses -------------------------------------------------------------------
    def on_api(self, eng, st, i, op, args):
        pass

    def on_new(self, eng, st, i, t, args):
        pass

    def on_del(self, eng, st, i, p):
        pass

    def on_opaque(self, eng, st, i, name, args):
        pass

    # -----------------------------------------------------------------------------------------
    def call(self, eng, st, i, callee, args):
        if not isinstance(callee, str):
            return NotImplemented
        if callee in ("atomicrmw", "cmpxchg", "fence"):
            return NotImplemented
        if callee in NEW:
            t = eng.fresh(st, ("new", i.id), ptr=True)
            self.drop_object(st, t)
            if not self.nullable_new(callee):
                st.facts[icmp("eq", t, const(0))] = False
            st.env[i.id] = t
            self.hit("alloc")
            return self.on_new(eng, st, i, t, args)
        if callee in DEL:
            self.hit("free")
            return self.on_del(eng, st, i, args[0])
        if callee in PURE:
            st.env[i.id] = mk("pcall", callee, *args, self.memver(eng, st, args), w=width(i.ty))
            return None
        op = api(callee)
        if op is not None:
            self.hit("index")
            return self.api_call(eng, st, i, op, args)
        f = self.mod.fns.get(callee)
        if f is not None and "mersenne_twister" in f.dem:
            b, o, v = addr_parts(args[0])
            eng.clobber(st, b, ("rng", i.id), o, o + 5000)
            if i.ty.kind != "void":
                st.env[i.id] = eng.fresh(st, ("r", i.id), w=width(i.ty))
            return None
        if f is not None and not f.decl:
            self.hit("helper")
            self.on_opaque(eng, st, i, callee, args)
            self.apply_summary(eng, st, i, callee, args)
            if i.ty.kind != "void":
                st.env[i.id] = eng.fresh(st, ("r", i.id), w=width(i.ty), ptr=i.ty.kind == "ptr")
            return None
        return NotImplemented

    def nullable_new(self, callee):
        return callee in ("malloc", "calloc", "aligned_alloc") or "nothrow" in callee

    def memver(self, eng, st, args):
        vs = []
        for a in args:
            if a.ptr:
                b, o, v = addr_parts(a)
                vs.append(eng.vers(st, b, 1 << 50))
        return mk("vs", *vs)

    def drop_object(self, st, base):
        for k in [k for k in st.mem if k[0] is base]:
            del st.mem[k]
        for k in [k for k in st.ver if k[0] is base]:
            del st.ver[k]

    def apply_summary(self, eng, st, i, callee, args):
        for w in self.summary(callee).writes:
            if w[0] == "direct":
                if w[1] < len(args) and (args[w[1]].ptr or args[w[1]].op == "lin"):
                    b, o, v = addr_parts(args[w[1]])
                    if w[2] is None or w[3] is None or v is not None:
                        # w[2]: the constant part of the address, the lowest byte an array write can reach
                        eng.clobber(st, b, ("op", i.id, w[1]), o + min(0, w[2] or 0) if v is not None else o + (w[2] or 0))
                    else:
                        eng.clobber(st, b, ("op", i.id, w[1], w[2]), o + w[2], o + w[2] + w[3])
            elif w[0] == "unknown":
                pass

    def api_call(self, eng, st, i, op, args):
        r = None
        # typestate first: it sees the state before the call
        r = self.on_api(eng, st, i, op, args)
        states = [st] if r is None else r
        for s in states:
            self.api_effect(eng, s, i, op, args)
        return r

    def api_effect(self, eng, st, i, op, args):
        it = None
        if op.startswith("iter_") and args:
            it = addr_parts(args[0])
        if op == "iter_create":
            t = eng.fresh(st, ("iter", i.id), ptr=True)
            self.drop_object(st, t)
            st.env[i.id] = t
            st.facts[icmp("eq", t, const(0))] = False
            eng.write(st, t, self.leaf_off, 8, const(0))
        elif op in ("iter_seek", "iter_skip1", "iter_skip1_rev", "iter_skip", "iter_next", "iter_prev"):
            b, o, v = it
            t = eng.fresh(st, ("leaf", i.id), ptr=True)
            eng.write(st, b, o + self.leaf_off, 8, t)
            eng.write(st, b, o + self.leaf_off + 8, 4, eng.fresh(st, ("is", i.id), w=32))
        elif op == "iter_park":
            b, o, v = it
            eng.write(st, b, o + self.leaf_off, 8, const(0))
        elif op in ("iter_peek_ref", "iter_kvref", "iter_peek"):
            names = (("key", 8), ("klen", 4), ("rec", 8), ("vlen", 4))
            if op == "iter_peek_ref" and len(args) >= 5:
                for a, (nm, sz) in zip(args[1:5], names):
                    b, o, v = addr_parts(a)
                    t = eng.fresh(st, (nm, i.id), w=sz * 8, ptr=sz == 8)
                    if sz == 8:
                        self.drop_object(st, t)
                    if v is None:
                        eng.write(st, b, o, sz, t)
                    else:
                        eng.clobber(st, b, ("pk", i.id), o)
                for a in args[5:]:
                    if a.ptr:
                        b, o, v = addr_parts(a)
                        eng.clobber(st, b, ("pk", i.id), o)
        elif op == "iter_valid":
            b, o, v = it
            leaf = eng.read(st, b, o + self.leaf_off, 8, True, i)
            z = eng.truth(st, icmp("eq", leaf, const(0)))
            st.env[i.id] = const(0, 1) if z is True else eng.fresh(st, ("valid", i.id), w=width(i.ty))
            return
        elif op in ("leaf_unlock_read", "put", "del", "destroy", "unref", "clean", "park", "resume", "iter_destroy",
                    "probe", "refresh_qstate"):
            pass
        elif op in ("create", "ref"):
            t = eng.fresh(st, ("idx", i.id), ptr=True)
            st.env[i.id] = t
        if i.ty.kind != "void" and i.id not in st.env:
            st.env[i.id] = eng.fresh(st, ("r", i.id), w=width(i.ty), ptr=i.ty.kind == "ptr")

    def iter_leaf(self, eng, st, arg):
        b, o, v = addr_parts(arg)
        return eng.read(st, b, o + self.leaf_off, 8, True)


def entries(mod):
    return [f for f in mod.fns.values() if not f.decl and pipeline.is_entry(f.dem)]
