"""Complete and deterministic construction (property C11).

Definite assignment over the inlined IR: which bytes of the filter every path of a constructor has written when it returns,
and which bytes an operation may read before it has written them itself.  Loops that fill arrays are counted exactly when
their bounds are constants.  The seed of the random generator, and the absence of other sources of randomness, are read off
the same IR."""
import ctypes, math, re
import pipeline
from irlib import *
from irlib import _f, P
from divamodel import NEW

TypeByName = _f("LLVMGetTypeByName2", P, P, c_char_p)
ModCtx = _f("LLVMGetModuleContext", P, P)
CountElem = _f("LLVMCountStructElementTypes", c_uint, P)

RANDOM = re.compile(r"^(rand|srand|rand_r|random|srandom|[dlm]rand48(_r)?|[ejn]rand48|time|clock|clock_gettime|gettimeofday|"
                    r"getrandom|getentropy|arc4random\w*|getpid|gettid|getenv|secure_getenv|times|"
                    r"llvm\.readcyclecounter|llvm\.x86\.rd(tsc|tscp|rand|seed)\S*|random_u64|random_uniform|random_seed_u64|"
                    r"random_double|time_nsec|time_sec|rdtsc)$")
RANDDEM = ("std::random_device", "std::chrono::", "std::this_thread", "pthread_self")


def members(mod, var):
    """[(offset, size)] of the filter's data members, or None"""
    ctx = ModCtx(mod.ref)
    want = mod.layout["diva_size_%d" % var]
    for k in range(-1, 400):
        t = TypeByName(ctx, ("class.Diva" if k < 0 else "class.Diva.%d" % k).encode())
        if not t:
            continue
        if mod.ty(t).size == want:
            n = CountElem(t)
            r = [(OffElem(mod.td, t, j), mod.ty(StructElem(t, j)).size) for j in range(n)]
            return [x for x in r if x[1]]
    return None


class Flow:
    def __init__(self, mod, fn, mem, size):
        self.mod, self.fn, self.mem, self.size = mod, mod.body(fn.name), mem, size
        self.blocks = [b for b in self.fn.blocks]
        self.order()
        self.loops()

    def order(self):
        seen, out = set(), []
        st = [(self.blocks[0], iter(self.blocks[0].succs))]
        seen.add(self.blocks[0])
        while st:
            b, it = st[-1]
            n = next(it, None)
            if n is None:
                out.append(b)
                st.pop()
            elif n not in seen:
                seen.add(n)
                st.append((n, iter(n.succs)))
        self.rpo = out[::-1]
        self.num = {b: k for k, b in enumerate(self.rpo)}
        # dominators
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in b.preds if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x is not y:
                        while self.num[x] > self.num[y]:
                            x = idom[x]
                        while self.num[y] > self.num[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) is not d:
                    idom[b] = d
                    ch = True
        self.idom = idom

    def dom(self, a, b):
        while self.num[b] > self.num[a]:
            b = self.idom[b]
        return a is b

    def loops(self):
        self.loop_of = {}
        self.body = {}
        for b in self.rpo:
            for s in b.succs:
                if self.dom(s, b):
                    bd = self.body.setdefault(s, {s})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x not in bd:
                            bd.add(x)
                            todo += [p for p in x.preds if p in self.num]
        for h, bd in sorted(self.body.items(), key=lambda x: -len(x[1])):
            for b in bd:
                self.loop_of[b] = h

    # ---- addresses ---------------------------------------------------------------------------
    def addr(self, v, depth=0):
        """-> (offset in the filter, variable part?, phi it runs over) or None"""
        if v.kind == "arg":
            return (0, False, None) if v.v == 0 else None
        if depth > 40 or v.kind != "inst":
            return None
        i = v.v
        if i.op == "gep":
            b, off, var = i.gep
            r = self.addr(b, depth + 1)
            return None if r is None else (r[0] + off, r[1] or bool(var), r[2])
        if i.op in ("bitcast", "freeze"):
            return self.addr(i.ops[0], depth + 1)
        if i.op == "phi":
            rs = []
            for p, x in i.inc:
                if x.kind == "inst" and (x.v is i or self.steps(x, i)):
                    continue
                rs.append(self.addr(x, depth + 1))
            if not rs or any(r is None for r in rs):
                return None
            if len(rs) == len(i.inc):
                return rs[0] if len(set(rs)) == 1 else (min(r[0] for r in rs), True, None)
            return (min(r[0] for r in rs), True, i)
        if i.op == "select":
            a, b = self.addr(i.ops[1], depth + 1), self.addr(i.ops[2], depth + 1)
            return None if a is None or b is None else (min(a[0], b[0]), True, None)
        return None

    def steps(self, x, phi):
        n = 0
        while x.kind == "inst" and x.v.op == "gep" and n < 20:
            x = x.v.gep[0]
            n += 1
        return x.kind == "inst" and x.v is phi

    def member(self, off):
        for o, s in self.mem:
            if o <= off < o + s:
                return o, s
        return None

    def mask(self, off, size):
        if off < 0 or size is None or off + size > self.size:
            return 0
        return ((1 << size) - 1) << off

    def whole(self, off):
        m = self.member(off)
        return self.mask(*m) if m else 0

    def stride(self, v, depth=0):
        """distance between the places a varying address takes (greatest common divisor), 0 unknown"""
        if v.kind != "inst" or depth > 20:
            return 0
        i = v.v
        if i.op == "gep":
            g = self.stride(i.gep[0], depth + 1)
            for _, sc in i.gep[2]:
                g = math.gcd(g, abs(sc))
            return g
        if i.op == "phi":
            g = 0
            for p, x in i.inc:
                if x.kind == "inst" and x.v.op == "gep" and self.steps(x, i):
                    g = math.gcd(g, abs(x.v.gep[1]) if not x.v.gep[2] else 1)
            return g
        if i.op in ("bitcast", "freeze"):
            return self.stride(i.ops[0], depth + 1)
        return 0

    def spread(self, off, size, stride):
        m = self.member(off)
        if m is None or stride <= 0 or stride < size:
            return self.whole(off)
        r, x = 0, off - (off - m[0]) // stride * stride
        while x + size <= m[0] + m[1]:
            r |= self.mask(x, size)
            x += stride
        return r

    # ---- constant loops ----------------------------------------------------------------------
    def value(self, v, env):
        """integer value; pointers into the filter are offsets + 2^62"""
        if v.kind == "const":
            b = v.ty.bits
            return v.v - (1 << b) if v.v >> (b - 1) else v.v
        if v.kind == "arg" and v.v == 0:
            return 1 << 62
        if v.kind != "inst":
            return None
        i = v.v
        if i.id in env:
            return env[i.id]
        if i.op in ("sext", "zext", "trunc", "bitcast"):
            x = self.value(i.ops[0], env)
            if x is None:
                return None
            if i.op == "zext" and x < 0:
                x += 1 << i.ops[0].ty.bits
            return x
        if i.op in ("add", "sub", "mul", "shl", "or"):
            x, y = self.value(i.ops[0], env), self.value(i.ops[1], env)
            if x is None or y is None:
                return None
            return {"add": x + y, "sub": x - y, "mul": x * y, "shl": x << max(0, min(y, 63)), "or": x | y}[i.op]
        if i.op == "gep":
            b, off, var = i.gep
            x = self.value(b, env)
            if x is None:
                return None
            x += off
            for w, sc in var:
                y = self.value(w, env)
                if y is None:
                    return None
                x += y * sc
            return x
        return None

    def sweep(self, store, ptr, size):
        """bytes a store inside a loop writes over all turns of the loop, and the block that stands for it;
        exact for constant bounds, else the whole member"""
        h = self.loop_of.get(store.bb)
        a = self.addr(ptr)
        if h is None:
            return None
        weak = self.whole(a[0]), h
        body = self.body[h]
        env, step = {}, {}
        for i in h.insts:
            if i.op != "phi":
                break
            ini = [x for p, x in i.inc if p not in body]
            lat = [x for p, x in i.inc if p in body]
            if len(ini) != 1 or len(lat) != 1:
                continue
            x = self.value(ini[0], {})
            if x is None:
                continue
            env[i.id], step[i.id] = x, lat[0]
        exits = [(b, s) for b in body for s in b.succs if s not in body]
        if len(exits) != 1:
            return weak
        eb, es = exits[0]
        t = eb.insts[-1]
        if t.op != "br" or not t.ops or t.ops[0].kind != "inst" or t.ops[0].v.op != "icmp":
            return weak
        c = t.ops[0].v
        latch = [b for b in body if h in b.succs]
        if len(latch) != 1 or not self.dom(store.bb, latch[0]) and store.bb is not latch[0]:
            return weak
        first = self.dom(eb, store.bb) and eb is not store.bb
        stay = t.succs[0] is not es
        m = 0
        for n in range(20000):
            def leaves_now():
                x, y = self.value(c.ops[0], env), self.value(c.ops[1], env)
                if x is None or y is None:
                    return None
                p = c.pred
                b = c.ops[0].ty.bits or 64
                if p.startswith("u"):
                    x, y = x & ((1 << b) - 1), y & ((1 << b) - 1)
                r = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[
                    p if p in ("eq", "ne") else p[1:]]
                return r != stay
            if first:
                q = leaves_now()
                if q is None:
                    return weak
                if q:
                    return m, h
            x = self.value(ptr, env)
            if x is None:
                return weak
            m |= self.mask(x - (1 << 62), size)
            if not first:
                q = leaves_now()
                if q is None:
                    return weak
                if q:
                    return m, h
            nv = {}
            for k, sv in step.items():
                y = self.value(sv, env)
                if y is not None:
                    nv[k] = y
            env = nv
        return weak

    # ---- effects -----------------------------------------------------------------------------
    def effects(self):
        """per block: [(kind, mask, inst)] in order; kind r or w"""
        out = {b: [] for b in self.rpo}
        head = {b: [] for b in self.rpo}
        for b in self.rpo:
            for i in b.insts:
                if i.dbg:
                    continue
                if i.op == "load":
                    a = self.addr(i.ops[0])
                    if a is not None:
                        m = self.spread(a[0], max(1, i.ty.size), self.stride(i.ops[0])) if a[1] else \
                            self.mask(a[0], max(1, i.ty.size))
                        out[b].append(("r", m, i))
                elif i.op == "store":
                    a = self.addr(i.ops[1])
                    if a is None:
                        continue
                    size = max(1, i.ops[0].ty.size)
                    if not a[1]:
                        out[b].append(("w", self.mask(a[0], size), i))
                    else:
                        r = self.sweep(i, i.ops[1], size)
                        if r is not None:
                            head[r[1]].append(("w", r[0], i))
                elif i.op in ("call", "invoke"):
                    n = i.callee.v if i.callee.kind == "fn" else ""
                    f = self.mod.fns.get(n)
                    dem = f.dem if f is not None else ""
                    for k, o in enumerate(i.ops):
                        if o.ty.kind != "ptr":
                            continue
                        a = self.addr(o)
                        if a is None:
                            continue
                        if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                            ln = i.ops[2]
                            if k == 0:
                                if ln.kind == "const" and not a[1]:
                                    out[b].append(("w", self.mask(a[0], ln.v), i))
                                elif a[1]:
                                    h = self.loop_of.get(b)
                                    if h is not None:
                                        r = self.sweep(i, o, ln.v if ln.kind == "const" else 1)
                                        head[r[1]].append(("w", r[0], i))
                                else:
                                    out[b].append(("w", self.whole(a[0]), i))
                            else:
                                out[b].append(("r", self.mask(a[0], ln.v) if ln.kind == "const" and not a[1] else
                                               self.whole(a[0]), i))
                        elif n.startswith("llvm."):
                            continue
                        elif "mersenne_twister" in dem:
                            w = "seed(" in dem or re.search(r"::mersenne_twister_engine\(", dem)
                            out[b].append(("w" if w else "r", self.whole(a[0]), i))
                        elif not a[1] and a[0] == 0 and f is not None and not f.decl:
                            out[b].append(("self", 0, i))
                        else:
                            out[b].append(("r", self.whole(a[0]), i))
                            out[b].append(("w", self.whole(a[0]) if f is None or f.decl else 0, i))
        for b in self.rpo:
            out[b] = head[b] + out[b]
        return out

    def run(self):
        """-> (bytes every returning path has written, [(mask, inst)] reads not preceded by a write)"""
        eff = self.effects()
        full = (1 << self.size) - 1
        inn = {b: full for b in self.rpo}
        inn[self.rpo[0]] = 0
        outm = {b: full for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in self.rpo:
                if b is not self.rpo[0]:
                    m = full
                    for p in b.preds:
                        if p in self.num:
                            m &= outm[p]
                    inn[b] = m
                m = inn[b]
                for k, x, i in eff[b]:
                    if k == "w":
                        m |= x
                if m != outm[b]:
                    outm[b] = m
                    ch = True
        reads, done = [], full
        self.calls_self = []
        for b in self.rpo:
            m = inn[b]
            for k, x, i in eff[b]:
                if k == "w":
                    m |= x
                elif k == "r":
                    if x & ~m:
                        reads.append((x & ~m, i))
                else:
                    self.calls_self.append(i)
            if b.insts[-1].op == "ret":
                done &= m
        return done, reads


def is_ctor(d):
    m = pipeline.method(d)
    return m is not None and re.match(r"Diva(<.*>)?\(", m) is not None


def bytes_of(mask):
    r = []
    k = 0
    while mask:
        if mask & 1:
            r.append(k)
        else:
            z = (mask & -mask).bit_length() - 1
            mask >>= z
            k += z
            continue
        mask >>= 1
        k += 1
    return r


def check(tier):
    mod = pipeline.diva_module(tag="all")
    viol, und, ev, fns = [], [], {}, []

    def hit(k, n=1):
        ev[k] = ev.get(k, 0) + n

    for var in (0, 1):
        size = mod.layout["diva_size_%d" % var]
        mem = members(mod, var)
        if mem is None:
            und.append("member layout")
            mem = [(0, size)]
        ctors, ops = [], []
        for f in mod.fns.values():
            if f.decl or not pipeline.is_entry(f.dem) or pipeline.variant(f.dem) != var:
                continue
            (ctors if is_ctor(f.dem) else ops).append(f)
        need = {}
        for f in ops:
            fl = Flow(mod, f, mem, size)
            done, reads = fl.run()
            fns.append(f.dem[:120])
            hit("operation")
            for m, i in reads:
                hit("read of the filter")
                for mb in mem:
                    x = m & (((1 << mb[1]) - 1) << mb[0])
                    if x:
                        need.setdefault(mb, []).append((x, i, f))
        seed_off = mod.layout["rng_seed_%d" % var]
        for f in ctors:
            fl = Flow(mod, f, mem, size)
            done, reads = fl.run()
            fns.append(f.dem[:120])
            hit("constructor")
            if fl.calls_self:
                und.append(f"{f.dem[:80]}: calls {fl.calls_self[0].callee.v} with the filter")
                continue
            for m, i in reads:
                own = [x for x in bytes_of(m)]
                mb = fl.member(own[0])
                viol.append({"entry": f.dem, "loc": i.loc(), "trail": [],
                             "msg": f"the constructor reads member at offset {mb[0] if mb else own[0]} of the filter before "
                                    "it has been set"})
                break
            for mb, uses in sorted(need.items()):
                hit("member judged")
                for x, i, g in uses:
                    miss = x & ~done
                    if miss:
                        off = (miss & -miss).bit_length() - 1
                        viol.append({"entry": f.dem, "loc": i.loc(), "trail": [],
                                     "msg": f"leaves byte {off - mb[0]} of the member at offset {mb[0]} unset, which "
                                            f"{pipeline.method(g.dem).split('(')[0]} reads"})
                        break
            seeds(fl, f, seed_off, viol, und, hit)
            settled(fl, f, var, viol, hit)
    sources(mod, viol, und, hit)
    return viol, {"functions": fns, "events": ev, "undecided": und}


def settled(fl, f, var, viol, hit):
    """a constructor does not change a configuration value after it has computed something from it"""
    L = fl.mod.layout
    conf = [L["%s_%d" % (n, var)] for n in ("infix_size", "load_factor", "load_factor_alt", "rng_seed")]
    # the tables are computed from the load factors (the compiler may already know the default when they are)
    tables = [L["load_factor_%d" % var], L["load_factor_alt_%d" % var]]
    arrays = 0
    for n in ("scaled_sizes", "size_scalars"):
        arrays |= fl.whole(L["%s_%d" % (n, var)])

    def plain(v):
        return v.kind == "inst" and v.v.op == "load" or v.kind == "const" and v.v == 0
    eff = fl.effects()
    outm = {}
    ch = True
    found = {}
    while ch:
        ch = False
        for b in fl.rpo:
            s = set()
            for p in b.preds:
                s |= outm.get(p, set())
            for k, x, i in eff[b]:
                if k == "w" and x & arrays and i.op == "store" and not plain(i.ops[0]):
                    s |= {(o, i) for o in tables}
                for o in conf:
                    if x >> o & 1:
                        if k == "r":
                            s.add((o, i))
                        elif k == "w":
                            for q, j in s:
                                if q == o:
                                    found.setdefault(o, (i, j))
            if s != outm.get(b):
                outm[b] = s
                ch = True
    hit("configuration value", len(conf))
    for o, (i, j) in found.items():
        viol.append({"entry": f.dem, "loc": i.loc(), "trail": [],
                     "msg": f"the configuration value at offset {o} is set after {j.loc()} has already used it"})


def seeds(fl, f, seed_off, viol, und, hit):
    """the generator is seeded on every way out, last with the given seed"""
    mod = fl.mod
    given = set()
    eff_store = []
    for b in fl.rpo:
        for i in b.insts:
            if i.op == "store":
                a = fl.addr(i.ops[1])
                if a is not None and not a[1] and a[0] == seed_off:
                    eff_store.append(i)
                    if i.ops[0].kind == "inst":
                        given.add(("inst", i.ops[0].v.id))
                    elif i.ops[0].kind == "arg":
                        given.add(("arg", i.ops[0].v))

    def right(v):
        n = 0
        while v.kind == "inst" and v.v.op in ("zext", "sext", "trunc", "freeze") and n < 8:
            v = v.v.ops[0]
            n += 1
        if v.kind == "arg":
            return ("arg", v.v) in given
        if v.kind == "inst":
            if ("inst", v.v.id) in given:
                return True
            if v.v.op == "load":
                a = fl.addr(v.v.ops[0])
                return a is not None and not a[1] and a[0] == seed_off
            return None
        return False
    state = {b: None for b in fl.rpo}       # 0 not seeded, 1 seeded with the given seed; None unreached
    state[fl.rpo[0]] = frozenset([("none", 0)])
    ch = True
    outm = {}
    where = {}
    while ch:
        ch = False
        for b in fl.rpo:
            s = set(state[b] or ()) if b is fl.rpo[0] else set()
            for p in b.preds:
                s |= set(outm.get(p, ()))
            if not s:
                continue
            for i in b.insts:
                if i.op in ("call", "invoke") and i.callee.kind == "fn":
                    g = mod.fns.get(i.callee.v)
                    if g is not None and "mersenne_twister" in g.dem:
                        if re.search(r"::seed\(|mersenne_twister_engine\(", g.dem) and len(i.ops) > 1:
                            r = right(i.ops[1])
                            s = {("ok" if r else "bad" if r is False else "odd", i.id)}
                            where[i.id] = i
                        elif re.search(r"::seed\(\)|mersenne_twister_engine\(\)", g.dem):
                            s = {("none", i.id)}
                            where[i.id] = i
            if s != outm.get(b):
                outm[b] = s
                ch = True
    for b in fl.rpo:
        if b.insts[-1].op != "ret":
            continue
        for k, n in outm.get(b, ()):
            hit("seeding judged")
            if k == "odd":
                und.append(f"{f.dem[:80]}: value the generator is seeded with")
            elif k != "ok":
                i = where.get(n, b.insts[-1])
                viol.append({"entry": f.dem, "loc": i.loc(), "trail": [],
                             "msg": "the random generator is not seeded with the seed the filter was given"})
                return


MIX = ("urem", "srem", "udiv", "sdiv", "xor", "mul", "lshr", "ashr", "trunc", "shl", "or", "and", "add", "zext", "sext", "freeze")


def addresses(f, viol, hit):
    """where something happens to be in memory does not decide what is computed: an address turned into a number is only
    subtracted from another one, tested for alignment or null, compared with another address, or turned back"""
    kind = {}           # inst id -> "a" an address, "m" a number computed from one

    def k(v):
        return kind.get(v.v.id) if v.kind == "inst" else None
    ch = True
    why = {}
    while ch:
        ch = False
        for b in f.blocks:
            for i in b.insts:
                r = None
                if i.op == "ptrtoint":
                    r = "a"
                elif i.op == "sub" and k(i.ops[0]) == "a":
                    r = None if k(i.ops[1]) == "a" or i.ops[1].kind != "const" else "a"
                elif i.op in ("phi", "select", "freeze", "zext"):
                    s = {k(o) for o in (i.ops[1:] if i.op == "select" else [v for _, v in i.inc] if i.op == "phi" else i.ops)}
                    r = "m" if "m" in s else "a" if "a" in s else None
                elif i.op in ("add", "or") and "a" in [k(o) for o in i.ops] and any(o.kind == "const" for o in i.ops):
                    r = "a"
                elif i.op == "and" and any(o.kind == "const" and (o.v & M64) <= 4095 for o in i.ops) and \
                        "a" in [k(o) for o in i.ops]:
                    r = None            # alignment
                elif i.op == "and" and any(o.kind == "const" for o in i.ops) and "a" in [k(o) for o in i.ops]:
                    r = "a"
                elif i.op in MIX and any(k(o) for o in i.ops):
                    r = "m"
                if r is not None and kind.get(i.id) != r and kind.get(i.id) != "m":
                    kind[i.id] = r
                    ch = True
    for b in f.blocks:
        for i in b.insts:
            if i.dbg:
                continue
            if i.op == "ptrtoint":
                hit("address used as a number")
            bad = None
            if i.op == "icmp" and "m" in [k(o) for o in i.ops]:
                bad = "decides by"
            elif i.op == "switch" and k(i.ops[0]):
                bad = "decides by"
            elif i.op == "store" and k(i.ops[0]) == "m":
                bad = "stores a value computed from"
            elif i.op in ("call", "invoke") and "m" in [k(o) for o in i.ops] and \
                    not (i.callee.kind == "fn" and i.callee.v.startswith("llvm.")):
                bad = "passes on a value computed from"
            elif i.op == "ret" and i.ops and k(i.ops[0]):
                bad = "returns a value computed from"
            if bad:
                viol.append({"entry": f.dem, "loc": i.loc(), "trail": [],
                             "msg": f"{bad} the address of something, so equal calls need not behave equally"})
                return


M64 = (1 << 64) - 1


def sources(mod, viol, und, hit):
    """other sources of randomness, and state shared between filters"""
    libs = [(mod, None)]
    for f in mod.fns.values():
        if f.decl or not (pipeline.is_entry(f.dem) or pipeline.is_opaque_std(f.dem)):
            continue
        if not pipeline.is_entry(f.dem):
            continue
        mod.body(f.name)
        addresses(f, viol, hit)
        for b in f.blocks:
            for i in b.insts:
                if i.op in ("call", "invoke") and not i.dbg and i.callee.kind == "fn":
                    hit("call judged")
                    n = i.callee.v
                    g = mod.fns.get(n)
                    d = g.dem if g is not None else n
                    if "mersenne_twister" in d and i.ops and re.search(r"::operator\(\)|::seed|::discard", d):
                        base, k = i.ops[0], 0
                        while base.kind == "inst" and base.v.op == "gep" and k < 20:
                            base = base.v.gep[0]
                            k += 1
                        if base.kind == "cexpr" and base.v == "gep":
                            base = base.extra[0]
                        if base.kind == "glob":
                            viol.append({"entry": f.dem, "loc": i.loc(), "trail": [],
                                         "msg": "draws from a generator that all filters share"})
                    if RANDOM.match(n) or any(x in d for x in RANDDEM):
                        viol.append({"entry": f.dem, "loc": i.loc(), "trail": [],
                                     "msg": f"uses {d[:60]}, so equal calls need not behave equally"})
                if i.op == "store":
                    base = i.ops[1]
                    n = 0
                    while base.kind == "inst" and base.v.op == "gep" and n < 20:
                        base = base.v.gep[0]
                        n += 1
                    if base.kind == "cexpr" and base.v == "gep":
                        base = base.extra[0]
                    if base.kind == "glob":
                        viol.append({"entry": f.dem, "loc": i.loc(), "trail": [],
                                     "msg": f"changes {base.v}, which all filters share"})
