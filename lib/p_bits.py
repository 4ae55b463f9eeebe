"""Exact bit effect of slot accesses, bitmap bits and shifts (property C08).

Every function is cut at its loop headers.  Each piece is summarised path by path as branch facts, the values it leaves in
the live variables and the chain of stores it makes, all as expressions.  A loop is decided by induction: with the cursor at
any place and the memory as the partial shift up to that place leaves it, one turn moves the cursor forward and leaves
exactly the partial shift up to the new place, and the turn that leaves the loop has done all of it.  A mismatch is
reported only after composing the summaries from the entry shows the function's final bits to be wrong."""
import os, random
import pipeline, reval
from divamodel import *
from p_book import Book, fields, module, is_anchor, mname
from engine import *
from terms import *

DRV = os.path.join(pipeline.HERE, "drivers", "bits_drv.cpp")


class MemEngine(Engine):
    """memory outside the frame is a chain of stores, kept in the state's key"""

    def outside(self, base):
        return base.op != "alloca"

    def step(self, st, i):
        if i.op == "load":
            p = self.val(st, i.ops[0])
            if self.outside(addr_parts(p)[0]):
                size = max(1, i.ty.size)
                v = mk("ld", p, size, st.key[0], w=size * 8)
                st.key = (st.key[0], st.key[1] + (("r", p, size, i),))
                if i.ty.kind == "ptr":
                    v = mk("asptr", v, ptr=True)
                elif i.ty.kind == "int" and i.ty.bits != v.w:
                    v = trunc(v, i.ty.bits) if v.w > i.ty.bits else zext(v, i.ty.bits)
                elif i.ty.kind != "int":
                    v = self.fresh(st, ("odd", i.id), w=size * 8)
                st.env[i.id] = v
                self.stats["insts"] += 1
                return None
        elif i.op == "store":
            p = self.val(st, i.ops[1])
            if self.outside(addr_parts(p)[0]):
                v = self.val(st, i.ops[0])
                size = max(1, i.ops[0].ty.size)
                if v.w < size * 8:
                    v = zext(v, size * 8)
                st.key = (mk("mst", st.key[0], p, size, v), st.key[1] + (("w", p, size, i),))
                self.stats["insts"] += 1
                return None
        return super().step(st, i)

    def memcpy(self, st, i, dst, src, n):
        db, do, dv = addr_parts(dst)
        sb, so, sv = addr_parts(src)
        if not self.outside(db) and not self.outside(sb):
            return super().memcpy(st, i, dst, src, n)
        if not isc(n) or cv(n) not in (1, 2, 4, 8):
            raise AnalysisError("copy of variable length at " + i.loc())
        k = cv(n)
        if self.outside(sb):
            v = mk("ld", src, k, st.key[0], w=k * 8)
            st.key = (st.key[0], st.key[1] + (("r", src, k, i),))
        else:
            v = self.read(st, sb, so, k, False, i)
        if self.outside(db):
            st.key = (mk("mst", st.key[0], dst, k, v), st.key[1] + (("w", dst, k, i),))
        elif dv is None:
            self.write(st, db, do, k, v)
        else:
            raise AnalysisError("copy to a variable place at " + i.loc())


class MemClient(Client):
    def __init__(self):
        self.rets = []

    def init(self, eng, st):
        st.key = (tok("mem0"), ())

    def call(self, eng, st, inst, callee, args):
        if isinstance(callee, str) and (callee.startswith("llvm.") and ("lifetime" in callee or "assume" in callee or
                                        "dbg" in callee or "mem" in callee) or callee.startswith(PURE_INTR)):
            return NotImplemented
        raise AnalysisError("call of %s at %s" % (callee, inst.loc()))

    def ret(self, eng, st, inst, val):
        self.rets.append((st, val, inst))


class Seg:
    __slots__ = ("facts", "target", "out", "chain", "acc", "ret")


class Summary:
    """segments[None] from the entry, segments[h] from each loop header"""

    def __init__(self, mod, name, limit=400, engine=None, drop_frame=False):
        c = MemClient()
        e = (engine or MemEngine)(mod, name, c)
        self.fn, self.eng = e.fn, e
        frame, slots = set(), {}
        self.heads = {s for b in e.rpo for s in b.succs if b in e.rpo and e.rpo[s] <= e.rpo[b]}
        self.segs = {}
        self.order = sorted(self.heads, key=lambda b: e.rpo[b])
        for h in [None] + self.order:
            st = State()
            st.env, st.mem, st.ver, st.facts, st.aux, st.trail = {}, {}, {}, {}, {}, ()
            c.init(e, st)
            b = e.fn.blocks[0]
            if h is not None:
                b = h
                for k in e.livein[h]:
                    x = slots.get(k)
                    st.env[k] = x if x is not None else self.tok(h, k)
                for i in h.insts:
                    if i.op != "phi":
                        break
                    st.env[i.id] = self.tok(h, i.id, i.ty)
                for k, (sz, x) in frame:
                    st.mem[k] = (sz, x)
            res = []
            work = [(b, st)]
            n = 0
            while work:
                n += 1
                if n > limit:
                    raise AnalysisError("too many paths in " + e.fn.dem)
                b, s = work.pop()
                c.rets = []
                for su, o in e.block(b, s):
                    env = {k: v for k, v in o.env.items() if k in e.livein[su]}
                    for i in su.insts:
                        if i.op != "phi":
                            break
                        for p, v in i.inc:
                            if p is b:
                                env[i.id] = e.val(o, v)
                                break
                    o.env = env
                    if drop_frame:
                        slots.update({k: v for k, v in env.items() if v is not None and v.op == "alloca"})
                    if su in self.heads:
                        if drop_frame:
                            # what the frame held is not followed round the loop: reading it gives no answer
                            frame |= {(k, (sz, tok("undef", k[0].id, k[1], w=x.w))) for k, (sz, x) in o.mem.items()}
                        elif o.mem:
                            raise AnalysisError("frame memory live round a loop in " + e.fn.dem)
                        res.append(self.seg(o, su, env, None))
                    else:
                        work.append((su, o))
                for o, v, i in c.rets:
                    res.append(self.seg(o, "ret", {}, v))
            self.segs[h] = res

    def tok(self, h, k, ty=None):
        t = getattr(self, "_t", None)
        if t is None:
            t = self._t = {}
            self._ty = {i.id: i.ty for b in self.fn.blocks for i in b.insts}
        r = t.get((h, k))
        if r is None:
            ty = self._ty[k]
            r = t[(h, k)] = tok("at", h.id, k, w=width(ty), ptr=ty.kind == "ptr")
        return r

    def seg(self, st, target, env, ret):
        g = Seg()
        g.facts, g.target, g.out, g.chain, g.acc, g.ret = dict(st.facts), target, env, st.key[0], st.key[1], ret
        return g


class MVal(reval.Val):
    wrap = True             # the machine's shifts
    mem = None              # function address -> byte

    def leaf(self, t):
        if t.op == "tok" and t not in self.fixed:
            raise reval.Unknown(str(t.args[:1]))
        return super().leaf(t)

    def membyte(self, addr, ver):
        while ver.op == "mst":
            prev, a, size, x = ver.args
            d = addr - self.ev(a)
            if 0 <= d < size:
                return self.ev(x) >> (8 * d) & 255
            ver = prev
        return self.mem(addr)


class Wrong(Exception):
    def __init__(self, msg, inst):
        self.msg, self.inst = msg, inst


class Case:
    """one valuation of arguments and memory"""

    def __init__(self, args, blocks):
        self.args = args                    # arg number -> (value, width, ptr)
        self.blocks = blocks                # [(address, bytearray)]
        self.zone = None

    def fixed(self):
        return {mk("arg", k, w=w, ptr=p): v for k, (v, w, p) in self.args.items()}

    def reader(self, over):
        def get(a):
            if a in over:
                return over[a]
            for b, d in self.blocks:
                if 0 <= a - b < len(d):
                    return d[a - b]
            return (a * 2654435761 >> 7) & 255
        return get


def turn(sm, case, h, live, over, allowed=None):
    """evaluates the segment that the valuation takes from h -> (segment, live values at its end, overlay)"""
    v = MVal(1, case.fixed())
    v.mem = case.reader(over)
    for k, x in live.items():
        v.fixed[sm.tok(h, k)] = x
    hit = None
    for g in sm.segs[h]:
        ok = reval.facts_ok(v, g.facts)
        if ok is None:
            raise reval.Unknown("condition")
        if ok:
            if hit is not None:
                raise reval.Unknown("two paths")
            hit = g
    if hit is None:
        raise reval.Unknown("no path")
    new = dict(over)
    writes = []
    ch = hit.chain
    while ch.op == "mst":
        prev, a, size, x = ch.args
        writes.append((v.ev(a), size, v.ev(x)))
        ch = prev
    for a, size, x in reversed(writes):
        for k in range(size):
            new[a + k] = x >> (8 * k) & 255
    if allowed:
        for kind, p, size, inst in hit.acc:
            a = v.ev(p)
            if not any(lo <= a and a + size <= hi and (kind == "r" or wr) for lo, hi, wr in allowed):
                raise Wrong(("reads" if kind == "r" else "writes") + " outside the partition", inst)
    out = {k: v.ev(t) for k, t in hit.out.items()} if hit.target != "ret" else {}
    return hit, out, new, (v.ev(hit.ret) if hit.ret is not None else None)


def value_of(over, blk):
    b, d = blk
    d = bytearray(d)
    for a, x in over.items():
        if 0 <= a - b < len(d):
            d[a - b] = x
    return int.from_bytes(d, "little")


def walk(sm, case, allowed, visit=None, cap=600):
    h, live, over = None, {}, {}
    path, seen = [], set()
    for n in range(cap):
        g, out, over, ret = turn(sm, case, h, live, over, allowed)
        path.append((h, g))
        if g.target == "ret":
            return over, ret, path
        h, live = g.target, out
        k = (h.id, tuple(sorted(live.items())), tuple(sorted(over.items())))
        if k in seen:
            raise Wrong("never ends", g.target.insts[-1])
        seen.add(k)
        if visit is not None:
            visit(h, dict(live), dict(over))
    raise reval.Unknown("no end")


def induct(sm, case, spec, allowed, rng):
    """True if every loop of the function is shown, for this valuation, to do its part whatever turn it is in"""
    arrivals, first = [], {}
    walk(sm, case, allowed, lambda h, lv, ov: arrivals.append((h, lv, ov)))
    for h, lv, ov in arrivals:
        first.setdefault(h, (lv, ov))
    blk = case.blocks[0]
    for h, (lv, ov) in first.items():
        done = [a for a in arrivals if a[0] is h]
        # which part of the work this loop does: the bits that differ between its first and last arrival
        moving = [i for i in h.insts if i.op == "phi" and i.ty.kind == "int"]
        lo, hi = value_of(ov, blk), value_of(done[-1][2], blk)
        ok = spec.loop(sm, case, h, lv, ov, done, moving, allowed, rng)
        if not ok:
            return False
    return True


class Shift:
    """bits [a, b) of the memory at `base` move by n bits up (or down); what they leave becomes zero"""

    def __init__(self, base, a, b, n, up):
        self.base, self.a, self.b, self.n, self.up = base, a, b, n, up

    def stages(self):
        a, b, n = self.a, self.b, self.n
        if self.up:
            return ("copy", a, b), ("zero", a, a + n)
        return ("copy", a, b), ("zero", b - n, b)

    def bit(self, blk):
        return (self.base - blk[0]) * 8

    def copy(self, x, blk, lo, hi, src):
        """x with the destination of source bits [lo, hi) set to those bits of src"""
        if hi <= lo:
            return x
        o = self.bit(blk)
        m = (1 << (hi - lo)) - 1
        d = lo + self.n if self.up else lo - self.n
        return x & ~(m << (o + d)) | (src >> (o + lo) & m) << (o + d)

    def zero(self, x, blk, lo, hi):
        if hi <= lo:
            return x
        o = self.bit(blk)
        return x & ~(((1 << (hi - lo)) - 1) << (o + lo))

    def final(self, x, blk):
        y = self.copy(x, blk, self.a, self.b, x)
        _, lo, hi = self.stages()[1]
        return self.zero(y, blk, lo, hi)

    def part(self, x0, blk, kind, c):
        """memory when the stage has worked up to cursor c (the next bit to be done is c)"""
        if kind == "copy":
            return self.copy(x0, blk, c + 1, self.b, x0) if self.up else self.copy(x0, blk, self.a, c, x0)
        y = self.copy(x0, blk, self.a, self.b, x0)
        _, lo, hi = self.stages()[1]
        return self.zero(y, blk, c + 1, hi) if self.up else self.zero(y, blk, lo, c)

    def loop(self, sm, case, h, lv, ov, done, moving, allowed, rng):
        blk = case.blocks[0]
        x0 = value_of({}, blk)
        for kind, lo, hi in self.stages():
            end = lo - 1 if self.up else hi
            start = hi - 1 if self.up else lo
            if value_of(ov, blk) != self.part(x0, blk, kind, start):
                continue
            for cur in moving:
                w = cur.ty.bits
                c0 = reval.sgn(lv[cur.id], w)
                shift = start - c0
                if self.try_cursor(sm, case, h, lv, kind, cur, moving, shift, start, end, lo, hi, x0, blk, allowed, rng):
                    return True
        return False

    def try_cursor(self, sm, case, h, lv, kind, cur, moving, shift, start, end, lo, hi, x0, blk, allowed, rng):
        """cur + shift is the next bit to be done; other induction variables follow it at slope 1, -1 or 0"""
        slopes = {}
        step = -1 if self.up else 1
        cand = {i.id: [(1,), (0,), (-1,)] for i in moving if i is not cur}
        places = {start, end - step, end}
        if hi > lo:
            places |= {rng.randrange(lo, hi) for _ in range(4)}
        for m in moving:
            if m is cur:
                continue
            # slope from one turn at the start
            slopes[m.id] = None
        try:
            g, out, nov, _ = turn(sm, case, h, lv, {}, None)
        except (reval.Unknown, Wrong):
            return False
        if g.target is h:
            d = reval.sgn(out[cur.id], cur.ty.bits) - reval.sgn(lv[cur.id], cur.ty.bits)
            for m in moving:
                if m is cur:
                    continue
                e = reval.sgn(out[m.id], m.ty.bits) - reval.sgn(lv[m.id], m.ty.bits)
                slopes[m.id] = 0 if e == 0 else 1 if e == d else -1 if e == -d else None
                if slopes[m.id] is None:
                    return False
        else:
            for m in slopes:
                slopes[m] = 1
        for c in places:
            if not (end <= c <= start if self.up else start <= c <= end):
                continue
            live = dict(lv)
            live[cur.id] = c - shift & M(cur.ty.bits)
            for m in moving:
                if m is not cur:
                    live[m.id] = lv[m.id] + slopes[m.id] * (c - start) & M(m.ty.bits)
            before = self.part(x0, blk, kind, c)
            over = {blk[0] + k: b for k, b in enumerate(before.to_bytes(len(blk[1]), "little"))}
            try:
                g, out, nov, _ = turn(sm, case, h, live, over, allowed)
            except (reval.Unknown, Wrong):
                return False
            after = value_of(nov, blk)
            if g.target is h:
                c2 = reval.sgn(out[cur.id], cur.ty.bits) + shift
                if not (end <= c2 < c if self.up else c < c2 <= end):
                    return False
                if after != self.part(x0, blk, kind, c2):
                    return False
                for m in moving:
                    if m is not cur and out[m.id] != lv[m.id] + slopes[m.id] * (c2 - start) & M(m.ty.bits):
                        return False
                if any(out[k] != lv[k] for k in out if k in lv and k != cur.id and k not in slopes):
                    return False
            elif after != self.part(x0, blk, kind, end):
                return False
        return True


def compile_bits():
    o = os.path.join(pipeline.scratch(), "bits.bc")
    o2 = os.path.join(pipeline.scratch(), "bits2.bc")
    pipeline.run(pipeline.CXX + pipeline.incs() + [DRV, "-o", o])
    pipeline.prep(o, o2, lambda n, d: not pipeline.is_opaque_std(d), lambda n, d: n.startswith("vf_"), pipeline.PASSES)
    return pipeline.Module(o2)


SLOT_FNS = ("GetSlot", "SetSlot", "ShiftSlotsRight", "ShiftSlotsLeft", "ShiftRunendsRight", "ShiftRunendsLeft")


def check(tier):
    viol, und, ev = [], [], {}
    fns = []
    N = 60 if tier == "quick" else 1000

    def count(k, n=1):
        ev[k] = ev.get(k, 0) + n

    def decide(sm, name, make, n=N):
        """make(rng) -> (case, allowed, judge(over, ret) or None, spec or None)"""
        rng = random.Random(7)
        fns.append(sm.fn.dem[:120])
        good, ind, tried = 0, 0, 0
        und0 = {}
        for k in range(n):
            got = make(rng)
            if got is None:
                continue
            case, allowed, judge, spec = got
            tried += 1
            try:
                over, ret, path = walk(sm, case, allowed)
                msg = judge(over, ret)
                if msg:
                    inst = None
                    for h, g in path:
                        for kind, p, size, i in g.acc:
                            if kind == "w" or inst is None:
                                inst = i
                    raise Wrong(msg, inst)
                good += 1
                if sm.heads and spec is not None and induct(sm, case, spec, allowed, rng):
                    ind += 1
            except Wrong as x:
                viol.append({"entry": sm.fn.dem, "loc": x.inst.loc() if x.inst is not None else "?", "trail": [],
                             "msg": f"{name} {x.msg} ({case.note})"})
                return
            except reval.Unknown as x:
                und0[str(x)] = und0.get(str(x), 0) + 1
        if good:
            count("function decided")
            count("paths summarised", sum(len(s) for s in sm.segs.values()))
        if sm.heads:
            if ind and ind >= good * 0.9:
                count("loop induction", len(sm.heads))
            else:
                und.append(f"{name}: loops composed but not shown inductive ({ind} of {good})")
        if und0:
            und.append(f"{name}: {und0}")

    # ---- bitmap helpers
    try:
        bm = compile_bits()
    except pipeline.BuildError as x:
        bm = None
        und.append("bitmap helpers: driver does not compile: " + str(x)[-200:])
    BASE = 1 << 40

    def bits_case(rng, words=6):
        d = bytearray(rng.getrandbits(8 * 8 * words).to_bytes(8 * words, "little"))
        return (BASE, d)
    if bm is not None:
        for nm in ("set", "reset", "get"):
            def mkc(rng, nm=nm):
                blk = bits_case(rng)
                p = rng.choice((0, 1, 63, 64, 65, 127, 128, rng.randrange(384)))
                c = Case({0: (BASE, 64, True), 1: (p, 32, False)}, [blk])
                c.note = f"bit {p}"
                x0 = value_of({}, blk)

                def judge(over, ret):
                    y = value_of(over, blk)
                    want = x0 | 1 << p if nm == "set" else x0 & ~(1 << p) if nm == "reset" else x0
                    if y != want:
                        return "does not change exactly the bit it names"
                    if nm == "get" and bool(ret) != bool(x0 >> p & 1):
                        return "does not return the bit it names"
                return c, [(BASE, BASE + 48, True)], judge, None
            guard(und, f"{nm}_bitmap_bit", lambda: decide(Summary(bm, f"vf_{nm}_bit" if nm != "get" else "vf_get_bit"),
                                                          f"{nm}_bitmap_bit", mkc))
        for nm in ("right", "left"):
            def mkc(rng, nm=nm):
                blk = bits_case(rng, 10)
                n = rng.choice((0, 1, 2, 7, 63, 64, 65, rng.randrange(1, 150)))
                a = rng.randrange(150, 400)
                b = a + rng.choice((0, 1, 2, 63, 64, 65, rng.randrange(1, 90)))
                c = Case({0: (BASE, 64, True), 1: (a, 32, False), 2: (b - 1, 32, False), 3: (n, 32, False)}, [blk])
                c.note = f"bits {a}..{b - 1} by {n}"
                sp = Shift(BASE, a, b, n, nm == "right")
                return c, [(BASE, BASE + 80, True)], shift_judge(sp, blk), sp
            guard(und, f"shift_bitmap_{nm}", lambda: decide(Summary(bm, f"vf_shift_{nm}"), f"shift_bitmap_{nm}", mkc))

    # ---- slots
    m = pipeline.diva_module(tag="bits", entries=lambda d: (pipeline.method(d) or "").split("(")[0] in SLOT_FNS or
                             (d.startswith("vf_g_")))
    L = m.layout
    for var in (0, 1):
        try:
            grade, words = reval_fn(m, f"vf_g_grade_{var}"), reval_fn(m, f"vf_g_words_{var}")
        except (AnalysisError, KeyError) as x:
            und.append(f"size class accessor: {x}")
            continue
        T = L[f"target_size_{var}"]
        SC = L[f"scaled_sizes_{var}"]
        IS = L[f"infix_size_{var}"]
        PT = L[f"store_ptr_{var}"]
        SS = L[f"store_size_{var}"]
        DS = L[f"diva_size_{var}"]
        for name, f in sorted(m.fns.items()):
            if f.decl or not f.dem.split("::")[0].endswith("Diva<true>" if var else "Diva<false>"):
                continue
            op = (pipeline.method(f.dem) or "").split("(")[0]
            if op not in SLOT_FNS:
                continue
            m.body(name)
            nargs = len(f.args) if hasattr(f, "args") else f.dem.count(",") + 2

            def mkc(rng, op=op, nargs=nargs, grade=grade, words=words, T=T, SC=SC, IS=IS, PT=PT, SS=SS, DS=DS):
                THIS, STORE, P = 1 << 40, 2 << 40, 3 << 40
                w = rng.choice((1, 2, 5, 8, 9, 13, 16, 17, 24, 31, 32, rng.randrange(1, 40)))
                wide = op == "SetSlot" and nargs == 5
                sd = bytearray(rng.getrandbits(8 * SS).to_bytes(SS, "little"))
                sd[PT:PT + 8] = P.to_bytes(8, "little")
                td = bytearray(DS)
                td[IS:IS + 4] = w.to_bytes(4, "little")
                w2 = w
                if wide:
                    w2 = rng.randrange(1, 40)
                c = Case({0: (THIS, 64, True), 1: (STORE, 64, True)}, [])
                c.blocks = [(P, bytearray()), (STORE, sd), (THIS, td)]
                g = grade(c, STORE)
                if g is None or g >= 500:
                    return None
                S = T // 2 + rng.randrange(1, T) if rng.random() < .7 else T + rng.randrange(-3, 4)
                for k in range(500):
                    x = S if k == g else (S + 17 + k * 3)
                    td[SC + 8 * k:SC + 8 * k + 8] = x.to_bytes(8, "little")
                nw = words(c, S, w2)
                if nw is None:
                    return None
                pd = bytearray(rng.getrandbits(8 * 8 * nw).to_bytes(8 * nw, "little"))
                c.blocks[0] = blk = (P, pd)
                x0 = value_of({}, blk)
                reg = 64 + T + S
                allowed = [(THIS, THIS + DS, False), (STORE, STORE + SS, False), (P, P + 8 * nw, True)]
                if op in ("GetSlot", "SetSlot"):
                    pos = rng.choice((0, 1, S - 1, rng.randrange(S)))
                    c.args[2] = (pos, 32, False)
                    val = rng.getrandbits(w2)
                    if op == "SetSlot":
                        c.args[3] = (val, 64, False)
                        if wide:
                            c.args[4] = (w2, 32, False)
                    c.note = f"slot {pos} of {S}, width {w2}"
                    o, mask = reg + pos * w2, (1 << w2) - 1

                    def judge(over, ret):
                        y = value_of(over, blk)
                        if op == "GetSlot":
                            if y != x0:
                                return "changes the partition"
                            if ret != x0 >> o & mask:
                                return "does not return exactly the slot's bits"
                        elif y != x0 & ~(mask << o) | val << o:
                            return "does not set exactly the slot's bits"
                    return c, allowed, judge, None
                up = op.endswith("Right")
                l = rng.randrange(S)
                r = min(S, l + rng.choice((0, 1, 2, 3, rng.randrange(1, 40))))
                n = rng.choice((1, 1, 1, 2, 3, rng.randrange(1, 20)))
                if up and r + n > S or not up and l < n:
                    return None
                if up and l + n > S:
                    return None
                c.args[2], c.args[3], c.args[4] = (l, 32, False), (r, 32, False), (n, 32, False)
                c.note = f"positions {l}..{r - 1} by {n}, width {w}"
                if "Slots" in op:
                    sp = Shift(P, reg + l * w, reg + r * w, n * w, up)
                else:
                    sp = Shift(P, 64 + T + l, 64 + T + r, n, up)
                return c, allowed, shift_judge(sp, blk), sp
            guard(und, op, lambda: decide(Summary(m, name), f"{op}", mkc))
    allocations(viol, und, ev, fns)
    cov = {"functions": fns, "events": ev, "undecided": und, "samples per function": N}
    return viol, cov


class AVal(reval.Val):
    """the filter's size table is the same whenever it is read"""
    tab = None

    def leaf(self, t):
        if t not in self.fixed and t.op == "tok" and t.args and t.args[0] in ("ldm", "undef", "undefc"):
            raise reval.Unknown("unresolved")
        return super().leaf(t)

    def membyte(self, addr, ver):
        base, n, sizes = self.tab
        d = addr - base
        if 0 <= d < 8 * n:
            return sizes[d // 8] >> (8 * (d % 8)) & 255
        return super().membyte(addr, ver)


class Alloc(Book):
    """a buffer that becomes a partition's is large enough for the record's size class and the slots' width"""

    def init(self, eng, st):
        super().init(eng, st)
        self.defer, self.filled = [], set()

    def on_new(self, eng, st, i, t, args):
        st.aux[("bytes", t.id)] = args[0]
        st.aux[("buf", t.id)] = t
        st.key = st.key | {("alloc", t.id, i.id)}

    def on_opaque(self, eng, st, i, name, args):
        if self.summary(name).writes:
            if "wrote" not in st.key:
                self.filled.add("zeros")
            for x in list(st.key):
                if isinstance(x, tuple) and x[0] == "alloc":
                    self.filled.add(x[1])
        return super().on_opaque(eng, st, i, name, args)

    def width_now(self, eng, st):
        if self.me == "ShrinkInfixStoreInfixSize":
            return zext(mk("arg", 2, w=32), 64)
        this = mk("arg", 0, ptr=True)
        return zext(eng.read(st, this, self.L["infix_size_%d" % self.var], 4), 64)

    def cleared(self, eng, st, i, args):
        """memset to zero of a partition's buffer"""
        b, o, v = addr_parts(args[0])
        st.key = st.key | {("init", b.id)}
        n = st.aux.get(("bytes", b.id))
        if v is None and o == 0 and isc(args[1]) and cv(args[1]) == 0:
            if n is not None:
                a, w = n, args[2]
                if a is w or reval.differs([(mk("i.umin", a, w), a)], {}, n=60)[0] is None:
                    st.key = st.key | {("clean", b.id)}
            elif self.me == "LoadListToInfixStore":
                st.key = st.key | {"zeroed"}
                got, short = self.sample(eng, st, mk("arg", 1, ptr=True), 0, args[2], 0)
                if short:
                    eng.report(i, "clearing a partition leaves part of it: " + short + " cleared", st)

    def unclean(self, eng, st, i, base, off):
        p = eng.read(st, base, off + self.ptr_off, 8, True)
        if p.op == "asptr":
            p = p.args[0]
        if ("bytes", p.id) in st.aux and any(isinstance(x, tuple) and x[0] == "alloc" and x[1] == p.id for x in st.key):
            self.hit("fresh buffer cleared")
            if ("clean", p.id) not in st.key and ("filled", p.id) not in st.key:
                self.defer.append((p.id, i, st.trail))

    def store(self, eng, st, inst, base, off, var, size, val):
        if inst.op in ("call", "invoke") and str(inst.callee.v).startswith("llvm.memset"):
            self.cleared(eng, st, inst, [eng.val(st, x) for x in inst.ops])
        elif ("bytes", base.id) in st.aux:
            st.key = st.key | {("filled", base.id)}
            self.filled.add(base.id)
        if self.me == "LoadListToInfixStore" and base.op not in ("alloca", "arg"):
            st.key = st.key | {"wrote"}
            if inst.op == "store" and val is not None and isc(val) and not cv(val):
                self.filled.add("zeros")
        return super().store(eng, st, inst, base, off, var, size, val)

    def sample(self, eng, st, base, off, n, slack=8):
        """-> (valuations compared, description of one where n bytes are too few)"""
        g = self.get(eng, st, base, off, "grade")
        w = self.width_now(eng, st)
        this = mk("arg", 0, ptr=True)
        SC, T = self.L["scaled_sizes_%d" % self.var], self.L["target_size_%d" % self.var]
        done = 0
        jn, jg = joined(n), joined(g) | joined(w)
        if {x.args[1] for x in jn - jg} & {x.args[1] for x in jg - jn}:
            return 0, None          # related values, joined apart
        own = atoms(n) | atoms(g) | atoms(w)
        rel = {c: x for c, x in st.facts.items() if not free_ptr(c) and atoms(c) <= own}
        wb = (5 << 40) + self.L["infix_size_%d" % self.var]
        for k in range(400):
            if done >= 60:
                break
            v = AVal(9000 + k)
            TH = 5 << 40
            v.fixed[this] = TH
            r = random.Random(k)
            first = r.randrange(40, 200)
            v.tab = (TH + SC, 500, [first + r.randrange(1, 30) * j for j in range(500)])
            v.choose = lambda s_, t: (TH + SC + 8 * r.randrange(200)) if t.ptr and t.op == "tok" else \
                (r.randrange(200) if t.op in ("tok", "arg") and not t.ptr else None)
            ww = r.randrange(4, 40)
            v.bytegen = lambda s_, a, ver: (ww >> (8 * (a - wb)) & 255) if 0 <= a - wb < 4 else None
            try:
                if reval.facts_ok(v, rel) is False:
                    continue
                W, gr = v.ev(w), v.ev(g)
                if not 1 <= W <= 56 or gr >= 256:
                    continue
                S = v.tab[2][gr]
                need = (64 + T + S + (S - 1) * W) // 8 + 8 if slack else (64 + T + S * (W + 1) + 7) // 8
                got = v.ev(n)
                if got > 1 << 40:
                    continue
            except reval.Unknown:
                continue
            done += 1
            if got < need:
                return done, f"{S} slots of width {W} need {need} bytes, {got} are"
        return done, None

    def judge(self, eng, st, i, base, off):
        p = eng.read(st, base, off + self.ptr_off, 8, True)
        if p.op == "asptr":
            p = p.args[0]
        site = next((x for x in st.key if isinstance(x, tuple) and x[0] == "alloc" and x[1] == p.id), None)
        n = st.aux.get(("bytes", p.id))
        if site is None or n is None:
            return
        done, worst = self.sample(eng, st, base, off, n)
        if not done:
            self.undec.append(f"{i.loc()}: size of a partition's buffer")
            return
        self.hit("buffer sized")
        if worst:
            eng.report(i, "a partition gets a buffer too small for its size class: " + worst + " allocated", st)

    def call(self, eng, st, i, callee, args):
        f = self.mod.fns.get(callee) if isinstance(callee, str) else None
        n = mname(f) if f is not None else None
        if n == "LoadListToInfixStore":
            b, o, v = addr_parts(args[1])
            if v is None:
                self.judge(eng, st, i, b, o)
                z = trunc(args[5], 1) if len(args) > 5 and args[5].w > 1 else args[5] if len(args) > 5 else None
                if z is not None and isc(z) and not cv(z):
                    self.unclean(eng, st, i, b, o)
                p = eng.read(st, b, o + self.ptr_off, 8, True)
                st.key = st.key | {("filled", (p.args[0] if p.op == "asptr" else p).id)}
        return super().call(eng, st, i, callee, args)

    def on_api(self, eng, st, i, op, args):
        self.move(eng, st, i, op, args)
        if op in ("put", "set") and len(args) >= 4:
            b, o, v = addr_parts(args[3])
            if v is None:
                self.judge(eng, st, i, b, o)
                self.unclean(eng, st, i, b, o)

    def ret(self, eng, st, inst, val):
        if self.me in ("ResizeInfixStore", "ShrinkInfixStoreInfixSize"):
            self.judge(eng, st, inst, mk("arg", 1, ptr=True), 0)
        if self.me == "LoadListToInfixStore" and not st.key & {"zeroed", "wrote"}:
            z = mk("arg", 5, w=1)
            if not any(not x and c is z for c, x in st.facts.items()) and z_known(self):
                self.hit("fresh buffer cleared")
                self.defer.append(("zeros", inst, st.trail))


def z_known(c):
    return "bool" in c.fn.dem.rsplit("(", 1)[-1]


def joined(t):
    return {x for x in leaves(t) if x.op == "tok" and x.args[:1] == ("j",)}


def atoms(t):
    return {x for x in leaves(t) if x.op in ("ld", "tok", "arg") or x.op == "pcall"}


def free_ptr(c):
    return any(x.ptr and x.op == "tok" for x in leaves(c))


def allocations(viol, und, ev, fns):
    m = module()
    for var in (0, 1):
        F = fields(m, var)
        if F is None:
            und.append("bookkeeping accessors are not plain bit fields")
            continue
        for f in list(m.fns.values()):
            if f.decl or not (pipeline.is_entry(f.dem) or is_anchor(f.dem)) or pipeline.variant(f.dem) != var:
                continue
            c = Alloc(m, var, F, f)
            e = Engine(m, f, c)
            e.gated = True
            try:
                vs = e.run()
            except AnalysisError as x:
                und.append(str(x))
                continue
            seen = set()
            for p, i, trail in c.defer:
                # a buffer filled in some other way is not judged
                if p not in c.filled and i.loc() not in seen:
                    seen.add(i.loc())
                    vs.append({"entry": f.dem, "loc": i.loc(), "trail": list(trail[-12:]),
                               "msg": "a partition told to be cleared keeps its old bits" if p == "zeros" else
                               "a partition is used whose fresh buffer has not been cleared"})
            viol += vs
            und += [f"{f.dem[:60]} {u}" for u in sorted(set(c.undec))]
            for k, n in c.count.items():
                ev[k] = ev.get(k, 0) + n
            fns.append(f.dem[:120])


def shift_judge(sp, blk):
    x0 = value_of({}, blk)

    def judge(over, ret):
        if value_of(over, blk) != sp.final(x0, blk):
            return "does not move exactly the named bits and clear exactly the ones they leave"
    return judge


def guard(und, what, f):
    try:
        f()
    except (AnalysisError, KeyError) as x:
        und.append(f"{what}: {x}")


def reval_fn(m, name):
    sm = Summary(m, name)
    if sm.heads:
        raise AnalysisError(name + " has loops")

    def ev(case, a, b=None):
        c = Case({0: (a, 64 if b is None else 32, b is None)}, case.blocks)
        if b is not None:
            c.args[1] = (b, 32, False)
        try:
            return walk(sm, c, None)[1]
        except reval.Unknown:
            return None
    return ev
