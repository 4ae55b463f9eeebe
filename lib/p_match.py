"""Which keys a stored fingerprint matches (property C16).

Every function that compares stored fingerprints with a key is cut at its loop headers and summarised piece by piece as
branch facts, live values and the slots it reads.  For every slot that a branch compares with the key, the outcomes of the
paths (match, no match, which half of a search goes on) are compared with the coverage a fingerprint has by definition: v
with lowest set bit k covers exactly the values x with x >> (k + 1) == v >> (k + 1)."""
import random
import pipeline, reval
from divamodel import *
from engine import *
from terms import *
from reval import sgn
from p_bits import MemEngine
from p_book import mname

ANCHOR = {"PointQueryInfixStore": "point", "RangeQueryInfixStore": "range", "DeleteRawFromInfixStore": "delete",
          "GetLongestMatchingInfixSize": "longest", "InsertRawIntoInfixStore": "insert", "ShrinkInfixStoreInfixSize": "shrink"}
OPAQUE = {"GetSlot", "SetSlot", "RankOccupieds", "SelectRunends", "NextOccupied", "PreviousOccupied", "NextRunend",
          "PreviousRunend", "FindEmptySlotAfter", "FindEmptySlotBefore", "ShiftSlotsLeft", "ShiftSlotsRight",
          "ShiftRunendsLeft", "ShiftRunendsRight", "ResizeInfixStore", "LoadListToInfixStore", "GetInfixList"}
WRITES = ("SetSlot", "Shift", "Resize", "Load")


def low(v):
    return v & -v


def covers(v, e):
    k = low(v).bit_length() - 1
    return v >> (k + 1) == e >> (k + 1)


def mentions(t, x, memo=None):
    """x occurs in t, other than in the position of a slot"""
    if t is x:
        return True
    if not isinstance(t, T) or t.op == "slot":
        return False
    memo = memo if memo is not None else {}
    r = memo.get(t)
    if r is None:
        r = memo[t] = any(mentions(a, x, memo) for a in t.args if isinstance(a, T))
    return r


class MatchEngine(MemEngine):
    width_cell = None           # the filter's fingerprint width, which none of the analysed functions changes

    def step(self, st, i):
        if i.op == "load":
            b, o, var = addr_parts(self.val(st, i.ops[0]))
            if b.op == "arg" and b.args[0] == 0 and o == self.width_cell and var is None and i.ty.size == 4:
                st.env[i.id] = tok("width", w=32)
                return None
        return super().step(st, i)

    def memcpy(self, st, i, dst, src, n):
        try:
            return super().memcpy(st, i, dst, src, n)
        except AnalysisError:
            st.key = (tok("copied", i.id), st.key[1])


class MatchClient(Client):
    def __init__(self, mod):
        self.mod = mod
        self.rets = []

    def init(self, eng, st):
        st.key = (tok("mem0"), ())

    def ret(self, eng, st, inst, val):
        self.rets.append((st, val, inst))

    def call(self, eng, st, inst, callee, args):
        if isinstance(callee, str) and callee.startswith("llvm."):
            return NotImplemented
        f = self.mod.fns.get(callee) if isinstance(callee, str) else None
        n = mname(f) if f is not None else None
        if n == "GetSlot":
            s = mk("slot", args[1], args[2], st.key[0], w=64)
            st.env[inst.id] = s
            st.key = (st.key[0], st.key[1] + (("slot", s, inst),))
            return None
        if n == "SetSlot":
            st.key = (st.key[0], st.key[1] + (("set", tuple(args), inst),))
        if n is None or n.startswith(WRITES) or n not in OPAQUE:
            st.key = (tok("after", inst.id), st.key[1])
        if inst.ty.kind != "void":
            st.env[inst.id] = tok("r", inst.id, w=width(inst.ty), ptr=inst.ty.kind == "ptr")
        return None


class Path:
    __slots__ = ("facts", "target", "out", "ret", "acc", "inst")

    def reads(self):
        return [x[1] for x in self.acc if x[0] == "slot"]


class Cut:
    """summaries between loop headers; what does not change in a loop keeps its expression"""

    def __init__(self, mod, name, width_cell, limit=600):
        self.client = c = MatchClient(mod)
        self.eng = e = MatchEngine(mod, name, c)
        self.fn = e.fn
        e.width_cell = width_cell
        self.und = []
        back = {}
        for b in e.rpo:
            for s in b.succs:
                if s in e.rpo and e.rpo[s] <= e.rpo[b]:
                    back.setdefault(s, set()).add(b)
        self.heads = set(back)
        self.body = {}
        for h, ls in back.items():
            bd, todo = {h}, list(ls)
            while todo:
                x = todo.pop()
                if x not in bd:
                    bd.add(x)
                    todo += [p for p in x.preds if p in e.rpo]
            self.body[h] = bd
        self.ty = {i.id: i.ty for b in self.fn.blocks for i in b.insts}
        self.def_ = {i.id: i for b in self.fn.blocks for i in b.insts}
        self.segs = {}
        self.order = sorted(self.heads, key=lambda b: e.rpo[b])
        arr = {}                        # header -> [(env, facts)] of the arrivals from outside
        for h in [None] + self.order:
            st = State()
            st.env, st.mem, st.ver, st.facts, st.aux, st.trail = {}, {}, {}, {}, {}, ()
            c.init(e, st)
            b = e.fn.blocks[0]
            if h is not None:
                b = h
                st.key = (tok("memat", h.id), ())
                ins = arr.get(h, [])
                for k in e.livein[h]:
                    vs = {x[0].get(k) for x in ins}
                    v = vs.pop() if len(vs) == 1 else None
                    st.env[k] = v if v is not None else self.tok(h, k)
                for i in h.insts:
                    if i.op != "phi":
                        break
                    st.env[i.id] = self.tok(h, i.id)
                if ins:
                    st.facts = {f: v for f, v in ins[0][1].items() if all(x[1].get(f) is v for x in ins)}
            res = []
            work = [(b, st)]
            n = 0
            try:
                while work:
                    n += 1
                    if n > limit:
                        raise AnalysisError("too many paths")
                    b, s = work.pop()
                    c.rets = []
                    for su, o in e.block(b, s):
                        env = {k: v for k, v in o.env.items() if k in e.livein[su]}
                        for i in su.insts:
                            if i.op != "phi":
                                break
                            for p, v in i.inc:
                                if p is b:
                                    env[i.id] = e.val(o, v)
                                    break
                        o.env = env
                        if su in self.heads:
                            res.append(self.path(o, su, env, None, b.insts[-1]))
                            if h is None or su not in self.body or h not in self.body[su] or h is not su and su not in self.body[h]:
                                if h not in self.body.get(su, ()):
                                    arr.setdefault(su, []).append((env, dict(o.facts)))
                        else:
                            work.append((su, o))
                    for o, v, i in c.rets:
                        res.append(self.path(o, "ret", {}, v, i))
            except AnalysisError as ex:
                self.und.append(str(ex))
                res = None
            self.segs[h] = res

    def tok(self, h, k):
        ty = self.ty[k]
        return tok("at", h.id, k, w=width(ty), ptr=ty.kind == "ptr")

    def path(self, st, target, env, ret, inst):
        g = Path()
        g.facts, g.target, g.out, g.ret, g.acc, g.inst = dict(st.facts), target, env, ret, st.key[1], inst
        return g

    def slot_phi(self, i, seen=None):
        """calls of GetSlot whose results this value can be, or None if it can be something else"""
        seen = seen if seen is not None else set()
        if i.id in seen:
            return []
        seen.add(i.id)
        if i.op in ("call", "invoke"):
            f = self.client.mod.fns.get(i.callee.v) if i.callee.kind == "fn" else None
            return [i] if f is not None and mname(f) == "GetSlot" else None
        if i.op == "phi":
            xs = [x for _, x in i.inc]
        elif i.op == "select":
            xs = i.ops[1:]
        else:
            return None
        r = []
        for x in xs:
            q = self.slot_phi(x.v, seen) if x.kind == "inst" else None
            if q is None:
                return None
            r += q
        return r

    def prov(self, v, seen=None):
        """arguments a value is computed from"""
        seen = seen if seen is not None else set()
        if v.kind == "arg":
            return {v.v}
        if v.kind != "inst" or v.v.id in seen:
            return set()
        seen.add(v.v.id)
        i = v.v
        xs = [x for _, x in i.inc] if i.op == "phi" else list(i.ops)
        r = set()
        for x in xs:
            r |= self.prov(x, seen)
        return r


class SVal(reval.Val):
    wrap = True

    def __init__(self, seed, w, cells):
        super().__init__(seed)
        self.width, self.cells, self.slots = w, cells, {}

    def leaf(self, t):
        v = self.fixed.get(t)
        if v is None and not t.ptr and t.w in (32, 64) and t.op == "tok":
            v = self.rng.choice([self.rng.randrange(-1, 40), self.rng.randrange(0, 1100)]) & M(t.w)
            self.fixed[t] = v
            return v
        return super().leaf(t)

    def _ev(self, t):
        if t.op == "slot" and t not in self.fixed:
            k = (self.ev(t.args[0]), self.ev(t.args[1]))
            if k not in self.slots:
                self.slots[k] = self.rng.choice([0, self.rng.randrange(1, 1 << self.width), self.rng.randrange(1, 1 << self.width)])
            return self.slots[k]
        return super()._ev(t)

    def membyte(self, addr, ver):
        while ver.op == "mst":
            prev, a, size, x = ver.args
            d = addr - self.ev(a)
            if 0 <= d < size:
                return self.ev(x) >> (8 * d) & 255
            ver = prev
        for o, size, v in self.cells:
            if 0 <= addr - THISV - o < size:
                return v >> (8 * (addr - THISV - o)) & 255
        return self.byte(addr, ver.id + 1)


THISV, STOREV = 0x7100 << 32, 0x7200 << 32


class Decide:
    def __init__(self, mod, f, kind, var, viol, und, hit):
        self.mod, self.f, self.kind, self.var = mod, f, kind, var
        self.viol, self.und, self.hit = viol, und, hit
        self.off = mod.layout["infix_size_%d" % var]
        self.cut = Cut(mod, f.name, self.off)
        self.keys = [mk("arg", 2, w=64)] + ([mk("arg", 3, w=64)] if kind == "range" else [])
        for e in self.cut.und:
            und.append(f"{f.dem[:60]}: {e[:80]}")
        self.done = set()

    # ---- which slots are compared with the key -------------------------------------------------
    def related(self, s, paths):
        for p in paths:
            for c in p.facts:
                if mentions(c, s) and any(mentions(c, k) for k in self.keys):
                    return True
        return False

    def steered(self, s, paths):
        """values carried on depend on a comparison of the slot with the key"""
        for p in paths:
            for t in p.out.values():
                if isinstance(t, T) and t.op == "select" and mentions(t.args[0], s) and \
                        any(mentions(t.args[0], k) for k in self.keys):
                    return True
        return False

    def candidates(self):
        c = self.cut
        for h in [None] + c.order:
            ps = c.segs.get(h)
            if not ps:
                continue
            seen = []
            for p in ps:
                for x in p.acc:
                    if x[0] == "slot" and x[1] not in seen:
                        seen.append(x[1])
                        yield h, x[1], x[2], [x[2]]
            if h is not None:
                for i in h.insts:
                    if i.op != "phi":
                        break
                    q = c.slot_phi(i)
                    if q:
                        yield h, c.tok(h, i.id), i, q

    def phi_decided(self, h):
        c = self.cut
        for i in h.insts:
            if i.op != "phi":
                break
            if c.slot_phi(i) and self.related(c.tok(h, i.id), c.segs.get(h) or ()):
                return True
        return False

    # ---- evaluation ----------------------------------------------------------------------------
    def fresh(self, seed, w, keys):
        v = SVal(seed, w, [(self.off, 4, w)])
        v.fixed[mk("arg", 0, w=64, ptr=True)] = THISV
        v.fixed[mk("arg", 1, w=64, ptr=True)] = STOREV
        v.fixed[tok("width", w=32)] = w
        for t, x in zip(self.keys, keys):
            v.fixed[t] = x
        return v

    def pick(self, v, paths):
        r = []
        for p in paths:
            if reval.facts_ok(v, p.facts) is True:
                r.append(p)
        return r

    def outcome(self, v, p, h, w, keys, s, depth=0):
        """("ret", value, out) / ("cont", None, out) / ("leave", None, out) / None"""
        if p.target == "ret":
            try:
                return ("ret", v.ev(p.ret) if p.ret is not None else None, [])
            except reval.Unknown:
                return ("ret", None, [])
        t = p.target
        out = {}
        for k, x in p.out.items():
            try:
                out[k] = v.ev(x)
            except (reval.Unknown, AttributeError):
                pass
        vals = list(out.values())
        if self.phi_decided(t):
            return ("cont", None, vals)
        if self.kind == "delete" and h is not None and t not in self.cut.body[h]:
            return ("leave", None, vals)
        if depth > 4 or self.cut.segs.get(t) is None:
            return None
        v2 = self.fresh(v.rng.randrange(1 << 30), w, keys)
        v2.slots = dict(v.slots)
        for k, x in v.fixed.items():
            if k.op == "tok" and not (k.args and k.args[0] == "at" and k.args[1] == t.id):
                v2.fixed[k] = x
        for k, x in out.items():
            v2.fixed[self.cut.tok(t, k)] = x
        ps = self.pick(v2, self.cut.segs[t])
        if len(ps) != 1:
            return None
        q = ps[0]
        for r in q.reads():
            if self.related(r, self.cut.segs[t]) or self.steered(r, self.cut.segs[t]):
                return ("cont", None, vals)
        return self.outcome(v2, q, h, w, keys, s, depth + 1)

    def trials(self):
        r = random.Random(5)
        for w in (4, 5):
            for val in range(1, 1 << w):
                for e in range(1 << w):
                    if self.kind in ("delete", "longest", "insert"):
                        if not e & 1:
                            continue
                        yield w, val, [(r.choice([0, 0, 1, 3, 900]) << w) | e]
                    elif self.kind == "point":
                        yield w, val, [(r.choice([0, 1, 3, 900]) << w) | e]
                    elif w == 4:
                        d = r.choice([0, 0, 1, 2, 500])
                        i = r.choice([0, 1, 7, 300])
                        for _ in range(2):
                            e2 = r.randrange(1 << w)
                            a, b = (i << w) | e, (i + d << w) | e2
                            yield w, val, [min(a, b), max(a, b)]

    def run(self):
        n = 0
        for h, s, inst, reads in self.candidates():
            ps = [p for p in self.cut.segs[h] if s in p.reads() or s.op == "tok"]
            if self.kind == "shrink":
                continue
            rel, ste = self.related(s, ps), self.steered(s, ps)
            if not rel and not ste:
                continue
            n += 1
            key = inst.loc()
            stay = h is not None and all(p.target is h for p in ps)
            if stay and self.kind in ("delete", "longest", "insert"):
                self.search(h, s, inst, ps)
            elif self.kind == "insert":
                self.und.append(f"{self.f.dem[:60]}: slot compared outside a search at {key}")
            else:
                self.match(h, s, inst, reads, ps)
        if self.kind == "shrink":
            self.shrink()
        elif n == 0:
            self.und.append(f"{self.f.dem[:60]}: no slot is compared with the key")

    def report(self, inst, msg):
        if (inst.loc(), msg) in self.done:
            return
        self.done.add((inst.loc(), msg))
        self.viol.append({"entry": self.f.dem, "loc": inst.loc(), "trail": [], "msg": msg})

    def expected(self, w, val, keys, prov):
        m = (1 << w) - 1
        if self.kind != "range":
            return covers(val, keys[0] & m)
        (li, le), (ri, re_) = divmod(keys[0], 1 << w), divmod(keys[1], 1 << w)
        lo, hi = val - low(val), val | (val - 1)
        if li == ri:
            return le <= hi and lo <= re_
        if prov == {2}:
            return le <= hi
        if prov == {3}:
            return lo <= re_
        return None

    def match(self, h, s, inst, reads, ps):
        prov = set()
        for c in reads:
            prov |= self.cut.prov(c.ops[2])
        prov &= {2, 3}
        judged = 0
        for w, val, keys in self.trials():
            exp = self.expected(w, val, keys, prov)
            if exp is None:
                continue
            found, not_found, bad = 0, 0, None
            for t in range(5):
                v = self.fresh(hash((w, val, keys[0], t)) & 0xffffff, w, keys)
                v.fixed[s] = val
                if s.op == "slot":
                    try:
                        pos = v.ev(s.args[1])
                        v.slots[(v.ev(s.args[0]), pos)] = val
                    except reval.Unknown:
                        pos = None
                else:
                    pos = None
                for p in self.pick(v, ps):
                    if not any(mentions(c, s) and any(mentions(c, k) for k in self.keys) for c in p.facts):
                        continue
                    later = p.reads()
                    later = later[later.index(s) + 1:] if s in later else later
                    if any(mentions(c, x) and any(mentions(c, k) for k in self.keys) for x in later if x is not s
                           for c in p.facts):
                        o = ("cont", None, [])
                    else:
                        o = self.outcome(v, p, h, w, keys, s)
                    if o is None:
                        continue
                    if self.kind in ("point", "range"):
                        yes = o[0] == "ret" and o[1] is not None and o[1] & 1
                    elif self.kind == "longest":
                        yes = o[0] == "ret" and o[1] not in (None, 0)
                        if yes and exp and o[1] != w - (low(val).bit_length() - 1):
                            self.report(inst, f"a matching fingerprint of {w - (low(val).bit_length() - 1)} bits is reported "
                                              f"as having {o[1]} (fingerprint {val:0{w}b})")
                            return
                    else:
                        yes = o[0] in ("leave", "ret")
                        if yes and pos is not None and pos not in o[2] and o[0] == "leave":
                            if exp:
                                self.report(inst, "the position that is removed is not that of the matching fingerprint "
                                                  f"(fingerprint {val:0{w}b}, key {keys[0] & ((1 << w) - 1):0{w}b})")
                                return
                            yes = False
                    judged += 1
                    if yes:
                        found += 1
                    else:
                        not_found += 1
                    if exp and not yes:
                        bad = "is passed over although it covers the key"
            if not exp and found and not not_found:
                bad = "is taken as a match although it does not cover the key"
            if bad:
                ks = " to ".join(f"{k >> w}:{k & ((1 << w) - 1):0{w}b}" for k in keys)
                self.report(inst, f"a stored fingerprint {bad} (fingerprint {val:0{w}b}, key {ks})")
                return
        if judged:
            self.hit("fingerprint comparison decided")
        else:
            self.und.append(f"{self.f.dem[:60]}: comparison at {inst.loc()}")

    def search(self, h, s, inst, ps):
        """a binary search over a run"""
        pos = s.args[1]
        phis = [i.id for i in h.insts if i.op == "phi"]
        start = None
        if self.kind != "insert":
            # the phi at which the scan for a match starts
            cand = set()
            for h2 in self.cut.order:
                if h2 is h or h2 in self.cut.body[h]:
                    continue
                for p in self.cut.segs.get(h) or ():
                    if p.target is h2:
                        for i in h2.insts:
                            if i.op != "phi":
                                break
                            x = p.out.get(i.id)
                            for k in phis:
                                if x is self.cut.tok(h, k) and any(contains(r.args[1], self.cut.tok(h2, i.id)) for q in
                                                                   self.cut.segs.get(h2) or () for r in q.reads()):
                                    cand.add(k)
            if len(cand) != 1:
                self.und.append(f"{self.f.dem[:60]}: start of the scan after the search at {inst.loc()}")
                return
            start = cand.pop()
        sides = {}
        below = {(a, b) for a in phis for b in phis if a != b}      # bounds that were always in this order
        judged = 0
        for w, val, keys in self.trials():
            e = keys[0] & ((1 << w) - 1)
            for t in range(3):
                v = self.fresh(hash((w, val, keys[0], t)) & 0xffffff, w, keys)
                v.fixed[s] = val
                for k in phis:
                    if self.cut.ty[k].kind == "int":
                        v.fixed[self.cut.tok(h, k)] = v.rng.randrange(0, 60) & M(self.cut.ty[k].bits)
                try:
                    mid = v.ev(pos)
                    q = self.pick(v, ps)
                    if len(q) != 1:
                        continue
                    got = {k for k in phis if k in q[0].out and v.ev(q[0].out[k]) == mid and
                           v.ev(self.cut.tok(h, k)) != mid}
                except reval.Unknown:
                    continue
                if not got:
                    continue
                judged += 1
                if start is not None:
                    if covers(val, e) and start not in got:
                        self.report(inst, "the search for a fingerprint to the left of which the match lies skips the match "
                                          f"itself (fingerprint {val:0{w}b}, key {keys[0] >> w}:{e:0{w}b})")
                        return
                    continue
                lo, me = val - low(val), e - 1
                if lo != me:
                    sides.setdefault(lo < me, set()).update(got)
                    at = {k: sgn(v.fixed[self.cut.tok(h, k)], self.cut.ty[k].bits) for k in phis
                          if self.cut.tok(h, k) in v.fixed and self.cut.ty[k].kind == "int"}
                    for k in at:
                        for k2 in at:
                            if not at[k] < at[k2]:
                                below.discard((k, k2))
        if start is None:
            if True not in sides or False not in sides:
                self.und.append(f"{self.f.dem[:60]}: search at {inst.loc()}")
                return
            if len(sides[True]) != 1 or len(sides[False]) != 1 or sides[True] == sides[False] or \
                    (min(sides[False]), min(sides[True])) in below:
                self.report(inst, "an insertion does not keep a run ordered by the lower end of what its fingerprints cover")
                return
        if judged:
            self.hit("search decided")

    def shrink(self):
        nw = mk("arg", 2, w=32)
        for h in [None] + self.cut.order:
            for p in self.cut.segs.get(h) or ():
                for x in p.acc:
                    if x[0] != "set":
                        continue
                    args, inst = x[1], x[2]
                    ss = [r for r in p.reads() if contains(args[3], r)]
                    if len(ss) != 1:
                        continue
                    s = ss[0]
                    judged = 0
                    for w in (5, 6, 9):
                        for w2 in range(1, w + 1):
                            for val in range(1, 1 << w):
                                v = self.fresh(val * 64 + w2, w, [])
                                v.fixed[nw] = w2
                                v.fixed[s] = val
                                try:
                                    if reval.facts_ok(v, {c: b for c, b in p.facts.items() if mentions(c, s) or
                                                          contains(c, nw)}) is not True:
                                        continue
                                    r = v.ev(args[3])
                                except reval.Unknown:
                                    continue
                                judged += 1
                                d = w - w2
                                want = val >> d if low(val) >> d else val >> d | 1
                                if r != want:
                                    self.report(inst, f"shortening fingerprints from {w} to {w2} bits turns {val:0{w}b} into "
                                                      f"{r:b}, which does not cover the same values")
                                    return
                    if judged:
                        self.hit("shortening decided")


def check(tier):
    keep = OPAQUE
    mod = pipeline.diva_module(keep=keep, tag="match", entries=lambda d: (pipeline.method(d) or "").split("(")[0] in ANCHOR)
    viol, und, ev, fns = [], [], {}, []

    def hit(k, n=1):
        ev[k] = ev.get(k, 0) + n
    for f in mod.fns.values():
        if f.decl:
            continue
        n = mname(f)
        if n not in ANCHOR or not f.dem.startswith("Diva<"):
            continue
        fns.append(f.dem[:140])
        hit("function")
        try:
            Decide(mod, f, ANCHOR[n], pipeline.variant(f.dem), viol, und, hit).run()
        except AnalysisError as ex:
            und.append(f"{f.dem[:60]}: {str(ex)[:80]}")
    return viol, {"functions": fns, "events": ev, "undecided": und}
