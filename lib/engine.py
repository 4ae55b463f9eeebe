"""Path-sensitive value-flow / typestate engine (property simulation) over LLVM IR.

One dataflow state = (typestate key, value environment, abstract memory, branch facts, auxiliary roots).  States that
reach a block with the same typestate key are merged by an equality-preserving join, states with different keys are kept
apart, and the whole is iterated to a fixpoint: every path through the function, any number of loop iterations and any
input is covered.  No code is run and no solver is asked about a path.
"""
import heapq
from terms import *


class AnalysisError(Exception):
    pass


class State:
    __slots__ = ("key", "env", "mem", "ver", "facts", "aux", "trail")

    def copy(self):
        s = State()
        s.key = self.key
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.ver = dict(self.ver)
        s.facts = dict(self.facts)
        s.aux = dict(self.aux)
        s.trail = self.trail
        return s


class Client:
    """override the hooks; each may return None (state continues), a list of states, or [] (path ends)"""
    name = "client"
    monotone = False            # keys never return to an earlier value: loops whose key changes are unrolled exactly
    ignore = frozenset()

    def init(self, eng, st):
        st.key = ()

    def call(self, eng, st, inst, callee, args):
        return NotImplemented

    def store(self, eng, st, inst, base, off, var, size, val):
        pass

    def load(self, eng, st, inst, base, off, var, size):
        pass

    def copy(self, eng, st, inst, db, do, dv, sb, so, sv, n):
        pass

    def ret(self, eng, st, inst, val):
        pass

    def assume(self, eng, st, atom, val):
        pass

    def merge_key(self, key):
        return key

    def restart(self):
        """the fixpoint is reached: forget what was collected on the way"""
        for k in ("count",):
            if hasattr(self, k):
                getattr(self, k).clear()
        for k in ("undec", "rets"):
            if hasattr(self, k):
                setattr(self, k, [])


PURE_INTR = ("llvm.bswap", "llvm.ctpop", "llvm.ctlz", "llvm.cttz", "llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax",
             "llvm.fshl", "llvm.fshr", "llvm.abs", "llvm.usub.sat", "llvm.uadd.sat", "llvm.x86.", "llvm.expect",
             "llvm.is.constant", "llvm.objectsize", "llvm.fmuladd", "llvm.fabs", "llvm.ceil", "llvm.floor")


class Engine:
    def __init__(self, mod, fn, client, max_visits=1200, report=None):
        self.mod = mod
        self.fn = mod.body(fn) if isinstance(fn, str) else mod.body(fn.name)
        if self.fn.decl:
            raise AnalysisError("no body for " + self.fn.dem)
        self.client = client
        self.viol = []
        self.violkeys = set()
        self.max_visits = max_visits
        self.stats = {"blocks": 0, "insts": 0, "states": 0, "calls": 0, "joins": 0}
        self._liveness()

    # ------------------------------------------------------------------ reporting
    def report(self, inst, msg, st=None, tag=None):
        k = (tag or msg, inst.file, inst.line)
        if k in self.violkeys:
            return
        self.violkeys.add(k)
        self.viol.append({"entry": self.fn.dem, "loc": inst.loc(), "msg": msg,
                          "trail": list(st.trail[-12:]) if st is not None else []})

    # ------------------------------------------------------------------ liveness of SSA values
    def _liveness(self):
        blocks = self.fn.blocks
        use = {b: set() for b in blocks}
        dfn = {b: set() for b in blocks}
        phiuse = {b: set() for b in blocks}   # uses at end of pred b
        for b in blocks:
            for i in b.insts:
                if i.op == "phi":
                    for p, v in i.inc:
                        if v.kind == "inst":
                            phiuse[p].add(v.v.id)
                else:
                    for v in i.ops:
                        if v.kind == "inst" and v.v.id not in dfn[b]:
                            use[b].add(v.v.id)
                    if i.callee is not None and i.callee.kind == "inst" and i.callee.v.id not in dfn[b]:
                        use[b].add(i.callee.v.id)
                dfn[b].add(i.id)
        livein = {b: set() for b in blocks}
        liveout = {b: set() for b in blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(blocks):
                lo = set(phiuse[b])
                for s in b.succs:
                    lo |= livein[s]
                li = use[b] | (lo - dfn[b])
                if lo != liveout[b] or li != livein[b]:
                    liveout[b], livein[b] = lo, li
                    ch = True
        for b in blocks:
            for i in b.insts:
                if i.op == "phi":
                    livein[b].discard(i.id)
        self.livein = livein
        # reverse post order
        seen = set()
        order = []
        stack = [(blocks[0], iter(blocks[0].succs))]
        seen.add(blocks[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: k for k, b in enumerate(order)}

    # ------------------------------------------------------------------ values
    def val(self, st, v):
        k = v.kind
        if k == "inst":
            r = st.env.get(v.v.id)
            if r is None:
                r = tok("undef", v.v.id, w=width(v.ty), ptr=v.ty.kind == "ptr")
            return r
        if k == "const":
            return const(v.v, v.ty.bits)
        if k == "null":
            return const(0, 64)
        if k == "arg":
            return mk("arg", v.v, w=width(v.ty), ptr=v.ty.kind == "ptr")
        if k == "undef":
            return tok("undefc", width(v.ty), w=width(v.ty), ptr=v.ty.kind == "ptr")
        if k == "glob":
            return mk("glob", v.v, ptr=True)
        if k == "fn":
            return mk("fn", v.v, ptr=True)
        if k == "cexpr" and v.v == "gep":
            base, off, var = v.extra
            return add(self.val(st, base), const(off))
        if k == "cexpr" and v.v in ("ptrtoint", "inttoptr", "bitcast"):
            return self.val(st, v.extra[0])
        if k == "fp":
            return mk("fp", repr(v.v), w=width(v.ty))
        if k == "aggzero":
            return mk("aggzero", w=width(v.ty))
        return tok("other", str(v.v), w=width(v.ty), ptr=v.ty.kind == "ptr")

    # ------------------------------------------------------------------ memory
    def vers(self, st, base, off=0, size=8):
        """version of the unknown part of object `base` seen by an access at `off`"""
        vs = [v for (b, lo), v in st.ver.items() if b is base and lo < off + size]
        if not vs:
            return const(0)
        if len(vs) == 1:
            return vs[0]
        return mk("vs", *sorted(vs, key=lambda t: t.id))

    def default_cell(self, st, base, off, size, isptr):
        if base.op == "alloca":
            return tok("uninit", base, off, size, self.vers(st, base, off, size), w=size * 8, ptr=isptr)
        return mk("ld", add(base, const(off)), size, self.vers(st, base, off, size), w=size * 8, ptr=isptr)

    def read(self, st, base, off, size, isptr=False, site=None):
        c = st.mem.get((base, off))
        if c is not None and c[0] == size:
            v = c[1]
            return v
        # sub-word / wider access of existing cells
        ov = [(o, s, v) for (b, o), (s, v) in st.mem.items() if b is base and o < off + size and off < o + s]
        if not ov:
            r = self.default_cell(st, base, off, size, isptr)
            return r
        if len(ov) == 1 and ov[0][0] <= off and off + size <= ov[0][0] + ov[0][1]:
            o, s, v = ov[0]
            sh = (off - o) * 8
            return trunc(binop("lshr", v, const(sh, v.w)), size * 8)
        # try to compose from exact pieces
        ov.sort()
        pos = off
        res = None
        ok = True
        for o, s, v in ov:
            if o != pos:
                ok = False
                break
            piece = binop("shl", zext(v, size * 8), const((o - off) * 8, size * 8)) if v.w <= size * 8 else None
            if piece is None:
                ok = False
                break
            res = piece if res is None else binop("or", res, piece)
            pos = o + s
        if ok and pos == off + size:
            return res
        return tok("mix", base, off, size, site.id if site is not None else 0, w=size * 8, ptr=isptr)

    SNAP = 24

    def snapshot(self, st, base, off=None):
        """term for the contents of object `base` seen through a variable offset"""
        v = self.vers(st, base, 1 << 50, 8)
        cs = sorted((o, s, x) for (b, o), (s, x) in st.mem.items() if b is base and (off is None or o + s > off))
        if not cs:
            return v
        if len(cs) > self.SNAP:
            return None
        args = []
        for o, s_, x in cs:
            args += [o, s_, x]
        return mk("memv", v, base, *args)

    def write(self, st, base, off, size, v):
        kill = [(b, o) for (b, o), (s, _) in st.mem.items() if b is base and o < off + size and off < o + s]
        for k in kill:
            del st.mem[k]
        st.mem[(base, off)] = (size, v)

    NEG = -(1 << 40)

    def clobber(self, st, base, site, lo=None, hi=None):
        """everything in `base` from offset lo (or all of it) up to hi gets an unknown new value"""
        if lo is None:
            lo = self.NEG
        if hi is None:
            hi = 1 << 60
        kill = [(b, o) for (b, o), (s, _) in st.mem.items() if b is base and o < hi and lo < o + s]
        for k in kill:
            del st.mem[k]
        t = self.fresh(st, ("ver",) + tuple(site))
        if hi - lo <= 64 and lo >= 0:
            # small exact range: individual unknown cells
            for o in range(lo, hi, 8):
                n = min(8, hi - o)
                st.mem[(base, o)] = (n, tok("clb", base, o, t, w=n * 8, ptr=(n == 8)))
            return
        for k in [k for k in st.ver if k[0] is base and k[1] >= lo]:
            del st.ver[k]
        st.ver[(base, lo)] = t

    def fresh(self, st, name, w=64, ptr=False):
        """a token for a new value produced at a site; an older value with the same name is renamed"""
        t = tok(*name, w=w, ptr=ptr)
        old = tok("old", *name, w=w, ptr=ptr)
        self.rename(st, t, old)
        return t

    def rename(self, st, a, b):
        m = {a: b}
        memo = {}
        hit = False
        for d in (st.env, st.aux, st.ver):
            for k, v in d.items():
                if v is not None and contains(v, a):
                    d[k] = subst(v, m, memo)
                    hit = True
        nm = {}
        chg = False
        for (base, o), (s, v) in st.mem.items():
            nb = subst(base, m, memo) if contains(base, a) else base
            nv = subst(v, m, memo) if contains(v, a) else v
            if nb is not base or nv is not v:
                chg = True
            if nb is not base and (nb, o) in st.mem:
                continue        # summary token already has this cell: leave it unknown
            nm[(nb, o)] = (s, nv)
        if chg:
            st.mem = nm
        fs = {}
        for k, v in st.facts.items():
            if contains(k, a):
                continue
            fs[k] = v
        st.facts = fs
        nk = {}
        chg = False
        for k, v in st.ver.items():
            if contains(k[0], a):
                chg = True
                nk[(subst(k[0], m, memo), k[1])] = v
            else:
                nk[k] = v
        if chg:
            st.ver = nk

    # ------------------------------------------------------------------ facts
    def truth(self, st, c):
        if isc(c):
            return bool(cv(c))
        if c.op == "not":
            r = self.truth(st, c.args[0])
            return None if r is None else not r
        r = st.facts.get(c)
        if r is not None:
            return r
        if c.op == "and" and c.w == 1:
            a, b = self.truth(st, c.args[0]), self.truth(st, c.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if c.op == "or" and c.w == 1:
            a, b = self.truth(st, c.args[0]), self.truth(st, c.args[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if c.op == "icmp":
            p, a, b = c.args
            ra, rb = self.eqc(st, a), self.eqc(st, b)
            if (ra is not a or rb is not b):
                n = icmp(p, ra, rb)
                if isc(n):
                    return bool(cv(n))
            if p == "eq" and isc(b):
                # range facts
                lo, hi = self.range(st, a)
                if cv(b) < lo or cv(b) > hi:
                    return False
                if lo == hi == cv(b):
                    return True
            if p == "ult":
                la, ha = self.range(st, a)
                lb, hb = self.range(st, b)
                if ha < lb:
                    return True
                if la >= hb:
                    return False
            if p == "slt":
                la, ha = self.range(st, a)
                lb, hb = self.range(st, b)
                h = 1 << (a.w - 1)
                if ha < h and hb < h:
                    if ha < lb:
                        return True
                    if la >= hb:
                        return False
        return None

    def range(self, st, t):
        """cheap unsigned interval from structure and facts"""
        m = M(t.w)
        if isc(t):
            return cv(t), cv(t)
        lo, hi = 0, m
        if t.op == "zext":
            lo, hi = self.range(st, t.args[0])
        elif t.op == "and":
            for a in t.args:
                if isc(a):
                    hi = min(hi, cv(a))
        elif t.op == "lshr" and isc(t.args[1]):
            l2, h2 = self.range(st, t.args[0])
            lo, hi = l2 >> cv(t.args[1]), h2 >> cv(t.args[1])
        elif t.op == "urem" and isc(t.args[1]) and cv(t.args[1]):
            hi = cv(t.args[1]) - 1
        return lo, hi

    def eqc(self, st, t):
        """constant known equal to t by facts"""
        if isc(t):
            return t
        f = st.aux.get(("eqc", t))
        return t

    def assume(self, st, c, val):
        """add fact; returns False if contradictory"""
        if isc(c):
            return bool(cv(c)) == val
        if c.op == "not":
            return self.assume(st, c.args[0], not val)
        tr = self.truth(st, c)
        if tr is not None:
            return tr == val
        if c.op == "and" and c.w == 1 and val:
            return self.assume(st, c.args[0], True) and self.assume(st, c.args[1], True)
        if c.op == "or" and c.w == 1 and not val:
            return self.assume(st, c.args[0], False) and self.assume(st, c.args[1], False)
        if c.op in ("and", "or") and c.w == 1:
            x = c.op == "and"
            a, b = self.truth(st, c.args[0]), self.truth(st, c.args[1])
            if a is x:
                return self.assume(st, c.args[1], val)
            if b is x:
                return self.assume(st, c.args[0], val)
        st.facts[c] = val
        if c.op == "trunc" and c.w == 1:
            # boolean loaded as i8
            t = c.args[0]
            st.facts[icmp("eq", t, const(0, t.w))] = not val if False else st.facts.get(icmp("eq", t, const(0, t.w)),
                                                                                         not val)
        if c.op == "icmp" and c.args[0] == "eq" and val and isc(c.args[2]):
            a, k = c.args[1], c.args[2]
            if a.op in ("tok", "ld", "arg", "zext", "phi") or a.ptr:
                self.substitute(st, a, k)
        return self.client.assume(self, st, c, val) is not False

    def substitute(self, st, a, k):
        """a == k known: replace a by the constant in values (not in memory addresses)"""
        m = {a: k}
        for d in (st.env, st.aux):
            memo = {}
            for x, v in d.items():
                if v is not None and contains(v, a):
                    d[x] = subst(v, m, memo)
        memo = {}
        for x, (s, v) in list(st.mem.items()):
            if contains(v, a):
                st.mem[x] = (s, subst(v, m, memo))

    # ------------------------------------------------------------------ join
    def stale(self, blk, s):
        """own join tokens of `blk` that reach it again come from an earlier visit: give them another name"""
        own = set()
        seen = set()

        def scan(t):
            if t in seen:
                return
            seen.add(t)
            if t.op == "tok":
                if t.args[0] in ("j", "nd") and t.args[1] == blk.id:
                    own.add(t)
            for a in t.args:
                if isinstance(a, T):
                    scan(a)
        for d in (s.env, s.aux, s.ver):
            for v in d.values():
                if v is not None:
                    scan(v)
        for (b, o), (z, v) in s.mem.items():
            scan(b)
            scan(v)
        for k in s.ver:
            scan(k[0])
        for k in s.facts:
            scan(k)
        if not own:
            return s
        m = {t: tok(t.args[0] + "o", *t.args[1:], w=t.w, ptr=t.ptr) for t in own}
        memo = {}

        def r(t):
            return subst(t, m, memo)
        n = State()
        n.key, n.trail = s.key, s.trail
        n.env = {k: r(v) for k, v in s.env.items()}
        n.aux = {k: r(v) if v is not None else None for k, v in s.aux.items()}
        n.ver = {(r(k[0]), k[1]): r(v) for k, v in s.ver.items()}
        n.mem = {(r(b), o): (z, r(v)) for (b, o), (z, v) in s.mem.items()}
        n.facts = {r(k): v for k, v in s.facts.items()}
        return n

    gated = False
    final = False
    restart = 6

    def gate(self, s1, s2):
        """a branch condition that holds in s1 and not in s2, or the reverse"""
        best = None
        for k, v in s1.facts.items():
            w = s2.facts.get(k)
            if w is not None and w is not v and (best is None or k.id < best[0].id):
                best = (k, v)
        return best

    def join(self, blk, s1, s2, header=True, nd=0, wide=False):
        """s1: accumulated state at blk; s2: incoming.  Returns joined state (s1 object if unchanged)."""
        self.stats["joins"] += 1
        if header:
            s2 = self.stale(blk, s2)
        pairs = {}
        used = {}
        gt = None if header or not self.gated else self.gate(s1, s2) or (tok("nd", blk.id, nd, w=1), True)

        def anti(a, b, root):
            if a is b:
                return a
            p = pairs.get((a, b))
            if p is not None:
                return p
            r = None
            if wide:
                pass                    # no common shape is kept: guarantees convergence
            elif gt is not None and a.w == b.w:
                r = select(gt[0], a, b) if gt[1] else select(gt[0], b, a)
            elif a.op == b.op and a.op not in ("tok", "c", "arg", "alloca", "glob", "fn", "lin", "heap", "fp") \
                    and len(a.args) == len(b.args) and a.w == b.w and a.depth < 12 and \
                    all((isinstance(x, T) and isinstance(y, T) and x.w == y.w) or
                        (not isinstance(x, T) and not isinstance(y, T) and x == y) for x, y in zip(a.args, b.args)):
                na = []
                for ix, (x, y) in enumerate(zip(a.args, b.args)):
                    na.append(anti(x, y, root + (ix,)) if isinstance(x, T) else x)
                r = rebuild(a, na)
            elif "lin" in (a.op, b.op) and a.w == b.w:
                c1, d1 = lin_parts(a)
                c2, d2 = lin_parts(b)
                # same base with different displacement keeps the base
                common = {t: k for t, k in d1.items() if d2.get(t) == k}
                bases = {t: k for t, k in common.items() if t.ptr and k == 1}
                r1 = {t: k for t, k in d1.items() if t not in common}
                r2 = {t: k for t, k in d2.items() if t not in common}
                if c1 == c2 and len(r1) == 1 and len(r2) == 1 and list(r1.values()) == list(r2.values()):
                    t1, t2 = list(r1)[0], list(r2)[0]
                    x = anti(t1, t2, root + ("l",))
                    r = add(mklin(c1, common, a.w), mulc(x, list(r1.values())[0]))
                elif bases:
                    o1, o2 = mklin(c1, r1, a.w), mklin(c2, r2, a.w)
                    rest = {t: k for t, k in common.items()}
                    x = self._jtok(blk, o1, o2, root + ("o",), pairs, used)
                    r = add(mklin(0, rest, a.w), x)
            if r is None:
                r = self._jtok(blk, a, b, root, pairs, used)
            pairs[(a, b)] = r
            return r

        n = State()
        n.key = s1.key
        n.trail = s1.trail
        n.env = {}
        for k in sorted(set(s1.env) & set(s2.env)):
            n.env[k] = anti(s1.env[k], s2.env[k], ("v", k))
        n.aux = {}
        for k in sorted(set(s1.aux) | set(s2.aux), key=auxkey):
            a, b = s1.aux.get(k), s2.aux.get(k)
            if a is None or b is None:
                continue
            n.aux[k] = anti(a, b, ("a",) + (k if isinstance(k, tuple) else (k,)))
        n.ver = {}
        for k in sorted(set(s1.ver) | set(s2.ver), key=lambda t: (t[0].id, t[1])):
            n.ver[k] = anti(s1.ver.get(k) or const(0), s2.ver.get(k) or const(0), ("r", k[0], k[1]))
        n.mem = {}
        memkeys = sorted(set(s1.mem) | set(s2.mem), key=lambda k: (k[0].id, k[1]))
        for k in memkeys:
            a, b = s1.mem.get(k), s2.mem.get(k)
            if a is None or b is None:
                c = a or b
                # cell known on one side only: the other side sees its default
                o = s2 if a is not None else s1
                ov = [1 for (bb, oo), (ss, _) in o.mem.items() if bb is k[0] and oo < k[1] + c[0] and k[1] < oo + ss]
                if ov:
                    continue
                d = self.default_cell(o, k[0], k[1], c[0], c[1].ptr)
                a = a or (c[0], d)
                b = b or (c[0], d)
            if a[0] != b[0]:
                continue
            n.mem[k] = (a[0], anti(a[1], b[1], ("m", k[0], k[1])))
        # a base that is one of this block's own tokens stands for another object now
        absorbed = {t: b for t, b in used.items() if b is not t}
        f = {}
        memo = {}
        for k, v in s1.facts.items():
            k2 = subst(k, absorbed, memo) if absorbed and k not in s2.facts else k
            w = s2.facts.get(k2)
            if w is None and k2 is not k:
                w = self.truth(s2, k2)
            if w is v:
                f[k] = v
        # null-ness facts of joined values
        for (a, b), t in pairs.items():
            if t.op != "tok":
                continue
            na = self.truth(s1, icmp("eq", a, const(0, a.w)))
            nb = self.truth(s2, icmp("eq", b, const(0, b.w)))
            if na is not None and na is nb:
                f[icmp("eq", t, const(0, t.w))] = na
        n.facts = f
        if same(n, s1):
            return s1
        return n

    def _jtok(self, blk, a, b, root, pairs, used):
        if a.op == "tok" and a.args[0] == "j" and a.args[1] == blk.id:
            # this block's own join token absorbs the new value, once per token
            prev = used.get(a)
            if prev is None or prev is b:
                used[a] = b
                return a
        t = tok("j", blk.id, *flat(root), w=a.w, ptr=a.ptr or b.ptr)
        prev = used.get(t)
        k = 0
        while prev is not None and prev is not b:
            k += 1
            t = tok("j", blk.id, "x", k, *flat(root), w=a.w, ptr=a.ptr or b.ptr)
            prev = used.get(t)
        used[t] = b
        return t

    def merge(self, blk, cs):
        """in-state of a block that no back edge enters: the join of what its predecessors pass now"""
        if len(cs) == 1:
            return cs[0]
        cs = [self.stale(blk, c) for c in cs]
        while len(cs) > 1:
            a = b = None
            if self.gated and len(cs) > 2:
                # siblings of one branch first
                for x in range(len(cs)):
                    for y in range(x + 1, len(cs)):
                        d = [k for k in set(cs[x].facts) | set(cs[y].facts) if cs[x].facts.get(k) != cs[y].facts.get(k)]
                        if len(d) == 1 and d[0] in cs[x].facts and d[0] in cs[y].facts:
                            a, b = x, y
                            break
                    if a is not None:
                        break
            if a is None:
                a, b = 0, 1
            n = self.join(blk, cs[a], cs[b], header=False, nd=len(cs))
            cs = cs[:a] + [n] + cs[a + 1:b] + cs[b + 1:]
        return cs[0]

    def loop_body(self, h):
        """blocks of the loop with header h"""
        body = {h}
        preds = {}
        for b in self.rpo:
            for s in b.succs:
                preds.setdefault(s, []).append(b)
        work = [p for p in preds.get(h, ()) if self.rpo[p] >= self.rpo[h]]
        while work:
            b = work.pop()
            if b not in body:
                body.add(b)
                work += preds.get(b, ())
        return body

    # ------------------------------------------------------------------ main loop
    def run(self):
        st = State()
        st.env, st.mem, st.ver, st.facts, st.aux, st.trail = {}, {}, {}, {}, {}, ()
        st.key = ()
        self.client.init(self, st)
        entry = self.fn.blocks[0]
        k0 = self.client.merge_key(st.key)
        self.inn = {entry: {k0: st}}
        headers = {s for b in self.rpo for s in b.succs if self.rpo[s] <= self.rpo[b]}
        self.headers = headers
        contrib = {}            # succ -> {mk: {(rpo of pred, serial of pred state, n): state}}
        made = {}               # (block, key) -> [(succ, mk, id)]
        serial = {}
        pend = {(entry, k0)}
        work = []
        cnt = 0
        heapq.heappush(work, (self.rpo[entry], cnt, entry, k0))
        visits = {}
        entry_of, resets = {}, {}
        cyc = set()

        def looping(h, k):
            """keys only grow, so a cycle through (h, k) keeps the key"""
            if (h, k) in cyc:
                return True
            seen, todo = {(h, k)}, [(h, k)]
            while todo:
                x = todo.pop()
                for su, mm, _ in made.get(x, ()):
                    if mm == k:
                        if su is h:
                            cyc.add((h, k))
                            return True
                        if (su, mm) not in seen:
                            seen.add((su, mm))
                            todo.append((su, mm))
            return False
        while work:
            _, _, b, key = heapq.heappop(work)
            if (b, key) not in pend:
                continue
            pend.discard((b, key))
            visits[(b, key)] = visits.get((b, key), 0) + 1
            if visits[(b, key)] > self.max_visits:
                raise AnalysisError(f"no convergence in {self.fn.dem} at bb{b.id} key={key}")
            s0 = self.inn.get(b, {}).get(key)
            outs = self.block(b, s0.copy()) if s0 is not None else []
            ser = serial.setdefault((b, key), len(serial))
            dirty = {}
            for succ, mk_, cid in made.get((b, key), ()):
                contrib[succ][mk_].pop(cid, None)
                dirty[(succ, mk_)] = None
            made[(b, key)] = lst = []
            fresh = {}
            for n, (succ, s) in enumerate(outs):
                # restrict env
                live = self.livein[succ]
                phis = {}
                for i in succ.insts:
                    if i.op != "phi":
                        break
                    for p, v in i.inc:
                        if p is b:
                            phis[i.id] = self.val(s, v)
                            break
                env = {k: v for k, v in s.env.items() if k in live}
                env.update(phis)
                s.env = env
                mk_ = self.client.merge_key(s.key)
                cid = (self.rpo[b], ser, n)
                contrib.setdefault(succ, {}).setdefault(mk_, {})[cid] = s
                lst.append((succ, mk_, cid))
                dirty[(succ, mk_)] = None
                fresh.setdefault((succ, mk_), []).append(s)
            dirty = list(dirty)
            while dirty:
                succ, mk_ = dirty.pop(0)
                d = self.inn.setdefault(succ, {})
                old = d.get(mk_)
                cs = contrib.get(succ, {}).get(mk_, {})
                if succ in headers and (not self.client.monotone or looping(succ, mk_)):
                    ent = [cs[c] for c in sorted(cs) if c[0] < self.rpo[succ]]
                    em = self.merge(succ, ent) if ent else None
                    eo = entry_of.get((succ, mk_))
                    changed = (em is None) != (eo is None) or em is not None and not same(em, eo)
                    if changed and old is not None and resets.get(succ, 0) < self.restart:
                        # what enters the loop has been refined: analyse the loop again from it
                        resets[succ] = resets.get(succ, 0) + 1
                        body = self.loop_body(succ)
                        out = {}
                        for (bb, kk), l in list(made.items()):
                            if bb in body:
                                for su, mm, cid in l:
                                    contrib[su][mm].pop(cid, None)
                                    if su not in body:
                                        out[(su, mm)] = None
                                del made[(bb, kk)]
                        keys = set(contrib[succ]) | set(d)
                        for bb in body:
                            for kk in list(self.inn.get(bb, {})):
                                pend.discard((bb, kk))
                                entry_of.pop((bb, kk), None)
                            self.inn[bb] = {}
                        for kk in sorted(keys, key=repr):
                            cc = contrib[succ].get(kk, {})
                            if cc:
                                e = self.merge(succ, [cc[c] for c in sorted(cc)])
                                self.inn[succ][kk] = e
                                entry_of[(succ, kk)] = e
                                pend.add((succ, kk))
                                cnt += 1
                                heapq.heappush(work, (self.rpo[succ], cnt, succ, kk))
                        dirty = [x for x in dirty if x[0] not in body] + [x for x in out if x not in dirty]
                        continue
                    entry_of[(succ, mk_)] = em
                    new = old if cs else None
                    if new is None and old is None and not cs:
                        continue
                    for s in fresh.get((succ, mk_), ()):
                        new = s if new is None else self.join(succ, new, s, wide=visits.get((succ, mk_), 0) > 40)
                    if new is old and new is not None:
                        continue
                else:
                    new = self.merge(succ, [cs[c] for c in sorted(cs)]) if cs else None
                    if new is None and old is None:
                        continue
                    if new is not None and old is not None and same(new, old):
                        continue
                if new is None:
                    # nothing reaches the block in this state any more, nor what followed from it
                    del d[mk_]
                    for su, mm, cid in made.pop((succ, mk_), ()):
                        contrib[su][mm].pop(cid, None)
                        if (su, mm) not in dirty:
                            dirty.append((su, mm))
                    pend.discard((succ, mk_))
                    continue
                d[mk_] = new
                if (succ, mk_) not in pend:
                    pend.add((succ, mk_))
                    cnt += 1
                    heapq.heappush(work, (self.rpo[succ], cnt, succ, mk_))
        self.inn = {b: d for b, d in self.inn.items() if d}
        # judge the fixpoint only
        self.viol, self.violkeys = [], set()
        self.final = True
        self.client.restart()
        for b in sorted(self.inn, key=lambda x: self.rpo[x]):
            for s in self.inn[b].values():
                self.block(b, s.copy())
        self.stats["blocks"] = len(self.inn)
        self.stats["states"] = sum(len(v) for v in self.inn.values())
        return self.viol

    def block(self, b, st):
        states = [st]
        for i in b.insts:
            if i.op == "phi" or i.dbg:
                continue
            nxt = []
            if i.op in ("br", "switch", "ret", "unreachable"):
                break
            for s in states:
                r = self.step(s, i)
                if r is None:
                    nxt.append(s)
                else:
                    nxt.extend(r)
            states = nxt
            if not states:
                return []
        t = b.insts[-1]
        outs = []
        for s in states:
            if t.op == "br":
                if not t.ops:
                    outs.append((t.succs[0], s))
                    continue
                c = self.val(s, t.ops[0])
                tr = self.truth(s, c)
                for k, v in ((0, True), (1, False)):
                    if tr is not None and tr is not v:
                        continue
                    n = s.copy()
                    if tr is None:
                        if not self.assume(n, c, v):
                            continue
                    n.trail = n.trail + (f"{t.file.split('/')[-1]}:{t.line}:{'T' if v else 'F'}",)
                    if len(n.trail) > 40:
                        n.trail = n.trail[-40:]
                    outs.append((t.succs[k], n))
            elif t.op == "switch":
                c = self.val(s, t.ops[0])
                if isc(c):
                    tgt = t.succs[0]
                    for k, v in enumerate(t.idx):
                        if v == cv(c):
                            tgt = t.succs[k + 1]
                    outs.append((tgt, s))
                    continue
                n = s.copy()
                ok = True
                for v in t.idx:
                    ok = ok and self.assume(n, icmp("eq", c, const(v, c.w)), False)
                if ok:
                    outs.append((t.succs[0], n))
                for k, v in enumerate(t.idx):
                    n = s.copy()
                    if self.assume(n, icmp("eq", c, const(v, c.w)), True):
                        outs.append((t.succs[k + 1], n))
            elif t.op == "ret":
                self.client.ret(self, s, t, self.val(s, t.ops[0]) if t.ops else None)
        return outs

    # ------------------------------------------------------------------ transfer
    def step(self, st, i):
        self.stats["insts"] += 1
        op = i.op
        ev = st.env
        if op == "load":
            p = self.val(st, i.ops[0])
            base, off, var = addr_parts(p)
            size = max(1, i.ty.size)
            isptr = i.ty.kind == "ptr"
            self.client.load(self, st, i, base, off, var, size)
            if var is None:
                v = self.read(st, base, off, size, isptr, i)
            else:
                sn = self.snapshot(st, base, off)
                if sn is None:
                    v = self.fresh(st, ("ldm", i.id), w=size * 8, ptr=isptr)
                else:
                    v = mk("ld", p, size, sn, w=size * 8, ptr=isptr)
            if isptr and not v.ptr and not isc(v):
                v = mk("asptr", v, ptr=True)
            if i.ty.kind == "int" and i.ty.bits != v.w:
                v = trunc(v, i.ty.bits) if v.w > i.ty.bits else zext(v, i.ty.bits)
            ev[i.id] = v
        elif op == "store":
            v = self.val(st, i.ops[0])
            p = self.val(st, i.ops[1])
            base, off, var = addr_parts(p)
            size = max(1, i.ops[0].ty.size)
            if v.w < size * 8:
                v = zext(v, size * 8)
            r = self.client.store(self, st, i, base, off, var, size, v)
            if var is None:
                self.write(st, base, off, size, v)
            else:
                self.clobber_var(st, base, off, i)
            return r
        elif op == "gep":
            b, off, var = i.gep
            r = add(self.val(st, b), const(off))
            for x, sc in var:
                xv = self.val(st, x)
                xv = sext(xv, 64)
                r = add(r, mulc(xv, sc))
            if not r.ptr and not isc(r):
                r = mk("asptr", r, ptr=True)
            ev[i.id] = r
        elif op == "alloca":
            n = self.val(st, i.ops[0]) if i.ops else None
            a = mk("alloca", i.id, ptr=True)
            if not (n is None or isc(n)):
                self.clobber(st, a, ("dyn", i.id))
            ev[i.id] = a
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            if i.ty.kind != "int":
                ev[i.id] = mk("v" + op, self.val(st, i.ops[0]), self.val(st, i.ops[1]), w=width(i.ty))
            else:
                a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
                if op in ("and", "or") and i.ty.bits == 1:
                    ta, tb = self.truth(st, a), self.truth(st, b)
                    if ta is not None:
                        a = const(int(ta), 1)
                    if tb is not None:
                        b = const(int(tb), 1)
                ev[i.id] = binop(op, a, b)
        elif op == "icmp":
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if i.ty.kind != "int":
                ev[i.id] = mk("vicmp", i.pred, a, b, w=width(i.ty))
            else:
                c = icmp(i.pred, a, b)
                tr = self.truth(st, c)
                ev[i.id] = c if tr is None else const(int(tr), 1)
        elif op == "zext":
            ev[i.id] = zext(self.val(st, i.ops[0]), width(i.ty)) if i.ty.kind == "int" else \
                mk("vzext", self.val(st, i.ops[0]), w=width(i.ty))
        elif op == "sext":
            ev[i.id] = sext(self.val(st, i.ops[0]), width(i.ty)) if i.ty.kind == "int" else \
                mk("vsext", self.val(st, i.ops[0]), w=width(i.ty))
        elif op == "trunc":
            ev[i.id] = trunc(self.val(st, i.ops[0]), width(i.ty)) if i.ty.kind == "int" else \
                mk("vtrunc", self.val(st, i.ops[0]), w=width(i.ty))
        elif op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            v = self.val(st, i.ops[0])
            if i.ty.kind == "ptr" and not v.ptr and not isc(v):
                v = mk("asptr", v, ptr=True)
            if i.ty.kind == "int" and v.w != i.ty.bits and i.ty.bits:
                v = trunc(v, i.ty.bits) if v.w > i.ty.bits else zext(v, i.ty.bits)
            ev[i.id] = v
        elif op == "select":
            c = self.val(st, i.ops[0])
            a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            tr = self.truth(st, c)
            if tr is not None:
                ev[i.id] = a if tr else b
            elif i.ops[1].ty.kind == "ptr" or self.split_select(i):
                # keep the two alternatives apart
                n = st.copy()
                out = []
                if self.assume(st, c, True):
                    st.env[i.id] = self.val(st, i.ops[1])
                    out.append(st)
                if self.assume(n, c, False):
                    n.env[i.id] = self.val(n, i.ops[2])
                    out.append(n)
                return out
            else:
                ev[i.id] = select(c, a, b)
        elif op in ("call", "invoke"):
            return self.call(st, i)
        elif op in ("atomicrmw", "cmpxchg"):
            p = self.val(st, i.ops[0])
            base, off, var = addr_parts(p)
            r = self.client.call(self, st, i, op, [self.val(st, o) for o in i.ops])
            if r is not NotImplemented:
                return r
            if var is None:
                self.write(st, base, off, max(1, i.ops[-1].ty.size),
                           self.fresh(st, ("at", i.id, "m"), w=width(i.ops[-1].ty)))
            else:
                self.clobber(st, base, ("at", i.id))
            ev[i.id] = self.fresh(st, ("at", i.id), w=width(i.ty))
        elif op == "fence":
            r = self.client.call(self, st, i, "fence", [])
            if r is not NotImplemented:
                return r
        elif op == "extractvalue":
            a = self.val(st, i.ops[0])
            if a.op == "agg":
                x = a
                for k in i.idx:
                    x = x.args[k] if x.op == "agg" else mk("xv", x, k, w=width(i.ty), ptr=i.ty.kind == "ptr")
                ev[i.id] = x
            else:
                ev[i.id] = mk("xv", a, *i.idx, w=width(i.ty), ptr=i.ty.kind == "ptr")
        else:
            ops = [self.val(st, o) for o in i.ops]
            extra = tuple(i.idx) if i.idx else ()
            ev[i.id] = mk("o." + op, *ops, *extra, w=width(i.ty), ptr=i.ty.kind == "ptr")
        return None

    def split_select(self, i):
        return False

    def clobber_var(self, st, base, off, i):
        """store through a variable index: array write inside the object `base`"""
        self.clobber(st, base, ("st", i.id), off)

    def call(self, st, i):
        self.stats["calls"] += 1
        c = i.callee
        if c.kind == "fn":
            name = c.v
        else:
            name = None
        args = [self.val(st, o) for o in i.ops]
        if name is not None and name.startswith("llvm."):
            return self.intrinsic(st, i, name, args)
        cal = name if name is not None else self.val(st, c)
        if not isinstance(cal, str) and cal.op == "fn":
            cal = cal.args[0]
        r = self.client.call(self, st, i, cal, args)
        if r is not NotImplemented:
            if i.ty.kind != "void":
                for s in (r if r is not None else [st]):
                    if i.id not in s.env:
                        s.env[i.id] = self.fresh(s, ("r", i.id), w=width(i.ty), ptr=i.ty.kind == "ptr")
            return r
        self.default_call(st, i, args)
        return None

    def default_call(self, st, i, args):
        for a in args:
            if a.ptr:
                base, off, var = addr_parts(a)
                self.clobber(st, base, ("cl", i.id), off if base.op != "alloca" else None)
        if i.ty.kind != "void":
            st.env[i.id] = self.fresh(st, ("r", i.id), w=width(i.ty), ptr=i.ty.kind == "ptr")

    def intrinsic(self, st, i, name, args):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            self.memcpy(st, i, args[0], args[1], args[2])
            return None
        if name.startswith("llvm.memset"):
            base, off, var = addr_parts(args[0])
            self.client.store(self, st, i, base, off, var, None, args[1])
            if var is None and isc(args[2]) and isc(args[1]):
                n = cv(args[2])
                self.clobber(st, base, ("ms", i.id), off, off + n)
                byte = cv(args[1])
                if n <= 64:
                    for o in range(0, n, 8):
                        k = min(8, n - o)
                        st.mem[(base, off + o)] = (k, const(int.from_bytes(bytes([byte]) * k, "little"), k * 8))
            else:
                self.clobber(st, base, ("ms", i.id), off)
            return None
        if name.startswith("llvm.assume"):
            self.assume(st, args[0], True)
            return None
        if any(name.startswith(p) for p in PURE_INTR):
            short = ".".join(name.split(".")[1:-1]) if not name.startswith("llvm.x86") else name[5:]
            if short in ("umin", "umax") and isc(args[0]) and isc(args[1]):
                st.env[i.id] = const((min if short == "umin" else max)(cv(args[0]), cv(args[1])), args[0].w)
                return None
            if short == "expect":
                st.env[i.id] = args[0]
                return None
            r = None
            if short == "bswap":
                if isc(args[0]):
                    r = const(int.from_bytes(cv(args[0]).to_bytes(args[0].w // 8, "little"), "big"), args[0].w)
                elif args[0].op == "i.bswap":
                    r = args[0].args[0]
            if short in ("umin", "umax", "smin", "smax") and not isc(args[0]) and not isc(args[1]) and \
                    args[0].id > args[1].id:
                args = [args[1], args[0]]
            st.env[i.id] = r if r is not None else mk("i." + short, *args, w=width(i.ty))
            return None
        if name in ("llvm.stacksave.p0", "llvm.stacksave"):
            st.env[i.id] = tok("stacksave", i.id, ptr=True)
            return None
        if i.ty.kind != "void":
            r = self.client.call(self, st, i, name, args)
            if r is NotImplemented:
                st.env[i.id] = mk("i." + name, *args, w=width(i.ty), ptr=i.ty.kind == "ptr")
        else:
            self.client.call(self, st, i, name, args)
        return None

    def memcpy(self, st, i, dst, src, n):
        db, do, dv = addr_parts(dst)
        sb, so, sv = addr_parts(src)
        self.client.load(self, st, i, sb, so, sv, cv(n) if isc(n) else None)
        self.client.store(self, st, i, db, do, dv, cv(n) if isc(n) else None, None)
        self.client.copy(self, st, i, db, do, dv, sb, so, sv, cv(n) if isc(n) else None)
        if dv is None and isc(n):
            k = cv(n)
            cells = []
            if sv is None:
                for (b, o), (s, v) in st.mem.items():
                    if b is sb and so <= o and o + s <= so + k:
                        cells.append((o - so, s, v))
                known = sum(s for _, s, _ in cells)
                if known < k and k in (1, 2, 4, 8) and not cells:
                    cells = [(0, k, self.read(st, sb, so, k, False, i))]
            elif k in (1, 2, 4, 8):
                sn = self.snapshot(st, sb, so)
                if sn is not None:
                    cells = [(0, k, mk("ld", src, k, sn, w=k * 8))]
            self.clobber(st, db, ("mc", i.id), do, do + k)
            for o, s, v in cells:
                st.mem[(db, do + o)] = (s, v)
        else:
            self.clobber(st, db, ("mc", i.id), do)


def width(ty):
    if ty.kind == "int":
        return ty.bits
    if ty.kind == "ptr":
        return 64
    return max(1, ty.size) * 8


def same(a, b):
    return a.env == b.env and a.mem == b.mem and a.facts == b.facts and a.aux == b.aux and a.ver == b.ver


def flat(x):
    return tuple(x)


def auxkey(k):
    return repr(k)
