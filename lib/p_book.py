"""C09: the packed bookkeeping of a partition (element count, size grade, partial mark, ignored bits).

Where each field lives is read off the accessors; every operation that writes a record is then followed with the record's
words as symbolic values, and the fields it leaves behind are compared with what the operation may change."""
import re
import pipeline, reval
from divamodel import *
from p_entries import PosClient

FIELDS = ("elem", "grade", "invalid", "partial")
ANCH = ("InsertRawIntoInfixStore", "DeleteRawFromInfixStore", "LoadListToInfixStore", "ResizeInfixStore",
        "ShrinkInfixStoreInfixSize")
NAMES = {"elem": "element count", "grade": "size grade", "invalid": "count of ignored boundary bits",
         "partial": "partial-boundary mark"}



class TermClient(Client):
    def __init__(self):
        self.rets = []

    def ret(self, eng, st, inst, val):
        self.rets.append(val)


def fn_term(mod, name):
    """return value of a small acyclic function as a term"""
    c = TermClient()
    e = Engine(mod, mod.fns[name], c)
    e.gated = True
    e.run()
    return c.rets[0] if len(c.rets) == 1 else None


def fields(mod, var):
    """field -> (offset, cell size, shift, width), or None when an accessor is not a plain bit field"""
    out = {}
    for n in FIELDS:
        t = fn_term(mod, "vf_g_%s_%d" % (n, var))
        if t is None:
            return None
        ls = [x for x in leaves(t) if x.op == "ld"]
        if len(ls) != 1:
            return None
        b, o, v = addr_parts(ls[0].args[0])
        if v is not None or b.op != "arg":
            return None
        w = ls[0].w

        def at(x):
            val = reval.Val(1, fixed={ls[0]: x})
            return val.ev(t)
        if at(0) != 0:
            return None
        bits = {}
        for k in range(w):
            r = at(1 << k)
            if r:
                bits[k] = r
        ks = sorted(bits)
        if not ks or ks != list(range(ks[0], ks[0] + len(ks))) or any(bits[k] != 1 << (k - ks[0]) for k in ks):
            return None
        out[n] = (o, w // 8, ks[0], len(ks))
    return out


def opaque(t):
    return (t.op == "tok" and t.args[0] not in ("fr", "nd", "ndo", "rec", "key", "klen", "old")) or t.op in ("pcall", "xv", "fp") or \
        t.op.startswith("o.") or t.op.startswith("v") or (t.op == "ld" and not isc(t.args[2]))


def strip(t, memo):
    """values the analysis does not resolve become free leaves"""
    r = memo.get(t)
    if r is not None:
        return r
    if opaque(t):
        r = tok("fr", t.id, w=t.w, ptr=t.ptr)
    elif not any(isinstance(a, T) for a in t.args):
        r = t
    else:
        na = [strip(a, memo) if isinstance(a, T) else a for a in t.args]
        r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
        ts = [x for x in na if isinstance(x, T)]
        isfr = [x for x in ts if x.op == "tok" and x.args[0] == "fr"]
        if isfr and (any(x.ptr for x in isfr) or
                     t.op in ("lshr", "ashr", "sdiv", "udiv", "trunc", "zext", "sext") and len(isfr) + sum(map(isc, ts)) == len(ts)):
            r = tok("fr", t.id, w=t.w, ptr=t.ptr)
    memo[t] = r
    return r


def free(t):
    return {x for x in leaves(t) if x.op == "tok" and x.args[0] == "fr"}


def mname(f):
    m = pipeline.method(f.dem)
    return m.split("(")[0] if m else None


class Book(PosClient):
    def __init__(self, mod, var, F, fn):
        super().__init__(mod, var)
        self.F = F
        self.fn = fn
        self.me = mname(fn)
        self.deser = "char*" in fn.dem or self.me == "Diva" and fn.dem.endswith("(char*)")
        self.undec = []
        self.cells = sorted({(f[0], f[1]) for f in F.values()})

    def init(self, eng, st):
        super().init(eng, st)

    # ---- fields of a record ------------------------------------------------------------------
    def cell(self, eng, st, base, off, n):
        f = self.F[n]
        return eng.read(st, base, off + f[0], f[1])

    def get(self, eng, st, base, off, n):
        f = self.F[n]
        c = self.cell(eng, st, base, off, n)
        return binop("and", binop("lshr", c, const(f[2], c.w)), const(M(f[3]), c.w))

    def get0(self, base, off, n):
        """field of a record as it was when the operation began (or when the entry was looked up)"""
        f = self.F[n]
        c = mk("ld", add(base, const(off + f[0])), f[1], const(0), w=f[1] * 8)
        return binop("and", binop("lshr", c, const(f[2], c.w)), const(M(f[3]), c.w))

    def put_field(self, eng, st, base, off, n, val):
        f = self.F[n]
        c = self.cell(eng, st, base, off, n)
        m = M(f[3]) << f[2]
        val = trunc(val, c.w) if val.w > c.w else zext(val, c.w)
        r = binop("or", binop("and", c, const(~m, c.w)),
                  binop("and", binop("shl", val, const(f[2], c.w)), const(m, c.w)))
        eng.write(st, base, off + f[0], f[1], r)

    # ---- environment -------------------------------------------------------------------------
    def local_records(self):
        """locals that are put into the index or updated as partitions"""
        out = set()
        for b in self.fn.blocks:
            for i in b.insts:
                if i.op not in ("call", "invoke") or i.callee.kind != "fn":
                    continue
                g = self.mod.fns.get(i.callee.v)
                k = 3 if api(i.callee.v) in ("put", "set") else 1 if g is not None and mname(g) in ANCH else None
                if k is None or k >= len(i.ops):
                    continue
                v = i.ops[k]
                while v.kind == "inst" and v.v.op == "gep":
                    v = v.v.gep[0]
                if v.kind == "inst" and v.v.op == "alloca":
                    out.add(v.v.id)
        return out

    def marks(self, st, base, off, val):
        """what the boundary's marks in a record's status word are; states that differ in them are kept apart"""
        if self.recs is None:
            self.recs = self.local_records()
        f, g = self.F["partial"], self.F["invalid"]
        if base.args[0] not in self.recs or not isinstance(off, int) or f[:2] != g[:2] or off != f[0] or \
                val.w != 8 * f[1]:
            return
        t = strip(val, {})
        sig = []
        for seed in (1, 2, 3):
            try:
                x = reval.Val(seed).ev(t)
                sig.append((x >> f[2] & M(f[3]), x >> g[2] & M(g[3])))
            except reval.Unknown:
                sig.append(None)
        it = ("marks", base.id, tuple(sig))
        old = {x for x in st.key if isinstance(x, tuple) and x[0] == "marks" and x[1] == base.id}
        if old != {it} and sum(isinstance(x, tuple) and x[0] == "marks" for x in st.key) < 12:
            st.key = st.key - old | {it}

    recs = None

    def store(self, eng, st, inst, base, off, var, size, val):
        if base.op == "alloca" and var is None and val is not None and not val.ptr:
            self.marks(st, base, off, val)
        if var is not None and size == 1 and base.op == "alloca" and val is not None:
            st.aux[("edit", base.id)] = val
            st.key = st.key | {("edited", base.id)}
        if base.op == "tok" and base.args[0] == "rec":
            for o, s in self.cells:
                if size and off < o + s and o < off + size:
                    st.key = st.key | {("touched", base.id)}
                    st.aux[("touched", base.id)] = base
        if base.op == "tok" and base.args[0] in ("new", "asptr") or base.op == "ld":
            st.key = st.key | {"buf"}

    def call(self, eng, st, i, callee, args):
        f = self.mod.fns.get(callee) if isinstance(callee, str) else None
        n = mname(f) if f is not None else None
        if n in ANCH:
            self.hit("update of a partition")
            b, o, v = addr_parts(args[1])
            if v is not None:
                return super().call(eng, st, i, callee, args)
            st.key = st.key | {"buf"}
            if n == "InsertRawIntoInfixStore" or n == "DeleteRawFromInfixStore":
                d = 1 if n[0] == "I" else -1
                self.put_field(eng, st, b, o, "elem", add(self.get(eng, st, b, o, "elem"),
                                                          const(d, self.cell(eng, st, b, o, "elem").w)))
                # may move to the neighbouring grade
                g = eng.fresh(st, ("grd", i.id), w=32)
                self.put_field(eng, st, b, o, "grade", g)
            elif n == "LoadListToInfixStore":
                self.put_field(eng, st, b, o, "elem", args[3])
            elif n == "ResizeInfixStore":
                g = self.get(eng, st, b, o, "grade")
                d = select(trunc(args[2], 1) if args[2].w > 1 else args[2], const(1, g.w), const(-1, g.w))
                self.put_field(eng, st, b, o, "grade", add(g, d))
                st.key = st.key | {("rs", i.id)}
                st.aux[("rsd",)] = d
            if n != "LoadListToInfixStore":
                eng.write(st, b, o + self.ptr_off, 8, eng.fresh(st, ("bufp", i.id), ptr=True))
            return None
        return super().call(eng, st, i, callee, args)

    # ---- rules -------------------------------------------------------------------------------
    def same(self, eng, st, inst, got, want, what, bound=()):
        memo = {}
        g, w = strip(got, memo), strip(want, memo)
        if free(w):
            self.undec.append(f"{inst.loc()}: {what}")
            return
        sf = {strip(k, memo): v for k, v in st.facts.items()}
        facts = {k: v for k, v in sf.items() if not free(k)}
        fr = free(g)
        known = set().union(*[free(k) for k in sf]) if sf else set()

        def choose(s, t):
            # a value written into a field fits the field
            if t in fr:
                return s.rng.randrange(8 if s.rng.random() < .5 else 128) if t.w > 1 else s.rng.randrange(2)
            return None

        def setup(v):
            for t, lo, hi in bound:
                if not lo <= v.ev(t) <= hi:
                    return False
        bad, n = reval.differs([(g, w)], {}, n=150, setup=setup, choose=choose)
        if bad is not None and facts:
            bad, n = reval.differs([(g, w)], facts, n=60, setup=setup, tries=60, choose=choose)
        if bad is not None and fr:
            # wrong whatever the unresolved values are?
            base = {k: x for k, x in bad.fixed.items() if k not in fr}
            for k in range(60):
                v = reval.Val(bad.seed, fixed=base)
                v.memfix = dict(bad.memfix)
                for t in fr:
                    v.fixed[t] = (k if len(fr) == 1 and k < 8 else v.rng.randrange(8)) & M(t.w)
                try:
                    if k >= 40:
                        # a value lost where paths meet may be the wanted one, in any of the record's fields
                        x = v.ev(w)
                        for t in fr:
                            if t.w > 1 and t.w < 64:
                                v.fixed[t] = (x << list(self.F.values())[k % len(self.F)][2] * (k >= 50)) & M(t.w)
                    if v.ev(g) == v.ev(w):
                        if isc(w) and fr <= known and all(x.w > 1 for x in fr):
                            # a function of a value the path has examined
                            rel = {k: x for k, x in sf.items() if free(k) and free(k) <= fr}
                            b2, n = reval.differs([(g, w)], rel, n=60, tries=60, choose=lambda s_, t:
                                                  s_.rng.choice([-1, 0, s_.rng.randrange(300)]) if t in fr else None)
                            if b2 is not None:
                                break
                        self.undec.append(f"{inst.loc()}: {what}")
                        return
                except reval.Unknown:
                    pass
        self.hit("obligation")
        if bad is not None:
            eng.report(inst, f"{what} (would be {bad.ev(g)}, should be {bad.ev(w)})", st)

    def bounds(self, base, off):
        e, g = self.get0(base, off, "elem"), self.get0(base, off, "grade")
        return [(e, 1, M(self.F["elem"][3]) - 1), (g, 1, M(self.F["grade"][3]) - 1)]

    def on_api(self, eng, st, i, op, args):
        self.move(eng, st, i, op, args)
        if op == "del" and len(args) > 1:
            x = self.site_of_key(st, args[1])
            if x is not None:
                r = st.aux.get(("rec", x[1]))
                if r is not None:
                    st.aux[("gone",)] = r
                    st.key = st.key | {"gone"}
        if op in ("put", "set") and len(args) >= 4 and not self.deser:
            self.hit("record stored")
            b, o, v = addr_parts(args[3])
            if v is not None:
                return
            kb = addr_parts(args[1])[0]
            x = self.site_of_key(st, args[1])
            if x is not None:
                r = st.aux.get(("rec", x[1]))
                if r is None or r.op != "tok":
                    return
                for n in ("partial", "invalid"):
                    self.same(eng, st, i, self.get(eng, st, b, o, n), self.get0(r, 0, n),
                              f"the record stored for an existing boundary does not keep that boundary's {NAMES[n]}",
                              self.bounds(r, 0))
                if "gone" in st.key and st.aux.get(("gone",)) is not None:
                    r2 = st.aux[("gone",)]
                    e = self.get(eng, st, b, o, "elem")
                    self.same(eng, st, i, e, add(self.get0(r, 0, "elem"), self.get0(r2, 0, "elem")),
                              "the merged partition's element count is not the sum of the two",
                              [(self.get0(r, 0, "elem"), 1, M(self.F["elem"][3] - 2)),
                               (self.get0(r2, 0, "elem"), 1, M(self.F["elem"][3] - 2))])
                return
            p, n = self.get(eng, st, b, o, "partial"), self.get(eng, st, b, o, "invalid")
            if ("edited", kb.id) in st.key:
                self.same(eng, st, i, p, const(1, p.w), "a shortened boundary key is stored without its partial mark")
                ed = st.aux.get(("edit", kb.id))
                if ed is not None:
                    self.edit(eng, st, i, ed, n)
            elif kb.op == "arg" or self.me != "Insert":
                self.same(eng, st, i, p, const(0, p.w), "a complete boundary key is stored with a partial mark")
                self.same(eng, st, i, n, const(0, n.w), "a complete boundary key is stored with ignored bits")

    def edit(self, eng, st, i, ed, inv):
        """the bits cleared in the last byte of the key are those the record says to ignore"""
        lds = [x for x in leaves(ed) if x.op == "ld" or x.op == "tok"]
        byte = [x for x in lds if x.w == 8]
        if len(byte) != 1:
            self.undec.append(f"{i.loc()}: cleared bits")
            return
        self.hit("obligation")
        toks = [x for x in leaves(inv) | leaves(ed) if x is not byte[0]]
        for k in range(400):
            v = reval.Val(77 + k, fixed={byte[0]: 0xFF},
                          choose=lambda s, t: s.rng.randrange(1, 300) if not t.ptr else None)
            try:
                got, want = v.ev(ed), 0xFF & ~M(v.ev(inv))
            except reval.Unknown:
                continue
            if got != want:
                eng.report(i, f"the bits cleared in the shortened boundary key (last byte {got:#x}) are not the "
                              f"{v.ev(inv)} ignored bits recorded for it", st)
                return

    def ret(self, eng, st, inst, val):
        self.hit("exit")
        if self.me in ANCH:
            b, o = mk("arg", 1, ptr=True), 0
            bd = self.bounds(b, 0)
            e0, g0 = self.get0(b, 0, "elem"), self.get0(b, 0, "grade")
            if self.me.startswith("InsertRaw"):
                want = {"elem": add(e0, const(1, e0.w))}
            elif self.me.startswith("DeleteRaw"):
                want = {"elem": add(e0, const(-1, e0.w))} if "buf" in st.key else {"elem": e0}
            elif self.me.startswith("LoadList"):
                a = mk("arg", 3, w=32)
                want = {"elem": zext(a, e0.w) if e0.w >= 32 else trunc(a, e0.w)}
                bd.append((a, 0, M(self.F["elem"][3])))
            elif self.me.startswith("Resize"):
                a = mk("arg", 2, w=1)
                want = {"elem": e0, "grade": add(g0, select(a, const(1, g0.w), const(-1, g0.w)))}
            else:
                want = {"elem": e0}
            rs = [x for x in st.key if isinstance(x, tuple) and x[0] == "rs"]
            if rs and ("rsd",) in st.aux and len(rs) == 1:
                want["grade"] = add(g0, st.aux[("rsd",)])
            want.setdefault("grade", g0)
            for n in FIELDS:
                w = want.get(n)
                if w is None:
                    w = self.get0(b, 0, n)
                if n == "grade" and rs and ("rsd",) not in st.aux:
                    continue
                what = {"elem": f"{self.me} leaves a wrong element count",
                        }.get(n, f"{self.me} does not keep the partition's {NAMES[n]}")
                self.same(eng, st, inst, self.get(eng, st, b, o, n), w, what, bd)
            return
        for x in st.key:
            if isinstance(x, tuple) and x[0] == "touched":
                r = st.aux.get(("touched", x[1]))
                if r is None or r.op != "tok" or r.args[0] != "rec":
                    continue
                for n in ("partial", "invalid"):
                    self.same(eng, st, inst, self.get(eng, st, r, 0, n), self.get0(r, 0, n),
                              f"the operation changes the {NAMES[n]} of a boundary it does not own", self.bounds(r, 0))


def is_anchor(d):
    m = pipeline.method(d)
    return m is not None and m.split("(")[0] in ANCH and re.fullmatch(r"[A-Za-z]+\(.*\)( const)?", m) is not None \
        and "lambda" not in m


def module():
    keep = set(event_free_helpers()) - set(ANCH)
    return pipeline.diva_module(keep=keep, tag="book",
                                entries=lambda d: pipeline.is_entry(d) or is_anchor(d) or d.startswith("vf_g_"))


def check(tier):
    mod = module()
    viol, fns, tot, und = [], [], {}, []
    F = {}
    for var in (0, 1):
        F[var] = fields(mod, var)
        if F[var] is None:
            und.append(f"variant {var}: the accessors are not plain bit fields")
            continue
        tot["fields located"] = tot.get("fields located", 0) + len(F[var])
        used = {}
        for n, (o, s, sh, w) in F[var].items():
            for k in range(sh, sh + w):
                bit = (o * 8 + k)
                if bit in used:
                    g = mod.fns["vf_g_%s_%d" % (n, var)]
                    viol.append({"entry": g.dem, "loc": "include/diva.hpp", "trail": [],
                                 "msg": f"the {NAMES[n]} and the {NAMES[used[bit]]} share bit {bit} of the record"})
                    break
                used[bit] = n
    for f in list(mod.fns.values()):
        if f.decl or not (pipeline.is_entry(f.dem) or is_anchor(f.dem)):
            continue
        var = pipeline.variant(f.dem)
        if F[var] is None:
            continue
        c = Book(mod, var, F[var], f)
        e = Engine(mod, f, c)
        e.gated = True
        try:
            viol += e.run()
        except AnalysisError as x:
            und.append(str(x))
            continue
        und += [f"{f.dem[:60]} {u}" for u in sorted(set(c.undec))]
        for k, v in c.count.items():
            tot[k] = tot.get(k, 0) + v
        fns.append(f.dem)
    return viol, {"functions": fns, "events": tot, "undecided": und}
