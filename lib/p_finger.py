"""C07: the fingerprint an operation looks for is the fingerprint an insertion stores.

Each operation on a key is followed to the point where it hands a fingerprint, the number of implicit values and a partition
to the partition level.  The values there are functions of the key, of the index entries the operation looked at (known by
their position relative to its search in the index) and of the lengths computed for the pair of boundaries.  They are
compared with the fingerprint that the definition gives for the key between its two neighbouring boundaries."""
import random
import pipeline, reval
from divamodel import *
from engine import *
from terms import *
from p_entries import PosClient
from p_book import mname, fn_term
from p_bits import MemEngine, Summary, Case, walk, Wrong

ANCH = {"InsertRawIntoInfixStore", "DeleteRawFromInfixStore", "PointQueryInfixStore", "RangeQueryInfixStore",
        "LoadListToInfixStore", "GetSharedIgnoreImplicitLengths", "GetLongestMatchingInfixSize", "ResizeInfixStore",
        "ShrinkInfixStoreInfixSize"}
KEYED = {"InsertRawIntoInfixStore": "inserts", "DeleteRawFromInfixStore": "deletes", "PointQueryInfixStore": "looks up",
         "RangeQueryInfixStore": "looks up", "GetLongestMatchingInfixSize": "searches for"}
KEYOPS = ("PointQuery", "RangeQuery", "Insert", "InsertSimple", "Delete")
MAXK = 40


def fingerprint(bits, shared, ignore, imp, w, msb):
    """the most significant bit, then the bits after the shared and ignored ones"""
    n = imp - 1 + w
    v = 0
    for k in range(n):
        v = v << 1 | bits(shared + ignore + 1 + k)
    return v | msb << n


def bits_of(bs):
    return lambda k: bs[k >> 3] >> (7 - (k & 7)) & 1 if k >> 3 < len(bs) else 0


def lengths(a, b, base):
    """how many bits two boundaries share, how many follow that are fixed, and the implicit bits"""
    f, g = bits_of(a), bits_of(b)
    n = 8 * max(len(a), len(b)) + 80
    s = 0
    while f(s) == g(s):
        s += 1
        if s > n:
            raise reval.Unknown("equal keys")
    k = s + 1
    while f(k) == 1 and g(k) == 0:
        k += 1
    i = k - s - 1
    x = y = 0
    for j in range(base - 1):
        x, y = x << 1 | f(k + j), y << 1 | g(k + j)
    y |= 1 << (base - 1)
    return s, i, base + (2 * (y - x + 1) < 1 << base)


def width_sample(rng):
    """up to the widest fingerprint one word holds with 11 implicit bits at any bit offset"""
    return rng.randrange(4, 20) if rng.random() < .5 else rng.randrange(20, 40) if rng.random() < .5 else rng.randrange(40, 47)


class FVal(reval.Val):
    """memory by address; the lengths for a pair of boundaries by definition"""
    base = 10
    prefix = 0

    def __init__(self, seed):
        super().__init__(seed)
        self.mem = {}
        self.gs = {}

    def byte(self, addr, ver):
        b = self.mem.get(addr)
        return b if b is not None else super().byte(addr, 0)

    def leaf(self, t):
        if t.op == "tok" and t not in self.fixed and t.args and t.args[0] in ("key", "klen", "rec"):
            raise reval.Unknown("entry")
        return super().leaf(t)

    def bytes(self, p, n, ver):
        if n > 64:
            n = 64
        return bytes(self.membyte((p + k) & M(64), ver) for k in range(n))

    def _ev(self, t):
        if t.op == "gs":
            k, rest = t.args[0], t.args[1:]
            r = self.gs.get(rest)
            if r is None:
                p1, l1, v1, p2, l2, v2 = rest
                a, b = self.ev(p1), self.ev(p2)
                if self.prefix:
                    for j in range(self.prefix):
                        if (b + j) not in self.mem:
                            self.mem[b + j] = self.membyte(a + j, v1)
                x, y = self.bytes(a, self.ev(l1), v1), self.bytes(b, self.ev(l2), v2)
                r = self.gs[rest] = lengths(x, y, self.base)
            return r[k]
        return super()._ev(t)


def subterms(t, seen=None):
    seen = seen if seen is not None else set()
    if t in seen:
        return seen
    seen.add(t)
    for a in t.args:
        if isinstance(a, T):
            subterms(a, seen)
    return seen


def stem(addr):
    """an address without the parts that depend on the computed lengths"""
    c, d = lin_parts(addr)
    return mklin(c, {x: k for x, k in d.items() if not any(y.op == "gs" for y in subterms(x))}, 64)


class FEngine(Engine):
    width_cell = None

    def step(self, st, i):
        if i.op == "load":
            b, o, var = addr_parts(self.val(st, i.ops[0]))
            if b.op == "arg" and b.args[0] == 0 and o == self.width_cell and var is None and i.ty.size == 4:
                st.env[i.id] = tok("width", w=32)
                return None
        return super().step(st, i)

    def memcpy(self, st, i, dst, src, n):
        db, do, dv = addr_parts(dst)
        if not isc(n) and dv is None and db.op == "alloca":
            old = st.mem.get((db, do))
            sb, so, sv = addr_parts(src)
            ver = self.snapshot(st, sb, so if sv is None else None)
            if old is not None and old[0] == 8 and ver is not None:
                self.client.load(self, st, i, sb, so, sv, None)
                st.mem[(db, do)] = (8, mk("mcp", old[1], src, n, ver, w=64))
                return
        super().memcpy(st, i, dst, src, n)


class Finger(PosClient):
    def __init__(self, mod, var, goff, fn):
        super().__init__(mod, var)
        self.goff, self.fn, self.me = goff, fn, mname(fn)
        self.undec, self.done = [], {}
        self.base = mod.layout["base_implicit_%d" % var]
        m = pipeline.method(fn.dem)
        self.role = self.me if self.me in KEYOPS else "bulk"

    # ---- environment -------------------------------------------------------------------------
    def on_api(self, eng, st, i, op, args):
        self.move(eng, st, i, op, args)
        if op == "iter_seek" and len(args) >= 3:
            st.aux[("sp", i.id)], st.aux[("sl", i.id)] = args[1], args[2]
        if op in ("put", "set") and self.role == "bulk" and len(args) >= 4:
            self.stored(eng, st, i, args)

    def keyarg(self, eng, st, args, k):
        """(ptr, len) of a key parameter passed by address or by value; -> next index"""
        if len(self.gargs) == 4:
            b, o, v = addr_parts(args[k])
            if v is not None:
                return None, None, k + 1
            return eng.read(st, b, o, 8, True), eng.read(st, b, o + 8, 4), k + 1
        return args[k], args[k + 1], k + 2

    gargs = ()

    def assume(self, eng, st, c, val):
        # what a path knows about the keys' order decides which boundary comes before the key: such paths stay apart
        if self.role != "bulk":
            sub = subterms(c)
            if any(x.op == "pcall" or x.op == "tok" and x.args and x.args[0] in ("klen", "key") for x in sub) and \
                    not any(x.op == "gs" for x in sub) and sum(x[0] == "cond" for x in st.key) < 14:
                st.key = st.key | {("cond", c.id, bool(val))}
        return super().assume(eng, st, c, val)

    def call(self, eng, st, i, callee, args):
        f = self.mod.fns.get(callee) if isinstance(callee, str) else None
        n = mname(f) if f is not None else None
        if n == "GetSharedIgnoreImplicitLengths":
            self.hit("pair of boundaries")
            self.gargs = args
            if len(args) not in (4, 6) or i.ty.kind != "void":
                self.undec.append(f"{i.loc()}: form of the result")
                return super().call(eng, st, i, callee, args)
            p1, l1, k = self.keyarg(eng, st, args, 2)
            p2, l2, k = self.keyarg(eng, st, args, k)
            rb, ro, rv = addr_parts(args[0])
            if p1 is None or p2 is None or rv is not None:
                self.undec.append(f"{i.loc()}: keys")
                return super().call(eng, st, i, callee, args)
            vs = []
            for p in (p1, p2):
                b, o, v = addr_parts(p)
                s = eng.snapshot(st, b, o if v is None else None)
                vs.append(s if s is not None else tok("undef", i.id))
            eng.clobber(st, rb, ("gsr", i.id), ro, ro + 12)
            if self.me.startswith("BulkLoadStreaming") and p1.op == l1.op == "ld":
                st.aux[("left",)], st.aux[("leftl",)], st.aux[("right",)], st.aux[("rightl",)] = p1, l1, p2, l2
                st.key = st.key | {("streamed",)}
            for j, o in enumerate(self.goff):
                eng.write(st, rb, ro + o, 4, mk("gs", j, p1, l1, vs[0], p2, l2, vs[1], w=32))
            return None
        if n in KEYED or n == "LoadListToInfixStore":
            self.anchor(eng, st, i, n, args)
        return super().call(eng, st, i, callee, args)

    def store(self, eng, st, inst, base, off, var, size, val):
        if self.role != "bulk" or size != 8 or val is None or val.ptr or base.op not in ("alloca", "tok", "ld"):
            return
        if val.op == "gs" or not any(x.op == "gs" for x in subterms(val)):
            return
        if var is None and base.op == "alloca":
            return
        self.bulk_key(eng, st, inst, val)

    # ---- rules -------------------------------------------------------------------------------
    def note(self, i, what, ok):
        k = (i.loc(), what)
        self.done[k] = self.done.get(k, False) or ok

    def anchor(self, eng, st, i, n, args):
        if n == "LoadListToInfixStore":
            self.total(eng, st, i, args[1], args[4])
            return
        if self.role == "bulk" or addr_parts(args[1])[0].op == "alloca":
            return
        ks = [args[2]]
        total = args[3] if len(args) > 3 else None
        if n == "GetLongestMatchingInfixSize":
            total = None
        if n == "RangeQueryInfixStore":
            ks, total = args[2:4], args[4]
        self.hit("operation on a partition")
        self.check_op(eng, st, i, n, args[1], ks, total)

    def opkeys(self):
        """key parameters of the operation: (pointer, length)"""
        r = [(mk("arg", 1, ptr=True), mk("arg", 2, w=32))]
        if self.role == "RangeQuery":
            r.append((mk("arg", 3, ptr=True), mk("arg", 4, w=32)))
        return r

    def world(self, rng):
        """boundaries in order, and one key (two for ranges)"""
        full = 8 if self.var else 12
        n = rng.randrange(2, 5)
        pre = bytes(rng.choice((0, 255, 128, 1, rng.randrange(256))) for _ in range(rng.choice((0, 0, 1, 2, 3, 5, 8 if not self.var else 6))))

        def rnd(short=True):
            m = full if self.var or rng.random() < .3 else rng.randrange(1, 20)
            k = bytearray((rng.choice((0, 255)) if rng.random() < .4 else rng.randrange(256)) for _ in range(max(m, len(pre) + 1)))
            k = k[:8] if self.var else k
            k[:len(pre)] = pre[:len(k)]
            return bytes(k)

        def near(k):
            k = bytearray(k)
            if not self.var and rng.random() < .5:
                k = k[:rng.randrange(1, len(k) + 1)] if rng.random() < .5 else k + rnd()
            for _ in range(rng.randrange(0, 3)):
                k[rng.randrange(len(k))] ^= 1 << rng.randrange(8)
            if rng.random() < .4:
                c = rng.randrange(8 * len(k))
                for j in range(c, 8 * len(k)):
                    if rng.random() < .5:
                        k[j >> 3] ^= 0x80 >> (j & 7)
            return bytes(k)

        def ok(k):
            return self.var or k[-1] != 0

        def gap():
            """two keys whose bits after the first difference are fixed for everything between them"""
            c = [rng.getrandbits(1) for _ in range(rng.choice((0, 1, 5, 8, 13, 20, 31, 40)))]
            m = rng.choice((0, 0, 1, 2, 5, 9))
            n = (8 if self.var else rng.choice((8, 10, 14))) * 8
            r = []
            for x in (0, 1):
                b = c + [x] + [1 - x] * m
                b += [rng.getrandbits(1) if rng.random() < .7 else 1 for _ in range(max(8, n - len(b)))]
                b = b[:len(b) // 8 * 8]
                b[-1] |= not self.var
                r.append(bytes(int("".join(map(str, b[k:k + 8])), 2) for k in range(0, len(b), 8)))
            return [x[:8] for x in r] if self.var else r

        T_ = {bytes(full), b"\xff" * 20 if not self.var else b"\xff" * 8}
        seed = rnd()
        if rng.random() < .5:
            T_ |= set(k for k in gap() if ok(k) and any(k))
            seed = rng.choice(sorted(T_))
        for _ in range(30):
            if len(T_) >= n + 1:
                break
            k = near(rng.choice((seed, seed, rnd())))
            if ok(k) and any(k) and not all(x == 255 for x in k):
                T_.add(k)
                if rng.random() < .5:
                    seed = k
        pad = lambda k: k + bytes(80 - len(k))
        T_ = sorted(T_, key=pad)
        for _ in range(30):
            q = rng.choice(T_[:-1]) if rng.random() < .2 else near(rng.choice(T_ + [seed]))
            if ok(q) and T_[0] <= q and pad(q) < pad(T_[-1]) and (any(q) or q == T_[0]):
                break
        else:
            return None
        ks = [q]
        if self.role == "RangeQuery":
            for _ in range(30):
                r = near(q)
                if ok(r) and pad(q) <= pad(r) < pad(T_[-1]):
                    break
            else:
                r = q
            ks.append(r)
        return T_, ks, pad

    def sample(self, st, k, extra=()):
        v = FVal(k * 7919 + 11)
        v.base = self.base
        rng = random.Random(k)
        wd = self.world(rng)
        if wd is None:
            return None
        T_, ks, pad = wd
        w = width_sample(rng)
        v.fixed[tok("width", w=32)] = w
        addr = 0x77 << 48
        where = {}

        def place(kb):
            nonlocal addr
            addr += 4096 + rng.randrange(8)
            for j, x in enumerate(kb):
                v.mem[addr + j] = x
            return addr
        if len(self.fn.args) == 2:
            a = place(ks[0])
            b = v.fixed[mk("arg", 1, ptr=True)] = place(a.to_bytes(8, "little") + len(ks[0]).to_bytes(4, "little"))
        else:
            for j, (p, l) in enumerate(self.opkeys()):
                v.fixed[p], v.fixed[l] = place(ks[j]), len(ks[j])
        ent = []
        for kb in T_:
            a = place(kb)
            ln = len(kb)
            addr += 4096
            ent.append((a, ln, addr))
        items = sorted((x for x in st.key if x[0] == "pk"), key=repr)
        for x in items:
            if x[3] is None or x[4] == "U":
                continue
            sp, sl = st.aux.get(("sp", x[3])), st.aux.get(("sl", x[3]))
            if sp is None:
                continue
            p, n = v.ev(sp), v.ev(sl)
            if n > 64:
                return None
            q = bytes(v.mem.get(p + j, 0) for j in range(n))
            idx = next((j for j, kb in enumerate(T_) if kb >= q), None)
            if idx is None or not 0 <= idx + x[4] < len(T_):
                return None
            e = ent[idx + x[4]]
            for nm, val in zip(("key", "klen", "rec"), e):
                t = st.aux.get((nm, x[1]))
                if t is not None and not isc(t):
                    v.fixed[t] = val & M(t.w)
        return v, T_, ks, ent, pad, w

    def expect(self, v, T_, key, ent, pad, w):
        p = max(j for j, kb in enumerate(T_) if pad(kb) <= pad(key))
        if p + 1 >= len(T_):
            return None
        a, b = T_[p], T_[p + 1]
        s, ig, im = lengths(a, b, self.base)
        prev = fingerprint(bits_of(a), s, ig, im, w, 0) >> w
        nxt = fingerprint(bits_of(b), s, ig, im, w, 1) >> w
        e = fingerprint(bits_of(key), s, ig, im, w, bits_of(key)(s))
        return p, (e | 1) - (prev << w) & M(64), nxt - prev + 1

    def check_op(self, eng, st, i, n, store, ks, total):
        what = f"{self.me}: {n}"
        acc = bad = 0
        why = None
        for k in range(1, 5000):
            if acc >= MAXK:
                break
            try:
                s = self.sample(st, k)
                if s is None:
                    continue
                v, T_, keys, ent, pad, w = s
                if len(keys) != len(ks):
                    if n in ("DeleteRawFromInfixStore", "InsertRawIntoInfixStore", "GetLongestMatchingInfixSize",
                             "PointQueryInfixStore") and len(keys) == 2:
                        continue
                    why = "keys"
                    break
                ok = reval.facts_ok(v, st.facts)
                if ok is not True:
                    bad += ok is None
                    continue
                got = [v.ev(x) for x in ks]
                gt = v.ev(total) if total is not None else None
                gr = v.ev(store)
            except reval.Unknown as x:
                bad += 1
                if bad > 300 and not acc:
                    why = str(x)
                    break
                continue
            exp = [self.expect(v, T_, q, ent, pad, w) for q in keys]
            if any(e is None for e in exp) or len({e[0] for e in exp}) != 1:
                if len(exp) == 2 and exp[0] is not None and exp[1] is not None:
                    why2 = f"the range {keys[0].hex()}..{keys[1].hex()} spans the boundary {T_[exp[1][0]].hex()}, " \
                           f"but only one partition is examined"
                    eng.report(i, f"{self.me} {KEYED[n]} one partition although {why2}", st)
                    self.note(i, what, True)
                    return
                continue
            acc += 1
            p = exp[0][0]
            ctx = f"key {' and '.join(x.hex() for x in keys)} between boundaries {T_[p].hex()} and {T_[p + 1].hex()}, " \
                  f"{w}-bit fingerprints"
            low = 1 if n == "PointQueryInfixStore" else 0
            for g, e in zip(got, exp):
                if g | low != e[1] | low:
                    eng.report(i, f"{self.me} {KEYED[n]} the fingerprint {g:#x} where the one stored for the key is "
                                  f"{e[1]:#x} ({ctx})", st)
                    return
            if gt is not None and gt != exp[0][2] & M(32):
                eng.report(i, f"{self.me} works with {gt} implicit values where the boundaries span {exp[0][2]} ({ctx})", st)
                return
            if gr != ent[p][2]:
                o = [j for j, e in enumerate(ent) if e[2] == gr]
                eng.report(i, f"{self.me} {KEYED[n]} the fingerprint in the partition of boundary "
                              f"{T_[o[0]].hex() if o else 'unknown'} and not of the boundary before the key ({ctx})", st)
                return
        self.note(i, what, acc >= 10)
        if acc >= 10:
            self.hit("obligation")
        elif why or bad:
            self.why = why or "facts"

    why = None

    def pairs(self, t):
        return {x.args[1:] for x in subterms(t) if x.op == "gs"}

    def relevant(self, st, ts):
        keep = set(ts)
        r = {}
        for c, val in st.facts.items():
            if subterms(c) & keep:
                r[c] = val
        return r

    def free_val(self, k, pr):
        v = FVal(k)
        v.base = self.base
        rng = random.Random(k * 31)
        v.prefix = rng.choice((0, 0, 1, 2, 7, 8, 9))
        v.fixed[tok("width", w=32)] = w = width_sample(rng)
        if self.var:
            for (p, l) in ((pr[0], pr[1]), (pr[3], pr[4])):
                if not isc(l):
                    v.fixed[l] = 8
        else:
            for l in (pr[1], pr[4]):
                if not isc(l) and l not in v.fixed:
                    v.fixed[l] = rng.randrange(1, 24)
        if self.role == "bulk" and self.keylen is not None:
            v.fixed[self.keylen] = 8 if self.var else rng.randrange(1, 24)
        return v, w

    keylen = None

    def total(self, eng, st, i, store, t):
        ps = self.pairs(t)
        if len(ps) != 1:
            self.note(i, f"{self.me}: implicit values", False)
            return
        pr = next(iter(ps))
        b, o, sv = addr_parts(store)
        if sv is None:
            st.aux[("lp", b.id)], st.aux[("ll", b.id)] = pr[0], pr[1]
        rel = self.relevant(st, [x for x in subterms(t) if x.op == "gs"] + [x for x in (pr[1], pr[4]) if not isc(x)])
        acc = 0
        for k in range(3000):
            if acc >= MAXK:
                break
            try:
                v, w = self.free_val(k, pr)
                a = v.bytes(v.ev(pr[0]), v.ev(pr[1]), pr[2])
                b2 = None
                s, ig, im = (v.ev(mk("gs", j, *pr, w=32)) for j in range(3))
                a = v.bytes(v.ev(pr[0]), v.ev(pr[1]), pr[2])
                b2 = v.bytes(v.ev(pr[3]), v.ev(pr[4]), pr[5])
                if a + bytes(64 - len(a)) >= b2 + bytes(64 - len(b2)):
                    continue
                if reval.facts_ok(v, rel) is False:
                    continue
                got = v.ev(t)
            except reval.Unknown:
                continue
            acc += 1
            prev = fingerprint(bits_of(a), s, ig, im, w, 0) >> w
            nxt = fingerprint(bits_of(b2), s, ig, im, w, 1) >> w
            if got != (nxt - prev + 1) & M(32):
                eng.report(i, f"{self.me} builds a partition with {got} implicit values where its boundaries {a.hex()} and "
                              f"{b2.hex()} span {nxt - prev + 1}", st)
                return
        self.note(i, f"{self.me}: implicit values", acc >= 10)
        if acc >= 10:
            self.hit("obligation")

    def bulk_key(self, eng, st, i, val):
        ps = self.pairs(val)
        what = f"{self.me}: fingerprint put in a list"
        if len(ps) != 1:
            self.note(i, what, False)
            return
        pr = next(iter(ps))
        sub = subterms(val)
        root = {}
        for x in sub:
            if x.op == "mcp":
                root[stem(x.args[1])] = x.args[3]
            elif x.op == "ld" and x.w == 8:
                root[stem(x.args[0])] = x.args[2]
        cand = [r for r in root if r is not stem(pr[0])]
        gss = [x for x in sub if x.op == "gs" and x.args[0] == 0]
        lens = set()
        for x in sub:
            if x.op == "icmp" and x.args[0] == "ult" and any(y.op == "gs" for y in subterms(x.args[1])) and \
                    not any(y.op == "gs" for y in subterms(x.args[2])) and not isc(x.args[2]):
                lens.add(x.args[2])
        if len(cand) != 1 or len(lens) > 2:
            self.note(i, what, False)
            return
        if len(lens - {pr[1]}) == 1:
            ln = next(iter(lens - {pr[1]}))
        elif pr[1] in lens or isc(pr[1]):
            ln = pr[1]
        else:
            self.note(i, what, False)
            return
        kp, ver = cand[0], root[cand[0]]
        rel = self.relevant(st, [x for x in sub if x.op == "gs"] + [x for x in (pr[1], pr[4], ln) if not isc(x)])
        acc = 0
        for k in range(3000):
            if acc >= MAXK:
                break
            try:
                v, w = self.free_val(k, pr)
                if not isc(ln) and ln not in v.fixed and ln.op in ("tok", "arg", "ld"):
                    v.fixed[ln] = v.rng.randrange(1, 24)
                a = v.ev(pr[0])
                s, ig, im = (v.ev(mk("gs", j, *pr, w=32)) for j in range(3))
                if reval.facts_ok(v, rel) is False:
                    continue
                key = v.bytes(v.ev(kp), v.ev(ln), ver)
                left = v.bytes(a, v.ev(pr[1]), pr[2])
                got = v.ev(val)
            except reval.Unknown:
                continue
            acc += 1
            prev = fingerprint(bits_of(left), s, ig, im, w, 0) >> w
            e = fingerprint(bits_of(key), s, ig, im, w, bits_of(key)(s))
            e = (e | 1) - (prev << w) & M(64)
            if got != e:
                eng.report(i, f"{self.me} stores the fingerprint {got:#x} for key {key.hex()} after boundary {left.hex()} where "
                              f"queries look for {e:#x} ({w}-bit fingerprints, {s} shared, {ig} ignored, {im} implicit bits)", st)
                return
        self.note(i, what, acc >= 10)
        if acc >= 10:
            self.hit("obligation")

    def stored(self, eng, st, i, args):
        b, o, v = addr_parts(args[3])
        p, l = st.aux.get(("lp", b.id)), st.aux.get(("ll", b.id))
        if v is not None or p is None or l is None:
            return
        self.hit("record stored")
        w = max(args[2].w, l.w)
        pairs = [(args[1], p), (zext(args[2], w), zext(l, w))]
        if all(a is b for a, b in pairs):
            self.hit("obligation")
            return
        bad, n = reval.differs(pairs, self.relevant(st, {x for pr in pairs for y in pr for x in leaves(y)}), n=40)
        if bad is not None:
            eng.report(i, f"{self.me} stores a partition under a key that is not the left boundary its fingerprints were "
                          f"computed from", st)
        elif n:
            self.hit("obligation")


    def ret(self, eng, st, inst, val):
        self.hit("exit")
        p1 = st.aux.get(("left",))
        if p1 is None or "unsigned char const*" not in self.fn.dem:
            return
        for c, want in ((p1, st.aux[("right",)]), (st.aux[("leftl",)], st.aux[("rightl",)])):
            if c.op != "ld" or want is None:
                return
            b, o, v = addr_parts(c.args[0])
            if v is not None or b.op != "arg":
                return
            now = eng.read(st, b, o, c.args[1], c.ptr)
            if now is want:
                self.hit("obligation")
                continue
            bad, n = reval.differs([(now, want)], self.relevant(st, leaves(now) | leaves(want)), n=40)
            if bad is not None:
                eng.report(inst, f"{self.me} goes on from another left boundary than the right boundary of the partition it "
                                 f"just stored", st)
                return


class SharedEngine(MemEngine):
    def memcpy(self, st, i, dst, src, n):
        db, do, dv = addr_parts(dst)
        sb, so, sv = addr_parts(src)
        if not isc(n) and dv is None and not self.outside(db) and self.outside(sb):
            old = st.mem.get((db, do))
            if old is not None and old[0] == 8:
                st.mem[(db, do)] = (8, mk("mcp", old[1], src, n, st.key[0], w=64))
                return
        super().memcpy(st, i, dst, src, n)


def two_keys(rng):
    """two keys in order, sharing any number of bits, with any number of fixed bits after the first difference"""
    c = [rng.getrandbits(1) for _ in range(rng.choice((0, 1, 7, 8, 31, 62, 63, 64, 65, 127, 128, rng.randrange(200))))]
    m = rng.choice((0, 0, 1, 2, 9, 30, 62, 63, 64, 65, 130))
    r = []
    near = rng.random() < .4
    p = rng.getrandbits(9)
    q = max(0, min(511, p + rng.randrange(-3, 3)))
    for x in (0, 1):
        b = c + [x] + [1 - x] * m
        if near:
            b += [(q if x else p) >> (8 - j) & 1 for j in range(9)]
        t = rng.random()
        b += [rng.getrandbits(1) if t < .6 else 1 - x if t < .8 else x for _ in range(rng.randrange(0, 100))]
        b += [0] * (-len(b) % 8)
        k = bytes(int("".join(map(str, b[k:k + 8])), 2) for k in range(0, len(b), 8))
        r.append(k)
    return r


def shared_lengths(viol, und, tot, fns, goff, tier):
    mod = pipeline.diva_module(tag="shared", entries=lambda d: (pipeline.method(d) or "").split("(")[0] ==
                               "GetSharedIgnoreImplicitLengths")
    for f in list(mod.fns.values()):
        if f.decl or mname(f) != "GetSharedIgnoreImplicitLengths" or goff[pipeline.variant(f.dem)] is None:
            continue
        var = pipeline.variant(f.dem)
        what = f"{f.dem[:50]} boundary lengths"
        try:
            sm = Summary(mod, f.name, engine=SharedEngine, drop_frame=True)
        except AnalysisError as x:
            und.append(f"{what}: {x}")
            continue
        if len(f.args) not in (4, 6) or f.args[0].kind != "ptr":
            und.append(f"{what}: form")
            continue
        rng = random.Random(3)
        good = 0
        why = None
        base = mod.layout["base_implicit_%d" % var]
        for k in range(150 if tier == "quick" else 2000):
            a, b = two_keys(rng)
            if var and rng.random() < .9:
                # integer keys have eight bytes
                a, b = (a + bytes(8))[:8], (b + bytes(8))[:8]
            if a + bytes(80 - len(a)) >= b + bytes(80 - len(b)):
                continue
            A, B, R = 1 << 40, 2 << 40, 3 << 40
            blocks = [(A, bytearray(a)), (B, bytearray(b)), (R, bytearray(16)), (4 << 40, bytearray(64))]
            args = {0: (R, 64, True), 1: (4 << 40, 64, True)}
            if len(f.args) == 4:
                for j, (p, x) in enumerate(((A, a), (B, b))):
                    q = (5 + j) << 40
                    blocks.append((q, bytearray(p.to_bytes(8, "little") + len(x).to_bytes(8, "little"))))
                    args[2 + j] = (q, 64, True)
            else:
                args.update({2: (A, 64, True), 3: (len(a), 32, False), 4: (B, 64, True), 5: (len(b), 32, False)})
            try:
                over, ret, path = walk(sm, Case(args, blocks), None)
            except (reval.Unknown, Wrong) as x:
                why = str(x)
                continue
            got = tuple(sum(over.get(R + o + j, 0) << (8 * j) for j in range(4)) for o in goff[var])
            want = lengths(a, b, base)
            good += 1
            if got != want:
                inst = next((i for h, g in path[-1:] for kd, p, sz, i in g.acc), None)
                viol.append({"entry": f.dem, "loc": inst.loc() if inst is not None else "include/diva.hpp", "trail": [],
                             "msg": f"for boundaries {a.hex()} and {b.hex()} the shared, ignored and implicit lengths are "
                                    f"{got}, by definition {want}"})
                break
        if good >= 50:
            tot["obligation"] = tot.get("obligation", 0) + 1
            fns.append(f.dem)
        elif why:
            und.append(f"{what}: {why}")


def module():
    keep = set(event_free_helpers()) | ANCH
    return pipeline.diva_module(keep=keep, tag="finger", entries=lambda d: is_target(d) or d.startswith("vf_g_"))


def is_target(d):
    m = pipeline.method(d)
    if m is None or "lambda" in m:
        return False
    n = m.split("(")[0]
    if n in KEYOPS:
        return "unsigned char const*" in m or "InfiniteByteString" in m
    if n in ("BulkLoadStreaming", "BulkLoadStreamingFinish"):
        return "unsigned long)" not in m
    return n.startswith("Diva<") and "::" not in n.split("<")[0]


def check(tier):
    mod = module()
    viol, fns, tot, und = [], [], {}, []
    goff = {}
    for var in (0, 1):
        o = []
        for n in ("shared", "ignore", "implicit"):
            t = fn_term(mod, "vf_g_%s_%d" % (n, var))
            b, off, v = addr_parts(t.args[0]) if t is not None and t.op == "ld" else (None, None, 1)
            if v is not None or t.args[1] != 4:
                break
            o.append(off)
        goff[var] = o if len(o) == 3 else None
    shared_lengths(viol, und, tot, fns, goff, tier)
    for f in list(mod.fns.values()):
        if f.decl or not is_target(f.dem):
            continue
        var = pipeline.variant(f.dem)
        if goff[var] is None:
            und.append(f"variant {var}: result of the length computation")
            continue
        c = Finger(mod, var, goff[var], f)
        e = FEngine(mod, f, c)
        e.gated = True
        e.width_cell = mod.layout["infix_size_%d" % var]
        try:
            viol += e.run()
        except AnalysisError as x:
            und.append(str(x))
            continue
        for (loc, what), ok in sorted(c.done.items()):
            if not ok:
                und.append(f"{what} at {loc}")
        und += [f"{f.dem[:50]} {u}" for u in sorted(set(c.undec))]
        for k, n in c.count.items():
            tot[k] = tot.get(k, 0) + n
        fns.append(f.dem)
    return viol, {"functions": fns, "events": tot, "undecided": und}
