"""C05: a serialised image is read back exactly as written, and its reported size is its length.

The writer, the size computation and the reading constructor are each reduced to summaries of zero, one and two partitions:
which bytes go to (come from) which position, as expressions over the keys' lengths, the partitions' bookkeeping and the
configuration.  The positions of the three summaries are then matched against each other; a mismatch is reported only with
lengths and bookkeeping that show it."""
import struct
import pipeline, reval
from divamodel import *
from p_book import fields, fn_term

MAXIT = 2
MAXEV = 60


class ImgEngine(Engine):
    def memcpy(self, st, i, dst, src, n):
        self.client.on_copy(self, st, i, dst, src, n)
        super().memcpy(st, i, dst, src, n)

    def intrinsic(self, st, i, name, args):
        if name.startswith("llvm.memset"):
            self.client.on_set(self, st, i, args[0], args[1], args[2])
        return super().intrinsic(st, i, name, args)


class Img(DivaClient):
    monotone = True

    def __init__(self, mod, var, fn, stoff):
        super().__init__(mod, var)
        self.fn = fn
        self.stoff = stoff
        self.rets = []
        self.lfs = {}
        self.over = False
        self.this = mk("arg", 0, ptr=True)
        self.buf = mk("arg", 1, ptr=True)

    def init(self, eng, st):
        st.key = (0, 0)             # partitions seen, events recorded

    def restart(self):
        super().restart()
        self.rets = []

    def event(self, st, t):
        it, n = st.key
        if n >= MAXEV:
            self.over = True
            return
        st.aux[("e", n)] = t
        st.key = (it, n + 1)

    def events(self, st):
        return [st.aux.get(("e", k)) for k in range(st.key[1])]

    def interesting(self, b):
        return b is self.buf or b.op == "alloca" or (b.op == "tok" and "new" in b.args[:3])

    def on_copy(self, eng, st, i, dst, src, n):
        db, do, dv = addr_parts(dst)
        sb, so, sv = addr_parts(src)
        if not self.interesting(db) or isc(n) and db is not self.buf and sb is not self.buf:
            return
        sn = None
        if sv is None and isc(n) and cv(n) in (1, 2, 4, 8):
            self.event(st, mk("wst", dst, eng.read(st, sb, so, cv(n)), cv(n), w=1))
            return
        sn = eng.snapshot(st, sb)
        self.event(st, mk("wcp", dst, src, zext(n, 64), sn if sn is not None else tok("mix", i.id), w=1))

    def on_set(self, eng, st, i, dst, val, n):
        if addr_parts(dst)[0] is self.buf:
            self.event(st, mk("wset", dst, val, zext(n, 64), w=1))

    def store(self, eng, st, i, base, off, var, size, val):
        if base is self.buf and val is not None and size is not None:
            a = add(base, const(off))
            if var is not None:
                a = add(a, var)
            self.event(st, mk("wst", a, val, size, w=1))
        if base is self.this and self.sizes(off, var):
            L = self.L
            if eng.final and self.reader:
                self.lfs[mk("lf", eng.read(st, base, L["load_factor_%d" % self.var], 4),
                            eng.read(st, base, L["load_factor_alt_%d" % self.var], 4), w=1)] = i

    def sizes(self, off, var):
        o = self.L["scaled_sizes_%d" % self.var]
        return var is not None and off >= o - 64 and off < o + 8 * 400

    def on_new(self, eng, st, i, t, args):
        self.event(st, mk("wnew", t, args[0], w=1))

    def on_api(self, eng, st, i, op, args):
        if op == "iter_peek_ref":
            it, n = st.key
            if it >= MAXIT:
                return []
            st.key = (it + 1, n)
        elif op == "put":
            it, n = st.key
            if it >= MAXIT:
                return []
            b, o, v = addr_parts(args[3])
            if v is None and len(args) >= 5:
                stt = eng.read(st, b, o + self.stoff, 4)
                ptr = eng.read(st, b, o + self.ptr_off, 8, True)
            else:
                stt, ptr = tok("mix", i.id, w=32), tok("mix", i.id, 1)
            sn = eng.snapshot(st, addr_parts(args[1])[0])
            st.aux[("put", it)] = mk("put", args[1], zext(args[2], 64), stt, ptr,
                                     sn if sn is not None else tok("mix", i.id, 2), n, w=1)
            st.key = (it + 1, n)
        return None

    def api_effect(self, eng, st, i, op, args):
        super().api_effect(eng, st, i, op, args)
        if op == "iter_peek_ref" and len(args) >= 5:
            c = []
            for a, sz in zip(args[1:4], (8, 4, 8)):
                b, o, v = addr_parts(a)
                c.append(eng.read(st, b, o, sz, sz == 8) if v is None else tok("mix", i.id, w=sz * 8))
            st.aux[("pk", st.key[0] - 1)] = mk("pk", *c, w=1)

    def ret(self, eng, st, inst, val):
        aux = dict(st.aux)
        fin = {}
        if self.reader:
            for f in ("infix_size", "rng_seed", "load_factor", "load_factor_alt"):
                fin[f] = eng.read(st, self.this, self.L["%s_%d" % (f, self.var)], 4)
        self.rets.append((st.key[0], self.events(st), aux, val, dict(st.facts), inst, fin))

    reader = False


class Gap(Exception):
    pass


class IVal(reval.Val):
    """memory is one flat array; what is neither written nor given is unknown"""

    def __init__(self, seed):
        super().__init__(seed)
        self.mem = {}
        self.img = None             # (start, end) of the image: reading outside what was written is an error
        self.zero = ()

    def leaf(self, t):
        if t.op == "tok" and t not in self.fixed:
            raise reval.Unknown(t.args[0] if t.args else "tok")
        return super().leaf(t)

    def byte(self, addr, ver):
        b = self.mem.get(addr)
        if b is None:
            if self.img and self.img[0] <= addr < self.img[1]:
                raise Gap(addr - self.img[0])
            for lo, hi in self.known:
                if lo <= addr < hi:
                    b = self.rng.randrange(256)
                    self.mem[addr] = b
                    return b
            raise reval.Unknown("memory")
        return b

    known = ()

    def membyte(self, addr, ver):
        if ver.op == "tok" and ver.args and ver.args[0] == "mix":
            raise reval.Unknown("memory")
        return super().membyte(addr, ver)

    def _ev(self, t):
        if t.op == "fp":
            x = float(t.args[0].strip("'\"")) if isinstance(t.args[0], str) else None
            if x is None:
                raise reval.Unknown("fp")
            return struct.unpack("<I", struct.pack("<f", x))[0] if t.w == 32 else \
                struct.unpack("<Q", struct.pack("<d", x))[0]
        return super()._ev(t)

    def poke(self, a, data):
        for k, x in enumerate(data):
            self.mem[a + k] = x


THIS, OUT, REC, KEY, STO = 1 << 40, 2 << 40, 3 << 40, 4 << 40, 5 << 40


def feasible(v, facts):
    return reval.facts_ok(v, facts) is not False


def analyse(mod, fn, var, stoff, reader=False):
    c = Img(mod, var, fn, stoff)
    c.reader = reader
    e = ImgEngine(mod, fn, c)
    e.gated = True
    e.run()
    return c


class Sample:
    """one configuration with n partitions"""

    def __init__(self, seed, n, L, var, words, stoff, ptroff, fields):
        import random
        self.r = r = random.Random(seed)
        self.n, self.L, self.var = n, L, var
        self.stoff, self.ptroff = stoff, ptroff
        self.seed = seed
        self.table = [r.randrange(0, 300) for _ in range(500)]
        self.conf = {"infix_size": r.randrange(4, 25), "rng_seed": r.getrandbits(32),
                     "load_factor": struct.unpack("<I", struct.pack("<f", r.choice((0.8, 0.9, 0.7))))[0],
                     "load_factor_alt": struct.unpack("<I", struct.pack("<f", r.choice((0.85, 0.75, 0.99))))[0]}
        self.parts = []
        for k in range(n):
            kl = r.choice((1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 9, 13, 15, 16, 17)) if not var else r.choice((1, 3, 5, 7, 8, 8, 8))
            grade = r.randrange(0, 256)
            status = r.getrandbits(32)
            for f, (_, _, sh, w) in fields.items():
                # every bookkeeping field also at its extremes: empty, single, unmarked, full
                x = grade if f == "grade" else r.choice((None, None, 0, 0, 1, M(w)))
                if x is not None:
                    status = status & ~(M(w) << sh) | x << sh
            vv = reval.Val(1, fixed={mk("arg", 0, w=32): self.table[grade], mk("arg", 1, w=32): self.conf["infix_size"]})
            wc = vv.ev(words)
            self.parts.append((bytes(r.randrange(256) for _ in range(kl)), status, bytes(r.randrange(256) for _ in range(8 * wc))))

    def writer_val(self):
        v = IVal(self.seed)
        v.fixed[mk("arg", 0, ptr=True)] = THIS
        v.fixed[mk("arg", 1, ptr=True)] = OUT
        L = self.L
        for f, x in self.conf.items():
            v.poke(THIS + L["%s_%d" % (f, self.var)], x.to_bytes(4, "little"))
        self.tables(v)
        for k, (key, status, data) in enumerate(self.parts):
            v.poke(REC + (k << 20) + self.stoff, status.to_bytes(4, "little"))
            v.poke(REC + (k << 20) + self.ptroff, (STO + (k << 20)).to_bytes(8, "little"))
            v.poke(KEY + (k << 20), key)
            v.poke(STO + (k << 20), data)
        return v

    def tables(self, v):
        for g, x in enumerate(self.table):
            v.poke(THIS + self.L["scaled_sizes_%d" % self.var] + 8 * g, x.to_bytes(8, "little"))

    def bind(self, v, aux):
        """the entries the walk returns are the sample's partitions"""
        for k, (key, status, data) in enumerate(self.parts):
            pk = taken(v, aux.get(("pk", k)))
            if pk is None or pk.op != "pk":
                return False
            for t, x in zip(pk.args, (KEY + (k << 20), len(key), REC + (k << 20))):
                if t.op == "asptr":
                    t = t.args[0]
                if t.op != "tok" or (t in v.fixed and v.fixed[t] != x):
                    return False
                v.fixed[t] = x
        return True

    def text(self):
        return "%d partition(s), key lengths %s, infix size %d" % (self.n, [len(p[0]) for p in self.parts],
                                                                   self.conf["infix_size"])


def taken(v, t):
    """the alternative of a joined value that the sample takes"""
    while t is not None and t.op == "select":
        t = t.args[1 if v.ev(t.args[0]) else 2]
    return t


def run_events(v, evs, img, base=OUT):
    """applies the writes to the image; -> text of a problem or None"""
    for t in evs:
        t = taken(v, t)
        if t is None:
            raise reval.Unknown("event")
        if t.op == "wnew":
            continue
        d = v.ev(t.args[0])
        if not base <= d < base + (1 << 32):
            continue
        d -= base
        if t.op == "wst":
            x = v.ev(t.args[1])
            for k in range(t.args[2]):
                img[d + k] = x >> (8 * k) & 255
        elif t.op == "wset":
            n = v.ev(t.args[2])
            if n > 1 << 16:
                return "fills %d bytes at position %d" % (n, d)
            for k in range(n):
                img[d + k] = v.ev(t.args[1]) & 255
        else:
            n, s = v.ev(t.args[2]), v.ev(t.args[1])
            if n > 1 << 18:
                return "copies %d bytes to position %d" % (n, d)
            for k in range(n):
                try:
                    img[d + k] = v.membyte(s + k, t.args[3])
                except reval.Unknown:
                    return "copies %d bytes to position %d, past the end of what it copies" % (n, d)
    return None


def pick(c, v, s, n):
    """the summary of the path with n partitions that the sample takes"""
    got = []
    for r in c.rets:
        if r[0] != n:
            continue
        w = s.writer_val()
        if not s.bind(w, r[2]):
            continue
        if feasible(w, r[4]):
            got.append((r, w))
    return got


def check(tier):
    viol, und = [], []
    cov = {"image writers": 0, "size computations": 0, "image readers": 0, "images matched": 0}
    fns = []
    mod = pipeline.diva_module(tag="image", entries=lambda d: d.startswith("vf_g_") or pipeline.is_entry(d) and
                               pipeline.method(d).startswith(("Serialize(", "Size(", "Diva(char*")))
    N = 80 if tier == "thorough" else 24
    for var in (0, 1):
        nm = "Diva<%s>" % ("true" if var else "false")
        F = fields(mod, var)
        words = fn_term(mod, "vf_g_words_%d" % var)
        if F is None or words is None or len({(f[0], f[1]) for f in F.values()}) != 1 or F["grade"][1] != 4:
            und.append(nm + ": bookkeeping layout not resolved")
            continue
        stoff, ptroff = F["grade"][0], mod.layout["store_ptr_%d" % var]
        fs = {}
        for f in entries(mod):
            if pipeline.variant(f.dem) == var:
                m = pipeline.method(f.dem)
                if m.startswith("Serialize("):
                    fs["w"] = f
                elif m.startswith("Size("):
                    fs["s"] = f
                elif m.startswith("Diva(char*"):
                    fs["r"] = f
        an = {}
        for k, f in fs.items():
            mod.body(f.name)
            try:
                an[k] = analyse(mod, f, var, stoff, k == "r")
            except AnalysisError as x:
                und.append(str(x))
                continue
            fns.append(f.dem)
            cov[{"w": "image writers", "s": "size computations", "r": "image readers"}[k]] += 1
            if an[k].over or not an[k].rets:
                und.append(f"{f.dem}: too many writes to follow")
                del an[k]
                continue
        L = mod.layout
        seen = set()

        def bad(f, inst, msg, s):
            kk = (f.dem, msg[:12])
            if kk in seen:
                return
            seen.add(kk)
            viol.append({"entry": f.dem, "loc": inst.loc(), "trail": [], "msg": f"{msg} ({s.text()})"})
        if "w" not in an:
            continue
        for n in range(MAXIT + 1):
            for k in range(N):
                s = Sample(1000 * n + k, n, L, var, words, stoff, ptroff, F)
                try:
                    got = pick(an["w"], None, s, n)
                    if len(got) != 1:
                        und.append(f"{fs['w'].dem}: {len(got)} paths for {s.text()}")
                        continue
                    (it, evs, aux, val, facts, inst, _), v = got[0]
                    img = {}
                    p = run_events(v, evs, img)
                    if p:
                        bad(fs["w"], inst, p, s)
                        continue
                    ln = v.ev(val)
                except reval.Unknown as x:
                    und.append(f"{fs['w'].dem}: {x}")
                    continue
                end = max(img) + 1 if img else 0
                if ln != end:
                    bad(fs["w"], inst, f"returns {ln} but writes {end} bytes", s)
                    continue
                gap = next((o for o in range(end) if o not in img), None)
                if gap is not None:
                    bad(fs["w"], inst, f"leaves byte {gap} of the image unwritten", s)
                    continue
                # size
                if "s" in an:
                    got = pick(an["s"], None, s, n)
                    if len(got) == 1:
                        r, w = got[0]
                        try:
                            z = w.ev(r[3])
                            if z != ln:
                                bad(fs["s"], r[5], f"reports {z} bytes where serialising writes {ln}", s)
                        except reval.Unknown as x:
                            und.append(f"{fs['s'].dem}: {x}")
                    else:
                        und.append(f"{fs['s'].dem}: {len(got)} paths for {s.text()}")
                if "r" in an:
                    try:
                        if read_back(an["r"], fs["r"], s, img, bad, n):
                            cov["images matched"] += 1
                    except reval.Unknown as x:
                        und.append(f"{fs['r'].dem}: {x}")
    und = sorted(set(und))
    return viol, {"functions": fns, "events": cov, "undecided": und}


def reader_val(s, img):
    v = IVal(s.seed + 77)
    v.fixed[mk("arg", 0, ptr=True)] = THIS
    v.fixed[mk("arg", 1, ptr=True)] = OUT
    v.img = (OUT, OUT + (1 << 32))
    for o, x in img.items():
        v.mem[OUT + o] = x
    s.tables(v)
    return v


def read_back(c, f, s, img, bad, n):
    best = []
    gap = None
    for r in c.rets:
        v = reader_val(s, img)
        try:
            if feasible(v, r[4]):
                best.append((r, v))
        except Gap as g:
            gap = (g.args[0], r)
    if not best:
        if gap is not None:
            bad(f, gap[1][5], f"looks at byte {gap[0]} which was never written", s)
            return False
        # more partitions than were written (the summaries stop at MAXIT), or none
        bad(f, c.rets[0][5], f"does not stop after the {n} partition(s) that were written", s)
        return False
    if len(best) != 1:
        und = [b for b in best if b[0][0] == n]
        if len(und) != 1:
            raise reval.Unknown("%d paths" % len(best))
        best = und
    (it, evs, aux, val, facts, inst, fin), v = best[0]
    if it != n:
        bad(f, inst, f"restores {it} partitions where {n} were written", s)
        return False
    try:
        evs = [taken(v, e) for e in evs]
        for name, t in fin.items():
            try:
                x = v.ev(t)
            except reval.Unknown as e:
                if any(l.op == "ld" and addr_parts(l.args[0])[0].op == "arg" and addr_parts(l.args[0])[0].args[0] == 0
                       for l in [t] if t.op == "ld"):
                    bad(f, inst, f"does not restore {name}_", s)
                    return False
                raise
            if x != s.conf[name]:
                bad(f, inst, f"restores {name}_ as {x:#x} where {s.conf[name]:#x} was written", s)
                return False
        for lf, at in c.lfs.items():
            for name, t in zip(("load_factor", "load_factor_alt"), lf.args):
                try:
                    x = v.ev(t)
                except reval.Unknown:
                    if t.op != "ld":
                        continue
                    x = None
                if x != s.conf[name]:
                    bad(f, at, f"sets up the size classes with another {name}_ than was written", s)
                    return False
        for k, (key, status, data) in enumerate(s.parts):
            put = taken(v, aux.get(("put", k)))
            if put is None or put.op != "put":
                raise reval.Unknown("put")
            kp, kl, st, ptr, kver, ne = put.args
            kp, ptr = taken(v, kp), taken(v, ptr)
            pe = evs[:ne]
            if v.ev(kl) != len(key):
                bad(f, inst, f"restores boundary key {k} with length {v.ev(kl)}, not {len(key)}", s)
                return False
            got = fetch(v, pe, kp, len(key), kver)
            if got is None:
                raise reval.Unknown("key bytes")
            if got != key:
                bad(f, inst, f"restores boundary key {k} with other bytes than were written", s)
                return False
            if v.ev(st) != status:
                bad(f, inst, f"restores the bookkeeping of partition {k} as {v.ev(st):#x}, not {status:#x}", s)
                return False
            own = [e for e in evs if e is not None and e.op == "wnew" and e.args[0] is (ptr.args[0] if ptr.op == "asptr" else ptr)]
            if addr_parts(ptr)[0] is c.buf:
                bad(f, inst, f"partition {k} of the new filter points into the image", s)
                return False
            if not own:
                raise reval.Unknown("partition memory")
            size = v.ev(own[-1].args[1])
            if size < len(data):
                bad(f, inst, f"allocates {size} bytes for partition {k} of {len(data)}", s)
                return False
            got = fetch(v, pe, ptr, len(data), None)
            if got is None:
                raise reval.Unknown("partition contents")
            if got != data:
                bad(f, inst, f"restores the contents of partition {k} incompletely or from the wrong position", s)
                return False
    except Gap as g:
        bad(f, inst, f"reads byte {g.args[0]} of the image, which was never written", s)
        return False
    return True


def fetch(v, evs, ptr, n, ver):
    """n bytes at ptr, which is the image itself or memory the reader copied into"""
    b, o, var = addr_parts(ptr)
    if b.op == "arg":
        a = v.ev(ptr)
        return bytes(v.byte(a + k, 0) for k in range(n))
    out = [None] * n
    hit = False
    for e in evs:
        if e is None or e.op not in ("wcp", "wst", "wset"):
            continue
        db, do, dv = addr_parts(e.args[0])
        if db is not b:
            continue
        d = (v.ev(dv) if dv is not None else 0) + do - o - (v.ev(var) if var is not None else 0)
        hit = True
        if e.op == "wcp":
            m, s = v.ev(e.args[2]), v.ev(e.args[1])
            for k in range(min(m, 1 << 16)):
                if 0 <= d + k < n:
                    out[d + k] = v.membyte(s + k, e.args[3])
        elif e.op == "wst":
            x = v.ev(e.args[1])
            for k in range(e.args[2]):
                if 0 <= d + k < n:
                    out[d + k] = x >> (8 * k) & 255
    if not hit:
        return None
    return bytes(x if x is not None else 0x5A for x in out)
