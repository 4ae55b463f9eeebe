"""C10: every key comparison implements one order (bytes unsigned, lexicographic, a proper prefix first).

Each comparison is reduced to one expression over the two keys' bytes and lengths (all paths, joined by their branch
conditions) and judged against the specified order; a difference is reported only with a pair of keys that shows it."""
import pipeline
from divamodel import PURE
from engine import *
from terms import *
import reval

ALPH = (0, 1, 2, 0x7E, 0x7F, 0x80, 0x81, 0xFE, 0xFF)


class Fn1(Client):
    """return values of a function; without loops, one per path"""

    def __init__(self, split=False):
        self.rets = []
        self.split = split

    def restart(self):
        self.rets = []

    def assume(self, eng, st, atom, val):
        if self.split and isinstance(st.key, tuple) and len(st.key) < 40:
            st.key = st.key + ((atom.id, val),)

    def call(self, eng, st, i, callee, args):
        if isinstance(callee, str) and callee in PURE:
            vs = []
            for a in args:
                if a.ptr:
                    vs.append(eng.snapshot(st, addr_parts(a)[0]) or tok("mix", i.id))
            st.env[i.id] = mk("pcall", callee, *args, mk("vs", *vs), w=width(i.ty))
            return None
        return NotImplemented

    def ret(self, eng, st, inst, val):
        self.rets.append((val, inst, dict(st.facts)))


class Value:
    """the value of a function as (condition, expression) cases"""

    def __init__(self, mod, name):
        f = mod.fns[name]
        mod.body(name)
        rpo = {}
        c = Fn1()
        e = Engine(mod, f, c)
        loops = any(e.rpo[x] <= e.rpo[b] for b in f.blocks if b in e.rpo for x in b.succs)
        c.split = not loops
        e.gated = loops
        e.run()
        self.cases = c.rets
        for t, _, _ in self.cases:
            if t is None:
                raise AnalysisError(f"{name}: no value")

    def ev(self, v):
        got = None
        for t, inst, facts in self.cases:
            ok = True
            for cond, want in facts.items():
                if bool(v.ev(cond)) != want:
                    ok = False
                    break
            if ok:
                if got is not None and v.ev(t) != got[0]:
                    raise reval.Unknown("overlapping cases")
                got = (v.ev(t), t, inst)
        if got is None:
            raise reval.Unknown("no case")
        return got

    def terms(self):
        return [t for t, _, _ in self.cases]


class PVal(reval.Val):
    def leaf(self, t):
        if t.op == "tok" and t not in self.fixed:
            raise reval.Unknown(t.args[0] if t.args else "tok")
        return super().leaf(t)


def order(a, b):
    return (a > b) - (a < b)


class Pair:
    """valuations of two keys"""

    def __init__(self, seed, maxlen=20, fixlen=None, pad=None):
        self.v = PVal(seed)
        r = self.v.rng
        n = r.choice(fixlen or (1, 1, 2, 3, 4, 7, 8, 8, 8, 9, 12, maxlen))
        m = n if r.random() < .45 else r.choice(fixlen or (1, 2, 3, 7, 8, 8, 9, 16, maxlen))
        a = [r.choice(ALPH) if r.random() < .8 else r.randrange(256) for _ in range(n)]
        b = list(a[:m])
        while len(b) < m:
            b.append(r.choice((0, 0, 1, 255, r.randrange(256))))
        for _ in range(r.choice((0, 0, 1, 1, 1, 2, 4))):
            if b:
                k = r.choice((0, len(b) - 1, r.randrange(len(b))))
                b[k] = r.choice((b[k] ^ (1 << r.randrange(8)), b[k] ^ 0x80, r.choice(ALPH), b[k] + 1 & 255, b[k]))
        if not fixlen and r.random() < .03:
            b = a + [r.randrange(256) for _ in range(r.choice((256, 255, 512)))]
        if not fixlen and r.random() < .03:
            a, b = [], b[:r.choice((0, 1, 2, len(b)))]
        if r.random() < .5:
            a, b = b, a
        self.a, self.b = bytes(a), bytes(b)
        self.np = 0

    def poke(self, addr, data):
        for k, x in enumerate(data):
            self.v.memfix[(addr + k, 0)] = x

    def place(self, data):
        """key bytes at a fresh address, followed by bytes that must not matter"""
        self.np += 1
        p = self.np << 32
        self.poke(p, data)
        return p

    def arg(self, k, w=64, ptr=True):
        return mk("arg", k, w=w, ptr=ptr)


def check_one(viol, und, cov, mod, name, shape, judge, n=2500, what="", entry=None):
    """shape(pair) -> False to skip; judge(pair) -> expected value or sign; compares with the value of the function"""
    f = mod.fns.get(name)
    if f is None or f.decl:
        und.append(f"{name}: not found")
        return
    try:
        val = Value(mod, name)
    except AnalysisError as x:
        und.append(f"{name}: {x}")
        return
    done = bad = 0
    for k in range(n):
        p = Pair(7919 * k + 11, **shape.get("gen", {}))
        if shape["set"](p) is False:
            continue
        try:
            g, t, inst = val.ev(p.v)
        except reval.Unknown as x:
            bad += 1
            if bad > 50 and not done:
                und.append(f"{name}: value not resolved ({x})")
                return
            continue
        done += 1
        if shape.get("sign"):
            s = reval.sgn(g, t.w)
            g = (s > 0) - (s < 0)
        w = judge(p)
        if g != w:
            ds = p.a.hex(" ") or "(empty)", p.b.hex(" ") or "(empty)"
            viol.append({"entry": entry or f.dem, "loc": inst.loc(), "trail": [],
                         "msg": f"{what or 'comparison'} of keys [{ds[0]}] and [{ds[1]}]{getattr(p, 'note', '')} gives "
                                f"{g}, not {w}"})
            return
    if done:
        cov["comparisons decided"] = cov.get("comparisons decided", 0) + 1
        cov["fns"].append(name)
    else:
        und.append(f"{name}: value not resolved")


def check(tier):
    n = 8000 if tier == "thorough" else 2500
    viol, und, cov = [], [], {"comparisons decided": 0, "fns": []}
    dm = pipeline.diva_module(keep=(), tag="order", entries=lambda d: d.startswith("vf_k_"))
    A = lambda k, w=64, ptr=True: mk("arg", k, w=w, ptr=ptr)

    def raw(p):
        p.v.fixed.update({A(0): p.place(p.a), A(1, 32, False): len(p.a), A(2): p.place(p.b), A(3, 32, False): len(p.b)})

    def rawp(p):
        raw(p)
        p.bits = p.v.rng.randrange(8)
        p.note = f" ignoring {p.bits} bits"
        p.v.fixed[A(4, 32, False)] = p.bits
        if not p.a:
            return False

    def prefix(p):
        a, b, m = p.a, p.b, (1 << p.bits) - 1
        return int(len(a) <= len(b) and a[:-1] == b[:len(a) - 1] and a[-1] | m == b[len(a) - 1] | m)
    N = {0: "Diva<false>", 1: "Diva<true>"}
    for var in (0, 1):
        for op, j in (("lt", lambda p: int(p.a < p.b)), ("le", lambda p: int(p.a <= p.b)), ("eq", lambda p: int(p.a == p.b))):
            check_one(viol, und, cov, dm, f"vf_k_{op}_{var}", {"set": raw}, j, n, "key comparison " + op,
                      N[var] + "::InfiniteByteString")
        check_one(viol, und, cov, dm, f"vf_k_prefix_{var}", {"set": rawp}, prefix, n, "prefix test",
                  N[var] + "::InfiniteByteString::IsPrefixOf")
    NAMES = {"kv_compare": ("kv", "kv"), "kref_compare": ("kref", "kref"), "kref_kv_compare": ("kref", "kv"),
             "kvref_kv_compare": ("kvref", "kv"), "kv_match": ("kv", "kv"), "kv_match_hash": ("kv", "kv"),
             "kref_match": ("kref", "kref"), "kref_kv_match": ("kref", "kv"), "kv_compare_ptrs": ("pkv", "pkv"),
             "wormhole_key_meta_match": ("kv", "meta"), "wormhole_kref_meta_match": ("kref", "meta"),
             "wormhole_kref1_meta_match": ("kref", "meta"), "wormhole_kref_kv_match": ("kref", "kv"),
             "wormleaf_ss_cmp": ("slot", "slot"), "compare_isp_isp": ("isp", "isp"), "compare_int_isp": ("int", "isp")}
    for var in (0, 1):
        opq = {"qsort_r", "qsort"}
        ACC = {"wormmeta_klen_load", "wormmeta_keyref_load"}
        WRAP = {"kv_compare_ptrs", "wormleaf_int_cmp", "wormhole_key_meta_match", "wormhole_kref_meta_match",
                "wormhole_kref1_meta_match", "wormhole_kref_kv_match", "wormleaf_ss_cmp"}
        m = pipeline.wh_module(var, lambda x: True, lambda x: x in set(NAMES) - WRAP, "order")
        mw = pipeline.wh_module(var, lambda x: True, lambda x: x in WRAP, "orderw")
        ma = pipeline.wh_module(var, lambda x: True, lambda x: x in ACC, "ordera")
        L = m.layout
        acc = {}
        for a in ("wormmeta_klen_load", "wormmeta_keyref_load"):
            acc[a] = Value(ma, a) if a in ma.fns and not ma.fns[a].decl else None

        def put(p, kind, k, key, h):
            """lays out key `key` as argument k; -> next argument index"""
            x = A(k)
            le = len(key).to_bytes(4, "little")
            if kind in ("kv", "pkv"):
                b = (0x1000 + k) << 32
                p.poke(b + L["kv_klen"], le)
                p.poke(b + L["kv_vlen"], b"\x0c\x00\x00\x00")
                p.poke(b + L["kv_hash"], h.to_bytes(8, "little"))
                p.poke(b + L["kv_kv"], key)
                if kind == "pkv":
                    c = (0x3000 + k) << 32
                    p.poke(c, b.to_bytes(8, "little"))
                    b = c
                p.v.fixed[x] = b
            elif kind in ("kref", "kvref"):
                b = (0x2000 + k) << 32
                q = p.place(key)
                p.v.fixed[x] = b
                p.poke(b + L[kind + ("_ptr" if kind == "kref" else "_kptr")], q.to_bytes(8, "little"))
                p.poke(b + L[kind + ("_len" if kind == "kref" else "_klen")], le)
            elif kind == "isp":
                b = (0x2000 + k) << 32
                p.v.fixed[x] = b
                p.poke(b + L["isp_key"], key.ljust(8, b"\0"))
                p.poke(b + L["isp_len"], bytes([len(key)]))
            elif kind == "int":
                p.v.fixed[A(k, 64, False)] = int.from_bytes(key.ljust(8, b"\0"), "big")
                p.v.fixed[A(k + 1, 8, False)] = len(key)
                return k + 2
            elif kind == "slot":
                # a one-byte slot number; the leaf's entry for it holds the record's packed address
                ix = (3, 200)[k] if p.v.rng.random() < .5 else (127, 5)[k]
                c, b, q = (0x3000 + k) << 32, 0x5000 << 32, (0x7701 + k) << 32
                p.v.fixed[x] = c
                p.v.fixed[A(2)] = b
                p.poke(c, bytes([ix]))
                put(p, "kv", k, key, h)
                q = p.v.fixed[x]
                p.v.fixed[x] = c
                p.poke(b + L["leaf_hs"] + ix * L["entry_size"], (q << 16 | 0x1234).to_bytes(8, "little"))
            elif kind == "meta":
                b = (0x2000 + k) << 32
                p.v.fixed[x] = b
                q = 0x7700 << 32
                p.poke(q + L["kv_klen"], le)
                p.poke(q + L["kv_kv"], key)
                ld = next((y for z in acc["wormmeta_keyref_load"].terms() for y in leaves(z) if y.op == "ld"), None)
                if ld is None:
                    raise reval.Unknown("meta layout")
                o = addr_parts(ld.args[0])[1]
                ok = False
                for wd in ((q << 16 | len(key)), q | len(key) << 48):
                    p.poke(b + o, wd.to_bytes(8, "little"))
                    vv = reval.Val(1, fixed={A(0): b})
                    vv.memfix = p.v.memfix
                    if acc["wormmeta_keyref_load"].ev(vv)[0] & M(48) == q and \
                            acc["wormmeta_klen_load"].ev(vv)[0] == len(key):
                        ok = True
                        break
                if not ok:
                    raise reval.Unknown("meta layout")
            return k + 1
        todo = dict(NAMES)
        if var:
            todo["wormleaf_int_cmp"] = ("isp", "isp")
        for name, (ka, kb) in todo.items():
            if "isp" in (ka, kb) and not var or (var and name in ("kv_compare_ptrs", "wormleaf_ss_cmp", "wormhole_kref_kv_match")):
                continue
            if "meta" in (ka, kb) and (acc["wormmeta_klen_load"] is None or acc["wormmeta_keyref_load"] is None):
                und.append(name + ": meta accessors not found")
                continue
            mm = mw if name in WRAP else m
            if name not in mm.fns or mm.fns[name].decl:
                und.append(name + ": not found")
                continue
            one = name == "wormhole_kref1_meta_match"

            def setf(p, ka=ka, kb=kb, one=one, name=name):
                h = p.v.rng.getrandbits(64)
                a = p.a
                if one:
                    if not a:
                        return False
                    a, c = a[:-1], a[-1]
                    p.v.fixed[A(2, 8, False)] = c
                k = put(p, ka, 0, a, h)
                put(p, kb, k, p.b, h if p.a == p.b else h ^ p.v.rng.choice((0, 0, 1, 1 << 40)))
            sign = "match" not in name
            shape = {"set": setf, "sign": sign}
            if "isp" in (ka, kb):
                shape["gen"] = {"fixlen": (1, 2, 3, 4, 5, 6, 7, 8, 8, 8)}
            try:
                check_one(viol, und, cov, mm, name, shape,
                          (lambda p: order(p.a, p.b)) if sign else (lambda p: int(p.a == p.b)), n,
                          "comparison" if sign else "match")
            except reval.Unknown as x:
                und.append(f"{name}: {x}")
        if var:
            sites(viol, und, cov, m)
    fns = cov.pop("fns")
    return viol, {"functions": fns, "events": cov, "undecided": und}


def sites(viol, und, cov, m0):
    """every search compares with the big-endian value of the probe's own bytes"""
    name = "compare_int_isp"
    f = pipeline.Module(pipeline.wh_bc(1)).fns.get(name)
    if f is None:
        und.append("no integer comparison to look for")
        return
    base = pipeline.Module(pipeline.wh_bc(1))
    callers = set()
    for n, g in base.fns.items():
        if g.decl:
            continue
        base.body(n)
        if any(i.op == "call" and i.callee.kind == "fn" and i.callee.v == name for b in g.blocks for i in b.insts):
            callers.add(n)
    m = pipeline.wh_module(1, lambda x: x != name and x not in callers, lambda x: x in callers, "ordersites")
    L = m.layout

    class Site(Fn1):
        def call(self, eng, st, i, callee, args):
            if callee == name:
                judge_site(viol, und, cov, eng, st, i, args, L)
                st.env[i.id] = eng.fresh(st, ("cmp", i.id), w=width(i.ty))
                return None
            return super().call(eng, st, i, callee, args)
    for n in sorted(callers):
        if n not in m.fns or m.fns[n].decl:
            continue
        e = Engine(m, m.fns[n], Site())
        e.gated = True
        try:
            e.run()
        except AnalysisError as x:
            und.append(str(x))


def judge_site(viol, und, cov, eng, st, i, args, L):
    if not eng.final:
        return
    key, ln = args[0], args[1]
    lds = [x for x in leaves(key) if x.op == "ld" and x.w == 64]
    bad = [x for x in leaves(key) if x.op == "tok"]
    src = [x for x in lds if any(y in lds and y is not x for y in leaves(x.args[0]))] or lds
    if len(src) != 1 or bad:
        und.append(f"{i.loc()}: probe value not resolved")
        return
    cov["probe sites"] = cov.get("probe sites", 0) + 1
    for k in range(400):
        p = Pair(31 * k + 5, fixlen=(1, 2, 3, 4, 5, 6, 7, 8, 8))
        v = p.v
        # lay the probe out wherever the expression loads it from
        try:
            lnl = [x for x in leaves(ln) if x.op == "ld"]
            q = p.place(p.a + bytes(v.rng.choice(ALPH) for _ in range(8)))
            for x in leaves(src[0].args[0]):
                if x.op == "ld":
                    p.poke(v.ev(x.args[0]), q.to_bytes(8, "little"))
            v.memo.clear()
            for x in lnl:
                p.poke(v.ev(x.args[0]), len(p.a).to_bytes(4, "little"))
            v.memo.clear()
            got, want = v.ev(key), int.from_bytes(p.a.ljust(8, b"\0"), "big")
            if v.ev(ln) != len(p.a):
                continue
        except reval.Unknown:
            continue
        if got != want:
            viol.append({"entry": eng.fn.dem, "loc": i.loc(), "trail": [],
                         "msg": f"searches for key [{p.a.hex(' ')}] with the value {got:#x}, not {want:#x}"})
            return
