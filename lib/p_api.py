"""The index API: its operation tables, the wrappers built on them and the activity protocol of the thread-safe flavour
(property C14)."""
from whmodel import *
from p_wlocks import classify
from irlib import GetOp, NumOps, OffElem, TypeOf, GetInit, ZExt, vname, IsDecl
import pipeline
import reval

# slot: number of parameters, answers something, must reach / must not reach a leaf write lock (thread-safe tables)
SLOTS = {"put": (2, 1, "w"), "get": (3, 1, "r"), "probe": (2, 1, "r"), "del": (2, 1, "w"), "inpr": (4, 1, "r"),
         "inpw": (4, 1, "w"), "merge": (4, 1, "w"), "delr": (3, 1, "w"), "iter_create": (1, 1, "n"),
         "iter_seek": (2, 0, "r"), "iter_valid": (1, 1, "n"), "iter_peek": (2, 1, "n"), "iter_kref": (2, 1, "n"),
         "iter_kvref": (2, 1, "n"), "iter_skip1": (1, 0, "r"), "iter_skip": (2, 0, "r"), "iter_skip1_rev": (1, 0, "r"),
         "iter_next": (2, 1, "r"), "iter_inp": (3, 1, "n"), "iter_park": (1, 0, "n"), "iter_destroy": (1, 0, "n"),
         "ref": (1, 1, "n"), "unref": (1, 1, "n"), "park": (1, 0, "n"), "resume": (1, 0, "n"), "clean": (1, 0, ""),
         "destroy": (1, 0, ""), "fprint": (2, 0, "n")}
WRLOCK = re.compile(r"^rwlock_(try)?lock_write")
RDLOCK = re.compile(r"^rwlock_(try)?lock_read")
# which slots may back a wrapper of another name
ALSO = {"get": ("get", "inpr"), "iter_peek": ("iter_peek", "iter_inp", "iter_kvref"), "probe": ("probe", "inpr", "get")}
BRACKET = ("put", "get", "probe", "del", "inpr", "inpw", "merge", "delr")


def tables(mod):
    """-> {table name: ({slot: function name or None}, {flag: value})}"""
    r = {}
    L = mod.layout
    for n, g in mod.globs.items():
        if not n.startswith("kvmap_api_") or IsDecl(g):
            continue
        c = GetInit(g)
        ty = TypeOf(c)
        at = {}
        for k in range(NumOps(c)):
            at[OffElem(mod.td, ty, k)] = GetOp(c, k)
        slots = {s: vname(at[L["slot_" + s]]) or None for s in SLOTS if L["slot_" + s] in at}
        if len(slots) != len(SLOTS):
            continue
        r[n] = (slots, {f: ZExt(at[L["flag_" + f]]) for f in ("hashkey", "ordered", "threadsafe", "unique", "refpark")})
    return r


def reach(m, n, memo):
    if n in memo:
        return memo[n]
    seen, st = set(), [n]
    while st:
        x = st.pop()
        f = m.fns.get(x)
        if f is None or f.decl:
            continue
        for b in m.body(x).blocks:
            for i in b.insts:
                if i.op in ("call", "invoke") and not i.dbg and i.callee.kind == "fn" and i.callee.v not in seen:
                    seen.add(i.callee.v)
                    st.append(i.callee.v)
    memo[n] = seen
    return seen


def is_stub(info, n):
    """does nothing but announce its caller"""
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x.startswith("qsbr_"):
            continue
        if x not in info or info[x][1]:
            return False
        if x not in seen:
            seen.add(x)
            st += info[x][0]
    return True


def answers(fn):
    return any(i.op == "ret" and i.ops for b in fn.blocks for i in b.insts)


class Active(WhClient):
    """key: caller announced as active, and whether it ever was (an operation may announce its caller as inactive while it
    waits for a lock it came upon while active)"""

    def __init__(self, mod, var, entry, slot):
        super().__init__(mod, var)
        self.entry, self.slot = entry, slot
        self.hptr = mod.layout["map_hmap"]
        self.it = slot.startswith("iter_")

    def init(self, eng, st):
        # between seek and park an iterator's caller is active
        a = self.slot in ("iter_park", "iter_destroy")
        st.key = (a, a)

    def on_call(self, eng, st, i, callee, args):
        if not isinstance(callee, str):
            return None
        if callee == "qsbr_resume":
            self.hit("announced active")
            st.key = (True, True)
        elif callee in ("qsbr_park", "qsbr_unregister"):
            self.hit("announced inactive")
            st.key = (False, st.key[1])
        elif callee == "qsbr_register":
            n = st.copy()
            n.env[i.id] = const(0, width(i.ty))
            st.env[i.id] = const(1, width(i.ty))
            st.key = (True, True)
            return [st, n]
        else:
            c = classify(callee)
            if c and c[1] in ("acq", "try") and not st.key[1]:
                eng.report(i, "takes a lock of the index before the caller is announced as active", st)
        return None

    def load(self, eng, st, i, base, off, var, size):
        if off == self.hptr and var is None and self.is_map(base):
            self.hit("shared access")
            if not st.key[0]:
                eng.report(i, "reads the shared lookup table while the caller is announced as inactive", st)

    def is_map(self, base):
        # the map is reached through the caller's reference or iterator
        return base.op == "ld"

    def ret(self, eng, st, inst, val):
        self.hit("exit")
        act = st.key[0]
        if self.slot == "iter_seek":
            if not act:
                eng.report(inst, "leaves the caller announced as inactive while its iterator stands on a leaf", st)
            return
        if act:
            eng.report(inst, "returns with the caller still announced as active", st)


def inst_at(f):
    return next((i for b in f.blocks for i in b.insts if i.line), f.blocks[0].insts[0])


def is_arg(t, n):
    return t.op == "arg" and t.args[0] == n


class Wrapper(WhClient):
    """key: number of table operations performed"""

    def __init__(self, mod, var, name, op, slots, viol):
        super().__init__(mod, var)
        self.name, self.op, self.slots = name, op, slots
        self.byfn = {}
        for s, f in slots.items():
            if f:
                self.byfn.setdefault(f, []).append(s)

    def init(self, eng, st):
        st.key = (0,)

    def on_call(self, eng, st, i, callee, args):
        if callee == "kv_create":
            t = tok("newkv", ptr=True)
            st.env[i.id] = t
            st.aux[("kv", 0)] = t
            for k in range(4):
                if not is_arg(args[k], k + 1):
                    eng.report(i, f"builds the record from other than the caller's key and value (argument {k})", st)
            return [st]
        if callee == "kv_crc32c":
            t = eng.fresh(st, ("h", i.id), w=width(i.ty))
            st.env[i.id] = t
            st.aux[("h", 0, i.id)] = t
            st.aux[("h", 1, i.id)] = args[0]
            st.aux[("h", 2, i.id)] = args[1]
            return [st]
        if callee in self.byfn:
            self.hit("table operation")
            want = ALSO.get(self.op, (self.op,))
            if not set(want) & set(self.byfn[callee]):
                eng.report(i, f"performs the table's {self.byfn[callee][0]} instead of {self.op}", st)
                return None
            if st.key[0]:
                eng.report(i, "performs the operation twice", st)
            st.key = (st.key[0] + 1,)
            self.args(eng, st, i, [s for s in want if s in self.byfn[callee]][0], args)
            if i.ty.kind != "void":
                t = eng.fresh(st, ("res", i.id), w=width(i.ty), ptr=i.ty.kind == "ptr")
                st.env[i.id] = t
                st.aux[("res", 0)] = t
                return [st]
        return None

    def differ(self, a, b):
        return a is not b and bool(reval.differs([(a, b)], {}, n=60)[0])

    def args(self, eng, st, i, slot, args):
        L = self.mod.layout
        if not is_arg(args[0], 0):
            eng.report(i, "performs the operation on something other than the given reference", st)
        nk = {"put": 0, "get": 1, "probe": 1, "del": 1, "inpr": 1, "inpw": 1, "merge": 1, "delr": 2, "iter_seek": 1}.get(slot, 0)
        if slot == "put" and st.aux.get(("kv", 0)) is not None and args[1] is not st.aux[("kv", 0)]:
            eng.report(i, "stores something other than the record it built", st)
        for k in range(nk):
            self.hit("key")
            b, o, v = addr_parts(args[1 + k])
            if v is not None:
                continue
            p = eng.read(st, b, o + L["kref_ptr"], 8, True)
            n = eng.read(st, b, o + L["kref_len"], 4)
            h = eng.read(st, b, o + L["kref_hash"], 4)
            ap, an = mk("arg", 1 + 2 * k, ptr=True), mk("arg", 2 + 2 * k, w=32)
            if self.differ(p, ap) or self.differ(n, an):
                eng.report(i, f"key {k + 1} of the operation is not the caller's key", st)
            hs = [x[2] for x in st.aux if x[0] == "h" and x[1] == 0 and not self.differ(st.aux[x], h)]
            if not hs:
                eng.report(i, f"key {k + 1} is passed without its hash, which this index requires", st)
            elif not any(not self.differ(st.aux[("h", 1, x)], ap) and not self.differ(st.aux[("h", 2, x)], an) for x in hs):
                eng.report(i, f"key {k + 1} is passed with another key's hash", st)
        if slot == self.op:
            for k in range(1 + nk, len(args)):
                if slot != "put" and not is_arg(args[k], k + nk):
                    eng.report(i, f"argument {k} of the operation is not the caller's", st)

    def ret(self, eng, st, inst, val):
        self.hit("exit")
        if st.key[0] == 0:
            # without the operation only a failure may be reported
            if self.op in ("park", "resume"):
                return
            kv = st.aux.get(("kv", 0))
            if kv is not None and eng.truth(st, icmp("eq", kv, const(0))) is True:
                return
            eng.report(inst, f"returns without performing {self.op}", st)
        elif val is not None and self.op in BRACKET + ("ref", "iter_create", "iter_valid"):
            r = st.aux.get(("res", 0))
            from p_grace import mentions
            if r is not None and not mentions(val, [r]):
                eng.report(inst, "does not return the operation's answer", st)


def check(tier):
    viol, cov, tot = [], {"functions": [], "tables": {}}, {}

    def hit(k, n=1):
        tot[k] = tot.get(k, 0) + n

    def bad(entry, f, msg):
        i = inst_at(f) if f is not None and not f.decl else None
        viol.append({"entry": entry, "loc": i.loc() if i is not None else "wh_int.c" if var else "wh.c", "msg": msg, "trail": []})

    for var in VARIANTS:
        m, lib, info = raw(var)
        memo = {}
        mod = module(var, lambda n: bool(LOCK.match(n)) or n.startswith("qsbr_"), "active")
        tb = tables(mod)
        pfx = "wh_int_" if var else "wh_"
        safe_fns = {}
        for t, (slots, flags) in sorted(tb.items()):
            cov["tables"][t] = {s: f for s, f in slots.items() if f}
            own = {f for f in slots.values() if f}
            if not any(f in info for f in own):
                continue
            if bool(flags["refpark"]) != bool(slots["park"] and slots["resume"]):
                bad(t, None, "the table says otherwise than it offers about park and resume")
            safe = flags["threadsafe"] and not flags["refpark"]
            for s, f in sorted(slots.items()):
                if not f:
                    continue
                hit("slot")
                na, ans, mode = SLOTS[s]
                fn = m.body(f)
                if fn is None or fn.decl:
                    bad(t, None, f"slot {s} names a function that is not defined")
                    continue
                if len(fn.args) != na or answers(fn) != bool(ans):
                    bad(t, fn, f"slot {s} is backed by {f}, which does not take the slot's arguments")
                    continue
                re_ = reach(m, f, memo)
                wr = any(WRLOCK.match(x) for x in re_)
                rd = any(RDLOCK.match(x) for x in re_)
                stub = is_stub(info, f)
                if flags["threadsafe"] and not stub:
                    if mode == "w" and not wr:
                        bad(t, fn, f"slot {s} is backed by {f}, which never locks a leaf for writing")
                    if mode in ("r", "n") and wr:
                        bad(t, fn, f"slot {s} is backed by {f}, which locks leaves for writing")
                    if mode == "r" and not rd:
                        bad(t, fn, f"slot {s} is backed by {f}, which never locks a leaf")
                    if mode == "n" and rd:
                        bad(t, fn, f"slot {s} is backed by {f}, which locks leaves")
                if s == "park" and "qsbr_park" not in re_ or s == "resume" and "qsbr_resume" not in re_:
                    bad(t, fn, f"slot {s} is backed by {f}, which does not {s} the reference")
                if s == "ref" and "qsbr_register" not in re_ or s == "unref" and "qsbr_unregister" not in re_:
                    bad(t, fn, f"slot {s} is backed by {f}, which does not do what the slot is for")
                if safe and s in BRACKET + ("iter_seek", "iter_park", "iter_destroy", "ref") and not stub:
                    safe_fns.setdefault(f, s)
            # two slots that mean different things are not backed by the same function
            seen = {}
            for s, f in sorted(slots.items()):
                if f and f in seen and {s, seen[f]} != {"inpr", "inpw"}:
                    bad(t, m.body(f), f"slots {seen[f]} and {s} are both backed by {f}")
                seen[f] = s
        run_all(mod, var, sorted(f for f in safe_fns if f in mod.fns), lambda md, v, n: Active(md, v, n, safe_fns[n]),
                viol, cov, tot)
        # wrappers
        wm = pipeline.wh_module(var, lambda n: n.startswith("kref_") or n in info and not ENTRY.match(n), lambda n: n.startswith(pfx) or ENTRY.match(n) is not None,
                                "wrap")
        ops = []
        for n in sorted(wm.fns):
            op = n[len(pfx):] if n.startswith(pfx) and n in info and not ENTRY.match(n) else None
            if op in SLOTS and pipeline.is_external(m, n):
                ops.append((n, op))
        g = wrapper_table(var, wm, tb, ops)
        if g is None:
            cov["functions"].append({"function": pfx + "*", "undecided": "no table fits the wrappers"})
            continue
        slots, flags = tb[g]
        names = []
        for n, op in ops:
            hit("wrapper")
            if dead(wm, n):
                bad(n, m.body(n), f"performs an operation that the table behind it ({g}) does not provide")
                continue
            names.append((n, op))
        d = dict(names)
        run_all(wm, var, [n for n, _ in names], lambda md, v, n: Wrapper(md, v, n, d[n], slots, None), viol, cov, tot)
    cov["events"] = tot
    return viol, cov


def dead(mod, n):
    """the compiler proved that the function calls a null pointer"""
    return any(b.insts[-1].op == "unreachable" for b in mod.body(n).blocks)


def wrapper_table(var, wm, tb, ops):
    """the table behind the wrappers: the one most of them agree with"""
    best = {}
    for n, op in ops:
        cs = {i.callee.v for b in wm.body(n).blocks for i in b.insts
              if i.op in ("call", "invoke") and not i.dbg and i.callee.kind == "fn"}
        for t, (slots, flags) in tb.items():
            if any(slots.get(x) in cs for x in ALSO.get(op, (op,))):
                best[t] = best.get(t, 0) + 1
    return max(sorted(best), key=lambda t: best[t]) if best else None
