"""Lock typestate of the concurrent boundary indexes (property C12)."""
from whmodel import *
import pipeline

ACQ = {"lock_read": "r", "lock_write": "w", "lock_write_hp": "w", "lock": "x"}
REL = {"unlock_read": "r", "unlock_write": "w", "unlock": "x"}
TRY = re.compile(r"^trylock(_read|_write|)(_.*)?$")
NAME = {"r": "read", "w": "write", "x": "exclusive"}


def classify(name):
    """-> (kind, action, mode) of a lock primitive of the support library, or None"""
    m = LOCK.match(name) if isinstance(name, str) else None
    if not m:
        return None
    kind, op = m.groups()
    if op in ACQ:
        return kind, "acq", ACQ[op]
    if op in REL:
        return kind, "rel", REL[op]
    if op == "write_to_read":
        return kind, "down", "r"
    if op in ("init", "deinit"):
        return kind, "init", ""
    t = TRY.match(op)
    if t:
        return kind, "try", {"_read": "r", "_write": "w", "": "x"}[t.group(1)]
    return kind, "other", ""


class LockClient(WhClient):
    """key: (held, gone): held = sorted (slot, kind, offset, mode, conditional); the locked object of a slot is kept as
    aux root ('lk', slot); gone = released slots (oldest first), kept to recognise a second release of the same lock"""

    def __init__(self, mod, var, entry):
        super().__init__(mod, var)
        self.entry = entry
        self.unsafe = entry.startswith("whunsafe")
        self.iter = "_iter_" in entry and not entry.endswith("_create")
        self.off = mod.layout["iter_leaf"]
        self.lv = mod.layout["leaf_lv"]
        self.lock_off = mod.layout["leaf_lock"]

    def init(self, eng, st):
        st.key = ((), (), "")
        if self.iter and not self.unsafe:
            it = mk("arg", 0, ptr=True)
            leaf = tok("leaf0", ptr=True)
            eng.write(st, it, self.off, 8, leaf)
            st.key = (((0, "rwlock", self.lock_off, "r", True),), (), "?")
            st.aux[("lk", 0)] = leaf

    def put(self, eng, st, kind, base, off, mode):
        held, gone, il = st.key
        used = {h[0] for h in held}
        n = 0
        while n in used:
            n += 1
        # an object that is locked again is no longer one whose lock was released
        self.regone(st, [(g, st.aux[("lk", g[0])]) for g in gone
                         if ("lk", g[0]) in st.aux and st.aux[("lk", g[0])] is not base])
        st.aux[("lk", n)] = base
        st.key = (tuple(sorted(held + ((n, kind, off, mode, False),))), st.key[1], il)

    def regone(self, st, gs):
        """replaces the list of released locks (oldest first)"""
        for g in st.key[1]:
            st.aux.pop(("lk", g[0]), None)
        gs = gs[-2:]
        for k, (g, b) in enumerate(gs):
            st.aux[("lk", 100 + k)] = b
        st.key = (st.key[0], tuple((100 + k,) + g[1:] for k, (g, b) in enumerate(gs)), st.key[2])

    def norm(self, eng, st):
        """drop conditional locks whose object is known to be absent; classify where the iterator stands"""
        held, gone, il = st.key
        keep = tuple(h for h in held if not (h[4] and eng.truth(st, icmp("eq", st.aux[("lk", h[0])], const(0))) is True))
        if len(keep) != len(held):
            for h in held:
                if h not in keep:
                    st.aux.pop(("lk", h[0]), None)
        if self.iter and not self.unsafe:
            leaf = eng.read(st, mk("arg", 0, ptr=True), self.off, 8, True)
            il = self.stands(eng, st, leaf, keep)
        st.key = (keep, gone, il)

    def stands(self, eng, st, leaf, held):
        if eng.truth(st, icmp("eq", leaf, const(0))) is True:
            return "null"
        return next((str(h[0]) for h in held if st.aux[("lk", h[0])] is leaf), "?")

    def assume(self, eng, st, atom, val):
        self.norm(eng, st)
        if any(not h[4] and eng.truth(st, icmp("eq", st.aux[("lk", h[0])], const(0))) is True for h in st.key[0]):
            return False            # a locked object exists

    def drop(self, st, h, remember=True):
        held, gone, il = st.key
        b = st.aux.pop(("lk", h[0]), None)
        st.key = (tuple(x for x in held if x is not h), gone, il)
        if remember and b is not None and h[1] == "rwlock":
            self.regone(st, [(g, st.aux[("lk", g[0])]) for g in gone if ("lk", g[0]) in st.aux] + [((0,) + h[1:4], b)])

    def on_call(self, eng, st, i, callee, args):
        if isinstance(callee, str) and callee.startswith(("slab_free_safe", "slab_free_unsafe")):
            b, o, v = addr_parts(args[-1])
            for h in list(st.key[0]):
                if st.aux.get(("lk", h[0])) is b:
                    eng.report(i, f"an object is freed while its {NAME[h[3]]} lock is held: the lock is never released", st)
                    self.drop(st, h, False)
            return None
        c = classify(callee)
        if c is None:
            f = self.mod.fns.get(callee) if isinstance(callee, str) else None
            if f is not None and not f.decl:
                wr = {w[1] for w in summary_of(self.mod, callee).writes if w[0] == "direct"}
                for k, a in enumerate(args):
                    if k in wr and (a.ptr or a.op == "lin"):
                        self.changed(eng, st, i, addr_parts(a)[0], callee)
            elif callee == "qsort_r":
                self.changed(eng, st, i, addr_parts(args[0])[0], "a sort")
            return None
        kind, act, mode = c
        b, o, v = addr_parts(args[0])
        if v is not None:
            b, o = args[0], 0
        if act == "init":
            return None
        if act == "acq":
            self.hit("acquisition")
            self.again(eng, st, i, kind, b, o)
            if self.too_many(eng, st, i):
                return []
            self.put(eng, st, kind, b, o, mode)
            return [st]
        if act == "try":
            self.hit("acquisition")
            n = st.copy()
            n.env[i.id] = const(0, width(i.ty))
            if self.too_many(eng, st, i):
                return [n]
            st.env[i.id] = const(1, width(i.ty))
            self.put(eng, st, kind, b, o, mode)
            return [st, n]
        if act in ("rel", "down"):
            self.hit("release")
            self.release(eng, st, i, kind, b, o, "w" if act == "down" else mode)
            if act == "down":
                self.put(eng, st, kind, b, o, "r")
            return [st]
        return None

    def too_many(self, eng, st, i):
        if len(st.key[0]) < 8:
            return False
        eng.report(i, "takes lock after lock without releasing the earlier ones", st)
        return True

    def again(self, eng, st, i, kind, b, o):
        for h in st.key[0]:
            if h[1] == kind and h[2] == o and st.aux.get(("lk", h[0])) is b and (h[3] != "r"):
                eng.report(i, f"waits for a lock this operation already holds ({NAME[h[3]]})", st)

    def release(self, eng, st, i, kind, b, o, mode):
        self.norm(eng, st)
        held, gone, il = st.key
        exact = [h for h in held if h[1] == kind and h[2] == o and st.aux.get(("lk", h[0])) is b]
        if exact:
            ok = [h for h in exact if h[3] == mode]
            if not ok:
                eng.report(i, f"a lock held for {NAME[exact[0][3]]} is released for {NAME[mode]}", st)
                self.drop(st, exact[0])
                return
            self.drop(st, ok[0])
            return
        if any(g[1] == kind and g[2] == o and st.aux.get(("lk", g[0])) is b for g in gone):
            eng.report(i, "a lock is released a second time", st)
            return
        cand = [h for h in held if h[1] == kind and h[2] == o and h[3] == mode]
        if not cand:
            other = [h for h in held if h[1] == kind and h[2] == o]
            if other:
                eng.report(i, f"a lock held for {NAME[other[0][3]]} is released for {NAME[mode]}", st)
                self.drop(st, other[0])
            else:
                eng.report(i, f"a {NAME[mode]} lock is released that this operation does not hold", st)
            return
        # same kind of lock under another name for its object: count it
        self.drop(st, cand[0], False)

    def state_of(self, st, base):
        """-> how this operation holds the leaf `base`: 'w', 'x' (read lock and sort lock), 'r', 'gone' or None"""
        held, gone, il = st.key
        ms = {h[1:4] for h in held if st.aux.get(("lk", h[0])) is base}
        leaf = {m[2] for m in ms if m[0] == "rwlock" and m[1] == self.lock_off}
        if "w" in leaf:
            return "w"
        if leaf:
            return "x" if any(m[2] == "x" for m in ms) else "r"
        if any(g[1] == "rwlock" and g[2] == self.lock_off and st.aux.get(("lk", g[0])) is base for g in gone):
            return "gone"
        return None

    def changed(self, eng, st, i, base, what):
        if self.unsafe:
            return
        s = self.state_of(st, base)
        if s is not None:
            self.hit("leaf change")
        if s == "r":
            eng.report(i, f"{what} changes a leaf that is locked for reading only", st)
        elif s == "gone" and not self.meta_held(st):
            eng.report(i, f"{what} changes a leaf after its lock was released", st)

    def meta_held(self, st):
        return any(h[1] == "rwlock" and h[2] == self.mod.layout["map_meta"] and h[3] == "w" for h in st.key[0])

    def load(self, eng, st, i, base, off, var, size):
        if self.unsafe or off == self.lv and var is None:
            return
        s = self.state_of(st, base)
        if s is not None:
            self.hit("leaf read")
        if s == "gone" and not self.meta_held(st):
            eng.report(i, "reads a leaf after its lock was released", st)

    def store(self, eng, st, i, base, off, var, size, val):
        if var is None and size is not None:
            for h in list(st.key[0]):
                if st.aux.get(("lk", h[0])) is base and off <= h[2] < off + size and not self.iter:
                    # the lock word itself is reset: only done to an object nobody else can see
                    self.drop(st, h, False)
        self.changed(eng, st, i, base, "a store")
        if self.iter and not self.unsafe and base is mk("arg", 0, ptr=True) and off == self.off and var is None and size == 8:
            st.key = st.key[:2] + (self.stands(eng, st, val, st.key[0]),)

    def ret(self, eng, st, inst, val):
        self.hit("exit")
        self.norm(eng, st)
        held = list(st.key[0])
        if self.iter and not self.unsafe:
            freed = self.entry.endswith("_iter_destroy")
            leaf = const(0) if freed else eng.read(st, mk("arg", 0, ptr=True), self.off, 8, True)
            z = eng.truth(st, icmp("eq", leaf, const(0)))
            mine = [h for h in held if h[1] == "rwlock" and h[2] == self.lock_off and h[3] == "r"]
            if z is True:
                pass
            elif len(mine) == 0:
                eng.report(inst, "the iterator is left standing on a leaf whose lock is no longer held", st)
                return
            else:
                ex = [h for h in mine if st.aux.get(("lk", h[0])) is leaf]
                h = (ex or mine)[0]
                held.remove(h)
        if held:
            eng.report(inst, f"returns while still holding a {NAME[held[0][3]]} lock", st)


def check(tier):
    viol, cov, tot = [], {"functions": []}, {}
    for var in VARIANTS:
        mod = module(var, lambda n: bool(LOCK.match(n)) and not n.endswith("_init"), "locks")
        run_all(mod, var, [n for n in mod.entries_ if mod.events_.get(n)], LockClient, viol, cov, tot)
    cov["events"] = tot
    return viol, cov
