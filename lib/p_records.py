"""Ownership of the records and keys a boundary index holds (property C15)."""
from whmodel import *
from p_grace import mentions
import pipeline

# helper (without the integer index's suffix) -> what it does with what it is given
ACQUIRE = {"wormhole_alloc_akey": "anchor", "wormhole_split_alloc_anchor": "anchor", "wormhole_alloc_mkey": "prefix key",
           "kv_create": "record"}
REMOVE = {"wormleaf_remove", "wormleaf_remove_ih", "wormleaf_remove_is", "wormleaf_update"}
STORE = {"wormleaf_insert": 1, "wormleaf_update": 2}
# stores its argument if it answers something else than null or false
TRYSTORE = {"wormhole_split_insert": -1, "whunsafe_split_insert": -1, "wormhole_split_leaf": 2, "wormleaf_alloc": 3,
            "wormhole_split_meta": 1, "whunsafe_split_meta": 1}
UNSTORE = {"wormleaf_split_undo": 3}
FREE = {"wormhole_free_akey": 0, "wormhole_free_mkey": 0, "free": 0, "wormleaf_free": 1}
LEAF = {"wormhole_split_leaf", "wormleaf_alloc"}
SHARE = {"wormmeta_split": 2, "wormmeta_alloc": 2, "wormhmap_set": 1}
KEEP = set(ACQUIRE) | REMOVE | set(STORE) | set(TRYSTORE) | set(UNSTORE) | set(FREE) | set(SHARE)
CHECKED = ["wormhole_split_insert", "whunsafe_split_insert", "wormhole_split_leaf", "wormleaf_delete_range",
           "wormhole_split_meta", "whunsafe_split_meta", "wormhole_create_leaf0", "wormleaf_split_undo"]


def norm(n):
    return n.replace("_int", "") if isinstance(n, str) else n


class Owner(WhClient):
    """key: tuple of (slot, kind, state), in-place free pending; state: own (this operation's to dispose of), stored,
    freed.  The objects are aux roots ('ob', slot)."""

    def __init__(self, mod, var, entry):
        super().__init__(mod, var)
        self.entry = norm(entry)
        L = mod.layout
        self.mm_in, self.mm_free, self.nr, self.refcnt = L["mm_in"], L["mm_free"], L["leaf_nr"], L["kv_refcnt"]

    def init(self, eng, st):
        st.key = ((), False)
        f = self.mod.fns[eng.fn.name]
        # a helper that is given a record (or leaf) to store
        k = TRYSTORE.get(self.entry)
        if k is not None and (not self.var or "meta" in self.entry):
            k = len(f.args) - 1 if k < 0 else k
            self.put(st, mk("arg", k, ptr=True), "given leaf" if "meta" in self.entry else "given record", "own")

    def put(self, st, t, kind, state):
        used = {o[0] for o in st.key[0]}
        n = 0
        while n in used:
            n += 1
        st.aux[("ob", n)] = t
        st.key = (tuple(sorted(st.key[0] + ((n, kind, state),))), st.key[1])

    def find(self, st, t):
        return next((o for o in st.key[0] if st.aux[("ob", o[0])] is t), None)

    def become(self, st, o, state):
        if state == "freed":
            # of the released objects only the last one is kept
            for x in [x for x in st.key[0] if x[2] == "freed" and x is not o]:
                self.drop(st, x)
        st.key = (tuple(sorted((x[0], x[1], state) if x is o else x for x in st.key[0])), st.key[1])

    def drop(self, st, o):
        st.aux.pop(("ob", o[0]), None)
        st.key = (tuple(x for x in st.key[0] if x is not o), st.key[1])

    def clean(self, eng, st):
        for o in st.key[0]:
            if eng.truth(st, icmp("eq", st.aux[("ob", o[0])], const(0))) is True:
                self.drop(st, o)

    def assume(self, eng, st, atom, val):
        self.clean(eng, st)

    # ---- events
    def free(self, eng, st, i, t, what):
        self.hit("release")
        if eng.truth(st, icmp("eq", t, const(0))) is True:
            return
        o = self.find(st, t)
        if o is None:
            # (an entry that was overwritten with a new record by hand no longer counts)
            if what == "mm" and not any(x[2] == "stored" and x[1] == "record" for x in st.key[0]):
                st.key = (st.key[0], True)
            return
        if o[2] == "freed":
            eng.report(i, f"a {o[1]} is released a second time", st)
        elif o[2] == "stored":
            eng.report(i, f"a {o[1]} is released while the index still holds it", st)
        elif o[2] == "shared" and eng.truth(st, icmp("eq", eng.read(st, t, self.refcnt, 4), const(0, 32))) is not True:
            eng.report(i, f"a {o[1]} is released although it may still be referenced", st)
        self.become(st, o, "freed")

    def store_it(self, eng, st, i, t):
        self.hit("hand-over")
        o = self.find(st, t)
        if o is None:
            return
        if o[2] == "stored":
            eng.report(i, f"a {o[1]} is stored twice", st)
        elif o[2] == "freed":
            eng.report(i, f"a {o[1]} is stored after it was released", st)
        self.become(st, o, "stored")

    def on_call(self, eng, st, i, callee, args):
        if isinstance(callee, T):
            off = None
            if callee.op == "ld":
                b, o, v = addr_parts(callee.args[0])
                off = o if v is None else None
            if off == self.mm_in:
                self.hit("record taken in")
                t = eng.fresh(st, ("in", i.id), ptr=True)
                st.env[i.id] = t
                self.put(st, t, "record", "own")
                return [st]
            if off == self.mm_free:
                self.free(eng, st, i, args[0], "mm")
                return [st]
            return None
        n = norm(callee)
        if n in ACQUIRE:
            self.hit("allocation")
            t = eng.fresh(st, ("al", i.id), ptr=True)
            st.env[i.id] = t
            self.put(st, t, ACQUIRE[n], "own")
            return [st]
        if n in FREE and len(args) > FREE[n]:
            self.free(eng, st, i, args[FREE[n]], n)
            return [st]
        if n in SHARE and len(args) > SHARE[n]:
            self.hit("hand-over")
            o = self.find(st, args[SHARE[n]])
            if o is not None:
                if o[2] == "freed":
                    eng.report(i, f"a {o[1]} is used after it was released", st)
                self.become(st, o, "shared")
            return None
        if n in UNSTORE and len(args) > 3:
            o = self.find(st, args[3])
            if o is not None:
                if o[2] != "stored":
                    eng.report(i, f"takes back a {o[1]} that was not stored", st)
                self.become(st, o, "own")
            o = self.find(st, args[2])
            if o is not None:
                self.become(st, o, "freed")
            self.hit("taken back")
            return None
        if n in TRYSTORE:
            self.hit("hand-over")
            k = TRYSTORE[n]
            t = args[len(args) - 1 if k < 0 else k]
            w, p = width(i.ty), i.ty.kind == "ptr"
            no = st.copy()
            no.env[i.id] = const(0) if p else const(0, w)
            if p:
                r = eng.fresh(st, ("st", i.id), ptr=True)
                eng.assume(st, icmp("eq", r, const(0)), False)
                st.env[i.id] = r
                if n in LEAF:
                    self.put(st, r, "leaf", "own")
            else:
                st.env[i.id] = const(1, w)
            self.store_it(eng, st, i, t)
            return [st, no]
        if n in STORE or n in REMOVE:
            if n in STORE and len(args) > STORE[n]:
                self.store_it(eng, st, i, args[STORE[n]])
            if n in REMOVE:
                self.hit("record removed")
                r = eng.fresh(st, ("rm", i.id), ptr=True)
                eng.assume(st, icmp("eq", r, const(0)), False)
                st.env[i.id] = r
                if self.entry != "wormleaf_split_undo" and not self.var:
                    self.put(st, r, "removed record", "own")
            return [st]
        if isinstance(callee, str) and ENTRY.match(callee) and callee.endswith("_put") and len(args) == 2:
            o = self.find(st, args[1])
            self.hit("hand-over")
            if o is not None and self.var == 0:
                # with the wrappers' memory management the index takes the record over, stored or not
                self.store_it(eng, st, i, args[1])
            return None
        if isinstance(callee, str) and callee.startswith("slab_free"):
            st.key = (st.key[0], False)
        for a in args:
            self.used(eng, st, i, a)
            self.packed(st, a)
        f = self.mod.fns.get(callee) if isinstance(callee, str) else None
        if f is not None and not f.decl and not self.var:
            wr = summary_of(self.mod, callee).writes
            for k, a in enumerate(args):
                o = self.find(st, a)
                if o is not None and o[2] == "own" and o[1].endswith("record") and wr:
                    self.become(st, o, "maybe")        # a helper that puts it into a leaf
        return None

    def packed(self, st, t):
        """a record's address inside an index entry"""
        if t.ptr or self.var or isc(t) or t.op in ("arg", "tok", "ld"):
            return
        for o in st.key[0]:
            if o[2] == "own" and o[1].endswith("record") and mentions(t, [st.aux[("ob", o[0])]]):
                self.become(st, o, "stored")

    def used(self, eng, st, i, t):
        o = self.find(st, addr_parts(t)[0]) if t.ptr or t.op == "lin" else None
        if o is not None and o[2] == "freed":
            eng.report(i, f"a {o[1]} is used after it was released", st)

    def load(self, eng, st, i, base, off, var, size):
        self.used(eng, st, i, base)

    def store(self, eng, st, i, base, off, var, size, val):
        self.used(eng, st, i, base)
        if val is not None:
            self.packed(st, val)
        if val is not None and size is not None and off <= self.nr < off + size and isc(val) and cv(val) == 0:
            st.key = (st.key[0], False)
        if val is not None and base.op != "alloca":
            o = self.find(st, val)
            if o is not None and o[1] in ("leaf", "anchor") and o[2] == "own":
                self.become(st, o, "stored")

    def ret(self, eng, st, inst, val):
        self.hit("exit")
        self.clean(eng, st)
        for s, kind, state in st.key[0]:
            t = st.aux[("ob", s)]
            if val is not None and val is t:
                continue
            if kind.startswith("given"):
                z = eng.truth(st, icmp("eq", val, const(0, val.w) if not val.ptr else const(0)))
                if state == "freed":
                    eng.report(inst, f"releases the {kind[6:]} its caller still owns", st)
                elif z is True and state == "stored":
                    eng.report(inst, f"reports failure but leaves the {kind[6:]} stored", st)
                elif z is False and state not in ("stored", "maybe") and kind == "given record":
                    eng.report(inst, f"reports success without storing the {kind[6:]}", st)
                continue
            z = None
            if kind == "prefix key" and state in ("own", "shared"):
                z = eng.truth(st, icmp("eq", eng.read(st, t, self.refcnt, 4), const(0, 32)))
                if self.entry == "wormhole_create_leaf0" and \
                        eng.truth(st, icmp("eq", val, const(0, val.w))) is not True:
                    z = False           # at least one version of the map exists and takes it
            if z is False:
                continue
            if state == "own":
                eng.report(inst, f"a {kind} is neither stored, returned nor released", st)
            elif state == "shared":
                eng.report(inst, f"a {kind} nothing refers to is not released", st)
        if st.key[1]:
            eng.report(inst, "records are released in place but the leaf still counts them", st)


def check(tier):
    viol, cov, tot = [], {"functions": []}, {}
    for var in VARIANTS:
        m, lib, info = raw(var)
        keep = {n for n in info if norm(n) in KEEP}
        chk = {n for n in info if norm(n) in CHECKED}
        wr = {n for n in info if re.match(r"^wh_(int_)?put$", n)}
        mod = module(var, lambda n: norm(n) in KEEP, "records", keep - chk, chk | wr)
        names = [n for n in mod.entries_ if mod.events_.get(n)]
        names += [n for n in sorted(chk | wr) if n not in names and n in mod.fns]
        run_all(mod, var, names, Owner, viol, cov, tot)
    cov["events"] = tot
    return viol, cov
