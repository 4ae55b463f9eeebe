"""Ownership typestate of heap buffers (property C04).

key items: ("own", site)            the buffer allocated at `site` is owned by the running operation
           ("handed", site, where)  it has been given to the index or to a field of the filter
           ("freed", site)          the value in aux ("freed", site) has been freed at `site`
           ("dang", site, off)      the location in aux ("dang", site) still holds a freed pointer
           ("orph", site)           the value in aux ("orph", site) has lost its owner and must be freed
           ("gone",)                the index has been destroyed
"""
from p_entries import *


def strip(t):
    while t.op == "asptr":
        t = t.args[0]
    return t


class BufClient(PosClient):
    fields = None           # owned fields of the filter: [(offset, stride or None)]

    def __init__(self, mod, var, kind, fields=None):
        super().__init__(mod, var)
        self.kind = kind
        self.fields = fields
        self.found = set()

    def has(self, st, it):
        return it in st.key

    def add(self, st, it):
        st.key = st.key | {it}

    def drop(self, st, it):
        st.key = st.key - {it}

    # ---------------------------------------------------------------- lookups
    def null(self, eng, st, v):
        return isc(v) and cv(v) == 0 or eng.truth(st, icmp("eq", v, const(0))) is True

    def site_of(self, st, v):
        for x in st.key:
            if x[0] in ("own", "handed") and st.aux.get(("buf", x[1])) is v:
                return x
        return None

    def is_freed(self, st, v):
        for x in st.key:
            if x[0] == "freed" and st.aux.get(("freed", x[1])) is v:
                return x
        return None

    def this_field(self, base, off, var):
        """location inside the filter object that owns a buffer?"""
        if base.op != "arg" or base.args[0] != 0:
            return False
        if self.fields is None:
            return True
        for o, stride in self.fields:
            if stride is None and var is None and o == off:
                return True
            if stride is not None and (off - o) % stride == 0:
                if var is None:
                    if 0 <= off - o < stride * 4096:
                        return True
                else:
                    c, d = lin_parts(var)
                    if all(k % stride == 0 for k in d.values()):
                        return True
        return False

    def rec_loc(self, st, base, off, var):
        if var is not None or off != self.ptr_off:
            return False
        return any(x[0] == "pk" and st.aux.get(("rec", x[1])) is base for x in st.key)

    # ---------------------------------------------------------------- events
    def on_new(self, eng, st, i, t, args):
        if ("own", i.id) in st.key:
            # the previous buffer of this site is still owned and now unreachable
            old = st.aux.get(("buf", i.id))
            if old is not None and not self.null(eng, st, old):
                eng.report(i, "allocates again while the buffer allocated here before is neither freed nor stored: leak", st)
        st.key = frozenset(x for x in st.key if not (x[0] in ("own", "handed") and x[1] == i.id)) | {("own", i.id)}
        st.aux[("buf", i.id)] = t
        return None

    def release_orphan(self, st, v):
        for x in list(st.key):
            if x[0] == "orph" and st.aux.get(("orph", x[1])) is v:
                self.drop(st, x)
                st.aux.pop(("orph", x[1]), None)
                return True
        return False

    def run_time_choice(self, v):
        if v.op == "ld":
            b, o, var = addr_parts(v.args[0])
            return b.op in ("alloca", "heap") or b.op == "tok" and bool(b.args) and b.args[0] in ("new", "j", "vla")
        if v.op == "select":
            return True
        return v.op == "tok" and bool(v.args) and v.args[0] in ("j", "mix", "ldm", "old", "clb")

    def on_del(self, eng, st, i, p):
        if self.null(eng, st, p):
            return None
        v = strip(p)
        p = v
        if self.is_freed(st, p):
            eng.report(i, "frees a buffer that has been freed already", st)
            return None
        b, o, var = addr_parts(p)
        if b.op in ("alloca", "glob"):
            eng.report(i, "frees memory that was not allocated", st)
            return None
        s = self.site_of(st, p)
        loc = None
        if s is not None and s[0] == "own":
            self.drop(st, s)
        elif s is not None:
            if s[2] == "index":
                eng.report(i, "frees a buffer that the boundary index refers to", st)
            loc = st.aux.get(("home", s[1]))
            self.drop(st, s)
        elif self.release_orphan(st, p):
            self.hit("orphan freed")
        elif self.run_time_choice(v):
            # one of several buffers, chosen at run time (a local collection, a conditional pointer): which ones are
            # freed in the end is not known here
            self.add(st, ("vague",))
            self.hit("freed through a local collection")
            return None
        elif v.op == "ld":
            loc = v.args[0]
        if loc is not None:
            lb, lo, lv = addr_parts(loc)
            if lb.op == "arg" and lb.args[0] == 0:
                st_ = None
                if lv is not None:
                    ks = [k if k < 1 << 63 else (1 << 64) - k for k in lin_parts(lv)[1].values()]
                    st_ = min(ks)
                if st_ is None or st_ >= 8:
                    self.found.add((lo, st_))
            cur = eng.read(st, lb, lo, 8, True) if lv is None else None
            if lv is not None or strip(cur) is p or strip(cur).op == "tok":
                self.add(st, ("dang", i.id, 0))
                st.aux[("dang", i.id)] = loc
        if self.kind == "dtor":
            self.walk_done(eng, st, p)
        self.add(st, ("freed", i.id))
        st.aux[("freed", i.id)] = p
        self.hit("released")
        return None

    def deref(self, eng, st, i, base, what):
        if base.op in ("ld", "tok", "asptr") and self.is_freed(st, strip(base)):
            eng.report(i, f"{what} a buffer after it was freed", st)

    def load(self, eng, st, inst, base, off, var, size):
        self.deref(eng, st, inst, base, "reads")

    def take_over(self, eng, st, i, v, where, loc=None):
        """the filter now refers to v"""
        v = strip(v)
        if isc(v):
            return
        if self.is_freed(st, v):
            eng.report(i, f"stores a freed buffer into the {where}", st)
            return
        s = self.site_of(st, v)
        if s is None:
            self.release_orphan(st, v)
            return
        if s[0] == "handed":
            eng.report(i, f"stores a buffer into the {where} although it already has an owner there", st)
            return
        self.drop(st, s)
        self.add(st, ("handed", s[1], where))
        if loc is not None:
            st.aux[("home", s[1])] = loc
        self.hit("handed over")

    def overwrite(self, eng, st, i, base, off, var, newv):
        """the pointer at this owning location is about to be replaced"""
        for x in list(st.key):
            if x[0] == "dang":
                l = st.aux.get(("dang", x[1]))
                if l is None:
                    self.drop(st, x)
                    continue
                lb, lo, lv = addr_parts(l)
                if lb is base and lo == off and lv is var:
                    self.drop(st, x)
                    st.aux.pop(("dang", x[1]), None)
                    return
        if self.kind == "ctor" and base.op == "arg":
            cur = st.mem.get((base, off)) if var is None else None
            if cur is None:
                return
            old = strip(cur[1])
        elif var is None:
            old = strip(eng.read(st, base, off, 8, True))
        else:
            addr = add(add(base, const(off)), var)
            sn = eng.snapshot(st, base, off)
            if sn is None:
                return
            old = mk("ld", addr, 8, sn, ptr=True)
        if self.null(eng, st, old) or old is newv or self.is_freed(st, old):
            return
        if old.op == "tok" and old.args[0] in ("uninit", "undef", "clb", "j", "mix", "ldm", "old"):
            return
        s = self.site_of(st, old)
        if s is not None:
            self.drop(st, s)
        self.add(st, ("orph", i.id))
        st.aux[("orph", i.id)] = old
        self.hit("ownership transfer")

    def store(self, eng, st, inst, base, off, var, size, val):
        self.deref(eng, st, inst, base, "writes")
        if base.op == "alloca" or val is None or size != 8:
            return
        v = strip(val)
        owning = self.rec_loc(st, base, off, var) or \
            (base.op == "arg" and base.args[0] == 0 and self.this_field(base, off, var) and self.fields is not None)
        if owning:
            self.hit("owning store")
            if self.kind != "dtor":
                self.overwrite(eng, st, inst, base, off, var, v)
        if self.site_of(st, v) is not None:
            if base.op == "arg" and base.args[0] == 0 and not owning and self.fields is not None:
                eng.report(inst, "stores a buffer into a field of the filter that the destructor does not free", st)
            addr = add(base, const(off))
            if var is not None:
                addr = add(addr, var)
            self.take_over(eng, st, inst, v, "filter", addr)
        elif owning:
            self.take_over(eng, st, inst, v, "filter")

    def copy(self, eng, st, inst, db, do, dv, sb, so, sv, n):
        if db.op == "alloca" or sv is not None or n is None or n < 8:
            return
        for (b, o), (s, v) in list(st.mem.items()):
            if b is sb and so <= o and o + s <= so + n and s == 8 and self.site_of(st, strip(v)) is not None:
                rel = o - so
                self.store(eng, st, inst, db, do + rel, dv, 8, v)

    def on_opaque(self, eng, st, i, name, args):
        sm = self.summary(name)
        for k, a in enumerate(args):
            if not a.ptr:
                continue
            b, o, v = addr_parts(a)
            self.deref(eng, st, i, b, "passes on")
            if k in sm.derefs and v is None:
                c = st.mem.get((b, o + self.ptr_off))
                pv = strip(c[1]) if c is not None else strip(eng.read(st, b, o + self.ptr_off, 8, True))
                if self.is_freed(st, pv):
                    eng.report(i, "works on a partition whose buffer was freed", st)

    def on_api(self, eng, st, i, op, args):
        for k, a in enumerate(args):
            if a.ptr and not (op.startswith("iter") and k == 0):
                self.deref(eng, st, i, addr_parts(a)[0], f"passes to the index ({op})")
        if self.kind == "dtor":
            self.walk(eng, st, i, op, args)
        self.move(eng, st, i, op, args)
        if op in ("put", "set", "del", "delr") and len(args) >= 2:
            newv = None
            if op in ("put", "set") and len(args) >= 4:
                b, o, v = addr_parts(args[3])
                if v is None:
                    newv = strip(eng.read(st, b, o + self.ptr_off, 8, True))
                    self.hit("put")
                    if self.site_of(st, newv) is not None:
                        self.hit("put of an allocated buffer")
            x = self.site_of_key(st, args[1])
            if x is not None:
                r = st.aux.get(("rec", x[1]))
                if r is not None:
                    self.overwrite(eng, st, i, r, self.ptr_off, None, newv)
                for y in self.same_entry(st, x):
                    self.add(st, ("gonepk", y[1]))
            if newv is not None:
                self.take_over(eng, st, i, newv, "index")
        if op == "destroy":
            self.add(st, ("gone",))
            self.hit("destroy")
        return None

    # the destructor's walk over the index: key item ("walk", iterator, state of the current entry)
    def walk(self, eng, st, i, op, args):
        if op == "destroy":
            for x in [x for x in st.key if x[0] == "walk"]:
                b, o = st.aux.get(("walkit", x[1])), x[2]
                vt = st.aux.get(("valid", x[1]))
                done = vt is not None and eng.truth(st, icmp("eq", vt, const(0, vt.w))) is True
                if not done and b is not None:
                    leaf = eng.read(st, b, o + self.leaf_off, 8, True)
                    done = isc(leaf) and cv(leaf) == 0 or eng.truth(st, icmp("eq", leaf, const(0))) is True
                if not done:
                    eng.report(i, "the destructor destroys the index before it has visited every partition: leak", st)
            if not any(x[0] == "walk" for x in st.key):
                eng.report(i, "the destructor destroys the index without freeing the partition buffers: leak", st)
            return
        if not op.startswith("iter_") or not args:
            return
        b, o, v = addr_parts(args[0])
        if op == "iter_seek":
            if len(args) >= 3 and not self.null(eng, st, args[2]):
                return
            st.key = frozenset(x for x in st.key if not (x[0] == "walk" and x[1] == b.id)) | {("walk", b.id, o, "new", 0)}
            st.aux[("walkit", b.id)] = b
            st.aux.pop(("valid", b.id), None)
            self.hit("destructor walk")
            return
        cur = next((x for x in st.key if x[0] == "walk" and x[1] == b.id), None)
        if cur is None:
            return
        if op == "iter_peek_ref":
            st.key = st.key - {cur} | {("walk", b.id, o, "seen", i.id)}
        elif op in MOVES or op == "iter_skip":
            if cur[3] == "new":
                eng.report(i, "the destructor passes over a partition without looking at it: leak", st)
            elif cur[3] == "seen":
                r = st.aux.get(("rec", cur[4]))
                p = strip(eng.read(st, r, self.ptr_off, 8, True)) if r is not None else None
                self.drop_null_orphans(eng, st)
                if p is not None and not self.null(eng, st, p) and not self.is_freed(st, p):
                    # whoever loaded the pointer before may still free it
                    if ("orph", i.id) in st.key:
                        eng.report(i, "the destructor moves on without freeing the partition's buffer: leak", st)
                    self.add(st, ("orph", i.id))
                    st.aux[("orph", i.id)] = p
            st.key = st.key - {cur} | {("walk", b.id, o, "new", 0)}
            st.aux.pop(("valid", b.id), None)

    def drop_null_orphans(self, eng, st):
        for x in [x for x in st.key if x[0] == "orph"]:
            v = st.aux.get(("orph", x[1]))
            if v is not None and self.null(eng, st, v):
                self.drop(st, x)

    def walk_done(self, eng, st, p):
        for x in [x for x in st.key if x[0] == "walk" and x[3] == "seen"]:
            r = st.aux.get(("rec", x[4]))
            if r is not None and strip(eng.read(st, r, self.ptr_off, 8, True)) is p:
                st.key = st.key - {x} | {x[:3] + ("done", 0)}

    def assume(self, eng, st, atom, val):
        if val and atom.op == "icmp" and atom.args[0] == "eq" and isc(atom.args[2]) and cv(atom.args[2]) == 0 and \
                atom.args[1].w == 64 and self.run_time_choice(strip(atom.args[1])) and \
                any(x[0] in ("own", "orph") for x in st.key):
            self.add(st, ("vague",))        # the chosen buffer is the null pointer
        if val and atom.op == "icmp" and atom.args[0] == "eq" and isc(atom.args[2]) and cv(atom.args[2]) == 0:
            if self.kind == "dtor":
                self.walk_done(eng, st, strip(atom.args[1]))
            else:
                l = strip(atom.args[1])
                if l.op == "ld":
                    b, o, var = addr_parts(l.args[0])
                    if b.op == "tok" and b.args[0] == "rec" and o == self.ptr_off and var is None:
                        return False        # every stored record refers to a buffer
            for x in [x for x in st.key if x[0] == "orph"]:
                v = st.aux.get(("orph", x[1]))
                if v is not None and (v is strip(atom.args[1]) or isc(v)):
                    self.drop(st, x)

    def api_effect(self, eng, st, i, op, args):
        super().api_effect(eng, st, i, op, args)
        if op == "iter_valid" and self.kind == "dtor":
            st.aux[("valid", addr_parts(args[0])[0].id)] = st.env[i.id]

    def ret(self, eng, st, inst, val):
        self.hit("exit")
        vague = ("vague",) in st.key
        for x in sorted(st.key, key=repr):
            if vague and x[0] in ("own", "orph"):
                continue
            if x[0] == "own":
                v = st.aux.get(("buf", x[1]))
                if v is not None and not self.null(eng, st, v):
                    eng.report(inst, f"a buffer allocated at {self.site_loc(eng, x[1])} is neither freed nor stored in the "
                                     f"filter when the operation returns: leak", st)
            elif x[0] == "orph":
                v = st.aux.get(("orph", x[1]))
                if v is not None and not self.null(eng, st, v):
                    eng.report(inst, f"the buffer replaced at {self.site_loc(eng, x[1])} is never freed: leak", st)
            elif x[0] == "dang":
                l = st.aux.get(("dang", x[1]))
                if l is None:
                    continue
                b, o, v = addr_parts(l)
                if self.kind == "dtor" and (b.op == "arg" or ("gone",) in st.key):
                    continue
                eng.report(inst, f"the filter still refers to the buffer freed at {self.site_loc(eng, x[1])}", st)
        if self.kind == "dtor" and ("gone",) not in st.key:
            eng.report(inst, "the destructor returns without destroying the boundary index", st)

    def site_loc(self, eng, iid):
        for b in eng.fn.blocks:
            for i in b.insts:
                if i.id == iid:
                    return i.loc()
        return "?"


def kind(f):
    m = pipeline.method(f.dem)
    return "dtor" if m.startswith("~") else "ctor" if m.startswith("Diva") else "op"


def check(tier):
    keep = event_free_helpers()
    mod = pipeline.diva_module(keep=keep, tag="events")
    viol, cov, tot = [], {"functions": []}, {}
    fields = {0: set(), 1: set()}
    es = sorted(entries(mod), key=lambda f: 0 if kind(f) == "dtor" else 1)
    for f in es:
        k = kind(f)
        var = pipeline.variant(f.dem)
        c = BufClient(mod, var, k, None if k == "dtor" else sorted(fields[var], key=repr))
        e = Engine(mod, f, c)
        v = e.run()
        if k == "dtor":
            fields[var] = {(o, s) for o, s in c.found}
        viol += v
        for n, x in c.count.items():
            tot[n] = tot.get(n, 0) + x
        cov["functions"].append({"function": f.dem, "blocks": e.stats["blocks"], "states": e.stats["states"]})
    tot["owned fields"] = sum(len(x) for x in fields.values())
    cov["owned_fields"] = {("int" if v else "bytes"): sorted(x, key=repr) for v, x in fields.items()}
    cov["events"] = tot
    cov["helpers_summarised"] = sorted(keep)
    return viol, cov
