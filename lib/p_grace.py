"""Publication and grace-period protocol of the concurrent boundary indexes (property C13)."""
from whmodel import *
from p_wlocks import classify
import pipeline
import reval


def index_tokens(t, stop, out=None):
    """unknown values inside an address, other than the known ones"""
    out = [] if out is None else out
    if t in stop:
        return out
    if t.op in ("tok", "arg", "ld"):
        if t not in out:
            out.append(t)
        return out
    for a in t.args:
        if isinstance(a, T):
            index_tokens(a, stop, out)
    return out


def mentions(t, ts, seen=None):
    seen = set() if seen is None else seen
    if t in ts:
        return True
    if t in seen:
        return False
    seen.add(t)
    return any(isinstance(a, T) and mentions(a, ts, seen) for a in t.args)


class GraceClient(WhClient):
    """key: (meta lock held, phase, updates before publication, updates after the wait, leaf locked but not yet validated,
    number of leaf locks held, leaf allocated by this operation)
    phase: b = nothing published, p = new version published, d = and earlier readers have left"""

    def __init__(self, mod, var, entry):
        super().__init__(mod, var)
        self.entry = entry
        L = mod.layout
        self.hptr, self.hv, self.hsz, self.lv, self.lockoff, self.meta = \
            L["map_hmap"], L["hmap_hv"], L["hmap_size"], L["leaf_lv"], L["leaf_lock"], L["map_meta"]
        self.h2 = L["map_hmap2"]
        self.param = mk("arg", 0, ptr=True)
        self.iter = "_iter_" in entry and not entry.endswith("_create")

    def init(self, eng, st):
        st.key = (False, "b", (), (), False, 1 if self.iter else 0, "", False)

    def setk(self, st, **kw):
        n = ["m", "ph", "alt", "cur", "u", "nl", "fr", "vs"]
        d = dict(zip(n, st.key))
        d.update(kw)
        st.key = tuple(d[k] for k in n)

    # ---- which map version an address belongs to
    def place(self, eng, st, t, hk="H"):
        """-> ('cur' | 'alt' | None, offset), or None if t is no address of a map version; cur = the version that was
        published when the operation loaded it.  Decided by placing the published pointer on either of the two versions
        inside the index object."""
        h, mp = st.aux.get((hk,)), st.aux.get(("map",))
        if h is None or mp is None:
            return None
        b, o, v = addr_parts(t)
        hb = addr_parts(h)[0]
        if b is not hb and b is not mp:
            return None
        if b is mp and v is None and not (self.h2 <= o < self.h2 + 2 * self.hsz):
            return None
        raw = hb.args[0] if hb.op == "asptr" else hb
        idx = [x for x in index_tokens(t, {hb, raw, mp})]
        if len(idx) > 1:
            return None, 0
        got = set()
        m0 = 0x7a0000000000
        for k in (0, 1):
            for ix in range(4 if idx else 1):
                p = m0 + self.h2 + k * self.hsz
                val = reval.Val(7 + k, fixed={mp: m0, hb: p, raw: p, **({idx[0]: ix} if idx else {})})
                bad = False
                for c, want in st.facts.items():
                    if c.op == "icmp" and mentions(c, {hb, raw} | set(idx)):
                        try:
                            bad |= bool(val.ev(c)) != want
                        except reval.Unknown:
                            pass
                if bad:
                    continue
                try:
                    x = val.ev(t) - m0 - self.h2
                except reval.Unknown:
                    return None, 0
                if not 0 <= x < 2 * self.hsz:
                    if idx:
                        continue
                    return None
                got.add(("cur" if x // self.hsz == k else "alt", x % self.hsz))
        return got.pop() if len(got) == 1 else (None, 0)

    def role(self, eng, st, t):
        return (self.place(eng, st, t) or (None,))[0]

    def load(self, eng, st, i, base, off, var, size):
        # the version pointer is the eight bytes at the start of the index object reached through a reference
        if var is None and size == 8 and off == self.hptr and self.is_map(base):
            v = eng.read(st, base, off, 8, True, i)
            if st.key[1] == "b":
                st.aux[("H",)] = v if v.ptr else mk("asptr", v, ptr=True)
                st.aux[("map",)] = base

    def is_map(self, base):
        """the index object, loaded from the reference or iterator that is the operation's first parameter"""
        def field(t, offs):
            if t.op == "asptr":
                t = t.args[0]
            if t.op != "ld":
                return None
            a, o, v = addr_parts(t.args[0])
            return a if v is None and o in offs else None
        L = self.mod.layout
        p = self.param
        if not self.iter:
            return field(base, (L["ref_map"],)) is p
        if field(base, (L["iter_map"],)) is p:
            return True
        r = field(base, (L["ref_map"],))
        return r is not None and field(r, (L["iter_ref"],)) is p

    def on_call(self, eng, st, i, callee, args):
        m, ph, alt, cur, u, nl, fr, vs = st.key
        c = classify(callee)
        if c is not None:
            kind, act, mode = c
            b, o, v = addr_parts(args[0])
            mp = st.aux.get(("map",))
            ismeta = o == self.meta and v is None and self.is_map(b)
            if ismeta:
                # other writers run whenever the lock is free
                eng.clobber(st, b, ("ver", i.id), self.hptr, self.hptr + 8)
                if act in ("acq",):
                    self.setk(st, m=True)
                    self.stale(st)
                    return [st]
                if act == "try":
                    n = st.copy()
                    st.env[i.id] = const(1, width(i.ty))
                    self.setk(st, m=True)
                    self.stale(st)
                    n.env[i.id] = const(0, width(i.ty))
                    return [st, n]
                if act == "rel":
                    self.finish(eng, st, i)
                    self.setk(st, m=False, ph="b", alt=(), cur=(), vs=False)
                    st.aux.pop(("nv",), None)
                    return [st]
                return None
            if o == self.lockoff and v is None:
                if act == "try":
                    n = st.copy()
                    st.env[i.id] = const(1, width(i.ty))
                    n.env[i.id] = const(0, width(i.ty))
                    self.locked(st, b)
                    return [st, n]
                if act == "acq":
                    self.locked(st, b)
                    return [st]
                if act == "rel":
                    if u and st.aux.get(("lf",)) is b:
                        self.setk(st, u=False)
                        st.aux.pop(("lf",), None)
                    self.setk(st, nl=max(nl - 1, 0))
                    st.aux.pop(("held", b.id), None)
                    if mode == "w" and ph in ("p", "d") and m:
                        self.leaf_version(eng, st, i, b)
                    return [st]
            return None
        if not isinstance(callee, str):
            self.use(eng, st, i, args)
            return None
        if callee in ("slab_alloc_safe", "slab_alloc_unsafe"):
            n = st.copy()
            t = eng.fresh(st, ("new", i.id), ptr=True)
            st.env[i.id] = t
            st.aux[("fresh",)] = t
            self.setk(st, fr="new")
            n.env[i.id] = const(0)
            self.setk(n, fr="none")
            return [st, n]
        if callee == "qsbr_update":
            st.aux[("ann",)] = args[1]
            return None
        if callee == "qsbr_wait":
            self.hit("wait")
            nv = st.aux.get(("nv",))
            if ph == "b":
                eng.report(i, "waits for readers although no new version has been published", st)
                return None
            if nv is not None and args[1] is not nv and self.differ(st, args[1], nv):
                eng.report(i, "waits for another version than the one that was published", st)
            ann = st.aux.get(("ann",))
            if ann is None or (ann is not args[1] and self.differ(st, ann, args[1])):
                eng.report(i, "waits for readers without having announced that it has left the old version itself", st)
            self.setk(st, ph="d")
            return None
        if callee in ("slab_free_safe", "slab_free_unsafe") or callee in DEL:
            b, o, v = addr_parts(args[-1])
            self.hit("release")
            if callee == "slab_free_safe" and not self.local(st, b):
                if ph != "d":
                    eng.report(i, "frees a leaf that readers of the old version may still reach: " +
                               ("no new version was published" if ph == "b" else "it has not waited for them"), st)
            elif ph == "p" and not self.local(st, b):
                eng.report(i, "frees memory that readers of the old version may still reach before waiting for them", st)
            return None
        f = self.mod.fns.get(callee)
        if f is not None and not f.decl:
            self.use(eng, st, i, args)
            sm = summary_of(self.mod, callee)
            wr = {w[1] for w in sm.writes if w[0] in ("direct", "deref") and len(w) > 1}
            for k, a in enumerate(args):
                if not a.ptr:
                    continue
                pl = self.place(eng, st, a)
                if pl is None:
                    continue
                r = pl[0]
                if r is None:
                    if k in wr:
                        self.unresolved(st)
                    continue
                if k in wr:
                    self.modify(eng, st, i, r, callee)
                elif not m:
                    self.hit("lookup")
                    self.announced(eng, st, i, a)
        return None

    def local(self, st, b):
        return st.aux.get(("fresh",)) is b or b.op == "alloca"

    def stale(self, st):
        """what was loaded before the lock was taken may no longer be the published version"""
        h = st.aux.pop(("H",), None)
        if h is not None:
            st.aux[("Hs",)] = h

    def locked(self, st, b):
        m, ph, alt, cur, u, nl, fr, vs = st.key
        if st.aux.get(("fresh",)) is not b and nl == 0 and not m:
            # found through the map, not through a locked neighbour's link: its version must be checked
            self.setk(st, u=True)
            st.aux[("lf",)] = b
        self.setk(st, nl=min(nl + 1, 3))
        st.aux[("held", b.id)] = b

    def differ(self, st, a, b):
        w, n = reval.differs([(a, b)], dict(st.facts), n=60)
        return w is not None

    def announced(self, eng, st, i, h):
        ann = st.aux.get(("ann",))
        b, o, v = addr_parts(h)
        want = eng.read(st, b, o + self.hv, 8)
        if ann is None:
            eng.report(i, "searches the map without having announced which version it reads", st)
        elif ann is not want and self.differ(st, ann, want):
            eng.report(i, "announces another version than the one it searches", st)

    def use(self, eng, st, i, args):
        m, ph, alt, cur, u, nl, fr, vs = st.key
        lf = st.aux.get(("lf",))
        if not u or lf is None:
            return
        for a in args:
            if a.ptr and addr_parts(a)[0] is lf:
                self.validate(eng, st, i, lf)
                return

    def validate(self, eng, st, i, lf):
        self.hit("leaf validated")
        ok = False
        for atom, val in st.facts.items():
            if atom.op == "icmp" and atom.args[0] in ("ult", "slt", "eq"):
                for x in (atom.args[1], atom.args[2]):
                    if self.is_lv(x, lf):
                        y = atom.args[2] if x is atom.args[1] else atom.args[1]
                        if atom.args[0] == "ult" and x is atom.args[2] and val is False:
                            ok = True              # not (v < lv)
                        elif atom.args[0] == "ult" and x is atom.args[1] and val is True:
                            ok = True              # lv < v (+ 1)
                        elif atom.args[0] == "eq" and val is True:
                            ok = True
        if not ok:
            eng.report(i, "uses a leaf found through the map without checking that its version is not newer than the map's",
                       st)
        self.setk(st, u=False)
        st.aux.pop(("lf",), None)

    def is_lv(self, t, lf):
        if t.op != "ld":
            return False
        b, o, v = addr_parts(t.args[0])
        return b is lf and o == self.lv and v is None

    def unresolved(self, st):
        """an update of one version or the other: the two sequences of updates can no longer be compared"""
        self.setk(st, **{"alt" if st.key[1] == "b" else "cur": ("?",)})

    def modify(self, eng, st, i, r, what):
        m, ph, alt, cur, u, nl, fr, vs = st.key
        self.hit("map update")
        if not m:
            eng.report(i, f"{what} changes the map without holding the lock that orders writers", st)
            return
        if ph == "b":
            if r == "cur":
                eng.report(i, f"{what} changes the version of the map that readers are using", st)
            else:
                if "?" not in alt:
                    self.setk(st, alt=tuple(sorted(alt + (what,)))[:4])
        else:
            if r == "alt":
                eng.report(i, f"{what} changes the version of the map that has just been published", st)
            elif ph == "p":
                eng.report(i, f"{what} changes the old version of the map before its readers have left", st)
            elif "?" not in cur:
                self.setk(st, cur=tuple(sorted(cur + (what,)))[:4])

    def finish(self, eng, st, i):
        m, ph, alt, cur, u, nl, fr, vs = st.key
        if ph == "b":
            if alt:
                eng.report(i, "a prepared version of the map is never published", st)
            return
        self.hit("publication completed")
        for k, b in list(st.aux.items()):
            if k[0] == "held":
                self.leaf_version(eng, st, i, b)
        if ph == "p":
            eng.report(i, "gives up the map to the next writer before the readers of the old version have left", st)
        elif alt != cur and "?" not in alt + cur:
            eng.report(i, "the two versions of the map receive different updates (%s; %s)" %
                       (", ".join(alt) or "none", ", ".join(cur) or "none"), st)

    def leaf_version(self, eng, st, i, b):
        nv = st.aux.get(("nv",))
        v = eng.read(st, b, self.lv, 8)
        if nv is None:
            return
        self.hit("leaf version")
        if v is nv:
            return
        if v.op == "ld" and self.is_lv(v, b) and v.args[2].op == "c":
            eng.report(i, "unlocks a leaf whose key range changed without giving it the new version", st)
        elif v.op != "tok" and v.op != "ld" and self.differ(st, v, nv):
            eng.report(i, "unlocks a leaf whose key range changed with another version than the published one", st)

    def store(self, eng, st, i, base, off, var, size, val):
        m, ph, alt, cur, u, nl, fr, vs = st.key
        if u and base is st.aux.get(("lf",)):
            self.validate(eng, st, i, base)
        if val is None:
            return
        if var is None and off == self.hptr and size == 8 and self.is_map(base):
            self.hit("publication")
            r = self.role(eng, st, val)
            if not m:
                eng.report(i, "publishes a version of the map without holding the lock that orders writers", st)
            if r is None and (self.place(eng, st, val, "Hs") or (None,))[0] is not None:
                eng.report(i, "publishes a version of the map chosen before it took the lock that orders writers", st)
            if r == "cur":
                eng.report(i, "publishes the version of the map that is already in use", st)
            if r == "alt":
                nv = st.aux.get(("nv",))
                old = st.aux.get(("ov",))
                if not vs:
                    eng.report(i, "publishes a version of the map without giving it a new version number", st)
                elif nv is not None and old is not None and (nv is old or self.not_newer(st, nv, old)):
                    eng.report(i, "publishes a version number that is not newer than the one in use", st)
            if ph != "b":
                eng.report(i, "publishes twice under one lock", st)
            st.aux.pop(("fresh",), None)
            self.setk(st, ph="p", fr="")
            return
        # direct stores into a version of the map
        a = add(base, const(off)) if var is None else add(add(base, const(off)), var)
        pl = self.place(eng, st, a)
        if pl is None:
            return
        if pl[0] is None:
            self.unresolved(st)
            return
        if pl[1] == self.hv and size == 8:
            if ph == "b" and pl[0] == "alt":
                st.aux[("nv",)] = val
                hb, ho, _ = addr_parts(st.aux[("H",)])
                st.aux[("ov",)] = eng.read(st, hb, ho + self.hv, 8)
                self.setk(st, vs=True)
            else:
                eng.report(i, "changes the version number of the map that readers are using", st)
            return
        self.modify(eng, st, i, pl[0], "a store")

    def not_newer(self, st, nv, old):
        """no valuation makes the new number larger"""
        for k in range(40):
            v = reval.Val(k, choose=lambda s, t: s.rng.getrandbits(20))
            try:
                if v.ev(nv) > v.ev(old):
                    return False
            except reval.Unknown:
                return False
        return True


def check(tier):
    viol, cov, tot = [], {"functions": []}, {}
    for var in VARIANTS:
        mod = module(var, lambda n: bool(LOCK.match(n)) and not n.endswith("_init") or n.startswith("qsbr_"), "grace")
        run_all(mod, var, [n for n in mod.entries_ if mod.events_.get(n) and not n.startswith("whunsafe") and
                           ("_iter_" in n or not n.endswith(("_create", "_clean", "_destroy")))],
                GraceClient, viol, cov, tot)
    cov["events"] = tot
    return viol, cov
