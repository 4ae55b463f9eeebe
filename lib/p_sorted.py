"""Key order inside index leaves (property C17): typestate "all keys of the leaf are in order"."""
from whmodel import *
import pipeline
from irlib import inlined_at

LEAF = re.compile(r"^struct\.wormleaf(_int)?(\.\d+)*$")


def field_accesses(f, offs):
    """[(instruction, 'load'/'store', offset)] of direct accesses to the given fields of an index leaf"""
    r = []
    for b in f.blocks:
        for i in b.insts:
            if i.op in ("load", "store"):
                o = field(i, offs)
                if o is not None:
                    r.append((i, i.op, o))
    return r


def field(i, offs):
    p = i.ops[0] if i.op == "load" else i.ops[1]
    if p.kind != "inst" or p.v.op != "gep":
        return None
    g = p.v
    if not (getattr(g, "gty", None) and LEAF.match(g.gty)) or g.gep[2] or g.gep[1] not in offs:
        return None
    return g.gep[1]


def source(m, info):
    """(file, line) -> the functions whose code stands there"""
    r = {}
    for n, (cs, ind, lp, f) in info.items():
        for b in f.blocks:
            for i in b.insts:
                if i.line:
                    r.setdefault((i.file, i.line), set()).add(n)
    return r


class Kinds:
    """what a load of the ordered-key count is for: 'test' (compared for equality), 'keep' (bookkeeping of the count) or
    'order' (the leaf is searched or walked in key order)"""

    def __init__(self, mod):
        self.mod = mod
        self.memo = {}
        self.uses = {}

    def kind(self, i):
        k = (i.fn.name, i.id)
        if k not in self.memo:
            self.memo[k] = self.find(i)
        return self.memo[k]

    def users(self, i):
        if i.fn.name not in self.uses:
            u = {}
            for b in i.fn.blocks:
                for x in b.insts:
                    if x.dbg:
                        continue
                    for o in list(x.ops or []) + [v for pr in (x.inc or []) for v in pr]:
                        if getattr(o, "kind", None) == "inst":
                            u.setdefault(o.v.id, []).append(x)
            self.uses[i.fn.name] = u
        return self.uses[i.fn.name].get(i.id, [])

    def find(self, i):
        fns = source_of(self.mod, i)
        if fns & self.mod.keepers_:
            return "keep"
        seen, todo, keep = {i.id}, [i], True
        only = True
        while todo:
            x = todo.pop()
            for y in self.users(x):
                if y.op == "icmp":
                    if y.pred in ("eq", "ne"):
                        continue
                    only = False
                    o = y.ops[1] if y.ops[0].kind == "inst" and y.ops[0].v is x else y.ops[0]
                    if not (o.kind == "inst" and any(z.op == "store" and field(z, {self.mod.layout["leaf_ns"]}) is not None
                                                     for z in self.users(o.v))):
                        keep = False
                elif y.op == "store":
                    only = False
                    if field(y, {self.mod.layout["leaf_ns"]}) is None:
                        keep = False
                elif y.op in ("add", "sub", "phi", "select", "zext", "trunc") or \
                        y.op == "call" and y.callee.kind == "fn" and y.callee.v.startswith(("llvm.umin", "llvm.umax")):
                    if y.id not in seen:
                        seen.add(y.id)
                        todo.append(y)
                else:
                    only = keep = False
        return "test" if only else "keep" if keep else "order"


def source_of(mod, i):
    """the source functions an (inlined) instruction comes from; functions that only hand out the count are skipped"""
    fns = set(mod.source_.get((i.file, i.line), ()))
    if fns and fns <= mod.accessors_:
        for loc in inlined_at(i):
            fns = set(mod.source_.get(loc, ()))
            if not (fns and fns <= mod.accessors_):
                break
    return fns


class SortClient(WhClient):
    """key: (leaves, where the iterator stands); leaves = ((slot, all keys in order, evidence), ...); the leaf of a slot is
    aux root ('lf', slot); evidence that they may be: 'q' its
    keys were sorted, 'p' keys were added or removed in place, since it was first touched"""

    def __init__(self, mod, var, entry):
        super().__init__(mod, var)
        self.entry = entry
        self.iter = "_iter_" in entry and not entry.endswith(("_create", "_destroy"))
        self.off = mod.layout["iter_leaf"]
        self.nk, self.ns = mod.layout["leaf_nr"], mod.layout["leaf_ns"]
        self.kinds = mod.kinds_

    def init(self, eng, st):
        st.key = ((), "")
        if self.iter:
            leaf = tok("leaf0", ptr=True)
            eng.write(st, mk("arg", 0, ptr=True), self.off, 8, leaf)
            k = self.track(st, leaf)
            self.set(st, k, True, "")
            self.norm(eng, st)

    # ---- bookkeeping
    def slot(self, st, base):
        return next((k for k in st.key[0] if st.aux.get(("lf", k[0])) is base), None)

    def track(self, st, base):
        """the state kept for a leaf; only the leaves touched last are followed (an iterator's own leaf always is)"""
        k = self.slot(st, base)
        if k is not None:
            return k
        ks = st.key[0]
        if len(ks) >= 2:
            at = next((k for k in ks if str(k[0]) != st.key[1]), ks[0])
            st.aux.pop(("lf", at[0]), None)
            ks = tuple(k for k in ks if k is not at)
        n = 0
        while any(k[0] == n for k in ks):
            n += 1
        st.aux[("lf", n)] = base
        st.key = (ks + ((n, False, ""),), st.key[1])
        return self.slot(st, base)

    def set(self, st, k, ordered, ev):
        st.key = (tuple((x[0], ordered, ev) if x[0] == k[0] else x for x in st.key[0]), st.key[1])

    def equal(self, eng, st, base):
        return eng.truth(st, icmp("eq", eng.read(st, base, self.nk, 4), eng.read(st, base, self.ns, 4))) is True

    def norm(self, eng, st):
        for k in st.key[0]:
            if not k[1]:
                if self.equal(eng, st, st.aux[("lf", k[0])]):
                    self.set(st, k, True, "")
        if self.iter:
            leaf = eng.read(st, mk("arg", 0, ptr=True), self.off, 8, True)
            self.stand(eng, st, leaf)

    def stand(self, eng, st, leaf):
        if eng.truth(st, icmp("eq", leaf, const(0))) is True:
            il = "null"
        else:
            k = self.slot(st, leaf)
            il = "?" if k is None else str(k[0])
        st.key = (st.key[0], il)

    # ---- events
    def assume(self, eng, st, atom, val):
        self.norm(eng, st)

    def on_call(self, eng, st, i, callee, args):
        if not isinstance(callee, str):
            return None
        if LOCK.match(callee):
            if "trylock" in callee:
                n = st.copy()
                st.env[i.id] = const(1, width(i.ty))
                n.env[i.id] = const(0, width(i.ty))
                return [st, n]
            return [st] if i.ty.kind == "void" else None
        if callee in ("qsort_r", "qsort"):
            self.hit("sort")
            b, o, v = addr_parts(args[0])
            k = self.slot(st, b)
            if k is not None and not k[1] and "q" not in k[2]:
                self.set(st, k, False, "q")
            return [st]
        f = self.mod.fns.get(callee)
        if i.ty.kind == "int" and i.ty.bits == 32 and sum(a.ptr or a.op == "lin" for a in args) >= 2 \
                and (f is None or f.decl or not summary_of(self.mod, callee).writes):
            st.env[i.id] = eng.fresh(st, ("cmp", i.id), w=32)
            return [st]
        if callee in self.mod.changes_:
            self.hit("leaf change by a helper")
            ks = [k for k in (self.slot(st, addr_parts(a)[0]) for a in args if a.ptr or a.op == "lin") if k is not None]
            if len(ks) < 2 or not all(k[1] for k in ks):
                for k in ks:
                    self.set(st, k, False, "")
            # (moving keys between two neighbouring leaves that are both in order leaves both in order)
        elif f is not None and not f.decl and st.key[0]:
            # a helper that leaves the counts alone: what is known about them stays
            kept = []
            for k in st.key[0]:
                b = st.aux[("lf", k[0])]
                kept.append((b, eng.read(st, b, self.nk, 4), eng.read(st, b, self.ns, 4)))
            if i.ty.kind == "void":
                r = super().call
                for w in summary_of(self.mod, callee).writes:
                    if w[0] == "direct" and w[1] < len(args) and (args[w[1]].ptr or args[w[1]].op == "lin"):
                        b, o, v = addr_parts(args[w[1]])
                        eng.clobber(st, b, ("op", i.id, w[1], w[2] or 0), o + (w[2] or 0), None)
                for b, x, y in kept:
                    eng.write(st, b, self.nk, 4, x)
                    eng.write(st, b, self.ns, 4, y)
                return [st]
        return None

    def load(self, eng, st, i, base, off, var, size):
        o = field(i, {self.nk, self.ns})
        if o is None or var is not None or off != o:
            return
        k = self.track(st, base)
        if o == self.ns and self.kinds.kind(i) == "order":
            self.hit("ordered use")
            if not k[1] and not self.equal(eng, st, base):
                eng.report(i, "a leaf is searched or walked in key order although its keys may not all be in order", st)

    def store(self, eng, st, i, base, off, var, size, val):
        if self.iter and base is mk("arg", 0, ptr=True) and off == self.off and var is None and size == 8:
            self.stand(eng, st, val)
            return
        o = field(i, {self.nk, self.ns})
        if o is None or var is not None or off != o:
            return
        k = self.track(st, base)
        if o == self.nk:
            self.hit("count change")
            if isc(val) and cv(val) == 0:
                return
            self.set(st, k, False, "p")
            return
        self.hit("ordered count change")
        nk = eng.read(st, base, self.nk, 4)
        val = val if val.w == 32 else trunc(val, 32)
        full = eng.truth(st, icmp("eq", nk, val)) is True
        if full:
            if not k[1] and not k[2] and not self.few(eng, st, nk) and not isnew(base) and not self.lower(eng, st, base, val):
                eng.report(i, "all keys of a leaf are declared to be in order although nothing has sorted or compared them", st)
            self.set(st, k, True, "")
        elif not (isc(val) and cv(val) == 0 and isc(nk) and cv(nk) == 0):
            self.set(st, k, False, k[2])

    def lower(self, eng, st, base, val):
        return eng.truth(st, icmp("ult", eng.read(st, base, self.ns, 4), val)) is False

    def few(self, eng, st, nk):
        lo, hi = eng.range(st, nk)
        return hi <= 1

    def ret(self, eng, st, inst, val):
        self.hit("exit")
        if not self.iter:
            return
        leaf = eng.read(st, mk("arg", 0, ptr=True), self.off, 8, True)
        if eng.truth(st, icmp("eq", leaf, const(0))) is True or self.entry.endswith("_park"):
            return
        self.hit("resting iterator")
        k = self.slot(st, leaf)
        if not (k is not None and k[1]) and not self.equal(eng, st, leaf):
            eng.report(inst, "the iterator is left on a leaf whose keys may not all be in order", st)


def isnew(b):
    return b.op == "tok" and any(isinstance(a, str) and a in ("new",) for a in b.args)


def check(tier):
    viol, cov, tot = [], {"functions": []}, {}
    for var in VARIANTS:
        m, lib, info = raw(var)
        L = pipeline.Layout(m)
        offs = {L["leaf_nr"], L["leaf_ns"]}
        own, keepers, accessors, changes = set(), set(), set(), set()
        for n, (cs, ind, lp, f) in info.items():
            acc = field_accesses(f, offs)
            if acc:
                own.add(n)
            if any(op == "store" and o == L["leaf_ns"] for i, op, o in acc):
                keepers.add(n)
            if any(op == "store" for i, op, o in acc):
                changes.add(n)
            if acc and not cs and not any(i.op in ("store", "br") and not (i.op == "store" and is_spill(i)) and len(i.ops) > 1
                                          for b in f.blocks for i in b.insts):
                accessors.add(n)
        ch = True
        while ch:
            ch = False
            for n, (cs, ind, lp, f) in info.items():
                if n not in changes and cs & changes:
                    changes.add(n)
                    ch = True
        # helpers that only change leaves (no search, no sort, no lock inside) are summarised by which leaf they change
        plain = set(changes)
        readers = {n for n in own - keepers if any(op == "load" and o == L["leaf_ns"]
                                                   for i, op, o in field_accesses(info[n][3], offs))}
        bad = {n for n, (cs, ind, lp, f) in info.items() if n in readers or ind or any(
            c in ("qsort_r", "qsort") or LOCK.match(c) for c in cs)}
        ch = True
        while ch:
            ch = False
            for n, (cs, ind, lp, f) in info.items():
                if n not in bad and cs & bad:
                    bad.add(n)
                    ch = True
        mod = module(var, lambda n: False, "sorted", keep=plain - bad, own=own)
        cov.setdefault("summarised", {})["wh_int.c" if var else "wh.c"] = sorted(plain - bad)
        mod.keepers_, mod.accessors_, mod.changes_ = keepers, accessors - keepers, changes
        mod.source_ = source(m, info)
        mod.kinds_ = Kinds(mod)
        cov.setdefault("keeps_the_count", {})["wh_int.c" if var else "wh.c"] = sorted(keepers)
        run_all(mod, var, [n for n in mod.entries_ if mod.events_.get(n) and not n.endswith("_create")], SortClient, viol, cov, tot)
    cov["events"] = tot
    return viol, cov


def is_spill(i):
    return i.ops[1].kind == "inst" and i.ops[1].v.op == "alloca"
