"""Typestate of boundary-index entries seen through iterators (property C03).

key items:  ("it", iterator, epoch, pos)        where an iterator stands, relative to its last seek
            ("pk", site, iterator, epoch, pos)  the entry whose key/record pointers the peek at `site` produced
            ("dead", site, how, line)           that entry has been removed or replaced since
"""
from divamodel import *
import pipeline

MOVES = {"iter_skip1": 1, "iter_next": 1, "iter_skip1_rev": -1, "iter_prev": -1}
LIM = 4


class PosClient(DivaClient):
    def init(self, eng, st):
        st.key = frozenset()

    def items(self, st, kind):
        return [x for x in st.key if x[0] == kind]

    def pos_of(self, st, it):
        for x in st.key:
            if x[0] == "it" and x[1] == it:
                return x[2], x[3]
        return None, "U"

    def set_pos(self, st, it, epoch, pos):
        st.key = frozenset(x for x in st.key if not (x[0] == "it" and x[1] == it)) | {("it", it, epoch, pos)}

    def move(self, eng, st, i, op, args):
        if not args:
            return
        b, o, v = addr_parts(args[0])
        it = (b.id, o)
        if op == "iter_seek":
            # entries seen after an earlier execution of this seek are no longer comparable
            st.key = frozenset(("pk", x[1], x[2], None, "U") if x[0] == "pk" and x[2] == it and x[3] == i.id else x
                               for x in st.key)
            self.set_pos(st, it, i.id, 0)
        elif op in MOVES:
            e, p = self.pos_of(st, it)
            p = p + MOVES[op] if p != "U" and abs(p + MOVES[op]) <= LIM else "U"
            self.set_pos(st, it, e, p)
        elif op in ("iter_skip", "iter_park"):
            self.set_pos(st, it, None, "U")
        elif op in ("iter_peek_ref", "iter_kvref"):
            e, p = self.pos_of(st, it)
            st.key = frozenset(x for x in st.key if not (x[0] == "pk" and x[1] == i.id)) | {("pk", i.id, it, e, p)}

    def site_of_key(self, st, term):
        b, o, v = addr_parts(term)
        if o or v is not None:
            return None
        for x in st.key:
            if x[0] == "pk" and st.aux.get(("key", x[1])) is b:
                return x
        return None

    def same_entry(self, st, x):
        r = [x]
        if x[4] != "U" and x[3] is not None:
            r += [y for y in st.key if y[0] == "pk" and y is not x and y[2:] == x[2:]]
        return r

    def api_effect(self, eng, st, i, op, args):
        same = None
        if op == "iter_peek_ref" and len(args) >= 5:
            # a second look at an entry yields the same pointers
            me = next((x for x in st.key if x[0] == "pk" and x[1] == i.id), None)
            if me is not None and me[4] != "U" and me[3] is not None:
                for y in sorted((y for y in st.key if y[0] == "pk" and y[1] != i.id and y[2:] == me[2:]), key=repr):
                    if not any(z[0] == "dead" and z[1] == y[1] for z in st.key) and ("gonepk", y[1]) not in st.key:
                        same = y[1]
                        break
        super().api_effect(eng, st, i, op, args)
        if op in ("iter_peek_ref",) and len(args) >= 5:
            for a, nm, sz in ((args[1], "key", 8), (args[2], "klen", 4), (args[3], "rec", 8)):
                b, o, v = addr_parts(a)
                if same is not None and v is None and st.aux.get((nm, same)) is not None:
                    eng.write(st, b, o, sz, st.aux[(nm, same)])
                if v is None:
                    st.aux[(nm, i.id)] = eng.read(st, b, o, sz, sz == 8)


class EntryClient(PosClient):
    def init(self, eng, st):
        super().init(eng, st)

    def dead(self, st, b):
        for x in st.key:
            if x[0] == "dead":
                for w in ("key", "rec"):
                    if st.aux.get(("dead", x[1], w)) is b:
                        return x, w
        return None

    def chk(self, eng, st, i, b, what):
        d = self.dead(st, b)
        if d is not None:
            x, w = d
            eng.report(i, f"{what} the {'key bytes' if w == 'key' else 'partition record'} of a boundary entry that was "
                          f"{x[2]} at line {x[3]}", st)

    def load(self, eng, st, inst, base, off, var, size):
        self.hit("access")
        self.chk(eng, st, inst, base, "reads")

    def store(self, eng, st, inst, base, off, var, size, val):
        self.hit("access")
        self.chk(eng, st, inst, base, "writes")

    def on_opaque(self, eng, st, i, name, args):
        for a in args:
            if a.ptr:
                self.chk(eng, st, i, addr_parts(a)[0], "passes to a helper")

    def call(self, eng, st, i, callee, args):
        if isinstance(callee, str) and callee in PURE:
            for a in args:
                if a.ptr:
                    self.chk(eng, st, i, addr_parts(a)[0], "compares")
        return super().call(eng, st, i, callee, args)

    def on_api(self, eng, st, i, op, args):
        for k, a in enumerate(args):
            if a.ptr and not (op.startswith("iter") and k == 0):
                self.chk(eng, st, i, addr_parts(a)[0], f"passes to the index ({op})")
        self.move(eng, st, i, op, args)
        if op in ("put", "del", "delr", "set") and len(args) >= 2:
            self.hit("removal")
            x = self.site_of_key(st, args[1])
            if x is not None:
                self.hit("removal of a peeked entry")
                for y in self.same_entry(st, x):
                    st.key = st.key | {("dead", y[1], "removed" if op.startswith("del") else "replaced", i.line)}
                    for w in ("key", "rec"):
                        t = st.aux.get((w, y[1]))
                        if t is not None:
                            st.aux[("dead", y[1], w)] = t
        if op == "destroy":
            for y in self.items(st, "pk"):
                st.key = st.key | {("dead", y[1], "removed", i.line)}
                for w in ("key", "rec"):
                    t = st.aux.get((w, y[1]))
                    if t is not None:
                        st.aux[("dead", y[1], w)] = t
        return None

    def ret(self, eng, st, inst, val):
        self.hit("exit")


def check(tier):
    keep = event_free_helpers()
    mod = pipeline.diva_module(keep=keep, tag="events")
    viol, cov, tot = [], {"functions": []}, {}
    for f in entries(mod):
        c = EntryClient(mod, pipeline.variant(f.dem))
        e = Engine(mod, f, c)
        viol += e.run()
        for k, v in c.count.items():
            tot[k] = tot.get(k, 0) + v
        cov["functions"].append({"function": f.dem, "blocks": e.stats["blocks"], "states": e.stats["states"]})
    cov["events"] = tot
    cov["helpers_summarised"] = sorted(keep)
    return viol, cov
