"""May-write effect analysis (property C02): which objects each public operation can write.

Flow-insensitive, offset-sensitive points-to analysis over the fully inlined IR of each operation.  Abstract objects:
('A', i) a local, ('N', i) memory allocated by the operation, ('P', k) what parameter k points to, ('D', x) memory reached
through a pointer stored in x, ('IDX',) memory owned by the boundary index (keys and partition records), ('G', n) global."""
from divamodel import api, NEW, DEL, PURE
import pipeline

READS = {"iter_seek", "iter_skip1", "iter_skip1_rev", "iter_skip", "iter_next", "iter_prev", "iter_peek_ref",
         "iter_peek", "iter_valid", "iter_create", "iter_destroy", "iter_park", "iter_kref", "iter_kvref",
         "leaf_unlock_read", "leaf_lock_read", "probe", "get", "inpr", "park", "resume", "refresh_qstate", "ref",
         "unref", "iter_inp"}
MUTATES = {"put", "del", "delr", "merge", "inpw", "clean", "destroy", "set"}
EXT_WRITES = {"qsort": [0], "strcpy": [0], "strncpy": [0], "sprintf": [0], "snprintf": [0], "memset": [0],
              "memcpy": [0], "memmove": [0], "fread": [0], "read": [1], "bzero": [0]}
CONST_OPS = ("PointQuery", "RangeQuery", "Size", "Serialize")


def D(x):
    if x[0] in ("D", "IDX"):
        return x
    return ("D", x)


class Effects:
    def __init__(self, mod, fn, summaries, depth=0):
        self.mod, self.fn, self.sum, self.depth = mod, mod.body(fn.name), summaries, depth
        self.pts = {}          # inst id -> set of (obj, off|None)
        self.cont = {}         # obj -> {off|None: set of (obj, off)}
        self.writes = []       # (inst, obj, how)
        self.calls = []        # (inst, op, args)
        self.n = 0
        self.solve()

    def p(self, v):
        k = v.kind
        if k == "inst":
            return self.pts.get(v.v.id, set())
        if k == "arg":
            return {(("P", v.v), 0)} if v.ty.kind == "ptr" else set()
        if k == "glob":
            return {(("G", v.v), 0)}
        if k == "cexpr" and v.v == "gep":
            b, off, var = v.extra
            return {(o, None if x is None else x + off) for o, x in self.p(b)}
        if k == "cexpr" and v.v in ("ptrtoint", "inttoptr", "bitcast"):
            return self.p(v.extra[0])
        return set()

    def put(self, i, s):
        cur = self.pts.setdefault(i.id, set())
        # widening of growing offsets
        objs = {}
        for o, x in cur | s:
            objs.setdefault(o, set()).add(x)
        new = set()
        for o, xs in objs.items():
            if None in xs or len(xs) > 24:
                new.add((o, None))
            else:
                new |= {(o, x) for x in xs}
        if new != cur:
            self.pts[i.id] = new
            self.ch = True

    def content(self, obj, off):
        if obj[0] in ("A", "N"):
            c = self.cont.get(obj, {})
            r = set()
            for k, s in c.items():
                if off is None or k is None or (k <= off + 7 and off <= k + 7):
                    r |= s
            return r
        if obj[0] == "G":
            return {(D(obj), None)}
        return {(D(obj), None)}

    def setc(self, obj, off, vals):
        if not vals or obj[0] not in ("A", "N"):
            return
        c = self.cont.setdefault(obj, {})
        if off not in c and len(c) > 64:
            off = None
        s = c.setdefault(off, set())
        if not vals <= s:
            s |= vals
            self.ch = True

    def solve(self):
        for _ in range(60):
            self.ch = False
            for b in self.fn.blocks:
                for i in b.insts:
                    if not i.dbg:
                        self.tr(i, False)
            if not self.ch:
                break
        else:
            raise RuntimeError("points-to analysis did not converge in " + self.fn.dem)
        for b in self.fn.blocks:
            for i in b.insts:
                if not i.dbg:
                    self.tr(i, True)

    def w(self, i, v, how):
        for o, x in self.p(v):
            self.writes.append((i, o, how))

    def tr(self, i, final):
        op = i.op
        if op == "alloca":
            self.put(i, {(("A", i.id), 0)})
        elif op == "gep":
            b, off, var = i.gep
            self.put(i, {(o, None if (x is None or var) else x + off) for o, x in self.p(b)})
        elif op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast", "trunc", "zext"):
            self.put(i, set(self.p(i.ops[0])))
        elif op in ("add", "sub", "and", "or"):
            s = set()
            for o in i.ops:
                s |= {(ob, None) for ob, _ in self.p(o)}
            if op == "sub" and self.p(i.ops[0]) and self.p(i.ops[1]):
                s = set()      # pointer difference
            self.put(i, s)
        elif op == "phi":
            s = set()
            for _, v in i.inc:
                s |= self.p(v)
            self.put(i, s)
        elif op == "select":
            self.put(i, self.p(i.ops[1]) | self.p(i.ops[2]))
        elif op == "load":
            if i.ty.size == 8 or i.ty.size > 8:
                s = set()
                for o, x in self.p(i.ops[0]):
                    s |= self.content(o, x)
                if i.ty.kind != "ptr":
                    s = {y for y in s if i.ty.kind != "int"} if False else s
                # integers loaded from filter memory are data, not pointers
                if i.ty.kind == "int":
                    s = {y for y in s if y[0][0] in ("A", "N", "P")}
                self.put(i, s)
            self.n += final
        elif op == "store":
            for o, x in self.p(i.ops[1]):
                self.setc(o, x, self.p(i.ops[0]))
            if final:
                self.w(i, i.ops[1], "store")
        elif op in ("atomicrmw", "cmpxchg"):
            if final:
                self.w(i, i.ops[0], "atomic update")
        elif op in ("extractvalue", "insertvalue"):
            s = set()
            for o in i.ops:
                s |= self.p(o)
            self.put(i, s)
        elif op in ("call", "invoke"):
            self.callx(i, final)

    def callx(self, i, final):
        if i.callee.kind != "fn":
            return
        n = i.callee.v
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            for o, x in self.p(i.ops[0]):
                for so, sx in self.p(i.ops[1]):
                    if so[0] in ("A", "N"):
                        for k, s in list(self.cont.get(so, {}).items()):
                            nx = None if (k is None or sx is None or x is None) else x + k - sx
                            if nx is None or nx >= 0:
                                self.setc(o, nx, set(s))
                    else:
                        self.setc(o, None, {(D(so), None)})
            if final:
                self.w(i, i.ops[0], "copy")
            return
        if n.startswith("llvm.memset"):
            if final:
                self.w(i, i.ops[0], "fill")
            return
        if n.startswith("llvm."):
            return
        if n in NEW:
            self.put(i, {(("N", i.id), 0)})
            return
        if n in DEL:
            if final:
                for o, x in self.p(i.ops[0]):
                    self.writes.append((i, o, "free"))
            return
        if n in PURE:
            if i.ty.kind == "ptr":
                self.put(i, self.p(i.ops[0]))
            return
        a = api(n)
        if a is not None:
            if final:
                self.calls.append((i, a))
            if a == "iter_peek_ref" and len(i.ops) >= 4:
                for k in (1, 3):
                    for o, x in self.p(i.ops[k]):
                        self.setc(o, x, {(("IDX",), None)})
                if final:
                    for k in (1, 2, 3, 4):
                        if k < len(i.ops):
                            self.w(i, i.ops[k], "index output")
            elif i.ty.kind == "ptr":
                self.put(i, {(("N", i.id), 0)} if a == "iter_create" else {(("IDXP",), None)})
            elif a.startswith("iter_") and final and a != "iter_valid":
                self.w(i, i.ops[0], "iterator move")
            return
        if n in EXT_WRITES:
            if final:
                for k in EXT_WRITES[n]:
                    self.w(i, i.ops[k], n)
            return
        f = self.mod.fns.get(n)
        if f is None or f.decl:
            if i.ty.kind == "ptr" and i.ops:
                s = set()
                for o in i.ops:
                    s |= {(ob, None) for ob, _ in self.p(o)}
                self.put(i, s)
            return
        if "mersenne_twister" in f.dem or "random" in f.dem:
            if final:
                self.w(i, i.ops[0], "random number generator advance")
            return
        if n not in self.sum:
            self.sum[n] = (set(), set())
            e = Effects(self.mod, f, self.sum, self.depth + 1)
            ws, ret = set(), set()
            for _, o, how in e.writes:
                r = o
                d = False
                while r[0] == "D":
                    r, d = r[1], True
                if r[0] == "P":
                    ws.add((r[1], d))
                elif r[0] in ("G", "IDX"):
                    ws.add((o, None))
            for b in e.fn.blocks:
                for j in b.insts:
                    if j.op == "ret" and j.ops and j.ops[0].ty.kind == "ptr":
                        ret |= e.p(j.ops[0])
            self.sum[n] = (ws, ret)
            self.n += e.n
        ws, ret = self.sum[n]
        if final:
            for k, d in ws:
                if d is None:
                    self.writes.append((i, k, "call of " + f.dem.split("(")[0][-40:]))
                elif k < len(i.ops):
                    for o, x in self.p(i.ops[k]):
                        if d:
                            for o2, _ in self.content(o, x):
                                self.writes.append((i, o2, "call of " + f.dem.split("(")[0][-40:]))
                        else:
                            self.writes.append((i, o, "call of " + f.dem.split("(")[0][-40:]))
        if ret:
            s = set()
            for o, x in ret:
                if o[0] == "P" and o[1] < len(i.ops):
                    s |= {(ob, None) for ob, _ in self.p(i.ops[o[1]])}
            self.put(i, s)


def describe(o):
    r, d = o, 0
    while r[0] == "D":
        r, d = r[1], d + 1
    return r, d


def check(tier):
    def ent(d):
        m = pipeline.method(d)
        if m is None or "::" in m.split("(")[0].split("<")[0]:
            return False
        nm = m.split("(")[0].split("<")[0].strip()
        return nm in CONST_OPS or nm in ("Insert", "Delete", "BulkLoadStreaming", "BulkLoadStreamingFinish", "Diva",
                                         "ShrinkInfixSize")
    mod = pipeline.diva_module(keep=(), tag="full", entries=ent)
    viol, cov = [], {"functions": []}
    ev = {"read-only operations": 0, "stores judged": 0, "index calls judged": 0, "operations": 0}
    seen = set()
    summaries = {}
    for f in sorted(mod.fns.values(), key=lambda f: f.dem):
        if f.decl or not ent(f.dem):
            continue
        nm = pipeline.method(f.dem).split("(")[0].split("<")[0].strip()
        ro = nm in CONST_OPS
        e = Effects(mod, f, summaries)
        ev["operations"] += 1
        ev["read-only operations"] += ro
        cov["functions"].append({"function": f.dem, "writes": len(e.writes), "index_calls": len(e.calls)})

        def rep(i, msg):
            k = (i.loc(), msg)
            if k in seen:
                return
            seen.add(k)
            viol.append({"entry": f.dem, "loc": i.loc(), "msg": msg, "trail": []})
        for i, o, how in e.writes:
            ev["stores judged"] += 1
            r, d = describe(o)
            if r[0] == "P" and r[1] >= 1:
                if nm == "Serialize" and d == 0:
                    continue
                if how in ("iterator move", "index output"):
                    continue
                rep(i, f"{how} writes to memory the caller passed as input of {nm}")
            elif ro and r[0] == "P":
                rep(i, f"{how} changes the filter's " + ("own state" if d == 0 else "data") + f" during the read-only operation {nm}")
            elif ro and r[0] == "IDX":
                rep(i, f"{how} changes a boundary key or partition record during the read-only operation {nm}")
            elif ro and r[0] == "G":
                rep(i, f"{how} changes a global variable during the read-only operation {nm}")
        for i, a in e.calls:
            ev["index calls judged"] += 1
            if ro and a in MUTATES:
                rep(i, f"read-only operation {nm} calls the index mutator {a}")
    cov["events"] = ev
    return viol, cov
