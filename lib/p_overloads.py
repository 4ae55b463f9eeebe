"""C06: integer and string overloads forward to the byte operation with the converted key, on every path."""
import os, re
import pipeline
from engine import *
from terms import *
from divamodel import DivaClient
import reval

NAMES = ("Insert", "Delete", "PointQuery", "RangeQuery", "BulkLoadStreaming")
UNROLL = "function(loop-simplify,loop-mssa(indvars),loop-unroll-full,instcombine<no-verify-fixpoint>,simplifycfg,sroa)"


def kinds(sig):
    """'Insert(unsigned long)' -> ('Insert', ['int']); None when it is not one of the overloads"""
    n = sig.split("(")[0]
    if n not in NAMES or not re.fullmatch(r"[A-Za-z]+\([^()]*\)( const)?", sig):
        return None
    a = sig[len(n) + 1:sig.rindex(")")]
    k = re.sub(r"std::basic_string_view<char, std::char_traits<char>\s*>( const&)?", "str", a)
    k = re.sub(r"std::basic_string<char, [^,]*, [^,]*>( const&)?", "strref", k)
    k = k.replace("unsigned char const*, unsigned int", "bytes").replace("unsigned long", "int")
    ks = [x.strip() for x in k.split(",")]
    if not all(x in ("int", "str", "bytes") for x in ks):
        return n, None
    return n, ks


class Fwd(DivaClient):
    def __init__(self, mod, var, name, ks):
        super().__init__(mod, var)
        self.name, self.ks = name, ks
        self.rets = []

    def call(self, eng, st, i, callee, args):
        if isinstance(callee, str):
            f = self.mod.fns.get(callee)
            m = pipeline.method(f.dem) if f is not None else None
            k = kinds(m) if m and "(" in m else None
            if k is not None:
                keys = []
                pos = 1
                for x in (k[1] or ()):
                    if x == "int":
                        keys.append(("int", args[pos]))
                        pos += 1
                    elif x == "str":
                        keys.append(("ptr", args[pos + 1], trunc(args[pos], 32), self.peek(eng, st, args[pos + 1])))
                        pos += 2
                    else:
                        keys.append(("ptr", args[pos], args[pos + 1], self.peek(eng, st, args[pos])))
                        pos += 2
                self.hit("forwarding call")
                st.key = st.key + ((k[0], args[0], tuple(keys), i),)
                if len(st.key) > 3:
                    st.key = st.key[:3]
                if i.ty.kind != "void":
                    st.env[i.id] = tok("ans", len(st.key), i.id, w=width(i.ty))
                return None
        return super().call(eng, st, i, callee, args)

    def peek(self, eng, st, p):
        b, o, v = addr_parts(p)
        if v is not None or b.op not in ("alloca",):
            return None
        return eng.read(st, b, o, 8)

    def ret(self, eng, st, i, val):
        self.hit("path end")
        self.rets.append((st, i, val))


def opaque(*ts):
    """a term the analysis could not resolve to the inputs"""
    def bad(t):
        return t.op in ("tok", "alloca", "ld", "pcall") or t.op.startswith("o.")
    seen = set()
    st = [t for t in ts if t is not None]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if bad(t):
            return True
        st += [a for a in t.args if isinstance(a, T)]
    return False


def derived(t):
    """a pointer or length that a loop or a search over the string's contents has changed"""
    l = leaves(t)
    pc = t.op == "pcall"
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        pc = pc or (x.op == "pcall" and x.args[0] in ("strlen", "strnlen", "memchr"))
        st += [a for a in x.args if isinstance(a, T)]
    return pc or any(x.op == "tok" and x.args[0] in ("j", "jo") for x in l)


def judge(eng, cl, name, ks):
    res = []
    delegating = any(st.key for st, _, _ in cl.rets)
    if not delegating:
        return res, "not delegating"
    und = 0
    for st, ri, val in cl.rets:
        if not st.key:
            eng.report(ri, "a path of this overload ends without performing the byte-string operation", st)
            continue
        if len(st.key) > 1:
            eng.report(st.key[1][3], "a path of this overload performs the operation more than once", st)
            continue
        cn, this, keys, ci = st.key[0]
        if cn != name:
            eng.report(ci, f"{name} forwards to {cn}", st)
            continue
        if this is not mk("arg", 0, ptr=True):
            und += 1
            continue
        if len(keys) != len(ks):
            und += 1
            continue
        facts = {k: v for k, v in st.facts.items() if not opaque(k)}
        pos = 1
        for n, (k, got) in enumerate(zip(ks, keys)):
            what = ("key", "left key", "right key")[0 if len(ks) == 1 else n + 1]
            if k == "int":
                a = mk("arg", pos)
                pos += 1
                if got[0] == "int":
                    pairs = [(got[1], a)]
                else:
                    want = mk("i.bswap", a)
                    pairs = [(got[2], const(8, got[2].w))]
                    if got[3] is None or opaque(got[3]):
                        und += 1
                    else:
                        pairs.append((got[3], want))
            else:
                size, data = mk("arg", pos), mk("arg", pos + 1, ptr=True)
                pos += 2
                if got[0] == "int":
                    und += 1
                    continue
                pairs = [(got[2], trunc(size, got[2].w))]
                if derived(got[2]) or derived(got[1]):
                    eng.report(ci, f"the {what} passed on is computed from the contents of the string, not its bytes and "
                                   "length as given", st, tag=f"arg{n}")
                    continue
                if opaque(got[1]):
                    und += 1
                else:
                    pairs.append((got[1], data))
            pairs = [(x, y) for x, y in pairs if not opaque(x)]

            def choose(v, t):
                return None
            cl.hit("argument")
            bad, nv = reval.differs(pairs, facts, n=300)
            if bad is not None:
                eng.report(ci, f"the {what} passed on is not the {'eight big-endian bytes' if k == 'int' else 'bytes and length'}"
                               f" of the {what} given (e.g. {[(hex(bad.ev(x)), hex(bad.ev(y))) for x, y in pairs]})", st,
                           tag=f"arg{n}")
        if val is not None:
            cl.hit("answer")
            ans = tok("ans", 1, ci.id, w=width(ci.ty))
            if contains(val, ans) or not opaque(val):
                v1 = val if val.w == ans.w else trunc(val, ans.w)
                bad, nv = reval.differs([(v1, ans)], {}, n=100)
                if bad is not None:
                    eng.report(ri, "the answer returned is not the answer of the byte-string operation", st)
            else:
                und += 1
    return res, und


def check(tier):
    def ent(n, d):
        m = pipeline.method(d)
        k = kinds(m) if m and "(" in m else None
        return k is not None and not re.match(r"_ZN4DivaILb[01]EE(C1|D1|D0)", n)

    def inl(n, d):
        return not pipeline.is_opaque_std(d)
    o = os.path.join(pipeline.scratch(), "diva_ovl.bc")
    pipeline.prep(pipeline.diva_bc(), o, inl, ent, pipeline.PASSES + "," + UNROLL)
    mod = pipeline.Module(o)
    mod.layout = pipeline.Layout(mod)
    viol, cov, fns, und = [], {}, [], []
    for f in list(mod.fns.values()):
        if f.decl:
            continue
        m = pipeline.method(f.dem)
        k = kinds(m) if m and "(" in m else None
        if k is None or k[1] is None or "bytes" in k[1]:
            continue
        name, ks = k
        cl = Fwd(mod, pipeline.variant(f.dem), name, ks)
        eng = Engine(mod, f, cl)
        eng.gated = True
        try:
            eng.run()
        except AnalysisError as e:
            und.append(f"{f.dem[:80]}: {e}")
            continue
        _, u = judge(eng, cl, name, ks)
        if u:
            und.append(f"{f.dem[:80]}: {u}")
        fns.append(f.dem)
        viol += eng.viol
        cov["overload"] = cov.get("overload", 0) + 1
        for a, b in cl.count.items():
            cov[a] = cov.get(a, 0) + b
    return viol, {"functions": fns, "events": cov, "undecided": und}
