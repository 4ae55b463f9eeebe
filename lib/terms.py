"""Hash-consed value terms with light algebraic normalisation (used by the value-flow engine)."""

_tab = {}
_n = 0


class T:
    __slots__ = ("op", "args", "id", "w", "ptr", "depth")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args, w=64, ptr=False):
    global _n
    key = (op, w) + tuple(a.id if isinstance(a, T) else ("#", a) for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.w = w
        t.ptr = ptr
        t.id = _n
        d = 0
        for a in args:
            if isinstance(a, T) and a.depth >= d:
                d = a.depth + 1
        t.depth = d
        _n += 1
        _tab[key] = t
    return t


def M(w):
    return (1 << w) - 1


def const(v, w=64):
    return mk("c", v & M(w), w=w)


def isc(t):
    return t.op == "c"


def cv(t):
    return t.args[0]


def scv(t):
    v = t.args[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


def tok(*name, w=64, ptr=False):
    return mk("tok", *name, w=w, ptr=ptr)


# ---- linear sums -------------------------------------------------------------------------------
def lin_parts(t):
    """-> (const, {term: coef})"""
    if t.op == "c":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1:][i:i + 2] for i in range(0, len(t.args) - 1, 2)) if False else \
            {t.args[i]: t.args[i + 1] for i in range(1, len(t.args), 2)}
    return 0, {t: 1}


def mklin(c, d, w):
    m = M(w)
    c &= m
    items = [(t, k & m) for t, k in d.items() if k & m]
    if not items:
        return const(c, w)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    args = [c]
    ptr = False
    for t, k in items:
        args += [t, k]
        if k == 1 and t.ptr:
            ptr = True
    return mk("lin", *args, w=w, ptr=ptr)


def add(a, b):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + k
    return mklin(ca + cb, da, a.w)


def mulc(a, k):
    c, d = lin_parts(a)
    return mklin(c * k, {t: x * k for t, x in d.items()}, a.w)


def sub(a, b):
    return add(a, mulc(b, -1))


def addr_parts(t):
    """pointer term -> (base T or None, const offset (signed), var T or None)"""
    if t.ptr and t.op != "lin":
        return t, 0, None
    if t.op == "lin":
        c, d = lin_parts(t)
        if c >> 63:
            c -= 1 << 64
        bases = [x for x, k in d.items() if k == 1 and x.ptr]
        if len(bases) == 1:
            b = bases[0]
            rest = {x: k for x, k in d.items() if x is not b}
            var = mklin(0, rest, 64) if rest else None
            return b, c, var
        return t, 0, None
    return t, 0, None


NOTS = {"ne": "eq", "uge": "ult", "sge": "slt", "ule": None, "ugt": None}


def icmp(pred, a, b):
    """canonical atoms: eq(a,b) a.id<b.id ; ult ; slt ; negations through xor 1"""
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        sx, sy = scv(a), scv(b)
        r = {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
             "slt": sx < sy, "sle": sx <= sy, "sgt": sx > sy, "sge": sx >= sy}[pred]
        return const(int(r), 1)
    if pred == "ne":
        return not1(icmp("eq", a, b))
    if pred == "ugt":
        return icmp("ult", b, a)
    if pred == "sgt":
        return icmp("slt", b, a)
    if pred == "uge":
        return not1(icmp("ult", a, b))
    if pred == "sge":
        return not1(icmp("slt", a, b))
    if pred == "ule":
        return not1(icmp("ult", b, a))
    if pred == "sle":
        return not1(icmp("slt", b, a))
    if a is b:
        return const(1 if pred == "eq" else 0, 1)
    if pred == "eq":
        # non-null objects
        for x, y in ((a, b), (b, a)):
            if isc(y) and cv(y) == 0:
                if x.op in ("alloca", "glob", "fn", "heap"):
                    return const(0, 1)
            if isc(y) and x.op == "zext":
                i = x.args[0]
                if cv(y) >> i.w:
                    return const(0, 1)
                return icmp("eq", i, const(cv(y), i.w))
        if a.w == 1:
            if isc(b):
                return a if cv(b) else not1(a)
            if isc(a):
                return b if cv(a) else not1(b)
        if not isc(a) and not isc(b):
            # equal up to common linear parts
            ca, da = lin_parts(a)
            cb, db = lin_parts(b)
            if (a.op == "lin" or b.op == "lin"):
                d = sub(a, b)
                if isc(d):
                    return const(int(cv(d) == 0), 1)
        elif isc(b) and a.op == "lin":
            c, d = lin_parts(a)
            if len(d) == 1 and list(d.values())[0] == 1:
                return icmp("eq", list(d)[0], const(cv(b) - c, a.w))
        elif isc(a):
            return icmp("eq", b, a)
        if isc(a):
            a, b = b, a
        elif not isc(b) and a.id > b.id:
            a, b = b, a
        return mk("icmp", "eq", a, b, w=1)
    if pred == "ult":
        if isc(b) and cv(b) == 0:
            return const(0, 1)
        if isc(b) and cv(b) == 1:
            return icmp("eq", a, const(0, a.w))
    return mk("icmp", pred, a, b, w=1)


def not1(t):
    if isc(t):
        return const(1 - cv(t), 1)
    if t.op == "not":
        return t.args[0]
    return mk("not", t, w=1)


def trunc(a, w):
    if a.w == w:
        return a
    if isc(a):
        return const(cv(a), w)
    if a.op in ("zext", "sext"):
        i = a.args[0]
        if i.w == w:
            return i
        if i.w > w:
            return trunc(i, w)
        return mk(a.op, i, w=w)
    if a.op == "trunc":
        return trunc(a.args[0], w)
    if a.op == "lin":
        c, d = lin_parts(a)
        dd = {}
        for t, k in d.items():
            x = trunc(t, w)
            cx, dx = lin_parts(x)
            c += cx * k
            for y, ky in dx.items():
                dd[y] = dd.get(y, 0) + ky * k
        return mklin(c, dd, w)
    if a.op in ("and", "or", "xor"):
        return binop(a.op, trunc(a.args[0], w), trunc(a.args[1], w))
    return mk("trunc", a, w=w)


def zext(a, w):
    if a.w == w:
        return a
    if isc(a):
        return const(cv(a), w)
    if a.op == "zext":
        return zext(a.args[0], w)
    return mk("zext", a, w=w)


def sext(a, w):
    if a.w == w:
        return a
    if isc(a):
        return const(scv(a), w)
    if a.op == "zext":
        return zext(a.args[0], w)
    if a.op == "sext":
        return sext(a.args[0], w)
    return mk("sext", a, w=w)


def select(c, a, b):
    if isc(c):
        return a if cv(c) else b
    if a is b:
        return a
    if c.op == "not":
        return select(c.args[0], b, a)
    if a.w == 1:
        if isc(a) and isc(b):
            return c if cv(a) else not1(c)
        if isc(b) and cv(b) == 0:
            return mk("and", *sorted((c, a), key=lambda x: x.id), w=1)
        if isc(a) and cv(a) == 1:
            return mk("or", *sorted((c, b), key=lambda x: x.id), w=1)
    return mk("select", c, a, b, w=a.w, ptr=a.ptr or b.ptr)


def binop(op, a, b):
    w = a.w
    m = M(w)
    if op == "add":
        return add(a, b)
    if op == "sub":
        return sub(a, b)
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        if op == "mul":
            return const(x * y, w)
        if op == "and":
            return const(x & y, w)
        if op == "or":
            return const(x | y, w)
        if op == "xor":
            return const(x ^ y, w)
        if op == "shl":
            return const(x << y if y < w else 0, w)
        if op == "lshr":
            return const(x >> y if y < w else 0, w)
        if op == "ashr":
            return const(scv(a) >> min(y, w - 1), w)
        if op == "udiv" and y:
            return const(x // y, w)
        if op == "urem" and y:
            return const(x % y, w)
        if op == "sdiv" and y:
            q = abs(scv(a)) // abs(scv(b))
            return const(q if (scv(a) < 0) == (scv(b) < 0) else -q, w)
        if op == "srem" and y:
            r = abs(scv(a)) % abs(scv(b))
            return const(-r if scv(a) < 0 else r, w)
    if op in ("and", "or", "xor", "mul") and isc(a):
        a, b = b, a
    if isc(b):
        y = cv(b)
        if op == "mul":
            return mulc(a, y)
        if op == "shl":
            return mulc(a, 1 << y) if y < w else const(0, w)
        if op == "and":
            if y == 0:
                return const(0, w)
            if y == m:
                return a
            if a.op == "zext" and (y & M(a.args[0].w)) == M(a.args[0].w):
                return a
        if op in ("or", "xor") and y == 0:
            return a
        if op == "or" and y == m:
            return const(m, w)
        if op == "xor" and w == 1 and y == 1:
            return not1(a)
        if op == "xor" and y == m:
            return mklin(-1, {k: -v for k, v in lin_parts(a)[1].items()}, w) if a.op != "lin" and not isc(a) else \
                sub(const(m, w), a)
        if op in ("lshr", "ashr", "udiv", "sdiv") and ((y == 0 and "sh" in op) or (y == 1 and "div" in op)):
            return a
        if op == "udiv" and y & (y - 1) == 0:
            return binop("lshr", a, const(y.bit_length() - 1, w))
        if op == "urem" and y & (y - 1) == 0:
            return binop("and", a, const(y - 1, w))
        if op == "lshr" and a.op == "lshr" and isc(a.args[1]):
            s = y + cv(a.args[1])
            return binop("lshr", a.args[0], const(s, w)) if s < w else const(0, w)
    if isc(a) and cv(a) == 0 and op in ("shl", "lshr", "ashr", "udiv", "urem"):
        return a
    if op in ("and", "or") and a is b:
        return a
    if op == "xor" and a is b:
        return const(0, w)
    if op in ("and", "or", "xor", "mul") and not isc(b) and a.id > b.id:
        a, b = b, a
    return mk(op, a, b, w=w)


def subst(t, m, memo=None):
    """rebuild t replacing terms per dict m"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if not any(isinstance(a, T) for a in t.args):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    na = [subst(a, m, memo) if isinstance(a, T) else a for a in t.args]
    if all(x is y for x, y in zip(na, t.args)):
        r = t
    else:
        r = rebuild(t, na)
    memo[t] = r
    return r


def rebuild(t, na):
    op = t.op
    if op == "lin":
        c = na[0]
        d = {}
        for i in range(1, len(na), 2):
            ci, di = lin_parts(na[i])
            k = na[i + 1]
            c += ci * k
            for x, kx in di.items():
                d[x] = d.get(x, 0) + kx * k
        return mklin(c, d, t.w)
    if op == "icmp":
        return icmp(na[0], na[1], na[2])
    if op == "not":
        return not1(na[0])
    if op == "select":
        return select(*na)
    if op == "trunc":
        return trunc(na[0], t.w)
    if op == "zext":
        return zext(na[0], t.w)
    if op == "sext":
        return sext(na[0], t.w)
    if op in ("mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
        return binop(op, na[0], na[1])
    return mk(op, *na, w=t.w, ptr=t.ptr)


def contains(t, x, memo=None):
    if t is x:
        return True
    if t.depth <= x.depth:
        return False
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = any(isinstance(a, T) and contains(a, x, memo) for a in t.args)
        memo[t] = r
    return r


def leaves(t, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op in ("tok", "arg", "alloca", "glob", "ld", "heap", "ib"):
        acc.add(t)
    for a in t.args:
        if isinstance(a, T):
            leaves(a, acc, seen)
    return acc


def show(t, d=0):
    if t.op == "c":
        v = t.args[0]
        return str(v if v < (1 << (t.w - 1)) or t.w == 1 else v - (1 << t.w))
    if t.op == "tok":
        return "$" + ".".join(show(a) if isinstance(a, T) else str(a) for a in t.args)
    if d > 6:
        return "…"
    if t.op == "lin":
        s = [str(t.args[0])] if t.args[0] else []
        for i in range(1, len(t.args), 2):
            k = t.args[i + 1]
            if k >> (t.w - 1):
                k -= 1 << t.w
            s.append((f"{k}*" if k != 1 else "") + show(t.args[i], d + 1))
        return "(" + " + ".join(s) + ")"
    if not t.args:
        return t.op
    return t.op + "(" + ", ".join(show(a, d + 1) if isinstance(a, T) else str(a) for a in t.args) + ")"
