"""Evaluation of value terms under a valuation of their leaves.

The value-flow analysis produces expressions; two expressions of different form may still denote the same function.  An
expression is reported as wrong only when a valuation of its leaves (satisfying the branch facts of its path) gives it
another value than the specified expression, so a difference in form alone is never an alarm."""
import hashlib, random
from terms import *


class Unknown(Exception):
    pass


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Val:
    """one valuation; leaves get values lazily"""

    def __init__(self, seed, fixed=None, choose=None, opaque_ok=False):
        self.rng = random.Random(seed)
        self.seed = seed
        self.fixed = dict(fixed or {})
        self.choose = choose
        self.memo = {}
        self.nptr = 0
        self.memfix = {}
        self.bytegen = None

    def leaf(self, t):
        v = self.fixed.get(t)
        if v is None:
            v = self.choose(self, t) if self.choose else None
            if v is None:
                if t.ptr:
                    self.nptr += 1
                    v = (0x100 + self.nptr) << 40
                else:
                    v = self.interesting(t.w)
            v &= M(t.w)
            self.fixed[t] = v
        return v

    pool = ()
    wrap = False

    def interesting(self, w):
        r = self.rng
        k = r.random()
        if self.pool and k < 0.3:
            return r.choice(self.pool) & M(w)
        if self.pool:
            k = r.random()
        if k < 0.12:
            return r.choice([0, 1, 2, 3, M(w), M(w) - 1, 1 << (w - 1)]) & M(w)
        if k < 0.3:
            return (1 << r.randrange(w)) + r.choice([0, 0, 1, M(w)]) & M(w)
        if k < 0.5:
            return r.getrandbits(r.randrange(1, w + 1))
        return r.getrandbits(w)

    def byte(self, addr, ver):
        k = (addr, ver)
        b = self.memfix.get(k)
        if b is None:
            if self.bytegen is not None:
                b = self.bytegen(self, addr, ver)
            if b is None:
                h = hashlib.blake2b(b"%d,%d,%d" % (addr, ver, self.seed), digest_size=2).digest()
                b = h[0]
                if h[1] < 60:
                    b = 0
                elif h[1] < 120:
                    b = 255
            self.memfix[k] = b
        return b

    def membyte(self, addr, ver):
        """byte at address under a version term"""
        if ver.op == "memv":
            inner, base = ver.args[0], ver.args[1]
            ba = self.ev(base)
            for k in range(2, len(ver.args), 3):
                o, s, x = ver.args[k:k + 3]
                if 0 <= (addr - ba - o) < s:
                    return (self.ev(x) >> (8 * (addr - ba - o))) & 255
            return self.membyte(addr, inner)
        if ver.op == "select":
            return self.membyte(addr, ver.args[1] if self.ev(ver.args[0]) else ver.args[2])
        if ver.op == "c":
            return self.byte(addr, 0)
        return self.byte(addr, ver.id + 1)

    def load(self, addr, size, ver):
        return sum(self.membyte((addr + k) & M(64), ver) << (8 * k) for k in range(size))

    def ev(self, t):
        m = self.memo.get(t)
        if m is None:
            m = self._ev(t) & M(t.w)
            self.memo[t] = m
        return m

    def _ev(self, t):
        op, a, w = t.op, t.args, t.w
        if op == "c":
            return a[0]
        if op in ("tok", "arg", "alloca", "glob", "fn", "heap"):
            if op == "tok" and a and a[0] in ("mix", "ldm", "undef", "undefc") and t not in self.fixed:
                raise Unknown(op)
            return self.leaf(t)
        if t in self.fixed:
            return self.fixed[t]
        if op == "lin":
            s = a[0]
            for k in range(1, len(a), 2):
                s += self.ev(a[k]) * a[k + 1]
            return s
        if op == "ld":
            return self.load(self.ev(a[0]), a[1], a[2])
        if op == "mcp":
            old, src, n, ver = a
            v = self.ev(old)
            k = self.ev(n)
            if k > w // 8:
                raise Unknown("copy past the end of the cell")
            for j in range(k):
                v = v & ~(255 << (8 * j)) | self.membyte((self.ev(src) + j) & M(64), ver) << (8 * j)
            return v
        if op == "icmp":
            p, x, y = a[0], self.ev(a[1]), self.ev(a[2])
            sx, sy = sgn(x, a[1].w), sgn(y, a[1].w)
            return int({"eq": x == y, "ult": x < y, "slt": sx < sy}[p])
        if op == "not":
            return 1 - self.ev(a[0])
        if op == "select":
            return self.ev(a[1]) if self.ev(a[0]) else self.ev(a[2])
        if op in ("trunc", "zext", "asptr"):
            return self.ev(a[0])
        if op == "sext":
            return sgn(self.ev(a[0]), a[0].w)
        if op in ("mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            x, y = self.ev(a[0]), self.ev(a[1])
            if op == "mul":
                return x * y
            if op == "and":
                return x & y
            if op == "or":
                return x | y
            if op == "xor":
                return x ^ y
            if op in ("shl", "lshr", "ashr"):
                if y >= w and self.wrap and w in (32, 64):
                    y %= w
                if y >= w:
                    # x86 takes the count modulo the width; the language leaves it undefined
                    raise Unknown("shift by %d" % y)
                return x << y if op == "shl" else x >> y if op == "lshr" else sgn(x, w) >> y
            if y == 0:
                raise Unknown("division by zero")
            if op == "udiv":
                return x // y
            if op == "urem":
                return x % y
            sx, sy = sgn(x, w), sgn(y, w)
            q = abs(sx) // abs(sy)
            q = q if (sx < 0) == (sy < 0) else -q
            return q if op == "sdiv" else sx - q * sy
        if op.startswith("i."):
            n = op[2:]
            v = [self.ev(x) for x in a if isinstance(x, T)]
            if n == "bswap":
                return int.from_bytes(v[0].to_bytes(w // 8, "little"), "big")
            if n == "ctpop":
                return bin(v[0]).count("1")
            if n == "ctlz":
                return w - v[0].bit_length()
            if n == "cttz":
                return w if v[0] == 0 else (v[0] & -v[0]).bit_length() - 1
            if n == "umin":
                return min(v)
            if n == "umax":
                return max(v)
            if n == "smin":
                return min(v, key=lambda x: sgn(x, w))
            if n == "smax":
                return max(v, key=lambda x: sgn(x, w))
            if n == "abs":
                return abs(sgn(v[0], w))
            if n == "usub.sat":
                return max(0, v[0] - v[1])
            if n == "uadd.sat":
                return min(M(w), v[0] + v[1])
            if n == "fshl":
                s = v[2] % w
                return (v[0] << s | v[1] >> (w - s)) if s else v[0]
            if n == "fshr":
                s = v[2] % w
                return (v[0] << (w - s) | v[1] >> s) if s else v[1]
            if n.startswith("x86.bmi.pdep"):
                r, k, m = 0, 0, v[1]
                while m:
                    b = m & -m
                    if v[0] >> k & 1:
                        r |= b
                    k += 1
                    m ^= b
                return r
        if op == "pcall" and a[0] in ("memcmp", "bcmp"):
            p, q, n = self.ev(a[1]), self.ev(a[2]), self.ev(a[3])
            vs = a[4].args if a[4].op == "vs" else (const(0), const(0))
            if n > 4096:
                raise Unknown("length")
            for k in range(n):
                x = self.membyte(p + k & M(64), vs[0])
                y = self.membyte(q + k & M(64), vs[1] if len(vs) > 1 else vs[0])
                if x != y:
                    return (1 if x > y else -1) & M(w)
            return 0
        raise Unknown(op)


def facts_ok(v, facts):
    """True if the valuation satisfies every branch fact that can be evaluated, None if some cannot be"""
    und = False
    for c, want in facts.items():
        try:
            if bool(v.ev(c)) != want:
                return False
        except Unknown:
            und = True
    return None if und else True


def constants(ts):
    """constants of the terms, in both byte orders, and their neighbours"""
    seen, out, st = set(), set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "c":
            out.add((cv(t), t.w))
        elif t.op == "lin":
            out.add((t.args[0], t.w))
            out.add((-t.args[0] & M(t.w), t.w))
        st += [a for a in t.args if isinstance(a, T)]
    res = set()
    for v, w in out:
        for d in (0, 1, -1):
            res.add(v + d & M(w))
        if w % 16 == 0:
            res.add(int.from_bytes(v.to_bytes(w // 8, "little"), "big"))
    return tuple(sorted(res))[:400]


def differs(pairs, facts=None, n=200, seed=1, choose=None, setup=None, tries=40):
    """searches for a valuation satisfying `facts` under which some (a, b) of pairs differ.
    -> (valuation or None, number of valuations compared)"""
    if all(a is b for a, b in pairs):
        return None, 0
    done = 0
    pool = constants([t for p in pairs for t in p] + list(facts or ()))
    for k in range(n * tries):
        if done >= n:
            break
        v = Val(seed * 1000003 + k, choose=choose)
        v.pool = pool
        if setup is not None and setup(v) is False:
            continue
        try:
            if facts and facts_ok(v, facts) is not True:
                continue
            done += 1
            for a, b in pairs:
                if v.ev(a) != v.ev(b):
                    return v, done
        except Unknown:
            continue
    return None, done
