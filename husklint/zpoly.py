"""Integer view of machine arithmetic.

Every term denotes an unsigned machine integer; here it becomes a polynomial over the *integers* whose symbols are
inputs and floors Q(t,k) = floor(t / 2^k).  A slice t[k..k+n] is Q(t,k) - 2^n Q(t,k+n); a sum whose interval fits its
width is the sum itself.  Carry chains telescope in this view, so that a multi-word computation can be compared with
the number it stands for, exactly or modulo a prime."""
from term import *
import term as TT


def val2(c):
    return (c & -c).bit_length() - 1


class Z:
    """Polynomials are dicts from sorted tuples of symbol numbers to coefficients.  A symbol is a term, one bit that is
    not a literal, or a floor: ("f", frozenset of a polynomial's items, k) is floor(polynomial / 2^k)."""

    def __init__(self):
        self.sym = {}
        self.keys = []
        self.rg = []
        self.memo = {}
        self.fmemo = {}
        self.level = self.work = 0
        self.known = {}          # bounds of polynomials that are the value of a term, without common factor

    def s(self, key, lo, hi):
        i = self.sym.get(key)
        if i is None:
            i = self.sym[key] = len(self.keys)
            self.keys.append(key)
            self.rg.append((lo, hi))
        return {(i,): 1}

    @staticmethod
    def acc(d, e, c=1):
        for m, x in e.items():
            y = d.get(m, 0) + c * x
            if y:
                d[m] = y
            else:
                d.pop(m, None)
        return d

    def sum(self, *parts):
        r = {}
        for c, e in parts:
            self.acc(r, e, c)
        return r

    @staticmethod
    def mul(a, b):
        r = {}
        for m, x in a.items():
            for n, y in b.items():
                k = tuple(sorted(m + n))
                z = r.get(k, 0) + x * y
                if z:
                    r[k] = z
                else:
                    r.pop(k, None)
        return r

    # ---- bounds
    def plain(self, P):
        lo = hi = 0
        for m, c in P.items():
            a, b = 1, 1
            for i in m:
                l, h = self.rg[i]
                xs = (a * l, a * h, b * l, b * h)
                a, b = min(xs), max(xs)
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    @staticmethod
    def prim(P):
        from math import gcd
        g = 0
        for c in P.values():
            g = gcd(g, c)
        return g, frozenset((m, c // g) for m, c in P.items())

    def know(self, P, lo, hi):
        """the value of this polynomial is known to lie in [lo, hi]"""
        c0 = P.get((), 0)
        P = {m: c for m, c in P.items() if m}
        if not P:
            return
        lo, hi = lo - c0, hi - c0
        g, key = self.prim(P)
        lo, hi = -(-lo // g), hi // g
        l, h = self.known.get(key, (lo, hi))
        self.known[key] = (max(l, lo), min(h, hi))
        if len(P) == 1 and g == 1:
            m = next(iter(P))
            if len(m) == 1:
                if P[m] < 0:
                    lo, hi = -hi, -lo
                l, h = self.rg[m[0]]
                self.rg[m[0]] = (max(l, lo), min(h, hi))

    def interval(self, P, depth=0):
        if self.level == 0:
            self.work = 0
        self.level += 1
        lo, hi = self.bounds(P, self.level - 1) if self.work < 150 else self.plain(P)
        self.work += 1
        self.level -= 1
        c0 = P.get((), 0)
        Q = {m: c for m, c in P.items() if m}
        if Q:
            g, key = self.prim(Q)
            for s in (1, -1):
                x = self.known.get(key)
                if x is not None:
                    l, h = sorted((x[0] * g * s, x[1] * g * s))
                    lo, hi = max(lo, l + c0), min(hi, h + c0)
                key = frozenset((m, -c) for m, c in key)
        return lo, hi

    def bounds(self, P, depth=0):
        """A - 2^k floor(A / 2^k) lies in [0, 2^k)"""
        lo, hi = self.plain(P)
        if (lo >= 0 and depth == 0) or depth > 6:
            return lo, hi
        for m, c in sorted(P.items()):
            if len(m) == 1 and c < 0 and self.keys[m[0]][0] == "f":
                _, A, k = self.keys[m[0]]
                j = min(val2(-c), k)
                f = -c >> j
                D = self.fl(dict(A), k - j) if j < k else dict(A)
                if not any(x in P or len(x) == 1 and self.keys[x[0]][0] == "f" for x in D if x):
                    continue
                Q = self.acc(dict(P), D, -f)
                self.acc(Q, {m: 1}, -c)
                l, h = self.interval(Q, depth + 1)
                h += f * ((1 << j) - 1)
                lo, hi = max(lo, l), min(hi, h)
                # the difference of two floors
                for n, e in P.items():
                    if e > 0 and len(n) == 1 and self.keys[n[0]][0] == "f" and self.keys[n[0]][2] == k and n != m:
                        a, b = self.interval(self.sum((1, dict(self.keys[n[0]][1])), (-1, dict(A))), depth + 2)
                        f = min(e, -c)
                        if b - a < 1 << 2 * k:
                            l, h = self.interval(self.sum((1, P), (-f, {n: 1}), (f, {m: 1})), depth + 2)
                            lo, hi = max(lo, l + f * (a >> k)), min(hi, h + f * -(-b >> k))
        return lo, hi

    # ---- floors
    def fl(self, P, k):
        if k == 0:
            return P
        key = (frozenset(P.items()), k)
        r = self.fmemo.get(key)
        if r is None:
            r = self.fmemo[key] = self.fl1(P, k)
        return r

    def fl1(self, P, k):
        l, h = self.interval(P)
        if l >> k == h >> k:
            return {(): l >> k} if l >> k else {}
        c = h >> k
        if l >> k == c - 1:
            # close to a multiple of 2^k: the side of it is the sign
            b = c << k
            j = max((h - b).bit_length(), (b - l - 1).bit_length())
            if j < k:
                return self.sum((1, {(): c}), (1, self.fl(self.sum((1, P), (-b, {(): 1})), j)))
        A, B = {}, {}
        for m, c in P.items():
            a = (c + (1 << k - 1) - 1) >> k
            b = c - (a << k)
            if a:
                A[m] = a
            if b:
                B[m] = b
        if A:
            return self.acc(A, self.fl(B, k)) if B else A
        # fractions that only matter through their floor
        for m, c in sorted(B.items()):
            if len(m) == 1 and self.keys[m[0]][0] == "f" and c == 1:
                _, P1, k1 = self.keys[m[0]]
                rest = dict(B)
                del rest[m]
                return self.acc(A, self.fl(self.sum((1, dict(P1)), (1 << k1, rest)), k + k1))
        if not B:
            return A
        v = min(val2(c) for c in B.values())
        if v:
            B = {m: c >> v for m, c in B.items()}
            k -= v
        if k == 1 and () in B:
            # floor((x + 1) / 2) = x - floor(x / 2)
            X = {m: c for m, c in B.items() if m}
            return self.sum((1, A), (1, X), (-1, self.fl(X, 1)))
        # low parts that cannot carry
        for j in sorted({val2(c) for c in B.values()}, reverse=True):
            if j == 0 or j > k:
                continue
            L = {m: c for m, c in B.items() if val2(c) < j}
            l, h = self.interval(L)
            if l >= 0 and h < 1 << j:
                U = {m: c >> j for m, c in B.items() if val2(c) >= j}
                return self.acc(A, self.fl(U, k - j))
        l, h = self.interval(B)
        if l >> k == h >> k:
            return self.acc(A, {(): l >> k} if l >> k else {})
        return self.acc(A, self.s(("f", frozenset(B.items()), k), l >> k, h >> k))

    def mod(self, P, w):
        return self.sum((1, P), (-(1 << w), self.fl(P, w)))

    # ---- terms
    def z(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.z1(t)
            self.know(r, *rng(t))
        return r

    def z1(self, t):
        if t.op == "c":
            return {(): t.a} if t.a else {}
        if t.op == "s":
            b, lo, n = t.a
            b = self.z(b)
            return self.sum((1, self.fl(b, lo)), (-(1 << n), self.fl(b, lo + n)))
        if t.op == "p":
            r = {}
            lo = hi = 0
            for m, c in t.a:
                if c >> (t.w - 1):
                    c -= 1 << t.w
                x = {(): 1}
                a = b = 1
                for i in m:
                    x = self.mul(x, self.z(byid(i)))
                    l, h = rng(byid(i))
                    a, b = a * l, b * h
                self.acc(r, x, c)
                lo, hi = lo + min(c * a, c * b), hi + max(c * a, c * b)
            self.know(r, lo, hi)
            return self.mod(r, t.w)
        if t.op == "b":
            return self.zb(t)
        return self.s(("t", t.id), *rng(t))

    def lit(self, i, k):
        b = self.z(byid(i))
        return self.sum((1, self.fl(b, k)), (-2, self.fl(b, k + 1)))

    def fold(self, b):
        """with the literals whose value is constant replaced"""
        known = {}
        for l in {l for m in b for l in m}:
            v = self.lit(*l)
            if not any(v):
                known[l] = v.get((), 0)
        if not known:
            return b
        r = {}
        for m in b:
            if any(known.get(l) == 0 for l in m):
                continue
            m = frozenset(l for l in m if l not in known)
            r[m] = not r.get(m, False)
        return frozenset(m for m, x in r.items() if x)

    def zb(self, t):
        r = {}
        for j, b in enumerate(getbits(t)):
            if len(b) > 1:
                b = self.fold(b)
            if not b:
                continue
            one = frozenset() in b
            ms = [m for m in b if m]
            if len(ms) == 0:
                x = {(): 1}
            elif len(ms) == 1 and len(ms[0]) == 1:
                x = self.lit(*next(iter(ms[0])))
                if one:
                    x = self.sum((1, {(): 1}), (-1, x))
            elif all(len(m) == 1 for m in ms):
                # the parity of the sum
                x = self.sum(*((1, self.lit(*next(iter(m)))) for m in ms), (int(one), {(): 1}))
                x = self.mod(x, 1)
            else:
                x = self.s(("bit", b), 0, 1)
            self.acc(r, x, 1 << j)
        return r

    def number(self, parts, bits=8):
        r = {}
        for i, b in enumerate(parts):
            self.acc(r, self.z(b), 1 << (bits * i))
        return r

    def show(self, d, n=12):
        out = []
        for m, c in sorted(d.items(), key=lambda x: (len(x[0]), x[0]))[:n]:
            out.append("%s*%s" % (hex(c), ".".join(self.name(i) for i in m) or "1"))
        return " + ".join(out) + (" ... %d terms" % len(d) if len(d) > n else "")

    def name(self, i):
        k = self.keys[i]
        if k[0] == "t":
            return show(byid(k[1]))[:40]
        if k[0] == "f":
            return "f%d[%d,%d]" % (i, len(k[1]), k[2])
        return "%s#%d" % (k[0], i)


def word(bytes_le):
    """the machine word of which these are the bytes, lowest first"""
    n = len(bytes_le)
    t = bytes_le[-1]
    if t.op == "s" and t.a[1] == 8 * (n - 1) and t.a[2] == 8:
        b = t.a[0]
        b = b if b.w == 8 * n else cast(b, 8 * n)
        if all(cast(mkslice(b, 8 * i, 8), 8) is x for i, x in enumerate(bytes_le)):
            return b
    return None


def litsubst(t, lit, v, memo=None):
    """the term with one bit known"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "s":
        if t.a[0].id == lit[0] and t.a[1] == lit[1] and t.a[2] == 1:
            r = C(v, t.w)
        else:
            b = litsubst(t.a[0], lit, v, memo)
            r = t if b is t.a[0] else cast(mkslice(b, t.a[1], t.a[2]), t.w)
    elif t.op == "p":
        xs = {}
        ch = False
        for m, c in t.a:
            for i in m:
                y = litsubst(byid(i), lit, v, memo)
                xs[i] = y
                ch = ch or y is not byid(i)
        if not ch:
            r = t
        else:
            r = C(0, t.w)
            for m, c in t.a:
                x = C(c, t.w)
                for i in m:
                    x = mul(x, cast(xs[i], t.w))
                r = add(r, x)
    elif t.op == "b":
        out = []
        ch = False
        for b in getbits(t):
            nb = {}
            for m in b:
                if lit in m:
                    ch = True
                    if not v:
                        continue
                    m = m - {lit}
                nb[m] = not nb.get(m, False)
            out.append(frozenset(m for m, x in nb.items() if x))
        r = frombits(out) if ch else t
        if r.w != t.w:
            r = cast(r, t.w)
    else:
        r = t
    memo[t.id] = r
    return r


def lits(t, out=None, seen=None):
    """literals used together with others in one bit (selectors)"""
    if out is None:
        out, seen = {}, set()
    if t.id in seen:
        return out
    seen.add(t.id)
    if t.op == "s":
        lits(t.a[0], out, seen)
    elif t.op == "p":
        for m, c in t.a:
            for i in m:
                lits(byid(i), out, seen)
    elif t.op == "b":
        for b in getbits(t):
            for m in b:
                for l in m:
                    if len(m) > 1:
                        out[l] = out.get(l, 0) + 1
                    lits(byid(l[0]), out, seen)
    return out
