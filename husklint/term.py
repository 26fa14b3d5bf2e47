"""Value-numbering domain: hash-consed scalar terms in normal form.

A term denotes an unsigned integer of `w` bits.  Normal forms:
  c  constant
  v  symbol (an unknown input), with a static interval
  f  uninterpreted function application (also an opaque atom)
  s  slice (base >> lo) mod 2^n of an opaque base
  p  polynomial over atoms, modulo 2^w
  b  tuple of `w` bits, each an algebraic normal form (XOR of ANDs) over bit atoms
Two computations that are equal modulo ring identities, bit shuffling and
boolean identities of bounded size get the same term, whatever the source
looked like.
"""
import itertools

_tab = {}
_byid = []


class T:
    __slots__ = ("op", "a", "w", "id", "lo", "hi", "_bits", "_sup", "_tr", "_disj", "_dir")
    cls = "t"
    shape = (None,)

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def _mk(op, a, w, lo, hi):
    k = (op, a, w)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.w, t.lo, t.hi = op, a, w, lo, hi
        t.id = len(_byid)
        t._bits = t._sup = t._disj = t._dir = None
        t._tr = None
        _byid.append(t)
        _tab[k] = t
    return t


def byid(i):
    return _byid[i]


# ------------------------------------------------------------------ context
class Ctx:
    """Facts of the current path: interval refinements and exact polynomials."""
    __slots__ = ("iv", "exact")

    def __init__(self):
        self.iv = {}
        self.exact = frozenset()


CTX = [Ctx()]


def rng(t):
    """interval of a term under the current path facts"""
    iv = CTX[0].iv
    r = iv.get(t.id)
    if t.op == "p":
        l, h = polyrange(t)
        if l < 0 or h >= (1 << t.w):
            if t.id in CTX[0].exact:
                l, h = max(l, 0), min(h, (1 << t.w) - 1)
            else:
                l, h = t.lo, t.hi
    else:
        l, h = t.lo, t.hi
        if t.op == "s" and t.a[1] == 0 and iv:
            b = iv.get(t.a[0].id)
            if b and b[1] <= h:
                l, h = max(l, b[0]), b[1]
    if r:
        return max(l, r[0]), min(h, r[1])
    return l, h


def polyrange(t):
    l = h = 0
    iv = CTX[0].iv
    for m, c in t.a:
        a = b = c
        for i in m:
            x = _byid[i]
            r = iv.get(i)
            xl, xh = x.lo, x.hi
            if r:
                xl, xh = max(xl, r[0]), min(xh, r[1])
            if a >= 0:
                a, b = a * xl, b * xh
            else:
                a, b = a * xh, b * xl
        l += a
        h += b
    return l, h


def is_exact(t):
    """does the polynomial's value over the integers lie in [0, 2^w)?"""
    if t.op != "p":
        return True
    if t.id in CTX[0].exact:
        return True
    l, h = polyrange(t)
    return l >= 0 and h < (1 << t.w)


# ------------------------------------------------------------------ constructors
def C(v, w):
    v &= (1 << w) - 1
    return _mk("c", v, w, v, v)


def V(name, w, lo=0, hi=None):
    if hi is None:
        hi = (1 << w) - 1
    t = _mk("v", name, w, lo, hi)
    return t


def F(name, args, w, lo=0, hi=None):
    if name == ("free", "off") and args[1].op == "c" and args[1].a == 0:
        return C(0, w)      # where the first item starts
    if hi is None:
        hi = (1 << w) - 1
    return _mk("f", (name,) + tuple(args), w, lo, hi)


TRUE = C(1, 1)
FALSE = C(0, 1)


def cval(t):
    return t.a if t.op == "c" else None


def _sym(c, w):
    if w == 1:
        return c & 1
    c &= (1 << w) - 1
    return c - (1 << w) if c >> (w - 1) else c


def _polyd(t):
    """monomial dict of a term viewed as a polynomial"""
    if t.op == "c":
        return {(): t.a} if t.a else {}
    if t.op == "p":
        return dict(t.a)
    return {(t.id,): 1}


def direct(p):
    """a long word-size sum: its bits are named by the sum itself, not by its truncations"""
    r = p._dir
    if r is None:
        r = p._dir = p.op == "p" and p.w <= 32 and len(p.a) > 16 and all(len(m) <= 1 for m, c in p.a)
    return r


def mkpoly(w, d):
    """normalise the monomial dict d modulo 2^w"""
    changed = True
    M = 1 << w
    n = 0
    while changed:
        changed = False
        n += 1
        out = {}
        for m, c in d.items():
            c &= M - 1
            if c == 0:
                continue
            if len(m) == 1:
                x = _byid[m[0]]
                k = (c & -c).bit_length() - 1
                if x.op == "s" and x.a[1] == 0 and x.a[0].op == "p" and x.a[2] >= w - k and direct(x.a[0]):
                    y = trunc(x, w - k)
                    if y is not x:
                        for m2, c2 in _polyd(y).items():
                            out[m2] = out.get(m2, 0) + c * c2
                        changed = True
                        continue
                elif x.op == "s" and x.a[1] == 0 and x.a[0].op == "p" and x.a[2] >= w - k:
                    y = trunc(x.a[0], w - k)
                    for m2, c2 in _polyd(y).items():
                        out[m2] = out.get(m2, 0) + c * c2
                    changed = True
                    continue
                if x.hi >> (w - k):
                    y = trunc(x, w - k)
                    if y is not x:
                        for m2, c2 in _polyd(y).items():
                            out[m2] = out.get(m2, 0) + c * c2
                        changed = True
                        continue
            elif len(m) > 1:
                # 1-bit factors are idempotent
                if len(set(m)) < len(m):
                    m2 = []
                    for i in m:
                        if _byid[i].hi <= 1 and m2 and m2[-1] == i:
                            continue
                        m2.append(i)
                    m = tuple(m2)
            out[m] = out.get(m, 0) + c
        d = out
        if not changed:
            d2 = _merge(w, d)
            if d2 is not None:
                d = d2
                changed = True
        if n > 200:
            break
    items = []
    for m, c in d.items():
        c = _sym(c, w)
        if c:
            items.append((m, c))
    if not items:
        return C(0, w)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return C(c, w)
        if len(m) == 1 and c == 1 and _byid[m[0]].w == w:
            return _byid[m[0]]
    items.sort()
    a = tuple(items)
    k = ("p", a, w)
    t = _tab.get(k)
    if t is None:
        l = h = 0
        for m, c in a:
            x = y = c
            for i in m:
                q = _byid[i]
                if x >= 0:
                    x, y = x * q.lo, y * q.hi
                else:
                    x, y = x * q.hi, y * q.lo
            l += x
            h += y
        if l < 0 or h >= M:
            l, h = 0, M - 1
        t = _mk("p", a, w, l, h)
    return t


def _slparts(t):
    """(base, lo, n) of an atom seen as slice"""
    if t.op == "s":
        return t.a
    return (t, 0, t.hi.bit_length())


def _merge(w, d):
    """merge adjacent slices c*x[i:j] + c*2^(j-i)*x[j:k] -> c*x[i:k]"""
    sl = {}
    n = 0
    for m, c in d.items():
        if len(m) == 1:
            x = _byid[m[0]]
            if x.op == "s":
                n += 1
    if n < 1:
        return None
    M = (1 << w) - 1
    lst = []
    for m, c in d.items():
        if len(m) == 1:
            x = _byid[m[0]]
            b, lo, k = _slparts(x)
            lst.append((b, lo, k, c & M, m))
    for (b2, lo2, k2, c2, m2) in lst:
        if lo2 == 0:
            continue
        for (b1, lo1, k1, c1, m1) in lst:
            if m1 == m2 or lo1 + k1 != lo2:
                continue
            if ((c1 << k1) & M) != c2:
                continue
            if not _samebase(b1, b2, lo2):
                continue
            x = mkslice(b2, lo1, k1 + k2)
            out = dict(d)
            del out[m1]
            del out[m2]
            if x.op != "p" and x.op != "c":
                out[(x.id,)] = out.get((x.id,), 0) + c1
            else:
                if not is_static_exact(x):
                    y = opaque(x)
                    if y.op == "p":
                        continue
                    out[(y.id,)] = out.get((y.id,), 0) + c1
                    return out
                for mm, cc in _polyd(x).items():
                    out[mm] = out.get(mm, 0) + c1 * cc
            return out
    # x (poly, expanded) cannot be merged
    return None


def is_static_exact(t):
    if t.op != "p":
        return True
    l = h = 0
    for m, c in t.a:
        x = y = c
        for i in m:
            q = _byid[i]
            if x >= 0:
                x, y = x * q.lo, y * q.hi
            else:
                x, y = x * q.hi, y * q.lo
        l += x
        h += y
    return l >= 0 and h < (1 << t.w)


def _samebase(b1, b2, n):
    """do b1 and b2 agree on their low n bits?"""
    if b1 is b2:
        return True
    return trunc(b1, n) is trunc(b2, n)


def mkslice(base, lo, n):
    """(base >> lo) mod 2^n as an n-bit term"""
    if n <= 0:
        return C(0, 1)
    if base.op == "c":
        return C(base.a >> lo, n)
    if base.op == "s":
        b, l0, n0 = base.a
        if lo >= n0:
            return C(0, n)
        if lo + n >= n0:
            r = mkslice(b, l0 + lo, n0 - lo)
            return zext(r, n)
        return mkslice(b, l0 + lo, n)
    if base.op == "b":
        bits = base.a
        return frombits((bits + (Z,) * (lo + n))[lo:lo + n])
    if base.op == "p":
        return _pslice(base, lo, n)
    top = base.hi.bit_length()
    if lo >= top:
        return C(0, n)
    if lo + n > top:
        return zext(mkslice(base, lo, top - lo), n)
    if lo == 0 and n == top:
        if n == base.w:
            return base
        return mkpoly(n, {(base.id,): 1}) if n > base.w else _narrow(base, n)
    return _mk("s", (base, lo, n), n, 0, min((1 << n) - 1, base.hi >> lo))


def _pslice(base, lo, n):
    if lo + n > base.w:
        if lo >= base.w:
            return C(0, n)
        return zext1(_pslice(base, lo, base.w - lo), n)
    if direct(base):
        if lo == 0 and n == base.w:
            return base
        return _mk("s", (base, lo, n), n, 0, (1 << n) - 1)
    x = trunc(base, lo + n)
    if x.op != "p":
        return mkslice(x, lo, n)
    bits = _polybits_struct(x)
    if bits is not None:
        return frombits(bits[lo:lo + n])
    if lo == 0:
        return x
    hi = (1 << n) - 1
    if is_static_exact(x):
        top = x.hi.bit_length()
        if top <= lo:
            return C(0, n)
        if top < lo + n:
            return zext(_pslice(x, lo, top - lo), n)
        hi = min(hi, x.hi >> lo)
    return _mk("s", (x, lo, n), n, 0, hi)


def zext1(t, w):
    """widening of a possibly inexact polynomial"""
    if t.op == "p" and not is_static_exact(t):
        return mkpoly(w, {(opaque(t).id,): 1})
    return zext(t, w)


def _narrow(base, n):
    # an atom whose range fits n < w bits, as an n-bit term
    return _mk("p", (((base.id,), 1),), n, base.lo, base.hi)


def zext(t, w):
    """value-preserving widening (the caller ensures exactness for polys)"""
    if t.w == w:
        return t
    if t.op == "c":
        return C(t.a, w)
    if t.op == "p":
        return mkpoly(w, dict(t.a))
    if t.op == "b":
        return frombits(t.a + (Z,) * (w - t.w))
    return mkpoly(w, {(t.id,): 1})


def trunc(t, w):
    """t mod 2^w as a term of width w (w <= t.w), or t itself if it fits"""
    if t.op == "c":
        return C(t.a, w)
    if w >= t.w:
        return t if w == t.w else zext(t, w)
    if t._tr is None:
        t._tr = {}
    r = t._tr.get(w)
    if r is not None:
        return r
    if t.op == "p" and direct(t):
        r = _mk("s", (t, 0, w), w, 0, (1 << w) - 1)
    elif t.op == "p":
        r = mkpoly(w, dict(t.a))
    elif t.op == "b":
        r = frombits(t.a[:w])
    elif t.hi < (1 << w):
        r = _narrow(t, w)
    elif t.op == "s":
        b, lo, n = t.a
        r = mkslice(b, lo, w)
    else:
        r = mkslice(t, 0, w)
    t._tr[w] = r
    return r


def cast(t, w):
    """integer cast (unsigned source)"""
    if w == t.w:
        return t
    if w < t.w:
        return trunc(t, w)
    if t.op == "p" and not is_exact(t):
        return mkpoly(w, {(opaque(t).id,): 1})
    return zext(t, w)


def opaque(t):
    """an inexact polynomial wrapped as an atom with its w-bit value"""
    if t.op != "p":
        return t
    if is_static_exact(t) and len(t.a) == 1 and len(t.a[0][0]) == 1 and t.a[0][1] == 1:
        return _byid[t.a[0][0][0]]
    return _mk("s", (t, 0, t.w), t.w, 0, (1 << t.w) - 1)


# ------------------------------------------------------------------ bits
ONE1 = frozenset()           # the empty monomial = constant 1
Z = frozenset()              # ANF 0
I = frozenset([ONE1])        # ANF 1
ANF_CAP = 48


def _lit(i, k):
    return frozenset([frozenset([(i, k)])])


def bxor(a, b):
    return a ^ b


def bnot(a):
    return a ^ I


def band(a, b):
    if not a or not b:
        return Z
    if a == I:
        return b
    if b == I:
        return a
    if a == b:
        return a
    if len(a) * len(b) > ANF_CAP:
        # opaque conjunction, canonical as the complement of an OR-set
        return bnot(bor(bnot(a), bnot(b)))
    r = set()
    for m in a:
        for n in b:
            r ^= {m | n}
    return frozenset(r)


def _atoms(a):
    s = set()
    for m in a:
        s |= m
    return s


def _orset(a):
    """operands if the bit is a single OR-node literal"""
    if len(a) == 1:
        (m,) = a
        if len(m) == 1:
            ((i, k),) = m
            t = _byid[i]
            if t.op == "f" and t.a[0] == "OR":
                return t.a[1]
    return None


def bor(a, b):
    if not a:
        return b
    if not b:
        return a
    if a == I or b == I:
        return I
    if a == b:
        return a
    if a == bnot(b):
        return I
    x = _orset(a)
    y = _orset(b)
    if x is None and y is None and len(_atoms(a) | _atoms(b)) <= 3:
        return a ^ b ^ band(a, b)
    s = (x if x is not None else frozenset([a])) | (y if y is not None else frozenset([b]))
    return orset(s)


def orset(s):
    s = frozenset(x for x in s if x)
    if not s:
        return Z
    if I in s:
        return I
    if len(s) == 1:
        return next(iter(s))
    ats = set()
    for x in s:
        ats |= _atoms(x)
        if bnot(x) in s:
            return I
    if len(ats) <= 3:
        r = Z
        for x in s:
            r = r ^ x ^ band(r, x)
        return r
    t = _mk("f", ("OR", s), 1, 0, 1)
    return _lit(t.id, 0)


def or_operands(a):
    """set of bits whose OR is a"""
    x = _orset(a)
    return x if x is not None else frozenset([a])


def getbits(t):
    if t._bits is not None:
        return t._bits
    w = t.w
    if t.op == "c":
        r = tuple(I if (t.a >> i) & 1 else Z for i in range(w))
    elif t.op == "b":
        r = t.a
    elif t.op in ("v", "f"):
        n = t.hi.bit_length()
        r = tuple(_lit(t.id, i) if i < n else Z for i in range(w))
    elif t.op == "s":
        b, lo, n = t.a
        if b.op == "p":
            r = tuple(_pbit(b, lo + i) for i in range(n))
        else:
            r = tuple(_lit(b.id, lo + i) for i in range(n))
        top = t.hi.bit_length()
        r = r[:top] + (Z,) * (w - top)
    else:
        r = _polybits(t)
    t._bits = r
    return r


def _pbit(p, i):
    if direct(p):
        return _lit(p.id, i)
    q = trunc(p, i + 1)
    if q.op == "p":
        r = _polybits_struct(q)
        if r is not None:
            return r[i]
        return _lit(q.id, i)
    return getbits(q)[i] if i < q.w else Z


def _polybits(t):
    if direct(t):
        return tuple(_lit(t.id, i) for i in range(t.w))
    r = _polybits_struct(t)
    if r is not None:
        return r
    w = t.w
    top = t.hi.bit_length() if is_static_exact(t) else w
    out = []
    for i in range(w):
        out.append(_pbit(t, i) if i < top else Z)
    return tuple(out)


def _monobits(m, c, w):
    """bits of c*m if m is (1-bit atoms) * (at most one wider atom), c = 2^k"""
    if c <= 0 or c & (c - 1):
        return None
    k = c.bit_length() - 1
    wide = None
    g = I
    for i in m:
        x = _byid[i]
        if x.hi <= 1:
            g = band(g, getbits(x)[0])
        elif wide is None:
            wide = x
        else:
            return None
    if wide is None:
        bs = (g,)
    else:
        wb = getbits(wide)[:wide.hi.bit_length()]
        bs = tuple(band(g, b) for b in wb) if g != I else tuple(wb)
    if k + len(bs) > w:
        return None
    return k, bs


def _polybits_struct(t):
    """structural bits of a polynomial without carries, else None"""
    if t._disj is not None:
        return t._disj or None
    w = t.w
    r = _pbs(t, w)
    t._disj = r if r is not None else False
    return r


def _pbs(t, w):
    if w == 1 and len(t.a) > 1:
        return None
    const = 0
    parts = []
    onebit = set()
    small = True
    for m, c in t.a:
        if m == ():
            const = c
            continue
        for i in m:
            if _byid[i].hi > 1:
                small = False
            onebit.add(i)
    if small and len(onebit) <= 4:
        return _tabulate(t, w, sorted(onebit))
    for m, c in t.a:
        if m == ():
            continue
        x = _monobits(m, c & ((1 << w) - 1), w)
        if x is None:
            # top-coefficient: 2^(w-1) is its own negative
            return None
        parts.append(x)
    out = [Z] * w
    used = [False] * w
    if const < 0:
        return None
    for i in range(w):
        if (const >> i) & 1:
            out[i] = I
            used[i] = True
    for k, bs in parts:
        for j, b in enumerate(bs):
            if used[k + j]:
                return None
            used[k + j] = True
            out[k + j] = b
    return tuple(out)


def _tabulate(t, w, ats):
    n = len(ats)
    vals = []
    for s in range(1 << n):
        v = 0
        for m, c in t.a:
            ok = True
            for i in m:
                if not (s >> ats.index(i)) & 1:
                    ok = False
                    break
            if ok:
                v += c
        vals.append(v & ((1 << w) - 1))
    # Moebius transform bitwise
    f = list(vals)
    for j in range(n):
        for s in range(1 << n):
            if (s >> j) & 1:
                f[s] ^= f[s ^ (1 << j)]
    ab = [getbits(_byid[i])[0] for i in ats]
    prods = []
    for s in range(1 << n):
        g = I
        for j in range(n):
            if (s >> j) & 1:
                g = band(g, ab[j])
        prods.append(g)
    out = []
    for i in range(w):
        r = Z
        for s in range(1 << n):
            if (f[s] >> i) & 1:
                r = r ^ prods[s]
        out.append(r)
    return tuple(out)


def _literal(b):
    if len(b) == 1:
        (m,) = b
        if len(m) == 1:
            ((n, k),) = m
            return n, k
    return None


def frombits(bits):
    bits = tuple(bits)
    w = len(bits)
    const = 0
    runs = []          # (position, atom id, low bit, count)
    odd = []           # positions of bits that are no literals
    for i, b in enumerate(bits):
        if not b:
            continue
        if b == I:
            const |= 1 << i
            continue
        l = _literal(b)
        if l is None:
            odd.append(i)
            continue
        n, k = l
        x = _byid[n]
        if runs:
            (i0, n0, k0, cnt) = runs[-1]
            if i == i0 + cnt and k == k0 + cnt:
                y = _byid[n0]
                if n == n0 and (x.op != "p" or direct(x)):
                    runs[-1] = (i0, n0, k0, cnt + 1)
                    continue
                if x.op == "p" and not direct(x) and not direct(y) and (trunc(x, k) is y or (y.op == "p" and trunc(x, y.w) is y)):
                    runs[-1] = (i0, n, k0, cnt + 1)
                    continue
        if x.op == "p" and k > 0 and i > 0 and not direct(x):
            # low bits of the polynomial may have a closed form
            j = 0
            while j < k and i - j - 1 >= 0:
                q = trunc(x, k - j)
                qb = getbits(q)[k - j - 1]
                if bits[i - j - 1] != qb or not qb or qb == I:
                    break
                j += 1
            while j and runs and runs[-1][0] + runs[-1][3] > i - j:
                # only take over whole earlier runs
                if runs[-1][0] >= i - j:
                    runs.pop()
                else:
                    j = i - (runs[-1][0] + runs[-1][3])
            if j:
                odd = [o for o in odd if o < i - j]
                runs.append((i - j, n, k - j, 1 + j))
                continue
        runs.append((i, n, k, 1))
    if len(runs) + (const != 0) > 1:
        # an inexact sum below other bits must stay bitwise
        for (i, n, k, cnt) in runs:
            x = _byid[n]
            if x.op == "p" and k == 0 and i + cnt == w and not is_static_exact(x) and not direct(x):
                odd = [i]
    if not odd:
        if not runs:
            return C(const, w)
        d = {}
        if const:
            d[()] = const
        for (i, n, k, cnt) in runs:
            x = _byid[n]
            if x.op == "p" and direct(x):
                if k == 0 and cnt == w:
                    return x
                s = mkslice(x, k, cnt) if cnt < x.w else opaque(x)
            elif x.op == "p":
                # bits k.. of polynomial x (its width is k+cnt)
                if k == 0 and cnt == x.w:
                    if i == 0 and cnt == w:
                        return x
                    s = _mk("s", (x, 0, cnt), cnt, 0, (1 << cnt) - 1) if not is_static_exact(x) else None
                    if s is None:
                        for mm, cc in x.a:
                            d[mm] = d.get(mm, 0) + (cc << i)
                        continue
                else:
                    lo, hi = 0, (1 << cnt) - 1
                    if is_static_exact(x):
                        hi = min(hi, x.hi >> k)
                    s = _mk("s", (x, k, cnt), cnt, lo, hi)
            else:
                s = mkslice(x, k, cnt)
                if s.op == "p":
                    for mm, cc in s.a:
                        d[mm] = d.get(mm, 0) + (cc << i)
                    continue
            d[(s.id,)] = d.get((s.id,), 0) + (1 << i)
        return mkpoly(w, d)
    t = _mk("b", bits, w, 0, 0)
    if t.hi == 0:
        hi = 0
        for i, b in enumerate(bits):
            if b:
                hi |= 1 << i
        t.hi = hi
        t._bits = bits
    return t


# ------------------------------------------------------------------ operations
def add(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.a + b.a, a.w)
    if a.op == "c" and a.a == 0:
        return b
    if b.op == "c" and b.a == 0:
        return a
    if direct(a) or direct(b):
        # both operands are normal; a long sum stays a sum
        w = a.w
        if not direct(a):
            a, b = b, a
        d = dict(a.a)
        for m, c in _polyd(b).items():
            c = _sym((d.get(m, 0) + c) & ((1 << w) - 1), w)
            if c:
                d[m] = c
            else:
                d.pop(m, None)
        if len(d) > 16:
            return _mk("p", tuple(sorted(d.items())), w, 0, (1 << w) - 1)
        return mkpoly(w, d)
    d = _polyd(a)
    for m, c in _polyd(b).items():
        d[m] = d.get(m, 0) + c
    return mkpoly(a.w, d)


def neg(a):
    return mkpoly(a.w, {m: -c for m, c in _polyd(a).items()})


def sub(a, b):
    if b.op == "c" and b.a == 0:
        return a
    d = _polyd(a)
    for m, c in _polyd(b).items():
        d[m] = d.get(m, 0) - c
    return mkpoly(a.w, d)


def mul(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.a * b.a, a.w)
    if a.op == "c" and a.a == 1:
        return b
    if b.op == "c" and b.a == 1:
        return a
    A, B = _polyd(a), _polyd(b)
    if len(A) * len(B) > 600:
        x, y = sorted((a, b), key=lambda t: t.id)
        return F("mul", (x, y), a.w)
    d = {}
    for m, c in A.items():
        for n, e in B.items():
            k = tuple(sorted(m + n))
            d[k] = d.get(k, 0) + c * e
    return mkpoly(a.w, d)


def xor(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.a ^ b.a, a.w)
    if a is b:
        return C(0, a.w)
    if a.op == "c" and a.a == 0:
        return b
    if b.op == "c" and b.a == 0:
        return a
    return frombits(x ^ y for x, y in zip(getbits(a), getbits(b)))


def and_(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.a & b.a, a.w)
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if x.op == "c":
            if x.a == 0:
                return x
            if x.a == (1 << x.w) - 1:
                return y
    return frombits(band(x, y) for x, y in zip(getbits(a), getbits(b)))


def or_(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.a | b.a, a.w)
    if a is b:
        return a
    if a.op == "c" and a.a == 0:
        return b
    if b.op == "c" and b.a == 0:
        return a
    return frombits(bor(x, y) for x, y in zip(getbits(a), getbits(b)))


def not_(a):
    if a.op == "c":
        return C(~a.a, a.w)
    return frombits(bnot(x) for x in getbits(a))


def shl(a, n):
    if a.op == "c":
        return C(a.a << n, a.w)
    if n >= a.w:
        return C(0, a.w)
    return mul(a, C(1 << n, a.w))


def shr(a, n):
    if a.op == "c":
        return C(a.a >> n, a.w)
    if n == 0:
        return a
    if n >= a.w:
        return C(0, a.w)
    # exact multiple: (2^n * q) >> n with exact q
    bits = getbits(a)
    return frombits(bits[n:] + (Z,) * n)


def ashr(a, n):
    if a.op == "c":
        v = _sym(a.a, a.w)
        return C(v >> n, a.w)
    bits = getbits(a)
    n = min(n, a.w - 1)
    return frombits(bits[n:] + (bits[-1],) * n)


def rotl(a, n):
    n %= a.w
    if a.op == "c":
        return C((a.a << n) | (a.a >> (a.w - n)), a.w)
    if n == 0:
        return a
    bits = getbits(a)
    k = a.w - n
    return frombits(bits[k:] + bits[:k])


def bswap(a):
    bits = getbits(a)
    n = a.w // 8
    out = []
    for i in range(n):
        j = n - 1 - i
        out.extend(bits[j * 8:j * 8 + 8])
    return frombits(out)


def tobytes_le(a):
    if a.op == "c":
        return [C(a.a >> (8 * i), 8) for i in range(a.w // 8)]
    bits = getbits(a)
    return [frombits(bits[8 * i:8 * i + 8]) for i in range(a.w // 8)]


def frombytes_le(bs):
    if all(b.op == "c" for b in bs):
        v = 0
        for i, b in enumerate(bs):
            v |= b.a << (8 * i)
        return C(v, 8 * len(bs))
    out = []
    for b in bs:
        out.extend(getbits(b))
    return frombits(out)


def udiv(a, b):
    if b.op == "c" and b.a:
        n = b.a
        if a.op == "c":
            return C(a.a // n, a.w)
        if n & (n - 1) == 0:
            return shr(a, n.bit_length() - 1)
        l, h = rng(a)
        return F("udiv", (a, b), a.w, l // n, h // n)
    return F("udiv", (a, b), a.w)


def urem(a, b):
    if b.op == "c" and b.a:
        n = b.a
        if a.op == "c":
            return C(a.a % n, a.w)
        if n & (n - 1) == 0:
            return and_(a, C(n - 1, a.w))
        l, h = rng(a)
        if h < n:
            return a
        return F("urem", (a, b), a.w, 0, n - 1)
    return F("urem", (a, b), a.w)


def umin(a, b):
    d = decide_lt(a, b)
    if d is True:
        return a
    if d is False:
        return b
    d = decide_lt(b, a)
    if d is True:
        return b
    if d is False:
        return a
    x, y = sorted((a, b), key=lambda t: t.id)
    (l1, h1), (l2, h2) = rng(a), rng(b)
    return F("min", (x, y), a.w, min(l1, l2), min(h1, h2))


def umax(a, b):
    d = decide_lt(a, b)
    if d is True:
        return b
    if d is False:
        return a
    x, y = sorted((a, b), key=lambda t: t.id)
    (l1, h1), (l2, h2) = rng(a), rng(b)
    return F("max", (x, y), a.w, max(l1, l2), max(h1, h2))


# ------------------------------------------------------------------ predicates
def intpoly(t):
    """integer polynomial (dict) of a term's value"""
    if t.op == "p" and not is_exact(t):
        t = opaque(t)
        return _lowfits({(t.id,): 1}) if CTX[0].iv else {(t.id,): 1}
    d = _polyd(t)
    return _lowfits(d) if CTX[0].iv else d


def _lowfits(d):
    """replace x mod 2^n by x where the path facts bound x below 2^n"""
    iv = CTX[0].iv
    for m in d:
        for i in m:
            x = _byid[i]
            if x.op == "s" and x.a[1] == 0 and x.a[0].op != "p":
                r = iv.get(x.a[0].id)
                if r and r[1] < (1 << x.a[2]):
                    break
        else:
            continue
        break
    else:
        return d
    out = {}
    for m, c in d.items():
        m2 = []
        for i in m:
            x = _byid[i]
            if x.op == "s" and x.a[1] == 0 and x.a[0].op != "p":
                r = iv.get(x.a[0].id)
                if r and r[1] < (1 << x.a[2]):
                    i = x.a[0].id
            m2.append(i)
        k = tuple(sorted(m2))
        out[k] = out.get(k, 0) + c
    return out


def _ipkey(d):
    return tuple(sorted((m, c) for m, c in d.items() if c))


def ip_range(d):
    l = h = 0
    for m, c in d.items():
        a = b = c
        for i in m:
            x = _byid[i]
            xl, xh = rng(x)
            if a >= 0:
                a, b = a * xl, b * xh
            else:
                a, b = a * xh, b * xl
        l += a
        h += b
    # a tighter bound known for the whole form?
    iv = CTX[0].iv
    k = iv.get(("lin", _lkey(d)[0]))
    if k:
        base, c0, s = _lkey(d)
        lo, hi = k
        if s < 0:
            lo, hi = -hi, -lo
        return max(l, lo + c0), min(h, hi + c0)
    return l, h


def _lkey(d):
    """(key of the non-constant part up to sign, constant, sign)"""
    k = tuple(sorted((m, c) for m, c in d.items() if c and m != ()))
    c0 = d.get((), 0)
    if k and k[0][1] < 0:
        return tuple((m, -c) for m, c in k), c0, -1
    return k, c0, 1


def lt0(d):
    """predicate: integer form d < 0, as a 1-bit term"""
    l, h = ip_range(d)
    if h < 0:
        return TRUE
    if l >= 0:
        return FALSE
    k = _ipkey(d)
    g = 0
    from math import gcd
    for m, c in k:
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        c0 = dict(k).get((), 0)
        # g*X + c0 < 0  <=>  X + floor... : X < -c0/g  <=> X + ceil(c0/g) <= ... (integers)
        # g*X < -c0 <=> X < ceil(-c0/g) <=> X - ceil(-c0/g) < 0
        ce = -((c0) // g)
        dd = {m: c // g for m, c in k if m != ()}
        dd[()] = -ce
        k = _ipkey(dd)
    # sign normalisation: d<0 <=> not(-d-1 < 0)
    first = next(c for m, c in k if m != ())
    if first < 0:
        n = {m: -c for m, c in k}
        n[()] = n.get((), 0) - 1
        return not_(_mk("f", ("lt0", _ipkey(n)), 1, 0, 1))
    return _mk("f", ("lt0", k), 1, 0, 1)


def ult(a, b):
    if a.op == "c" and b.op == "c":
        return C(int(a.a < b.a), 1)
    d = dict(intpoly(a))
    for m, c in intpoly(b).items():
        d[m] = d.get(m, 0) - c
    return lt0(d)


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    """signed comparison: bias both sides when they may be negative"""
    if a.op == "c" and b.op == "c":
        return C(int(_sym(a.a, a.w) < _sym(b.a, b.w)), 1)
    w = a.w
    half = 1 << (w - 1)
    (l1, h1), (l2, h2) = rng(a), rng(b)
    if h1 < half and h2 < half:
        return ult(a, b)
    x, y = add(a, C(half, w)), add(b, C(half, w))
    return ult(x, y)


def decide_lt(a, b):
    r = ult(a, b)
    if r is TRUE:
        return True
    if r is FALSE:
        return False
    return None


def _bitish(t):
    if t.op == "b":
        return True
    if t.op == "p":
        for m, c in t.a:
            for i in m:
                if _byid[i].op == "b":
                    return True
    return False


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return C(int(a.a == b.a), 1)
    w = a.w
    if w == 1:
        return not_(xor(a, b))
    (l1, h1), (l2, h2) = rng(a), rng(b)
    if h1 < l2 or h2 < l1:
        return FALSE
    if _bitish(a) or _bitish(b) or (w <= 32 and a.op in "vfs" and b.op in "vfs"):
        s = set()
        for x, y in zip(getbits(a), getbits(b)):
            s.add(x ^ y)
        return not_(frombits((orset(s),)))
    d = sub(a, b)
    if d.op == "c":
        return C(int(d.a == 0), 1)
    # integer range test when both exact
    if is_exact(a) and is_exact(b):
        di = dict(intpoly(a))
        for m, c in intpoly(b).items():
            di[m] = di.get(m, 0) - c
        l, h = ip_range(di)
        if h < 0 or l > 0:
            return FALSE
        if l == h == 0:
            return TRUE
        k, c0, s = _lkey(di)
        r = _eqbit(k, c0 * s)
        if r is not None:
            return r
        return _mk("f", ("eq0", k, c0 * s, 0), 1, 0, 1)
    k, c0, s = _lkey(_polyd(d))
    c0 = _sym(c0 * s, w)
    r = _eqbit(k, c0)
    if r is not None:
        return r
    di = dict(k)
    di[()] = di.get((), 0) + c0
    l, h = ip_range(di)
    if -(1 << w) < l and h < 1 << w:        # then equal modulo 2^w is equal
        return _mk("f", ("eq0", k, c0, 0), 1, 0, 1)
    return _mk("f", ("eq0", k, c0, w), 1, 0, 1)


def _eqbit(k, c0):
    """c*x + c0 == 0 for a single 1-bit x"""
    if len(k) != 1 or len(k[0][0]) != 1 or k[0][1] not in (1, -1):
        return None
    x = byid(k[0][0][0])
    if x.w != 1:
        return None
    v = -c0 * k[0][1]
    if v == 0:
        return not_(x)
    if v == 1:
        return x
    return FALSE


def ne(a, b):
    return not_(eq(a, b))


def same(a, b):
    """are the two terms equal for all inputs (decided by normal form)?"""
    if a is b:
        return True
    if a.w != b.w:
        return False
    d = sub(a, b)
    if d.op == "c":
        return d.a == 0
    return getbits(a) == getbits(b)


# ------------------------------------------------------------------ support, substitution, evaluation
def support(t):
    """ids of 'v' and 'f' leaves the term depends on"""
    if t._sup is not None:
        return t._sup
    s = set()
    if t.op == "v":
        s.add(t.id)
    elif t.op == "f":
        s.add(t.id)
        for x in t.a[1:]:
            s |= _argsup(x)
    elif t.op == "s":
        s |= support(t.a[0])
    elif t.op == "p":
        for m, c in t.a:
            for i in m:
                s |= support(_byid[i])
    elif t.op == "b":
        for b in t.a:
            for m in b:
                for (i, k) in m:
                    s |= support(_byid[i])
    t._sup = frozenset(s)
    return t._sup


def _argsup(x):
    if isinstance(x, T):
        return support(x)
    if hasattr(x, "support"):
        return x.support()
    if isinstance(x, (tuple, frozenset, list)):
        s = set()
        for y in x:
            if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], int) and isinstance(y[1], int) and 0 <= y[0] < len(_byid) and isinstance(x, frozenset):
                s |= support(_byid[y[0]])
            elif isinstance(y, tuple) and y and isinstance(y[0], tuple) and len(y) == 2 and isinstance(y[1], int):
                # (monomial, coeff)
                for i in y[0]:
                    s |= support(_byid[i])
            else:
                s |= _argsup(y)
        return s
    return set()


class Subst:
    """rebuild terms with atoms replaced: env maps term id -> term (any width >= needed)"""

    def __init__(self, env):
        self.env = env
        self.memo = {}

    def atom(self, i):
        return self(_byid[i])

    def bit(self, b):
        r = Z
        for m in b:
            g = I
            for (i, k) in m:
                x = self.atom(i)
                bits = getbits(x)
                g = band(g, bits[k] if k < len(bits) else Z)
                if not g:
                    break
            r = r ^ g
        return r

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        r = self._go(t)
        self.memo[t.id] = r
        return r

    def _go(self, t):
        e = self.env.get(t.id)
        if e is not None:
            return e
        if t.op in ("c", "v"):
            return t
        if t.op == "s":
            b = self(t.a[0])
            if b is t.a[0]:
                return t
            return cast(mkslice(b, t.a[1], t.a[2]), t.w)
        if t.op == "p":
            d = {}
            ch = False
            for m, c in t.a:
                acc = {(): c}
                for i in m:
                    x = self.atom(i)
                    if x.id != i:
                        ch = True
                    px = intpoly(x) if x.op != "p" else dict(x.a)
                    nd = {}
                    for m1, c1 in acc.items():
                        for m2, c2 in px.items():
                            k = tuple(sorted(m1 + m2))
                            nd[k] = nd.get(k, 0) + c1 * c2
                    acc = nd
                for k, v in acc.items():
                    d[k] = d.get(k, 0) + v
            return mkpoly(t.w, d) if ch else t
        if t.op == "b":
            return frombits(self.bit(b) for b in t.a)
        if t.op == "f":
            n = t.a[0]
            if n == "OR":
                return frombits((orset(frozenset(self.bit(b) for b in t.a[1])),))
            if n == "lt0":
                d = self._ip(t.a[1])
                return lt0(d)
            if n == "eq0":
                d = self._ip(t.a[1])
                d[()] = d.get((), 0) + t.a[2]
                w = t.a[3]
                if w == 0:
                    l, h = ip_range(d)
                    if h < 0 or l > 0:
                        return FALSE
                    if l == h == 0:
                        return TRUE
                    k, c0, s = _lkey(d)
                    return _mk("f", ("eq0", k, c0 * s, 0), 1, 0, 1)
                p = mkpoly(w, d)
                return eq(p, C(0, w))
            args = []
            ch = False
            for x in t.a[1:]:
                if isinstance(x, T):
                    y = self(x)
                elif hasattr(x, "subst"):
                    y = x.subst(self)
                else:
                    y = x
                if y is not x:
                    ch = True
                args.append(y)
            if not ch:
                return t
            if n == "udiv":
                return udiv(*args)
            if n == "urem":
                return urem(*args)
            if n == "min":
                return umin(*args)
            if n == "max":
                return umax(*args)
            if n in ("elem", "sel", "at"):
                return args[0].elem(args[1])
            if isinstance(n, tuple) and n and isinstance(args[0], T) and args[0].op == "c":
                if n[0] == "tab":
                    d = dict(n[1])
                    if args[0].a in d:
                        return C(d[args[0].a], t.w)
                if n[0] == "in":
                    return C(int(args[0].a in n[1]), 1)
            return F(n, args, t.w, t.lo, t.hi)
        return t

    def _ip(self, k):
        d = {}
        for m, c in k:
            acc = {(): c}
            for i in m:
                x = self.atom(i)
                px = intpoly(x)
                nd = {}
                for m1, c1 in acc.items():
                    for m2, c2 in px.items():
                        kk = tuple(sorted(m1 + m2))
                        nd[kk] = nd.get(kk, 0) + c1 * c2
                acc = nd
            for kk, v in acc.items():
                d[kk] = d.get(kk, 0) + v
        return d


# ------------------------------------------------------------------ printing
_budget = [None]                # nodes left to print; terms share subterms, their text does not
LIMIT = 400


def budgeted(fn):
    def f(t, depth=0):
        if _budget[0] is None:
            _budget[0] = LIMIT
            try:
                return fn(t, depth)
            finally:
                _budget[0] = None
        if _budget[0] <= 0:
            return "…"
        _budget[0] -= 1
        return fn(t, depth)
    f.__name__ = fn.__name__
    return f


def _sb(b):
    if not b:
        return "0"
    if b == I:
        return "1"
    out = []
    for m in sorted(b, key=lambda m: sorted(m)):
        if _budget[0] is not None and _budget[0] <= 0:
            out.append("…")
            break
        out.append("&".join("%s[%d]" % (show(_byid[i]), k) for i, k in sorted(m)) or "1")
    return "^".join(out)


@budgeted
def show(t, depth=0):
    if t.op == "c":
        return str(t.a) if t.a < 4096 else hex(t.a)
    if t.op == "v":
        return t.a if isinstance(t.a, str) else str(t.a)
    if depth > 4:
        return "#%d" % t.id
    if t.op == "s":
        return "%s[%d..%d]" % (show(t.a[0], depth + 1), t.a[1], t.a[1] + t.a[2])
    if t.op == "p":
        return "(" + _sp(t.a, depth) + (")%%%d" % t.w)
    if t.op == "b":
        if t.w == 1:
            return "bit{" + _sb(t.a[0])[:200] + "}"
        return "bv%d#%d" % (t.w, t.id)
    if t.op == "f":
        n = t.a[0]
        if n == "lt0":
            return "(%s<0)" % _sp(t.a[1], depth)
        if n == "eq0":
            return "(%s+%d==0)" % (_sp(t.a[1], depth), t.a[2])
        if n == "OR":
            return "OR{%s}" % ",".join(sorted(_sb(b)[:60] for b in t.a[1])[:4])
        return "%s(%s)" % (n, ",".join(show(x, depth + 1) if isinstance(x, T) else str(x) for x in t.a[1:]))
    return "?"


def _sp(a, depth):
    out = []
    for m, c in a:
        s = "*".join(show(_byid[i], depth + 1) for i in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        else:
            out.append("%d*%s" % (c, s))
    return " + ".join(out)
