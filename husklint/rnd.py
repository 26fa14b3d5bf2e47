"""Random interpretation of value-numbering terms (Gulwani/Necula style).

Every free symbol (input, random draw, element of an unknown sequence) gets a pseudo-random value that
respects the interval facts of the path; derived terms are evaluated over those values.  Used to confirm
that two different normal forms really denote different values (so that a rewrite the normaliser does not
recognise is not reported).  Terms over loop unknowns (mu) are not free and yield `Unknown`."""
import hashlib
from term import *
import term as TT
from val import *
import val as VV

CAP = 6000


class Unknown(Exception):
    pass


def _h(*x):
    return int.from_bytes(hashlib.sha256(repr(x).encode()).digest(), "big")


def hasmu(x):
    if isinstance(x, tuple):
        return any(hasmu(y) for y in x)
    return x == "mu"


_pool = {}


def pool(st):
    """constants of the path facts: the interesting values"""
    key = id(st)
    r = _pool.get(key)
    if r is not None and r[0] is st and r[1] == len(st.truth) + len(st.ctx.iv):
        return r[2]
    out = set()
    for k, (l, h) in st.ctx.iv.items():
        for x in (l, h):
            if abs(x) < 1 << 62:
                out.add(abs(x))
        if isinstance(k, tuple):
            for m, c in k[1]:
                if not m:
                    out.add(abs(c))
                    out |= {abs(l - c), abs(h - c)}
    for k in st.truth:
        t = byid(k[0] if isinstance(k, tuple) else k)
        if t.op == "f" and t.a[0] in ("lt0", "eq0"):
            for m, c in t.a[1]:
                if not m:
                    out.add(abs(c))
    r = tuple(sorted(out))[:60]
    if len(_pool) > 50:
        _pool.clear()
    _pool[key] = (st, len(st.truth) + len(st.ctx.iv), r)
    return r


def hasdigest(v):
    return isinstance(v, tuple) and (v[:1] == ("long",) or any(hasdigest(x) for x in v if isinstance(x, tuple)))


_links = {}


def links(st):
    """symbols the path facts equate with others: {id: (bit, other id, other bit, flipped)...} and {id: (other id, difference)}"""
    key = id(st)
    r = _links.get(key)
    if r is not None and r[0] is st and r[1] == len(st.truth) + len(st.ctx.iv):
        return r[2]
    bits, whole = {}, {}

    def free(i):
        x = byid(i)
        return x.op == "v" or x.op == "f" and (x.a[0] == "elem" or isinstance(x.a[0], tuple) and x.a[0][0] == "free")
    for k, v in st.truth.items():
        if isinstance(k, tuple):
            continue
        t = byid(k)
        if t.op == "b" and t.w == 1:
            b = t.a[0]
            neg = I <= b
            ms = [m for m in b if m]
            if len(ms) == 2 and all(len(m) == 1 for m in ms):
                (x, y) = sorted(next(iter(m)) for m in ms)
                if free(x[0]) and free(y[0]) and x[0] != y[0]:
                    bits.setdefault(y[0], []).append((y[1], x[0], x[1], v != neg))
    for k, (l, h) in st.ctx.iv.items():
        if isinstance(k, tuple) and l == h:
            ms = dict(k[1])
            c0 = ms.pop((), 0)
            if len(ms) == 2 and all(len(m) == 1 for m in ms):
                (x, a), (y, b) = sorted((m[0], c) for m, c in ms.items())
                if a == -b and abs(a) == 1 and free(x) and free(y):
                    whole[y] = (x, (l - c0) * b)
    r = (bits, whole)
    if len(_links) > 50:
        _links.clear()
    _links[key] = (st, len(st.truth) + len(st.ctx.iv), r)
    return r


def bitcount(name, v, w):
    n = name.split(".")[-1]
    b = format(v, "0%db" % w)
    what = "1" if n.endswith("ones") else "0"
    if n.startswith("count"):
        return b.count(what)
    if n.startswith("trailing"):
        b = b[::-1]
    return len(b) - len(b.lstrip(what))


class Sample:
    def __init__(self, st, seed, free_mu=False, maxlen=200):
        self.st, self.seed, self.free_mu, self.maxlen = st, seed, free_mu, maxlen
        self.memo = {}
        self.vmemo = {}
        self.cmemo = {}
        self.pins = {}
        self._exits = None
        if st is not None and seed % 2:
            self.pin()

    def pin(self):
        """values for the symbols of narrow linear facts (greedy, mixed radix)"""
        ks = sorted(((r, k) for k, r in self.st.ctx.iv.items() if isinstance(k, tuple)), key=lambda x: (x[0][1] - x[0][0], repr(x[1])))
        for (l, h), k in ks[:8]:
            if h - l > 1 << 40 and any(c < 0 for m, c in k[1] if m) and any(c > 0 for m, c in k[1] if m):
                # one-sided: the bound that is near
                if abs(l) < 1 << 39:
                    h = l + 300
                elif abs(h) < 1 << 39:
                    l = h - 300
                else:
                    continue
            elif h - l > 1 << 40:
                # one-sided: of interest only when the bound is out of the way of the usual lengths
                if l <= self.maxlen:
                    continue
                h = l + 300
            c0, ms, ok = 0, [], True
            for m, c in k[1]:
                if not m:
                    c0 = c
                elif len(m) == 1:
                    ms.append((c, m[0]))
                else:
                    ok = False
            if not ok or not ms:
                continue
            if len(ms) == 1 and h - l > 1 << 16 and l <= self.maxlen:
                continue        # the usual choice respects the range
            if len(ms) > 1 and any(c < 0 for c, _ in ms) and any(c > 0 for c, _ in ms):
                # symbols on both sides: one side as it comes, the other solved for
                side = 1 if _h(self.seed, "side", k) % 2 else -1
                try:
                    c0 += sum(c * self.t(byid(i)) for c, i in ms if c * side < 0)
                except (Unknown, RecursionError):
                    continue
                ms = [(c, i) for c, i in ms if c * side > 0]
            self.solve(l, h, c0, ms, k)

    def solve(self, l, h, c0, ms, k):
        """c0 + ms in [l, h], all coefficients of one sign: greedy"""
        q = _h(self.seed, "pin", k) % 3
        v = (l if q == 0 else h if q == 1 else l + _h(self.seed, "pin2", k) % (h - l + 1)) - c0
        if ms[0][0] < 0:
            v, ms = -v, [(-c, i) for c, i in ms]
        for c, i in sorted(ms, reverse=True):
            t = byid(i)
            if i in self.pins or i in self.memo:
                v -= c * (self.pins[i] if i in self.pins else self.memo[i])
                continue
            lo, hi = t.lo, t.hi
            r = self.st.ctx.iv.get(i)
            if r:
                lo, hi = max(lo, r[0]), min(hi, r[1])
            x = min(max(v // c, lo), hi)
            self.pins[i] = x
            v -= c * x

    def exits(self):
        """loop unknowns with a known value on this path (the loop has been left)"""
        if self._exits is None:
            self._exits = {}
            for n in (self.st.notes if self.st is not None else ()):
                if n[0] == "pinned":
                    for i, e in n[2]:
                        if i not in support(e) and e.id != i:
                            self._exits[i] = e
        return self._exits

    def cong(self, t, key):
        """equal arguments, equal values: the first term evaluated decides (facts on another term with the same
        arguments then reject the sample)"""
        r = self.cmemo.get(key)
        if r is None:
            r = self.cmemo[key] = self.choose(t, key)
        return r

    def choose(self, t, salt):
        p = self.pins.get(t.id)
        if p is not None:
            return p
        lo, hi = t.lo, t.hi
        st = self.st
        if st is not None:
            r = st.ctx.iv.get(t.id)
            if r is not None:
                lo, hi = max(lo, r[0]), min(hi, r[1])
        h = _h(self.seed, salt, t.w)
        if lo == hi:
            v = lo
        elif t.w == 64 and hi - lo > self.maxlen:
            m = h % 10
            h >>= 8
            pl = pool(st) if st is not None else ()
            if m >= 7 and pl and self.seed % 2:
                v = pl[h % len(pl)] + (h >> 64) % 3 - 1
                v = min(max(v, lo), hi)
            elif m < 4:
                v = lo + h % self.maxlen
            elif m < 6:
                v = lo + h % min(hi - lo, 40)
            elif m < 7:
                v = lo + h % min(hi - lo + 1, 3)
            elif m < 9:
                v = lo + (h >> 64) % min(hi - lo + 1, 1 << (h % 63))
            else:
                v = lo + (h >> 64) % (hi - lo + 1)
        else:
            m = h % 6
            h >>= 8
            v = lo + h % (hi - lo + 1)
            if m == 0 and lo <= hi - 1 and self.seed % 3 == 0:
                v = hi - (h >> 64) % 2
            elif m == 1 and self.seed % 3 == 0:
                v = lo + (h >> 64) % 2
        if st is not None:
            bits, whole = links(st)
            if t.id in whole:
                v = (self.t(byid(whole[t.id][0])) + whole[t.id][1]) & ((1 << t.w) - 1)
            for k, i, j, flip in bits.get(t.id, ()):
                x = ((self.t(byid(i)) >> j) & 1) ^ int(flip)
                v = v & ~(1 << k) | x << k
        if st is not None and t.w > 1:
            for k in range(t.w):
                f = st.truth.get((t.id, k))
                if f is not None:
                    v = v | (1 << k) if f else v & ~(1 << k)
        if st is not None and t.w == 1:
            f = st.truth.get(t.id)
            if f is not None:
                v = int(f)
        return v

    # ---------------------------------------------------------------- scalars
    def t(self, x):
        r = self.memo.get(x.id)
        if r is None:
            r = self.memo[x.id] = self._t(x) & ((1 << x.w) - 1)
        return r

    def _t(self, x):
        op = x.op
        if op == "c":
            return x.a
        if op == "v":
            if hasmu(x.a):
                e = self.exits().get(x.id)
                if e is not None:
                    return self.t(e)
                if not self.free_mu:
                    raise Unknown(x.a)
            if x.a == ("k", "bound"):
                raise Unknown("bound")
            return self.choose(x, ("v", x.a))
        if op == "s":
            return (self.t(x.a[0]) >> x.a[1]) & ((1 << x.a[2]) - 1)
        if op == "p":
            return self.poly(x.a)
        if op == "b":
            v = 0
            for k, b in enumerate(x.a):
                v |= self.bit(b) << k
            return v
        n = x.a[0]
        if n == "OR":
            return int(any(self.bit(b) for b in x.a[1]))
        if n == "lt0":
            return int(self.poly(x.a[1]) < 0)
        if n == "eq0":
            v = self.poly(x.a[1]) + x.a[2]
            if x.a[3]:
                v %= 1 << x.a[3]
            return int(v == 0)
        if n == "elem":
            s, i = x.a[1], x.a[2]
            return self.cong(x, ("elem", self.srckey(s), self.t(i), x.w))
        if n == "at":
            return self.elem(x.a[1], self.t(x.a[2]))
        if n == "sel":
            i = self.t(x.a[2])
            ks = x.a[1].kids
            if i >= len(ks):
                raise Unknown("sel out of range")
            return self.t(ks[i])
        if n in ("udiv", "urem"):
            a, b = self.t(x.a[1]), self.t(x.a[2])
            if b == 0:
                raise Unknown("div0")
            return a // b if n == "udiv" else a % b
        if n == "min":
            return min(self.t(x.a[1]), self.t(x.a[2]))
        if n == "max":
            return max(self.t(x.a[1]), self.t(x.a[2]))
        if n in ("veq", "seqeq"):
            a, b = self.val(x.a[1]), self.val(x.a[2])
            if a == b and hasdigest(a) and x.a[1] is not x.a[2]:
                raise Unknown("long")
            return int(a == b)
        if isinstance(n, tuple) and n[0] == "in":
            return int(self.t(x.a[1]) in n[1])
        if isinstance(n, tuple) and n[0] == "tab":
            d = dict(n[1])
            v = self.t(x.a[1])
            if v not in d:
                raise Unknown("tab")
            return d[v]
        if isinstance(n, tuple) and n and n[0] == "free" and str(n[1]).startswith("int."):
            y = x.a[1]
            return bitcount(n[1], self.t(y), y.w)
        if isinstance(n, tuple) and n and n[0] == "free":
            args = tuple(self.t(y) if isinstance(y, T) else self.val(y) if isinstance(y, Val) else y for y in x.a[1:])
            if n == ("free", "off") and args[1] == 0:
                return 0
            return self.cong(x, (n, args, x.w))
        raise Unknown(str(n))

    def poly(self, a):
        v = 0
        for m, c in a:
            for i in m:
                c *= self.t(byid(i))
            v += c
        return v

    def bit(self, b):
        v = 0
        for m in b:
            x = 1
            for (i, k) in m:
                if not (self.t(byid(i)) >> k) & 1:
                    x = 0
                    break
            v ^= x
        return v

    # ---------------------------------------------------------------- values
    def srckey(self, s):
        if s.cls == "src":
            nm = s.shape[0]
            if hasmu(nm) and not self.free_mu:
                raise Unknown(nm)
            return (nm, tuple(self.t(k) if isinstance(k, T) else self.val(k) for k in s.kids))
        return ("vid", s.vid)

    def elem(self, s, i):
        """element i of a sequence"""
        for p in pieces(s):
            L = len(p[1]) if p[0] == "e" else self.t(p[-1])
            if i < L:
                return self.pelem(p, i)
            i -= L
        raise Unknown("index out of range")

    def pelem(self, p, i):
        k = p[0]
        if k == "e":
            return self.any(p[1][i])
        if k == "r":
            return self.any(p[1])
        i += self.t(p[2])
        s = p[1]
        if k == "l" or s.cls == "lam":
            return self.any(lam_elem(s, U64(i)))
        if s.cls == "seq":
            return self.elem(s, i)
        if s.cls == "tab":
            return self.any(s.kids[i])
        x = src_elem(s, U64(i))
        if isinstance(x, T):
            return self.t(x)
        return ("x", self.srckey(s), i)

    def any(self, x):
        return self.t(x) if isinstance(x, T) else self.val(x)

    def seqlen(self, s):
        return sum(len(p[1]) if p[0] == "e" else self.t(p[-1]) for p in pieces(s))

    def val(self, v):
        if isinstance(v, T):
            return self.t(v)
        r = self.vmemo.get(v.vid)
        if r is None:
            r = self.vmemo[v.vid] = self._val(v)
        return r

    def _val(self, v):
        c = v.cls
        if c == "seq":
            n = self.seqlen(v)
            if n > CAP:
                # a digest: the length and some elements
                return ("long", n, tuple(self.elem(v, _h(self.seed, "digest", k) % n) for k in range(24)))
            out = []
            for p in pieces(v):
                L = len(p[1]) if p[0] == "e" else self.t(p[-1])
                out.extend(self.pelem(p, i) for i in range(L))
            return ("seq", tuple(out))
        if c == "vec":
            return self.val(v.kids[0])
        if c == "agg":
            return ("agg", v.shape[1]) + tuple(self.any(k) for k in v.kids)
        if c == "enum":
            return ("enum", v.shape[1], self.t(v.kids[0]))
        if c in ("str", "fn", "opq", "undef"):
            return (c, str(v.shape))
        if c == "src":
            return ("src",) + self.srckey(v)
        if c == "lam":
            raise Unknown("lam")
        return (c, v.vid)

    def same(self, a, b):
        """are two values equal under this sample?  long sequences are compared at probed positions"""
        if isinstance(a, Val) and isinstance(b, Val) and a.cls in ("seq", "vec") and b.cls in ("seq", "vec"):
            if a.cls == "vec":
                a = a.kids[0]
            if b.cls == "vec":
                b = b.kids[0]
            n = self.seqlen(a)
            if n != self.seqlen(b):
                return False
            if n > 600:
                pos = {0, n - 1}
                for s in (a, b):
                    o = 0
                    for p in pieces(s):
                        if p[0] == "e":
                            pos |= set(range(o, o + min(len(p[1]), 200)))
                        o += len(p[1]) if p[0] == "e" else self.t(p[-1])
                        pos |= {o - 1, o, o + 1}
                for k in range(60):
                    pos.add(_h(self.seed, "probe", k) % n)
                for i in sorted(pos):
                    if 0 <= i < n and self.elem(a, i) != self.elem(b, i):
                        return False
                return True
        return self.any(a) == self.any(b)

    # ---------------------------------------------------------------- facts
    def consistent(self):
        st = self.st
        if st is None:
            return True
        for k, v in st.truth.items():
            if isinstance(k, tuple):
                t = byid(k[0])
                if ((self.t(t) >> k[1]) & 1) != int(v):
                    return False
            else:
                t = byid(k)
                if self.t(t) != int(v):
                    return False
        for k, (l, h) in st.ctx.iv.items():
            if isinstance(k, tuple):
                x = self.poly(k[1])
            else:
                x = byid(k)
                if l <= x.lo and h >= x.hi:
                    continue
                x = self.t(x)
            if not l <= x <= h:
                return False
        return True


def samples(st, want=12, tries=400, free_mu=False, maxlen=200, seed=1):
    """samples satisfying the path facts"""
    out = []
    bad = 0
    for k in range(tries):
        s = Sample(st, seed * 100003 + k, free_mu, maxlen if k % 3 else 20)
        try:
            if s.consistent():
                out.append(s)
        except Unknown:
            bad += 1
            if bad > 40:
                break
        if len(out) >= want:
            break
    return out


def targets(*vals):
    """comparisons inside the values: the places where rarely taken alternatives hide; as (symbol, sign, other terms, constant)"""
    out, seen = [], set()

    def term(t):
        for i in support(t) | {t.id}:
            if not isinstance(i, int) or i in seen:
                continue
            seen.add(i)
            x = byid(i)
            if x.op != "f" or x.a[0] not in ("eq0", "lt0"):
                continue
            ms = dict(x.a[1])
            c0 = ms.pop((), 0) + (x.a[2] if x.a[0] == "eq0" else 0)
            for m, c in sorted(ms.items()):
                if len(m) == 1 and c in (1, -1):
                    t = byid(m[0])
                    if t.op == "v":
                        out.append((t, c, tuple((k, v) for k, v in ms.items() if k != m), c0))
                        break

    def val(v, d=0):
        if isinstance(v, T):
            term(v)
        elif isinstance(v, Val) and v.vid not in vseen and len(vseen) < 4000:
            vseen.add(v.vid)
            if v.cls == "seq":
                for p in pieces(v):
                    for y in p[1:]:
                        for z in (y if isinstance(y, tuple) else (y,)):
                            if isinstance(z, (T, Val)):
                                val(z)
            else:
                for k in v.kids:
                    val(k)
    vseen = set()
    for v in vals:
        val(v)
    return out[:12]


def differs(st, a, b, free_mu=False, want=24, tries=400, seconds=6):
    """a witness sample where the two values differ; False: none found on `want` samples; None: no samples"""
    import time
    n = 0
    bad = 0
    t0 = time.time()
    tg = targets(a, b)
    for k in range(tries):
        s = Sample(st, 77003 + k, free_mu, 200 if k % 3 else 20)
        try:
            if tg and k % 2:
                # hit one of the comparisons exactly, or miss it by one
                t, c, rest, c0 = tg[(k // 2) % len(tg)]
                r = Sample(st, 77003 + k, free_mu, 200 if k % 3 else 20).poly(rest) + c0 + (k // 2 // len(tg)) % 3 - 1
                v = -r * c
                if t.lo <= v <= t.hi:
                    s.pins[t.id] = v
            if not s.consistent():
                continue
            x = s.same(a, b)
        except (Unknown, RecursionError):
            bad += 1
            if bad > 30 and not n:
                return None
            continue
        n += 1
        if not x:
            return s
        if n >= want or n >= 8 and time.time() - t0 > seconds:
            return False
    return False if n >= 3 else None
