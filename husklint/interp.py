"""Abstract interpreter over the MIR: path-partitioned, loops by fixpoint summaries."""
import os
import sys
import traceback
from math import gcd
from term import *
import term as TT
from val import *
import val as VV

sys.setrecursionlimit(20000)


class Stuck(Exception):
    """a construct the analysis does not model on the current path"""


class State:
    __slots__ = ("mem", "ctx", "truth", "ev", "nfid", "nheap", "nfresh", "notes")

    def __init__(self):
        self.mem = {("g", "net"): U64(0)}
        self.ctx = Ctx()
        self.truth = {}
        self.ev = None
        self.nfid = 0
        self.nheap = 0
        self.nfresh = 0
        self.notes = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        c = Ctx()
        c.iv = dict(self.ctx.iv)
        c.exact = self.ctx.exact
        s.ctx = c
        s.truth = dict(self.truth)
        s.ev = self.ev
        s.nfid, s.nheap, s.nfresh = self.nfid, self.nheap, self.nfresh
        s.notes = self.notes
        return s

    def emit(self, *e):
        self.ev = (self.ev, e)

    def events(self, since=None):
        out = []
        e = self.ev
        while e is not None and e is not since:
            out.append(e[1])
            e = e[0]
        return out[::-1]


class DropDerived(Exception):
    pass


class LoopInfo:
    def __init__(self, body, head, span):
        self.body = body
        self.head = head
        self.span = span
        self.leaves = {}     # leaf -> (init, mu)
        self.names = {}
        self.backs = []      # states reaching the header again
        self.start = None    # abstract state at the header
        self.ev0 = None

    def __repr__(self):
        return "loop@%s" % self.span


# ------------------------------------------------------------------ facts
def enter(st):
    TT.CTX[0] = st.ctx
    VV.DECIDE[0] = lambda t: decide(st, t)


def decide(st, t, depth=2):
    if t.op == "c":
        return bool(t.a)
    r = st.truth.get(t.id)
    if r is not None:
        return r
    op = t.op
    if op == "f":
        n = t.a[0]
        if n == "lt0":
            d = dict(t.a[1])
            return _lt0(st, d, depth)
        if n == "eq0":
            d = dict(t.a[1])
            c, w = t.a[2], t.a[3]
            l, h = _range(st, d, depth)
            l, h = l + c, h + c
            if w == 0:
                if l > 0 or h < 0:
                    return False
                if l == h == 0:
                    return True
                if c == 0 and len(d) > 1:
                    b = _bit_sum(d)
                    if b is not None and any(decide(st, x) is True for x in b):
                        return False
                if c == 0 and len(d) == 2 and st.truth:
                    r = _bitwise_eq(st, d)
                    if r is not None:
                        return r
                return _pinned_eq(st, d, c)
            M = 1 << w
            k = -(-l // M) * M
            if k > h:
                return False
            if l == h:
                return l % M == 0
            return None
        if n == "OR":
            allf = True
            for b in t.a[1]:
                x = decide_bit(st, b)
                if x is True:
                    return True
                if x is None:
                    allf = False
            return False if allf else None
    if op in ("b", "s", "p", "v", "f") and t.w == 1:
        l, h = rng(t)
        if l == h:
            return bool(l)
        if op == "b":
            r = decide_bit(st, t.a[0])
            if r is None and st.truth:
                r = st.truth.get(not_(t).id)
                if r is not None:
                    r = not r
            return r
        if op == "s" and t.a[0].op != "p":
            return decide_bit(st, getbits(t)[0])
    return None


def _bit_sum(d):
    """the truth values of a sum of distinct powers of two times truth values (it is 0 only if all are)"""
    cs, out = set(), []
    for m, k in d.items():
        k = abs(k)
        if len(m) != 1 or k & (k - 1) or k in cs:
            return None
        x = byid(m[0])
        if x.w != 1:
            return None
        cs.add(k)
        out.append(x)
    return out


def _bitwise_eq(st, d):
    """x == y where each bit of one is known to be, or not to be, the bit of the other"""
    (m, a), (n, b) = d.items()
    if a != -b or abs(a) != 1 or len(m) != 1 or len(n) != 1:
        return None
    x, y = byid(m[0]), byid(n[0])
    bx, by = getbits(x), getbits(y)
    r = True
    for k in range(max(len(bx), len(by))):
        e = (bx[k] if k < len(bx) else Z) ^ (by[k] if k < len(by) else Z)
        v = decide_bit(st, e)
        if v is True:
            return False
        if v is None:
            if r is True and k >= 1:
                return None
            r = None
    return r


def _pinned_eq(st, d, c):
    """the equation with the atoms that have one value left replaced by it"""
    e, hit = {(): c}, False
    for m, k in d.items():
        r = []
        for i in m:
            l, h = rng(byid(i))
            if l == h:
                k *= l
                hit = True
            else:
                r.append(i)
        r = tuple(r)
        e[r] = e.get(r, 0) + k
    if not hit:
        return _split_eq(st, d, c)
    k, c0, s = TT._lkey(e)
    if not k:
        return e.get((), 0) == 0
    t = TT._eqbit(k, c0 * s)
    if t is None:
        t = TT._mk("f", ("eq0", k, c0 * s, 0), 1, 0, 1)
    return bool(t.a) if t.op == "c" else st.truth.get(t.id)


def _eqterm(d, c):
    e = dict(d)
    e[()] = c
    k, c0, s = TT._lkey(e)
    if not k:
        return C(int(c == 0), 1)
    t = TT._eqbit(k, c0 * s)
    return t if t is not None else TT._mk("f", ("eq0", k, c0 * s, 0), 1, 0, 1)


def _split_eq(st, d, c):
    """g*A + B + c == 0 with B in a range shorter than g holds for at most one value of A"""
    if len(d) < 2 or len(d) > 8:
        return None
    for g in sorted({abs(k) for k in d.values()}, reverse=True):
        hi = {m: k for m, k in d.items() if abs(k) >= g}
        lo = {m: k for m, k in d.items() if abs(k) < g}
        if not lo or any(k % g for k in hi.values()):
            continue
        l, h = TT.ip_range(lo)
        if h - l >= g:
            continue
        # g*A = -c - B, in [-c - h, -c - l]
        q = (-c - l) // g
        if q * g < -c - h:
            return False
        x = decide(st, _eqterm({m: k // g for m, k in hi.items()}, -q), 0)
        if x is False:
            return False
        y = decide(st, _eqterm(lo, q * g + c), 0)
        if y is False:
            return False
        if x and y:
            return True
    return None


def decide_bit(st, b):
    if not b:
        return False
    if b == I:
        return True
    v = 0
    for m in b:
        x = True
        for (i, k) in m:
            y = decide_lit(st, i, k)
            if y is False:
                x = False
                break
            if y is None:
                x = None
        if x is None:
            return _known_bit(st, b)
        v ^= int(x)
    return bool(v)


def _known_bit(st, b):
    """an xor recorded as a fact as a whole"""
    if len(b) < 2 or not st.truth:
        return None
    neg = I <= b
    if neg:
        b = b ^ I
    r = st.truth.get(frombits((b,)).id)
    return None if r is None else r != neg


def decide_lit(st, i, k):
    t = byid(i)
    if t.w == 1 and k == 0:
        r = st.truth.get(i)
        if r is not None:
            return r
        if t.op in ("f", "v"):
            return decide(st, t)
        return None
    l, h = rng(t)
    if l == h:
        return bool((l >> k) & 1)
    r = st.truth.get((i, k))
    return r


def _linfacts(st):
    out = []
    seen = set()
    for k, v in st.ctx.iv.items():
        if isinstance(k, tuple):
            out.append((k[1], v))
            for m, c in k[1]:
                if len(m) == 1:
                    seen.add(m[0])
        else:
            seen.add(k)
    for i in seen:
        hs = _highslice(i)
        if hs is not None:
            out.append(hs)
    return out


_hs = {}


def _highslice(i):
    """defining equation of the atom slice(P, k, top): 2^k*atom + low k bits - P = 0, as (key, (0, 0))"""
    r = _hs.get(i, 0)
    if r != 0:
        return r
    t = byid(i)
    r = None
    if t.op == "s" and t.a[0].op in ("p", "v", "f") and t.a[1] > 0:
        base, lo = t.a[0], t.a[1]
        if lo + t.w == base.w:
            low = intpoly(mkslice(base, 0, lo))
            d = {m: -c for m, c in intpoly(base).items()}
            for m, c in low.items():
                d[m] = d.get(m, 0) + c
            d[(i,)] = d.get((i,), 0) + (1 << lo)
            c0 = d.pop((), 0)
            d = {m: c for m, c in d.items() if c}
            r = (tuple(d.items()), (-c0, -c0))
    if is_exact(t.a[0]) if r is not None else True:
        _hs[i] = r
    return r


def subst_state(st, env, srcs=None):
    """rewrite a state under equalities mu := term"""
    f = VSubst(env, srcs)
    for loc in list(st.mem):
        st.mem[loc] = vsubst(st.mem[loc], f)
    ids = set(env)
    iv = st.ctx.iv
    tr = st.truth
    ex = st.ctx.exact
    st.ctx = Ctx()
    st.ctx.exact = ex
    st.truth = {}
    enter(st)
    later = []
    for k, r in iv.items():
        if isinstance(k, tuple):
            if any(any(i in ids or (support(byid(i)) & ids) for i in m) for m, c in k[1]):
                later.append((k[1], r))
            else:
                st.ctx.iv[k] = r
        elif k in ids or (support(byid(k)) & ids):
            later.append(((((k,), 1),), r))
        else:
            st.ctx.iv[k] = r
    for k, v in tr.items():
        i = k[0] if isinstance(k, tuple) else k
        if not (support(byid(i)) & ids):
            st.truth[k] = v
    for key, (l, h) in later:
        d = {}
        for m, c in key:
            q = {(): c}
            for i in m:
                x = intpoly(f(byid(i)))
                n = {}
                for a, b in q.items():
                    for a2, b2 in x.items():
                        kk = tuple(sorted(a + a2))
                        n[kk] = n.get(kk, 0) + b * b2
                q = n
            for a, b in q.items():
                d[a] = d.get(a, 0) + b
        c0 = d.pop((), 0)
        d = {m: c for m, c in d.items() if c}
        if not d:
            continue
        k, z, s = TT._lkey(d)
        if s > 0:
            _setlin(st, k, l - c0, h - c0)
        else:
            _setlin(st, k, c0 - h, c0 - l)
    for k, v in tr.items():
        i = k[0] if isinstance(k, tuple) else k
        t = byid(i)
        if support(t) & ids:
            if isinstance(k, tuple):
                continue
            t2 = f(t)
            if t2.op != "c" and t2.w == 1:
                assume(st, t2, v)
    enter(st)


def _range(st, d, depth=2):
    """integer range of the linear form d under the path facts"""
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, c)
    if g > 1:
        c0 = d.get((), 0)
        l, h = _range(st, {m: c // g for m, c in d.items() if m != ()}, depth)
        return l * g + c0, h * g + c0
    best = ip_range(d)
    if depth <= 0:
        return best
    l, h = best
    if l == h:
        return best
    mons = {m: c for m, c in d.items() if m != () and c}
    facts = _linfacts(st)
    for m in mons:
        if len(m) == 1:
            hs = _highslice(m[0])
            if hs is not None and hs not in facts:
                facts.append(hs)
    for key, (fl, fh) in facts:
        if len(key) < 2:
            continue
        for m, c in key:
            if m in mons:
                g = gcd(mons[m], c)
                k = abs(c) // g
                q = mons[m] * k // c
                r = {a: b * k for a, b in d.items()}
                for m2, c2 in key:
                    r[m2] = r.get(m2, 0) - q * c2
                r = {a: b for a, b in r.items() if b}
                if len(r) > len(mons) + 2:
                    continue
                rl, rh = _range(st, r, depth - 1)
                a, b = (q * fl, q * fh) if q > 0 else (q * fh, q * fl)
                l = max(l, -(-(rl + a) // k))
                h = min(h, (rh + b) // k)
    return l, h


def _lt0(st, d, depth):
    l, h = _range(st, d, depth)
    if h < 0:
        return True
    if l >= 0:
        return False
    return None


def assume(st, t, v):
    """add the fact t == v; False if that is contradictory"""
    enter(st)
    d = decide(st, t)
    if d is not None:
        return d == v
    op = t.op
    if op == "f":
        n = t.a[0]
        st.truth[t.id] = v
        if n == "lt0":
            return _assume_lt0(st, dict(t.a[1]), v)
        if n == "eq0":
            return _assume_eq0(st, t, v)
        if n == "OR":
            if not v:
                for b in t.a[1]:
                    if not assume_bit(st, b, False):
                        return False
            else:
                und = []
                for b in t.a[1]:
                    if decide_bit(st, b) is None:
                        und.append(b)
                if len(und) == 1:
                    return assume_bit(st, und[0], True)
            return True
        if n == "seqeq" and v:
            return _assume_seqeq(st, t.a[1], t.a[2])
        return True
    if t.w == 1:
        if op == "v":
            st.truth[t.id] = v
            st.ctx.iv[t.id] = (int(v), int(v))
            return True
        if op == "b":
            r = assume_bit(st, t.a[0], v)
            st.truth[t.id] = v
            return r
        st.truth[t.id] = v
        if op in ("s",) and t.a[0].op == "p":
            st.ctx.iv[t.id] = (int(v), int(v))
            return True
        if op == "p":
            return True
        return assume_bit(st, getbits(t)[0], v)
    return True


def _assume_seqeq(st, a, b):
    """equal to a sequence of known length: the same length and items"""
    xa, xb = seq_map_explicit(a, 64), seq_map_explicit(b, 64)
    if (xa is None) == (xb is None):
        return True
    x, o = (xa, b) if xa is not None else (xb, a)
    if not assume(st, eq(seq_len(o), C(len(x), 64)), True):
        return False
    if not all(isinstance(y, T) for y in x):
        return True
    for i, y in enumerate(x):
        try:
            z = seq_get(o, C(i, 64))
        except (Undecided, Stuck):
            return True
        if isinstance(z, T) and z.w == y.w and not assume(st, eq(y, z), True):
            return False
    return True


def assume_bit(st, b, v):
    d = decide_bit(st, b)
    if d is not None:
        return d == v
    if I <= b:
        return assume_bit(st, b ^ I, not v)
    if len(b) == 1:
        (m,) = b
        if v:
            for (i, k) in m:
                if not assume_lit(st, i, k, True):
                    return False
            return True
        und = [(i, k) for (i, k) in m if decide_lit(st, i, k) is None]
        if len(und) == 1:
            return assume_lit(st, und[0][0], und[0][1], False)
        return True
    if not v:
        at = set()
        for m in b:
            at |= m
        if len(at) <= 4 and len(b) == (1 << len(at)) - 1 and frozenset() not in b:
            # an inclusive or: none of them
            return all(assume_lit(st, i, k, False) for i, k in sorted(at))
    # xor of several: if all but one known
    und = []
    par = v
    for m in b:
        x = decide_bit(st, frozenset([m]))
        if x is None:
            und.append(m)
        else:
            par ^= x
    if len(und) == 1:
        return assume_bit(st, frozenset(und), par)
    st.truth[frombits((b,)).id] = v
    if len(und) < len(b):
        st.truth[frombits((frozenset(und),)).id] = par
    return True


def assume_lit(st, i, k, v):
    t = byid(i)
    d = decide_lit(st, i, k)
    if d is not None:
        return d == v
    if t.w == 1:
        if t.op in ("f", "v"):
            return assume(st, t, v)
        st.truth[i] = v
        return True
    st.truth[(i, k)] = v
    # all bits known?
    n = t.hi.bit_length()
    val = 0
    for j in range(n):
        x = st.truth.get((i, j))
        if x is None:
            return True
        val |= int(x) << j
    return setiv(st, t, val, val)


def setiv(st, t, l, h):
    a, b = rng(t)
    l, h = max(a, l), min(b, h)
    if l > h:
        return False
    if t.op == "c":
        return l <= t.a <= h
    st.ctx.iv[t.id] = (l, h)
    if l == h and t.op == "p":
        pass
    return True


def _setlin(st, key, l, h):
    cur = st.ctx.iv.get(("lin", key))
    rl, rh = ip_range(dict(key))
    if cur:
        rl, rh = max(rl, cur[0]), min(rh, cur[1])
    if l is not None:
        rl = max(rl, l)
    if h is not None:
        rh = min(rh, h)
    if rl > rh:
        return False
    st.ctx.iv[("lin", key)] = (rl, rh)
    if len(key) == 1 and key[0][1] == 1 and len(key[0][0]) == 1:
        t = byid(key[0][0][0])
        return setiv(st, t, rl, rh)
    return True


def _assume_lt0(st, d, v):
    k, c0, s = TT._lkey(d)
    if v:
        return _setlin(st, k, None, -1 - c0) if s > 0 else _setlin(st, k, c0 + 1, None)
    return _setlin(st, k, -c0, None) if s > 0 else _setlin(st, k, None, c0)


def _assume_eq0(st, t, v):
    key, c, w = t.a[1], t.a[2], t.a[3]
    if len(key) == 1 and len(key[0][0]) == 1 and key[0][1] in (1, -1):
        x = byid(key[0][0][0])
        if x.w == 1 and x.op == "f":
            # one truth value: x == e
            e = -c * key[0][1]
            if e in (0, 1):
                return assume(st, x, bool(e) == v)
            return not v
    if w == 0 and c == 0 and len(key) > 1:
        b = _bit_sum(dict(key))
        if b is not None:
            if v:
                return all(assume(st, x, False) for x in b)
            und = [x for x in b if decide(st, x) is None]
            return True if len(und) != 1 else assume(st, und[0], True)
    if v:
        if w == 0:
            return _setlin(st, key, -c, -c)
        if len(key) == 1 and key[0][1] == 1 and len(key[0][0]) == 1:
            x = byid(key[0][0][0])
            val = (-c) % (1 << w)
            return setiv(st, x, val, val)
        return True
    l, h = _range(st, dict(key), 1)
    if len(key) == 1 and key[0][1] == 1 and w:
        e = (-c) % (1 << w)
    else:
        e = -c
    if w == 0 or len(key) == 1:
        if l == e:
            return _setlin(st, key, e + 1, None)
        if h == e:
            return _setlin(st, key, None, e - 1)
    return True


# ------------------------------------------------------------------ interpreter
class Out:
    __slots__ = ("kind", "st", "val", "bb")

    def __init__(self, kind, st, val=None, bb=None):
        self.kind, self.st, self.val, self.bb = kind, st, val, bb


class Loop:
    def __init__(self, head, blocks):
        self.head, self.blocks = head, blocks


class Interp:
    def __init__(self, prog, models=None, contracts=None):
        self.prog = prog
        self.models = models if models is not None else {}
        self.contracts = contracts or {}
        self.fallback = None
        self.ranges = ()          # widths of loop-carried numbers whose bounds are inferred
        self.panics = []          # possible and definite panic sites
        self.stucks = []
        self.stack = []
        self.analysed = set()
        self.npaths = 0
        self.nstmts = 0
        self.maxsteps = 3000000
        self.loops = []
        self.derived = {}         # ghost location -> (value in terms of the program state, comparison)
        self.nodrv = set()
        self.branches = []        # (span, fn, term) of data-dependent decisions
        self.accesses = []        # (span, fn, index term)
        self.indices = {}         # (fn, index id) -> index term of a place
        self.divs = {}            # (fn, dividend id, divisor id) -> (dividend, divisor)
        self.fmts = []            # (span, fn, value): what is put into formatted text or an error description
        self.eqs = []             # (span, fn, a, b): comparisons of whole sequences by the library
        self.unroll_undecided = 2
        self.peel = 0             # >0: loops are only peeled that often and longer paths cut off (refutation only)
        self.cut = 0
        self.calls_seen = {}
        VV._mat[0] = self.fresh
        self.entered = {}

    # ---------------------------------------------------------- types
    def ty(self, i):
        return self.prog.types[i]

    def tystr(self, i):
        return self.prog.types[i]["s"]

    def is_path(self, i, *paths):
        t = self.prog.types[i]
        return t["k"] == "adt" and t.get("path") in paths

    def ety(self, i):
        t = self.ty(i)
        w = self.prog.width(i)
        if w is not None:
            return ("int", w)
        return ("ty", i)

    # ---------------------------------------------------------- unknown values
    def fresh(self, ty, key):
        t = self.ty(ty)
        k = t["k"]
        w = self.prog.width(ty)
        if w is not None:
            return V(key, w)
        if k == "array":
            n = int(t["len"])
            return srcslice(Src(key, (), self.ety(t["elem"])), U64(0), U64(n))
        if k == "tuple":
            return Agg(ty, 0, [self.fresh(e, (key, i)) for i, e in enumerate(t["elems"])])
        if k in ("ref", "ptr"):
            return Ptr(("sym", key, t["to"]))
        if k == "slice":
            n = V((key, "len"), 64, 0, (1 << 62) - 1)
            return srcslice(Src(key, (), self.ety(t["elem"])), U64(0), n)
        if k == "str":
            return Opaque(ty, key)
        if k == "closure":
            return Agg(ty, 0, [self.fresh(e, (key, i)) for i, e in enumerate(t.get("upvars", []))])
        if k == "fndef":
            return Fn(ty)
        if k == "adt":
            p = t["path"]
            if p in ("std::vec::Vec", "alloc::vec::Vec"):
                e = t["args"][0]
                n = V((key, "len"), 64, 0, (1 << 62) - 1)
                return Vec(srcslice(Src(key, (), self.ety(e)), U64(0), n), e)
            if p == "std::boxed::Box":
                return Box(("sym", key, t["args"][0]), ty)
            if t["kind"] == "enum":
                vs = t["variants"]
                if len(vs) == 0:
                    return Opaque(ty, key)
                ds = [int(v["discr"]) for v in vs]
                d = V((key, "discr"), 64, min(ds), max(ds))
                if len(vs) == 1:
                    return Agg(ty, 0, [self.fresh(f["ty"], (key, 0, i)) for i, f in enumerate(vs[0]["fields"])])
                return Enum(ty, key, d)
            if t["kind"] == "struct" and (t.get("local") or self.expandable(p)):
                return Agg(ty, 0, [self.fresh(f["ty"], (key, f["name"])) for f in t["variants"][0]["fields"]])
            return Opaque(ty, key)
        return Opaque(ty, key)

    EXP = ("std::num::Wrapping", "core::num::Wrapping", "std::ops::Range", "std::ops::RangeFrom",
           "std::ops::RangeTo", "std::ops::RangeInclusive")

    def expandable(self, p):
        return p in self.EXP

    # ---------------------------------------------------------- memory
    def memget(self, st, loc):
        v = st.mem.get(loc)
        if v is None:
            if loc[0] == "sym":
                v = self.fresh(loc[2], (loc[1], "*"))
                st.mem[loc] = v
            elif loc[0] == "static":
                s = self.prog.statics[loc[1]]
                v = self.const(st, s["v"], s["ty"])
                st.mem[loc] = v
            else:
                raise Stuck("read of an undefined location %s" % (loc,))
        return v

    def variant_fields(self, v, variant):
        """payload of an enum value as variant `variant`"""
        if v.cls == "agg":
            return v
        if v.cls == "enum":
            ty, key = v.shape
            t = self.ty(ty)
            fs = t["variants"][variant]["fields"]
            return Agg(ty, variant, [self.fresh(f["ty"], (key, variant, i)) for i, f in enumerate(fs)])
        raise Stuck("variant of %s" % v.cls)

    def step(self, st, v, e):
        if isinstance(e, int):
            c = v.cls
            if c == "agg":
                return v.kids[e]
            if c in ("box", "ptr"):
                return v          # Unique/NonNull wrappers
            if c == "enum":
                raise Stuck("field of an enum without variant")
            if c == "it":
                raise Stuck("field of an iterator")
            if c == "opq":
                raise Stuck("field of opaque %s" % (self.tystr(v.shape[0]),))
            if c == "undef":
                raise Stuck("field of undefined value")
            raise Stuck("field of %s" % c)
        k = e[0]
        if k == "d":
            return self.variant_fields(v, e[1])
        if k == "i":
            if v.cls == "vec":
                v = v.kids[0]
            return seq_get(v, e[1])
        if k == "rng":
            if v.cls == "vec":
                v = v.kids[0]
            return seq_slice(v, e[1], e[2])
        if k == "b":
            if v.cls == "vec":
                return v.kids[0]
            return v
        raise Stuck("projection %s" % (e,))

    def load(self, st, loc, path):
        enter(st)
        v = self.memget(st, loc)
        try:
            for e in path:
                v = self.step(st, v, e)
        except Undecided as x:
            raise Stuck("load: %s" % x)
        return v

    def store(self, st, loc, path, val):
        enter(st)
        if not path:
            st.mem[loc] = val
            return
        v = self.memget(st, loc) if loc in st.mem or loc[0] in ("sym", "static") else UNDEF
        try:
            st.mem[loc] = self.upd(st, v, path, 0, val)
        except Undecided as x:
            raise Stuck("store: %s" % x)

    def upd(self, st, v, path, i, val):
        if i == len(path):
            return val
        e = path[i]
        if isinstance(e, int):
            if v.cls in ("box", "ptr"):
                return self.upd(st, v, path, i + 1, val)
            if v.cls != "agg":
                if v.cls == "undef":
                    raise Stuck("field store into undefined value")
                raise Stuck("field store into %s" % v.cls)
            ks = list(v.kids)
            ks[e] = self.upd(st, ks[e], path, i + 1, val)
            return mk("agg", v.shape, tuple(ks))
        k = e[0]
        if k == "d":
            return self.upd(st, self.variant_fields(v, e[1]), path, i + 1, val)
        if k == "b":
            if v.cls == "vec":
                return Vec(self.upd(st, v.kids[0], path, i + 1, val), v.shape[0])
            return self.upd(st, v, path, i + 1, val)
        vec = None
        if v.cls == "vec":
            vec = v
            v = v.kids[0]
        if k == "i":
            x = val if i + 1 == len(path) else self.upd(st, seq_get(v, e[1]), path, i + 1, val)
            r = seq_set(v, e[1], x)
        elif k == "rng":
            sub_ = val if i + 1 == len(path) else self.upd(st, seq_slice(v, e[1], e[2]), path, i + 1, val)
            n = seq_len(v)
            end = add(e[1], e[2])
            r = seq_cat(seq_slice(v, U64(0), e[1]), sub_, seq_slice(v, end, sub(n, end)))
        else:
            raise Stuck("store projection %s" % (e,))
        return Vec(r, vec.shape[0]) if vec is not None else r

    def deref(self, st, v):
        """(loc, path, dyn) a pointer value refers to"""
        if v.cls == "ptr":
            return v.shape[0], ptr_path(v), v.shape[2]
        if v.cls == "box":
            return v.shape[0], (), v.shape[2]
        raise Stuck("dereference of %s %s" % (v.cls, v.shape[:1]))

    def loadp(self, st, p):
        l, pa, _ = self.deref(st, p)
        return self.load(st, l, pa)

    def storep(self, st, p, val):
        l, pa, _ = self.deref(st, p)
        self.store(st, l, pa, val)

    def alloc(self, st, val):
        loc = ("h", st.nheap)
        st.nheap += 1
        st.mem[loc] = val
        return loc

    def place(self, st, fid, p):
        loc = ("l", fid, p["l"])
        path = ()
        dyn = None
        for e in p["p"]:
            if e == "*":
                v = self.load(st, loc, path)
                loc, path, dyn = self.deref(st, v)
                continue
            if "f" in e:
                path = path + (e["f"],)
            elif "d" in e:
                path = path + (("d", e["d"]),)
            elif "i" in e:
                i = self.load(st, ("l", fid, e["i"]), ())
                if isinstance(i, T) and i.op != "c":
                    self.indices[(self.stack[-1] if self.stack else "?", i.id)] = i
                path = path + (("i", i),)
            elif "ci" in e:
                n = int(e["ci"])
                if e.get("end"):
                    L = seq_len(self.asseq(self.load(st, loc, path)))
                    path = path + (("i", sub(L, U64(n))),)
                else:
                    path = path + (("i", U64(n)),)
            elif "sub" in e:
                a, b = int(e["sub"][0]), int(e["sub"][1])
                L = seq_len(self.asseq(self.load(st, loc, path)))
                if e.get("end"):
                    path = path + (("rng", U64(a), sub(L, U64(a + b))),)
                else:
                    path = path + (("rng", U64(a), U64(b - a)),)
            elif "oc" in e:
                pass
            else:
                raise Stuck("projection %s" % e)
        return loc, path, dyn

    def asseq(self, v):
        if v.cls == "vec":
            return v.kids[0]
        if v.cls == "seq":
            return v
        raise Stuck("sequence expected, found %s" % v.cls)

    # ---------------------------------------------------------- operands
    def const(self, st, v, ty):
        t = self.ty(ty)
        w = self.prog.width(ty)
        if "i" in v:
            if w is None:
                if t["k"] in ("ref", "ptr"):
                    return Opaque(ty, "intptr")
                w = 64
            return C(int(v["i"]), w)
        if "a" in v:
            vs = v["a"]
            e = t.get("elem")
            return explicit([self.const(st, x, e) for x in vs])
        if "s" in v:
            fs = v["s"]
            if t["k"] == "tuple":
                return Agg(ty, 0, [self.const(st, x, e) for x, e in zip(fs, t["elems"])])
            if t["k"] == "closure":
                return Agg(ty, 0, [])
            if t["k"] == "adt":
                if t["kind"] == "struct":
                    if t["path"] in ("std::vec::Vec", "alloc::vec::Vec"):
                        return Vec(EMPTY(), t["args"][0])
                    ft = [f["ty"] for f in t["variants"][0]["fields"]]
                    if len(ft) == len(fs):
                        return Agg(ty, 0, [self.const(st, x, e) for x, e in zip(fs, ft)])
            if not fs:
                return Agg(ty, 0, [])
            raise Stuck("constant of type %s" % t["s"])
        if "e" in v:
            vi = int(v["e"])
            ft = [f["ty"] for f in t["variants"][vi]["fields"]]
            return Agg(ty, vi, [self.const(st, x, e) for x, e in zip(v["f"], ft)])
        if "ref" in v:
            to = t.get("to")
            inner = v["ref"]
            tt = self.ty(to)
            if tt["k"] == "str":
                return Str(str(inner))
            val = self.const(st, inner, to)
            loc = ("c", val.id if isinstance(val, T) else val.vid, isinstance(val, T))
            st.mem[loc] = val
            return Ptr(loc)
        if "static" in v:
            return Ptr(("static", v["static"]))
        if "str" in v:
            return Str(v["str"])
        if "fn" in v:
            return Fn(v["fn"])
        if "closure" in v:
            return Agg(v["closure"], 0, [])
        if "u" in v:
            if t["k"] == "fndef":
                return Fn(ty)
            return Opaque(ty, "const")
        raise Stuck("constant %s" % list(v)[:1])

    def operand(self, st, fid, o):
        if "k" in o:
            return self.const(st, o["k"], o["t"])
        p = o.get("c") or o.get("m")
        loc, path, _ = self.place(st, fid, p)
        return self.load(st, loc, path)

    # ---------------------------------------------------------- rvalues
    def discr(self, st, v, ty=None):
        if v.cls == "agg":
            t = self.ty(v.shape[0])
            if t["k"] == "adt":
                return C(int(t["variants"][v.shape[1]]["discr"]), 64)
            return C(0, 64)
        if v.cls == "enum":
            return v.kids[0]
        if v.cls == "opq":
            t = self.ty(v.shape[0])
            if t["k"] == "adt" and t["kind"] == "enum":
                ds = [int(x["discr"]) for x in t["variants"]]
                return V((v.shape[1], "discr"), 64, min(ds), max(ds))
        raise Stuck("discriminant of %s" % v.cls)

    def rvalue(self, st, fid, v, body, span):
        r = v["r"]
        enter(st)
        if r == "use":
            return self.operand(st, fid, v["o"])
        if r == "ref":
            loc, path, dyn = self.place(st, fid, v["p"])
            return self.mkref(st, loc, path, dyn)
        if r == "bin":
            a = self.operand(st, fid, v["a"])
            b = self.operand(st, fid, v["b"])
            return self.binop(st, v["op"], a, b, v.get("t"))
        if r == "un":
            a = self.operand(st, fid, v["a"])
            op = v["op"]
            if op == "Not":
                return not_(a)
            if op == "Neg":
                return neg(a)
            if op == "PtrMetadata":
                return self.ptrlen(st, a)
            raise Stuck("unary %s" % op)
        if r == "cast":
            a = self.operand(st, fid, v["o"])
            return self.cast(st, v, a)
        if r == "discr":
            loc, path, _ = self.place(st, fid, v["p"])
            d = self.discr(st, self.load(st, loc, path))
            t = v.get("t")
            w = self.prog.width(t) if t is not None else 64
            return cast(d, w or 64)
        if r == "agg":
            os_ = [self.operand(st, fid, o) for o in v["o"]]
            k = v["k"]
            if k == "array":
                return explicit(os_)
            if k == "rawptr":
                return os_[0]
            if k == "tuple":
                return Agg(v["ty"], 0, os_)
            if k == "adt":
                if self.tystr(v["ty"]).endswith("TlsError"):
                    self.fmts += [("", self.stack[-1] if self.stack else "?", x) for x in os_]
                return Agg(v["ty"], v["v"], os_)
            return Agg(v["ty"], 0, os_)
        if r == "repeat":
            o = self.operand(st, fid, v["o"])
            n = int(v["n"])
            return Seq((("r", o, U64(n)),))
        raise Stuck("rvalue %s" % r)

    def mkref(self, st, loc, path, dyn=None):
        # collapse a trailing deref of a string constant etc.
        return Ptr(loc, path, dyn)

    def ptrlen(self, st, p):
        if p.cls == "str":
            return U64(len(p.shape[0]))
        if p.cls == "ptr":
            pa = ptr_path(p)
            if pa and isinstance(pa[-1], tuple) and pa[-1][0] == "rng":
                return pa[-1][2]
            v = self.loadp(st, p)
            if v.cls == "str":
                return U64(len(v.shape[0]))
            return seq_len(self.asseq(v))
        if p.cls == "box":
            return seq_len(self.asseq(self.loadp(st, p)))
        raise Stuck("length of %s" % p.cls)

    def binop(self, st, op, a, b, ty):
        if not isinstance(a, T) or not isinstance(b, T):
            if op in ("Eq", "Ne") and isinstance(a, Val) and isinstance(b, Val):
                if a is b:
                    return TRUE if op == "Eq" else FALSE
            raise Stuck("operator %s on %s" % (op, a.cls if isinstance(a, Val) else "int"))
        signed = False
        if ty is not None:
            t = self.ty(ty)
            signed = bool(t.get("signed"))
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op == "BitXor":
            return xor(a, b)
        if op == "BitAnd":
            return and_(a, b)
        if op == "BitOr":
            return or_(a, b)
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            if b.op != "c":
                l, h = rng(b)
                if l == h:
                    b = C(l, b.w)
            if b.op != "c":
                return self.symshift(op, a, b, signed)
            n = b.a % a.w
            if op.startswith("Shl"):
                return shl(a, n)
            return ashr(a, n) if signed else self.define(st, shr(a, n))
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return ne(a, b)
        if op in ("Lt", "Le", "Gt", "Ge"):
            f = slt if signed else ult
            if op == "Lt":
                return f(a, b)
            if op == "Gt":
                return f(b, a)
            if op == "Le":
                return not_(f(b, a))
            return not_(f(a, b))
        if op in ("Div", "Rem") and b.op != "c":
            self.divs[(self.stack[-1] if self.stack else "?", a.id, b.id)] = (a, b)
        if op == "Div" and not signed:
            return self.define(st, udiv(a, b))
        if op == "Rem" and not signed:
            return urem(a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            return self.ovf(st, op, a, b, signed, ty)
        if op == "Cmp":
            lt = slt(a, b) if signed else ult(a, b)
            e = eq(a, b)
            raise Stuck("three-way comparison")
        if op == "Offset":
            raise Stuck("pointer offset")
        raise Stuck("operator %s" % op)

    def define(self, st, t):
        """keep the defining equation of a quotient at hand"""
        if t.w >= 48 and t.op != "c":
            for m in intpoly(t):
                if len(m) == 1:
                    hs = _highslice(m[0])
                    if hs is not None:
                        k, z, sg = TT._lkey(dict(hs[0]))
                        _setlin(st, k, hs[1][0] * sg, hs[1][0] * sg)
        return t

    def symshift(self, op, a, b, signed):
        if signed and op.startswith("Shr"):
            raise Stuck("signed shift by a variable")
        return F("shl" if op.startswith("Shl") else "shr", (a, b), a.w)

    def ovf(self, st, op, a, b, signed, ty):
        w = a.w
        if signed:
            (l1, h1), (l2, h2) = rng(a), rng(b)
            f = {"A": add, "S": sub, "M": mul}[op[0]]
            r = f(a, b)
            half = 1 << (w - 1)
            if h1 < half and h2 < half:
                lo, hi = {"A": (l1 + l2, h1 + h2), "S": (l1 - h2, h1 - l2), "M": (l1 * l2, h1 * h2)}[op[0]]
                if -half <= lo and hi < half:
                    return mk("agg", ("pair", 0), (r, FALSE))
            return mk("agg", ("pair", 0), (r, V(("sovf", r.id, a.id, b.id), 1)))
        A, B = intpoly(a), intpoly(b)
        d = {}
        if op[0] == "M":
            for m, c in A.items():
                for n, e in B.items():
                    k = tuple(sorted(m + n))
                    d[k] = d.get(k, 0) + c * e
            r = mul(a, b)
        else:
            d = dict(A)
            s = 1 if op[0] == "A" else -1
            for m, c in B.items():
                d[m] = d.get(m, 0) + s * c
            r = add(a, b) if s == 1 else sub(a, b)
        if op[0] == "S":
            o = lt0(d)
        else:
            d = dict(d)
            d[()] = d.get((), 0) - (1 << w)
            o = not_(lt0(d))
        return mk("agg", ("pair", 0), (r, o))

    def cast(self, st, v, a):
        kind = v["kind"]
        if kind in ("IntToInt",):
            if not isinstance(a, T):
                if a.cls in ("agg", "enum"):
                    a = self.discr(st, a)
                else:
                    raise Stuck("int cast of %s" % a.cls)
            w = self.prog.width(v["to"])
            ft = self.ty(v["from"])
            fw = self.prog.width(v["from"])
            if fw is not None and a.w != fw:
                a = cast(a, fw)
            if ft.get("signed") and w > a.w:
                l, h = rng(a)
                if h >= (1 << (a.w - 1)):
                    bits = getbits(a)
                    return frombits(bits + (bits[-1],) * (w - a.w))
            return cast(a, w)
        if kind == "Unsize" or "Unsize" in kind:
            d = v.get("dyn")
            if d and self.ty(d["concrete"])["s"].startswith("dyn ") and isinstance(a, Val) and a.cls in ("ptr", "box") and a.shape[2]:
                return a      # already a trait object
            if d:
                if a.cls == "ptr":
                    return mk("ptr", (a.shape[0], a.shape[1], (d["concrete"], d["trait"])), a.kids)
                if a.cls == "box":
                    return Box(a.shape[0], a.shape[1], (d["concrete"], d["trait"]))
            return a
        if kind in ("Transmute", "BoxDerefTransmute", "PtrToPtr", "MutToConstPointer", "ArrayToPointer",
                    "Subtype"):
            if kind == "Transmute":
                fw, tw = self.prog.width(v["from"]), self.prog.width(v["to"])
                tt, ft = self.ty(v["to"]), self.ty(v["from"])
                if isinstance(a, T):
                    if tw == a.w:
                        return a
                    if tt["k"] == "array":
                        ew = self.prog.width(tt["elem"])
                        if ew == 8:
                            return explicit(tobytes_le(a))
                    if tw is not None:
                        return cast(a, tw)
                    if tt["k"] == "adt" and tt["kind"] == "enum":
                        return Enum(v["to"], ("transmute", a.id), cast(a, 64))
                elif a.cls == "seq" and tw is not None:
                    vs = seq_map_explicit(a)
                    if vs is not None and vs and vs[0].w == 8:
                        return frombytes_le(vs)
                elif a.cls == "seq" and tt["k"] == "array":
                    vs = seq_map_explicit(a)
                    ew = self.prog.width(tt["elem"])
                    if vs is not None and ew is not None and vs and isinstance(vs[0], T):
                        if vs[0].w == ew:
                            return a
                        by = []
                        for x in vs:
                            by.extend(tobytes_le(x))
                        n = ew // 8
                        return explicit([frombytes_le(by[i:i + n]) for i in range(0, len(by), n)])
                if isinstance(a, Val) and a.cls in ("box", "ptr"):
                    return a
                raise Stuck("transmute to %s" % tt["s"])
            return a
        if kind in ("ReifyFnPointer", "ClosureFnPointer", "ReifyFn", "UnsafeFnPointer"):
            return a
        if "Fn" in kind:
            return a
        raise Stuck("cast %s" % kind)

    # ---------------------------------------------------------- obligations
    def where(self):
        return self.stack[-1] if self.stack else ("?", "?")

    def oblige(self, st, pred, kind, span, msg=""):
        """pred must hold or the code panics; returns False if it certainly panics"""
        enter(st)
        d = decide(st, pred)
        if d is True:
            self.record_ob(span, kind, True)
            return True
        fn = self.stack[-1] if self.stack else "?"
        self.panics.append(dict(fn=fn, span=span, kind=kind, msg=msg, definite=(d is False),
                                st=st.copy(), pred=pred, stack=tuple(self.stack)))
        self.record_ob(span, kind, False)
        if d is False:
            return False
        return assume(st, pred, True)

    def record_ob(self, span, kind, ok):
        fn = self.stack[-1] if self.stack else "?"
        self.entered.setdefault((fn, span, kind), []).append(ok)

    def panic(self, st, span, msg):
        fn = self.stack[-1] if self.stack else "?"
        self.panics.append(dict(fn=fn, span=span, kind="panic", msg=msg, definite=True, st=st.copy(),
                                pred=None, stack=tuple(self.stack)))

    # ---------------------------------------------------------- running
    def call_body(self, st, body, args):
        if len(self.stack) > 60:
            raise Stuck("call depth")
        if body.local:
            again = self.stack.count(body.key)
            if self.peel and again > self.peel:
                self.cut += 1
                return []
            if again > 3:
                raise Stuck("recursion")
        fid = st.nfid
        st.nfid += 1
        for i, a in enumerate(args):
            st.mem[("l", fid, i + 1)] = a
        self.stack.append(body.key)
        if body.local:
            self.analysed.add(body.key)
        try:
            outs = self.run(body, fid, st, 0, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            if o.kind == "ret":
                v = o.st.mem.get(("l", fid, 0))
                if v is None:
                    v = UNDEF
                for i in range(len(body.locals)):
                    o.st.mem.pop(("l", fid, i), None)
                o.val = v
                res.append(o)
            else:
                res.append(o)
        return self.merge(res)

    def merge(self, outs):
        """join return states that differ only in one C-like enum value"""
        if len(outs) < 4:
            return outs
        groups = {}
        rest = []
        for o in outs:
            if o.kind != "ret":
                rest.append(o)
                continue
            key = (tuple(sorted(((repr(k), v.id if isinstance(v, T) else v.vid) for k, v in o.st.mem.items()))), id(o.st.ev), o.st.nheap)
            groups.setdefault(key, []).append(o)
        res = []
        for g in groups.values():
            if len(g) < 3:
                res.extend(g)
                continue
            res.extend(self.merge_enum(g))
        return res + rest

    def merge_enum(self, g):
        # partition by shape of the return value with one C-like leaf abstracted
        parts = {}
        rest = []
        for o in g:
            lf = self.clike_leaf(o.val)
            if lf is None:
                rest.append(o)
                continue
            parts.setdefault(lf[0], []).append((o, lf[1], lf[2]))
        for ctxkey, lst in parts.items():
            if len(lst) < 3:
                rest.extend(x[0] for x in lst)
                continue
            # the facts: exactly one atom pinned differently in each
            pins = None
            for o, ty, vi in lst:
                p = {i: r for i, r in o.st.ctx.iv.items() if not isinstance(i, tuple) and r[0] == r[1]}
                pins = set(p) if pins is None else pins & set(p)
            cand = []
            for i in pins:
                vals = [o.st.ctx.iv[i][0] for o, _, _ in lst]
                if len(set(vals)) == len(vals):
                    cand.append((i, vals))
            if not cand:
                rest.extend(x[0] for x in lst)
                continue
            cand.sort(key=lambda c: (byid(c[0]).op != "s" and byid(c[0]).op != "v" and byid(c[0]).op != "f", c[0]))
            i, vals = cand[0]
            t = byid(i)
            ty = lst[0][1]
            vs = self.ty(ty)["variants"]
            ds = [int(vs[vi]["discr"]) for _, _, vi in lst]
            st = lst[0][0].st.copy()
            # keep only facts common to all
            iv = {}
            for k, r in st.ctx.iv.items():
                rs = [x[0].st.ctx.iv.get(k) for x in lst]
                if all(r2 is not None for r2 in rs):
                    iv[k] = (min(r2[0] for r2 in rs), max(r2[1] for r2 in rs))
            st.ctx.iv = iv
            st.truth = {k: v for k, v in st.truth.items() if all(x[0].st.truth.get(k) == v for x in lst)}
            enter(st)
            if ds == vals:
                d = cast(t, 64)
            else:
                tab = tuple(sorted(zip(vals, ds)))
                d = F(("tab", tab), (t,), 64, min(ds), max(ds))
            key = ("inset", i, tuple(sorted(vals)), ty)
            st.truth[F(("in", tuple(sorted(vals))), (t,), 1, 0, 1).id] = True
            nv = Enum(ty, key, d)
            o = Out("ret", st, self.clike_put(lst[0][0].val, nv))
            rest.append(o)
        return rest

    def clike_leaf(self, v, depth=0):
        """(context, enum type, variant) if v contains exactly one payload-free enum value at the end of a
        chain of single-field aggregates"""
        if not isinstance(v, Val) or v.cls != "agg" or depth > 4:
            return None
        ty = v.shape[0]
        if isinstance(ty, str):
            return None
        t = self.ty(ty)
        if t["k"] == "adt" and t["kind"] == "enum" and not v.kids and all(not x["fields"] for x in t["variants"]) and len(t["variants"]) > 2:
            return ((), ty, v.shape[1])
        if len(v.kids) == 1:
            r = self.clike_leaf(v.kids[0], depth + 1)
            if r:
                return ((v.shape,) + r[0], r[1], r[2])
        return None

    def clike_put(self, v, nv):
        if len(v.kids) == 1:
            return mk("agg", v.shape, (self.clike_put(v.kids[0], nv),))
        return nv

    def run(self, body, fid, st, bb, loop):
        work = [(st, bb, True)]
        outs = []
        loops = body.loops()
        while work:
            st, bb, first = work.pop()
            if loop is not None and not first:
                if bb == loop.head:
                    outs.append(Out("back", st))
                    continue
                if bb not in loop.blocks:
                    outs.append(Out("exit", st, bb=bb))
                    continue
            if bb in loops and not (loop is not None and first and bb == loop.head):
                try:
                    rs = self.do_loop(body, fid, st, bb)
                except Stuck as e:
                    self.stuck(st, body, bb, e, outs)
                    continue
                for o in rs:
                    if o.kind == "exit":
                        work.append((o.st, o.bb, False))
                    else:
                        outs.append(o)
                continue
            try:
                nxt = self.block(body, fid, st, bb, outs)
            except Stuck as e:
                self.stuck(st, body, bb, e, outs)
                continue
            for s2, b2 in nxt:
                work.append((s2, b2, False))
            if len(work) + len(outs) > 4000:
                raise Stuck("too many paths in %s" % body.key)
        return outs

    def stuck(self, st, body, bb, e, outs):
        blk = body.blocks[bb]
        self.stucks.append((body.key, blk.get("s"), str(e)))
        outs.append(Out("stuck", st, (body.key, blk.get("s"), str(e))))

    def block(self, body, fid, st, bb, outs):
        """execute one block; returns successor states"""
        blk = body.blocks[bb]
        enter(st)
        for s in blk["st"]:
            self.nstmts += 1
            if "v" in s:
                p = s["p"]
                val = self.rvalue(st, fid, s["v"], body, s.get("s"))
                if not p["p"]:
                    st.mem[("l", fid, p["l"])] = val
                else:
                    loc, path, _ = self.place(st, fid, p)
                    self.store(st, loc, path, val)
            elif "setd" in s:
                loc, path, _ = self.place(st, fid, s["p"])
                old = self.load(st, loc, path)
                raise Stuck("set discriminant")
            elif "copy" in s:
                raise Stuck("copy_nonoverlapping")
        if self.nstmts > self.maxsteps:
            raise Stuck("analysis budget")
        k = blk["t"]
        span = blk.get("s")
        if k == "goto":
            return [(st, blk["to"])]
        if k == "return":
            outs.append(Out("ret", st))
            return []
        if k == "drop":
            return [(st, blk["to"])]
        if k == "unreachable":
            return []
        if k == "assert":
            return self.do_assert(body, fid, st, blk, span)
        if k == "switch":
            return self.do_switch(body, fid, st, blk, span)
        if k == "call":
            return self.do_call(body, fid, st, blk, span, outs)
        raise Stuck("terminator %s" % k)

    def do_assert(self, body, fid, st, blk, span):
        c = self.operand(st, fid, blk["o"])
        exp = blk["exp"]
        if exp in (False, 0, "false"):
            c = not_(c)
        kind = blk.get("kind", "assert")
        # an overflow check that passes makes the arithmetic exact
        if not self.oblige(st, c, kind, span, str(blk.get("msg", ""))[:80]):
            return []
        if kind == "overflow":
            o = blk["o"]
            pl = o.get("m") or o.get("c")
            if pl is not None:
                try:
                    r = self.load(st, ("l", fid, pl["l"]), ())
                    if r.cls == "agg" and len(r.kids) == 2:
                        x = r.kids[0]
                        if x.op == "p":
                            st.ctx.exact = st.ctx.exact | {x.id}
                except Stuck:
                    pass
        return [(st, blk["to"])]

    def do_switch(self, body, fid, st, blk, span):
        o = self.operand(st, fid, blk["o"])
        if not isinstance(o, T):
            raise Stuck("switch on %s" % o.cls)
        enter(st)
        if o.op == "c":
            for v, to in blk["vs"]:
                if int(v) & ((1 << o.w) - 1) == o.a:
                    return [(st, to)]
            return [(st, blk["else"])]
        res = []
        cur = st
        und = False
        l, h = rng(o)
        for v, to in blk["vs"]:
            c = C(int(v), o.w)
            e = (o if c.a == 1 else not_(o)) if o.w == 1 else eq(o, c)
            d = decide(cur, e)
            if d is True:
                res.append((cur, to))
                cur = None
                break
            if d is False:
                continue
            und = True
            s2 = cur.copy()
            if assume(s2, e, True):
                res.append((s2, to))
            if not assume(cur, e, False):
                cur = None
                break
            enter(cur)
        if cur is not None and blk.get("else") is not None and body.blocks[blk["else"]] is not None:
            if not (body.blocks[blk["else"]]["t"] == "unreachable" and not body.blocks[blk["else"]]["st"]):
                res.append((cur, blk["else"]))
        if und:
            self.branches.append((span, body.key, o))
        if len(res) > 1:
            self.npaths += len(res) - 1
        return res

    # ---------------------------------------------------------- calls
    def do_call(self, body, fid, st, blk, span, outs):
        args = [self.operand(st, fid, a) for a in blk["args"]]
        cal = blk.get("callee")
        if cal is None:
            f = self.operand(st, fid, blk["f"])
            raise Stuck("indirect call")
        site = (body.key, span)
        rs = self.invoke(st, cal, args, blk, span, site)
        nxt = []
        for o in rs:
            if o.kind == "ret":
                if blk["to"] is None:
                    continue
                loc, path, _ = self.place(o.st, fid, blk["dest"])
                self.store(o.st, loc, path, o.val)
                nxt.append((o.st, blk["to"]))
            elif o.kind in ("stuck", "panic"):
                outs.append(o)
        return nxt

    def invoke(self, st, cal, args, blk, span, site):
        enter(st)
        kind = cal["kind"]
        name = cal.get("rpath") or cal["path"]
        if kind == "virtual":
            return self.virtual(st, cal, args, blk, span, site)
        f = self.contracts.get(name)
        if f is None and cal.get("path") != name:
            f = self.contracts.get(cal.get("path"))
        if f is None:
            tb = self.prog.bodies.get(cal.get("key"))
            if tb is not None:
                f = self.contracts.get(tb.path)
        if f is None and self.fallback is not None:
            f = self.fallback(self, cal)
        if f is not None:
            r = f(self, st, cal, args, blk, span)
            if r is not None:
                return self.wrap(st, r)
        m = self.models.get(name) or self.models.get(cal["path"])
        if m is None:
            m = self.model_pattern(name, cal)
        if m is not None:
            try:
                r = m(self, st, cal, args, blk, span)
            except (IndexError, AttributeError, KeyError, TypeError) as e:
                if os.environ.get("HUSKLINT_DEBUG"):
                    traceback.print_exc()
                raise Stuck("model of %s: %s" % (name, type(e).__name__))
            if r is not None:
                return self.wrap(st, r)
        if kind == "shim":
            r = self.shim(st, cal, args, blk, span)
            if r is not None:
                return self.wrap(st, r)
        key = cal.get("key")
        b = self.prog.bodies.get(key)
        if b is None:
            raise Stuck("call of %s is not modelled" % name)
        return self.call_body(st, b, args)

    def wrap(self, st, r):
        if isinstance(r, list):
            return r
        return [Out("ret", st, r)]

    def model_pattern(self, name, cal):
        return None

    def shim(self, st, cal, args, blk, span):
        return None

    def virtual(self, st, cal, args, blk, span, site):
        """call through a vtable: resolve by the concrete type behind the pointer"""
        recv = args[0]
        f = self.contracts.get(cal["path"])
        if f is None and self.fallback is not None:
            f = self.fallback(self, cal)
        if f is not None:
            r = f(self, st, cal, args, blk, span)
            if r is not None:
                return self.wrap(st, r)
        dyn = recv.shape[2] if recv.cls in ("ptr", "box") else None
        if dyn is None and recv.cls in ("ptr", "box"):
            # the pointee may itself be a boxed trait object
            pass
        if dyn is None:
            raise Stuck("virtual call of %s on an unknown object" % cal["path"])
        vt = self.vtable(dyn[0], cal)
        if vt is None:
            raise Stuck("no vtable entry for %s of %s" % (cal["path"], dyn))
        thin = mk("ptr", (recv.shape[0], recv.shape[1] if recv.cls == "ptr" else (), None), recv.kids) if recv.cls == "ptr" else Ptr(recv.shape[0])
        return self.invoke(st, vt, [thin] + args[1:], blk, span, site)

    def vtable(self, cty, cal):
        m = cal["path"].split("::")[-1]
        for (ty, tr), ms in self.prog.vt.items():
            if ty == cty:
                for k, c in ms.items():
                    if k == m or k.split("::")[-1] == m:
                        return c
        return None

    # closures and function items as values
    def call_value(self, st, f, args, span, blk=None):
        """call closure/fn value f with positional args"""
        if isinstance(f, Val) and f.cls == "ptr":
            g = self.loadp(st, f)
            if g.cls in ("agg", "fn"):
                return self.call_value(st, g, args, span, blk)
        if f.cls == "agg":
            t = self.ty(f.shape[0])
            if t["k"] == "closure":
                b = self.prog.bodies.get(t["key"])
                if b is None:
                    raise Stuck("closure without body")
                t1 = self.ty(b.locals[1])
                if t1["k"] in ("ref", "ptr"):
                    loc = self.alloc(st, f)
                    return self.call_body(st, b, [Ptr(loc)] + list(args))
                return self.call_body(st, b, [f] + list(args))
        if f.cls == "fn":
            t = self.ty(f.shape[0])
            return self.invoke(st, t["callee"], list(args), blk, span, None)
        raise Stuck("call of a %s value" % f.cls)

    def call_value_mut(self, st, fptr, args, span):
        """call a closure stored at fptr (its captured state may change)"""
        f = self.loadp(st, fptr)
        if f.cls == "agg" and not isinstance(f.shape[0], str):
            t = self.ty(f.shape[0])
            if t["k"] == "closure":
                b = self.prog.bodies.get(t["key"])
                t1 = self.ty(b.locals[1])
                if t1["k"] in ("ref", "ptr"):
                    return self.call_body(st, b, [fptr] + list(args))
        return self.call_value(st, f, args, span)

    # ---------------------------------------------------------- loops
    def do_loop(self, body, fid, st0, head):
        blocks = body.loops()[head]
        lp = Loop(head, blocks)
        live = body.live_in(head)
        base = st0.copy()
        for n in range(len(body.locals)):
            if n not in live and n > body.argc:
                base.mem.pop(("l", fid, n), None)
        marks = (len(self.panics), len(self.branches), len(self.stucks))
        ent = {k: list(v) for k, v in self.entered.items()} if False else None
        # 1. unroll while the trip count is decided
        cur = [base.copy()]
        outs = []
        undec = 0
        n = 0
        ok = False
        while True:
            backs = []
            for c in cur:
                for o in self.run(body, fid, c, head, lp):
                    (backs if o.kind == "back" else outs).append(o)
            if not backs:
                ok = True
                break
            if any(o.kind in ("exit", "ret") for o in outs) or any(o.kind == "stuck" for o in outs):
                undec += 1
            n += 1
            if self.peel:
                if undec > self.peel or n > 3000:
                    self.cut += len(backs)
                    ok = True
                    break
                if len(backs) > 40:
                    self.cut += len(backs) - 40
                    backs = backs[:40]
            elif undec > self.unroll_undecided or len(backs) > 24 or n > 5000:
                break
            for o in backs:
                for k in range(len(body.locals)):
                    if k not in live and k > body.argc:
                        o.st.mem.pop(("l", fid, k), None)
            backs = self.dedup(backs)
            cur = [o.st for o in backs]
        if ok:
            return outs
        del self.panics[marks[0]:]
        del self.branches[marks[1]:]
        del self.stucks[marks[2]:]
        return self.summarise(body, fid, base, head, lp)

    def dedup(self, outs):
        if len(outs) < 2:
            return outs
        seen = {}
        for o in outs:
            k = (tuple((repr(a), b.id if isinstance(b, T) else b.vid) for a, b in sorted(o.st.mem.items(), key=lambda x: repr(x[0]))), id(o.st.ev))
            if k in seen:
                q = seen[k]
                s = q.st
                iv = {}
                for kk, r in s.ctx.iv.items():
                    r2 = o.st.ctx.iv.get(kk)
                    if r2:
                        iv[kk] = (min(r[0], r2[0]), max(r[1], r2[1]))
                s.ctx.iv = iv
                s.truth = {a: b for a, b in s.truth.items() if o.st.truth.get(a) == b}
                s.ctx.exact = s.ctx.exact & o.st.ctx.exact
            else:
                seen[k] = o
        return list(seen.values())

    def leafname(self, body, leaf):
        loc, path = leaf
        if loc[0] == "l":
            nm = body.names.get(str(loc[2]), "_%d" % loc[2])
        else:
            nm = repr(loc)[:60]
        return nm + "".join(".%s" % (p,) for p in path)

    def diff(self, a, b, path, out, known):
        if a is b:
            return
        if path in known:
            return
        if isinstance(a, T) and isinstance(b, T):
            out.append(path)
            return
        if isinstance(a, Val) and isinstance(b, Val) and a.cls == b.cls and a.shape == b.shape and len(a.kids) == len(b.kids):
            if a.cls == "seq":
                if any(isinstance(x, Val) and x.cls in ("src", "lam") and x is not y for x, y in zip(a.kids, b.kids)):
                    out.append(path)
                    return
            for i, (x, y) in enumerate(zip(a.kids, b.kids)):
                self.diff(x, y, path + (i,), out, known)
            return
        out.append(path)

    def getleaf(self, v, path):
        for i in path:
            v = v.kids[i]
        return v

    def putleaf(self, v, path, x):
        if not path:
            return x
        ks = list(v.kids)
        ks[path[0]] = self.putleaf(ks[path[0]], path[1:], x)
        if v.cls == "seq" and isinstance(ks[path[0]], T) and not isinstance(x, T):
            pass
        return mk(v.cls, v.shape, tuple(ks))

    def generalise(self, name, init, backv, lid, mode):
        """abstract value of a loop-carried location"""
        if isinstance(init, T):
            return V(("mu", lid, name), init.w)
        if init.cls == "seq":
            ety = self.seq_ety(init, backv)
            src = Src(("mu", lid, name), (), ety)
            if mode == "append":
                n = V(("mu", lid, name + ".len"), 64, 0, (1 << 62) - 1)
                return Seq(pieces(init) + [("s", src, U64(0), n)])
            ln = seq_len(init)
            if backv is not None and same(seq_len(backv), ln):
                return Seq((("s", src, U64(0), ln),))
            n = V(("mu", lid, name + ".len"), 64, 0, (1 << 62) - 1)
            return Seq((("s", src, U64(0), n),))
        if init.cls in ("agg", "enum") and not isinstance(init.shape[0], str):
            t = self.ty(init.shape[0])
            if t["k"] == "adt" and t["kind"] == "enum":
                ds = [int(x["discr"]) for x in t["variants"]]
                return Enum(init.shape[0], ("mu", lid, name), V(("mu", lid, name, "discr"), 64, min(ds), max(ds)))
        if init.cls == "vec":
            raise Stuck("loop-carried vec shape")
        return Opaque(None, ("mu", lid, name))

    def seq_ety(self, *seqs):
        for s in seqs:
            if s is None:
                continue
            for p in pieces(s):
                if p[0] == "e":
                    v = p[1][0]
                elif p[0] == "r":
                    v = p[1]
                elif p[0] == "l":
                    v = p[1].kids[1]
                else:
                    return src_ety(p[1]) if src_ety(p[1])[0] != "val" else ("int", 8)
                if isinstance(v, T):
                    return ("int", v.w)
                if v.cls in ("agg", "enum") and not isinstance(v.shape[0], str):
                    return ("ty", v.shape[0])
                if v.cls == "vec":
                    for i, t in enumerate(self.prog.types):
                        if t["k"] == "adt" and t["path"] == "std::vec::Vec" and t["args"][0] == v.shape[0]:
                            return ("ty", i)
        return ("int", 8)

    def summarise(self, body, fid, st0, head, lp):
        """loop summary; a derived ghost that is no invariant of the loop is treated like any other ghost"""
        mark = len(self.loops)
        while True:
            try:
                return self.summarise1(body, fid, st0, head, lp)
            except DropDerived as e:
                del self.loops[mark:]
                self.nodrv.add((e.args[0], (fid, head, body.key)))

    def summarise1(self, body, fid, st0, head, lp):
        enter(st0)
        lid = (fid, head, body.key)
        info = LoopInfo(body, head, self.headspan(body, head, lp))
        info.lid = lid
        leaves = {}       # (loc, path) -> [init, mu, mode]
        order = []
        marks = (len(self.panics), len(self.branches), len(self.stucks))

        def reset():
            del self.panics[marks[0]:]
            del self.branches[marks[1]:]
            del self.stucks[marks[2]:]

        diffs = []
        derived = {}
        for loc, (fn, eqf) in self.derived.items():
            if loc in st0.mem and (loc, lid) not in self.nodrv:
                enter(st0)
                try:
                    v = fn(st0)
                    if v is not None and eqf(st0, v, st0.mem[loc]) is True:
                        derived[loc] = (fn, eqf)
                except (Stuck, Undecided):
                    pass
        enter(st0)

        def start(inv=()):
            g = st0.copy()
            enter(g)
            for lf in order:
                loc, path = lf
                g.mem[loc] = self.putleaf(g.mem[loc], path, leaves[lf][1])
            for loc, (fn, eqf) in derived.items():
                v = fn(g)
                if v is None:
                    raise DropDerived(loc)
                g.mem[loc] = v
            g.ev = (st0.ev, ("loop", info))
            for t, v in inv:
                if not assume(g, t, v):
                    raise Stuck("contradictory loop invariant")
            if inv:
                for t, i in diffs:
                    if any(x is t and v is False for x, v in inv):
                        g.ctx.exact = g.ctx.exact | {i}
                enter(g)
                for lf in order:
                    mu = leaves[lf][1]
                    if isinstance(mu, T) and mu.op == "v" and mu.w >= 32:
                        l, h = _range(g, {(mu.id,): 1}, 3)
                        setiv(g, mu, l, h)
            return g

        def iterate(g):
            reset()
            return self.run(body, fid, g.copy(), head, lp)

        # discovery
        for rnd in range(10):
            g = start()
            outs = iterate(g)
            backs = [o.st for o in outs if o.kind == "back"]
            if any(o.kind == "stuck" for o in outs) and not backs:
                for o in outs:
                    if o.kind == "stuck":
                        raise Stuck("in loop: %s" % (o.val,))
            changed = False
            fresh_leaves = set()
            for b in backs:
                enter(b)
                for loc in list(g.mem):
                    if loc[0] == "l" and loc[1] == fid and loc[2] not in body.live_in(head) and loc[2] > body.argc:
                        continue
                    if loc[0] == "c" or loc in derived:
                        continue
                    bv = b.mem.get(loc)
                    if bv is None:
                        continue
                    known = {p for (l, p) in order if l == loc}
                    out = []
                    self.diff(g.mem[loc], bv, (), out, known)
                    for p in out:
                        lf = (loc, p)
                        init = self.getleaf(st0.mem[loc], p) if self.hasleaf(st0.mem[loc], p) else None
                        if init is None:
                            raise Stuck("loop-carried value changes shape")
                        back = self.getleaf(bv, p)
                        if isinstance(init, Val) and init.cls == "ptr" and back.cls == "ptr" and back.shape == (init.shape[0], init.shape[1] + (("rng",),), init.shape[2]) \
                                and back.kids[:len(init.kids)] == init.kids:
                            # a slice that is narrowed: begin with the full range
                            enter(st0)
                            st0.mem[loc] = self.putleaf(st0.mem[loc], p, Ptr(init.shape[0], ptr_path(init) + (("rng", U64(0), self.ptrlen(st0, init)),), init.shape[2]))
                            enter(b)
                            changed = True
                            continue
                        mode = None
                        if isinstance(init, Val) and init.cls == "seq":
                            mode = "append" if self.is_prefix(b, init, back) else "havoc"
                        nm = self.leafname(body, lf)
                        mu = self.generalise(nm, init, back if isinstance(back, Val) and back.cls == "seq" else None, lid, mode)
                        # drop leaves nested below
                        for q in [q for q in order if q[0] == loc and q[1][:len(p)] == p]:
                            order.remove(q)
                            del leaves[q]
                        leaves[lf] = [init, mu, mode]
                        order.append(lf)
                        fresh_leaves.add(lf)
                        changed = True
                    # existing sequence leaves: does the shape still fit?
                    for lf in list(order):
                        if lf[0] != loc or lf in fresh_leaves:
                            continue
                        init, mu, mode = leaves[lf]
                        if not self.hasleaf(bv, lf[1]):
                            raise Stuck("loop-carried value changes shape")
                        back = self.getleaf(bv, lf[1])
                        if isinstance(mu, Val) and mu.cls == "seq":
                            if mode == "append" and not self.is_prefix(b, mu, back):
                                nm = self.leafname(body, lf)
                                leaves[lf] = [init, self.generalise(nm, init, back, lid, "havoc"), "havoc"]
                                changed = True
                            elif mode == "havoc" and same(seq_len(mu), seq_len(init)) and not same(seq_len(back), seq_len(mu)):
                                nm = self.leafname(body, lf)
                                leaves[lf] = [init, self.generalise(nm, init, None, lid, "havoc"), "havoc"]
                                changed = True
                        elif isinstance(mu, Val) and mu.cls == "enum" and back.cls not in ("agg", "enum"):
                            leaves[lf][1] = Opaque(None, ("mu", lid, self.leafname(body, lf)))
                            changed = True
            if not changed:
                break
        else:
            raise Stuck("loop does not stabilise")

        def scal():
            """scalar loop-carried quantities: name -> (init term, mu term, getter)"""
            r = []
            for lf in order:
                init, mu, mode = leaves[lf]
                if isinstance(mu, T):
                    r.append((lf, "v", init, mu))
                elif isinstance(mu, Val) and mu.cls == "seq":
                    if mode == "append":
                        ps = pieces(mu)
                        if ps and ps[-1][0] == "s" and ps[-1][1].shape[0][0:1] == ("mu",):
                            r.append((lf, "len", U64(0), ps[-1][3]))
                    elif not same(seq_len(mu), seq_len(init)):
                        r.append((lf, "len", seq_len(init), seq_len(mu)))
            return r

        def backval(b, lf, what):
            v = self.getleaf(b.mem[lf[0]], lf[1])
            if what == "v":
                return v
            init, mu, mode = leaves[lf]
            if mode == "append":
                return sub(seq_len(v), seq_len(init))
            return seq_len(v)

        # in-place writes in order of an induction variable: keep the unwritten suffix
        for lf in list(order):
            init, mu, mode = leaves[lf]
            if mode != "havoc" or not isinstance(mu, Val) or mu.cls != "seq" or not backs:
                continue
            ps = [as_slice(q) for q in pieces(mu)]
            if len(ps) != 1 or ps[0][0] != "s" or not same(seq_len(mu), seq_len(init)):
                continue
            src = ps[0][1]
            idx = None
            good = True
            step = {}
            for b in backs:
                enter(b)
                bp = pieces(self.getleaf(b.mem[lf[0]], lf[1]))
                i = None
                if len(bp) >= 2 and bp[0][0] == "s" and bp[0][1] is src:
                    mid = bp[1:]
                    if mid[-1][0] == "s" and mid[-1][1] is src:
                        mid = mid[:-1]
                    if mid and not any(q[0] in "sl" and q[1] is src for q in mid):
                        i = bp[0][3]
                        n_ = U64(0)
                        for q in mid:
                            n_ = add(n_, plen(q))
                        step[id(b)] = n_
                if i is None or (idx is not None and i is not idx):
                    good = False
                    break
                idx = i
            if not good or idx is None:
                continue
            for lf2, what, i2, m2 in scal():
                if m2 is idx and all(same(sub(backval(b, lf2, what), m2), step[id(b)]) for b in backs):
                    enter(st0)
                    nm = self.leafname(body, lf)
                    n = seq_len(init)
                    try:
                        pre = seq_slice(init, U64(0), i2)
                        g2 = st0.copy()
                        enter(g2)
                        if not assume(g2, not_(ult(idx, i2)), True) or not assume(g2, not_(ult(n, idx)), True):
                            continue
                        enter(g2)
                        suf = seq_slice(init, idx, sub(n, idx))
                        muv = Seq(pieces(pre) + [("s", src, U64(0), sub(idx, i2))] + pieces(suf))
                        enter(st0)
                    except Undecided:
                        continue
                    leaves[lf] = [init, muv, ("map", idx, i2, src, n)]
                    break
            enter(st0)
        if any(isinstance(leaves[lf][2], tuple) for lf in order):
            g = start([(not_(ult(m[4], m[1])), True) for m in (leaves[lf][2] for lf in order) if isinstance(m, tuple)])
            outs = iterate(g)
            backs = [o.st for o in outs if o.kind == "back"]

        if self.ranges:
            # bounds of small loop-carried numbers: widened to powers of two until they are inductive
            lfs = [lf for lf in order if isinstance(leaves[lf][1], T) and leaves[lf][1].op == "v" and leaves[lf][1].w in self.ranges]
            enter(st0)
            cur = {lf: rng(leaves[lf][0]) for lf in lfs}
            orig = {lf: leaves[lf][1] for lf in lfs}
            for r_ in range(70):
                for lf in lfs:
                    mu = orig[lf]
                    leaves[lf][1] = V(tuple(mu.a) + ("rng",) + cur[lf], mu.w, cur[lf][0], cur[lf][1]) if cur[lf] != (0, (1 << mu.w) - 1) else mu
                g = start()
                outs = iterate(g)
                backs = [o.st for o in outs if o.kind == "back"]
                grown = False
                for lf in lfs:
                    for b in backs:
                        enter(b)
                        l, h = rng(self.getleaf(b.mem[lf[0]], lf[1]))
                        l0, h0 = cur[lf]
                        if l < l0 or h > h0:
                            cur[lf] = (min(l, l0), max(h, h0)) if r_ < 6 else (0 if l < l0 else l0, (1 << h.bit_length()) - 1 if h > h0 else h0)
                            grown = True
                if not grown:
                    break
            else:
                for lf in lfs:
                    leaves[lf][1] = orig[lf]
                g = start()
                outs = iterate(g)
                backs = [o.st for o in outs if o.kind == "back"]

        # linear relations between induction quantities
        def deltas():
            ds = {}
            for lf, what, init, mu in scal():
                if mu.op != "v":
                    continue
                dl = []
                for b in backs:
                    enter(b)
                    dl.append(sub(backval(b, lf, what), mu))
                ds[(lf, what)] = (init, mu, dl)
            return ds
        ds = deltas()
        rel = {}
        down = []
        items = [(k, v) for k, v in ds.items() if v[2] and any(not (d.op == "c" and d.a == 0) for d in v[2])]
        def weight(kv):
            d = kv[1][2][0]
            return (-kv[1][1].w if d.op == "c" else 0, 0 if d.op == "c" else 1, (d.a if d.op == "c" and d.a < (1 << 32) else (1 << 40)), 0 if kv[0][1] == "v" else 1)
        items.sort(key=weight)
        prim = []
        for k, (init, mu, dl) in items:
            done = False
            for (pk, pinit, pmu, pdl) in prim:
                if pmu.w < mu.w:
                    continue
                r = None
                for a, b in zip(dl, pdl):
                    if pmu.w != mu.w and not (a.op == "c" and b.op == "c" and b.a):
                        r = None
                        break
                    q = ratio(a, b) if pmu.w == mu.w else ratio(C(TT._sym(a.a, a.w), pmu.w), b)
                    if q is None or (r is not None and q != r):
                        r = None
                        break
                    r = q
                if r is not None:
                    # mu = init + r*(pmu - pinit)
                    rel[mu.id] = add(init, mul(C(r, mu.w), cast(sub(pmu, pinit), mu.w)))
                    if r == 1 and init.op == "c" and init.a == 0 and rel[mu.id].op == "p" and mu.w == 64:
                        diffs.append((ult(pmu, pinit), rel[mu.id].id))
                    if r == -1 and mu.w == 64 and rel[mu.id].op == "p":
                        # what is left
                        down.append((pmu, pinit, init, rel[mu.id].id))
                    done = True
                    break
            if not done:
                for (pk, pinit, pmu, pdl) in prim:
                    g = telescope(mu, dl, pmu, pdl)
                    if g is not None:
                        rel[mu.id] = add(init, sub(g, VSubst({pmu.id: pinit})(g)))
                        done = True
                        break
            if not done:
                prim.append((k, init, mu, dl))
        # a quantity that follows another one until it reaches a bound: q = min(q0 + r*(p - p0), N)
        clips = {}
        pend = list(prim)
        for (k, init, mu, dl) in pend:
            if mu.w != 64 or len(dl) < 2:
                continue
            for (pk, pinit, pmu, pdl) in prim:
                if pmu is mu or pmu.w != 64 or pmu.id in clips:
                    continue
                if not all(d.op == "c" and d.a == pdl[0].a and 0 < d.a < 1 << 40 for d in pdl):
                    continue
                full = [d for d in dl if d.op == "c" and d.a and d.a < 1 << 40]
                if not full or any(d is not full[0] for d in full) or len(full) == len(dl) or full[0].a % pdl[0].a:
                    continue
                enter(st0)
                X = add(init, mul(C(full[0].a // pdl[0].a, 64), sub(pmu, pinit)))
                N = None
                good = True
                for b, d in zip(backs, dl):
                    enter(b)
                    if d is full[0]:
                        continue
                    t = VSubst({mu.id: X})(add(X, d))
                    if support(t) & {pmu.id, mu.id} or (N is not None and not same(N, t)):
                        good = False
                        break
                    N = t
                if not good or N is None:
                    continue
                for b, d in zip(backs, dl):
                    enter(b)
                    if decide(b, ult(X, N)) is not True:
                        good = False
                        break
                    rem = sub(N, X)
                    if rem.op == "p":
                        b.ctx.exact = b.ctx.exact | {rem.id}
                        enter(b)
                    sh = decide(b, ult(rem, full[0]))
                    if sh is None:
                        good = False
                        break
                    nxt = N if sh else add(X, full[0])
                    if not same(nxt, VSubst({mu.id: X})(add(X, d))):
                        good = False
                        break
                enter(st0)
                if good and (decide(st0, ult(N, init)) is False):
                    m = F("min", tuple(sorted((X, N), key=lambda t: t.id)), 64, 0, (1 << 63))
                    rel[mu.id] = m
                    clips[mu.id] = (m, X, N)
                    prim = [q for q in prim if q[2] is not mu]
                    break
        # no loop runs 2^57 times
        bnd = {}
        for n_, (k, init, mu, dl) in enumerate(prim):
            d = dl[0]
            if mu.w == 64 and init.op == "c" and init.a < 1 << 32 and d.op == "c" and 0 < d.a <= 64 and all(x is d for x in dl):
                m2 = V(tuple(mu.a) + (init.a, d.a), 64, init.a, init.a + (d.a << 57))
                bnd[mu.id] = m2
                prim[n_] = (k, init, m2, dl)
            elif mu.w == 64 and rng(init)[1] <= 1 << 62:
                # a sum of sizes of things in memory stays below 2^62
                hi = 0
                for b_, x in zip(backs, dl):
                    enter(b_)
                    hi = max(hi, rng(x)[1] if is_exact(x) else 1 << 64)
                enter(st0)
                if hi <= 1 << 41:
                    l0, h0 = rng(init)
                    m2 = V(tuple(mu.a) + (l0, h0, hi), 64, l0, h0 + (1 << 62))
                    bnd[mu.id] = m2
                    prim[n_] = (k, init, m2, dl)
        if bnd:
            f = VSubst(bnd)
            for i in list(rel):
                rel[i] = f(rel[i])
            prim = [(k, init, mu, [f(d) for d in dl]) for k, init, mu, dl in prim]
            diffs = [(f(x), f(byid(y)).id) for x, y in diffs]
            down = [(f(x), f(y), f(z), f(byid(u)).id) for x, y, z, u in down]
            clips = {i: (f(m), f(X), f(N)) for i, (m, X, N) in clips.items()}
            rel.update(bnd)
        if rel:
            f = VSubst(rel)
            enter(st0)
            for lf in order:
                leaves[lf][1] = vsubst(leaves[lf][1], f)
                m = leaves[lf][2]
                if isinstance(m, tuple):
                    leaves[lf][2] = (m[0], f(m[1]), m[2], m[3], m[4])

        # growing sequences that grow by the same pieces are one sequence
        app = []
        for lf in order:
            init, mu, mode = leaves[lf]
            if mode == "append" and isinstance(mu, Val) and mu.cls == "seq":
                ps = pieces(mu)
                if ps and ps[-1][0] == "s" and len(ps[-1][1].shape[0]) > 1 and ps[-1][1].shape[0][0:2] == ("mu", lid):
                    app.append((lf, ps))
        alias = {}
        for i, (lf, ps) in enumerate(app):
            for lf2, qs in app[:i]:
                if qs[-1][1].vid in alias or not same(ps[-1][3], qs[-1][3]):
                    continue
                f = VSubst({}, {ps[-1][1].vid: qs[-1][1]})
                ok = bool(backs)
                for b in backs:
                    enter(b)
                    x = vsubst(Seq(pieces(self.getleaf(b.mem[lf[0]], lf[1]))[len(ps):]), f)
                    y = Seq(pieces(self.getleaf(b.mem[lf2[0]], lf2[1]))[len(qs):])
                    if rel:
                        x, y = vsubst(x, VSubst(rel)), vsubst(y, VSubst(rel))
                    if x is not y:
                        ok = False
                        break
                if ok:
                    alias[ps[-1][1].vid] = qs[-1][1]
                    break
        if alias:
            enter(st0)
            f = VSubst({}, alias)
            for lf, ps in app:
                leaves[lf][1] = vsubst(leaves[lf][1], f)

        # invariants: lower bounds, and bounds suggested by the conditions in the loop
        mus = {mu.id: init for (k, init, mu, dl) in prim}
        mu_init = VSubst(mus)
        cands = []
        for (k, init, mu, dl) in prim:
            cands.append((ult(mu, init), False))
        for pmu, pinit, init, i in down:
            c = ult(init, sub(pmu, pinit))
            cands.append((c, False))
            diffs.append((c, i))
        for lf in order:
            m = leaves[lf][2]
            if isinstance(m, tuple):
                cands.append((ult(m[4], m[1]), False))
        known = set()
        step = {mu.id: TT._sym(dl[0].a, mu.w) for (k, init, mu, dl) in prim if dl and dl[0].op == "c" and all(x is dl[0] for x in dl)}
        for rnd in range(4):
            g = start([c for c in cands if self.holds_init(st0, c, mu_init)])
            outs = iterate(g)
            backs = [o.st for o in outs if o.kind == "back"]
            newc = []
            for b in backs:
                enter(st0)
                for kk, (l, h) in list(b.ctx.iv.items()):
                    if not (isinstance(kk, tuple) and kk[0] == "lin"):
                        continue
                    key = kk[1]
                    at = [(i, c) for m, c in key if len(m) == 1 for i in [base_of(m[0], mus)] if i is not None]
                    if not at:
                        continue
                    if g.ctx.iv.get(kk) == (l, h):
                        continue
                    rl, rh = ip_range({m: c for m, c in key})
                    # what holds before the step, stated about the values after it
                    dt = sum(c * step.get(i, 0) for i, c in at)
                    for bound in {h, h + 1, 0, h + dt}:
                        d = dict(key)
                        d[()] = d.get((), 0) - bound - 1
                        newc.append((lt0(d), True))
                    for bound in {l, l - 1, 0, l + dt}:
                        d = dict(key)
                        d[()] = d.get((), 0) - bound
                        newc.append((lt0(d), False))
            enter(st0)
            sup = set(mus)
            add_ = []
            for t, v in newc:
                if t.op == "c" or (t.id, v) in known:
                    continue
                if not (support(t) & sup):
                    continue
                known.add((t.id, v))
                add_.append((t, v))
            cands = cands + add_
            # Houdini
            for r2 in range(8):
                cands = [c for c in cands if c[0].op != "c" and self.holds_init(st0, c, mu_init)]
                g = start(cands)
                outs = iterate(g)
                backs = [o.st for o in outs if o.kind == "back"]
                keep = []
                env = {}
                for c in cands:
                    ok = True
                    for b in backs:
                        enter(b)
                        en = {}
                        for lf, what, init, mu in scal():
                            if mu.op == "v":
                                en[mu.id] = backval(b, lf, what)
                        t2 = VSubst(en)(c[0])
                        if decide(b, t2, 3) is not c[1]:
                            ok = False
                            break
                    if ok:
                        keep.append(c)
                if len(keep) == len(cands):
                    break
                cands = keep
            if not add_:
                break
        # a counter whose low bits never pass a bound cannot pass it: it would have to step on the values in between
        g = start(cands)
        enter(g)
        whole = []
        for (k, init, mu, dl) in prim:
            d = step.get(mu.id, 0)
            if init.op != "c" or not 0 < d < 1 << 20:
                continue
            for kk, (l, h) in list(g.ctx.iv.items()):
                if isinstance(kk, tuple):
                    continue
                x = byid(kk)
                if x.op == "s" and x.a[0] is mu and x.a[1] == 0 and init.a <= h and h + d < 1 << x.a[2] and h < mu.hi:
                    whole.append((ult(C(h, mu.w), mu), False))
        if whole:
            cands = cands + whole
            g = start(cands)
        info.start = g
        info.inv = cands
        info.ev0 = g.ev
        outs = iterate(g)
        backs = [o.st for o in outs if o.kind == "back"]
        for loc, (fn, eqf) in derived.items():
            for b in backs:
                enter(b)
                v = fn(b)
                if v is None or eqf(b, v, b.mem[loc]) is not True:
                    raise DropDerived(loc)
        for lf in order:
            info.leaves[lf] = (leaves[lf][0], leaves[lf][1])
            info.names[lf] = self.leafname(body, lf)
        info.prim = {mu.id: init for (k, init, mu, dl) in prim}
        info.backs = backs
        info.back = lambda b, lf: self.getleaf(b.mem[lf[0]], lf[1])
        self.loops.append(info)
        res = [o for o in outs if o.kind != "back"]
        # an induction quantity pinned by the exit condition is replaced by its value
        if prim:
            pm = {mu.id: mu for (k, init, mu, dl) in prim}
            for o in res:
                if o.kind not in ("exit", "ret"):
                    continue
                enter(o.st)
                env = {}
                for kk, (l, h) in list(o.st.ctx.iv.items()):
                    if l != h:
                        continue
                    if not isinstance(kk, tuple):
                        if kk in pm and kk not in env:
                            env[kk] = C(l, pm[kk].w)
                        continue
                    if len(kk[1]) < 2:
                        continue
                    for m, c in kk[1]:
                        if len(m) == 1 and m[0] in pm and m[0] not in env and abs(c) == 1:
                            mu = pm[m[0]]
                            rest = [(m2, c2) for m2, c2 in kk[1] if m2 != m]
                            if any(m[0] in m2 or any(m[0] in support(byid(i)) for i in m2) for m2, c2 in rest):
                                continue
                            if any(i in env for m2, c2 in rest for i in m2):
                                continue
                            t = C(l * c, mu.w)
                            for m2, c2 in rest:
                                x = C(-c * c2, mu.w)
                                for i in m2:
                                    x = mul(x, cast(byid(i), mu.w))
                                t = add(t, x)
                            env[m[0]] = t
                            break
                if env:
                    subst_state(o.st, env)
                    o.st.notes = o.st.notes + (("pinned", lid, tuple(sorted(env.items()))),)
        if clips:
            for o in res:
                if o.kind in ("exit", "ret"):
                    self.unclip(o.st, [c[0] for c in clips.values()])
        # closed forms of element-wise produced sequences
        closed = self.closed_forms(order, leaves, backs, scal, backval, st0, mus)
        if closed:
            for o in res:
                if o.kind in ("exit", "ret"):
                    enter(o.st)
                    f = VSubst({}, closed)
                    for loc in list(o.st.mem):
                        o.st.mem[loc] = vsubst(o.st.mem[loc], f)
        return res

    def holds_init(self, st0, c, mu_init):
        enter(st0)
        t = mu_init(c[0])
        return decide(st0, t, 3) is c[1]

    def hasleaf(self, v, path):
        for i in path:
            if not isinstance(v, Val) or i >= len(v.kids):
                return False
            v = v.kids[i]
        return True

    def is_prefix(self, st, a, b):
        enter(st)
        pa, pb = pieces(a), pieces(b)
        if not isinstance(b, Val) or b.cls != "seq":
            return False
        if len(pb) < len(pa):
            return False
        for i, p in enumerate(pa):
            q = pb[i]
            if p[0] != q[0]:
                return False
            if p[0] == "e":
                if i == len(pa) - 1:
                    if q[1][:len(p[1])] != p[1]:
                        return False
                elif q[1] != p[1]:
                    return False
            elif p != q:
                return False
        return True

    def closed_forms(self, order, leaves, backs, scal, backval, st0, mus):
        closed = {}
        self.closed_streams(order, leaves, backs, mus, closed)
        self.closed_chunks(order, leaves, backs, mus, closed)
        if len(backs) != 1:
            return closed
        b = backs[0]
        for lf in order:
            init, mu, mode = leaves[lf]
            if not (isinstance(mu, Val) and mu.cls == "seq"):
                continue
            enter(b)
            back = self.getleaf(b.mem[lf[0]], lf[1])
            if mode == "append":
                ps = pieces(mu)
                if not ps or ps[-1][0] != "s":
                    continue
                src, ln = ps[-1][1], ps[-1][3]
                if not self.is_prefix(b, mu, back):
                    continue
                extra = pieces(back)[len(ps):]
                if len(extra) != 1 or extra[0][0] != "e" or len(extra[0][1]) != 1:
                    continue
                x = extra[0][1][0]
            elif isinstance(mode, tuple):
                _, idx, i0, src, n = mode
                ln = sub(idx, i0)
                x = None
                try:
                    x = seq_get(back, idx)
                except Undecided:
                    continue
            else:
                continue
            # ln must be p - p0 for an induction symbol p with step 1
            pd = intpoly(ln)
            ps_ = [m for m in pd if len(m) == 1 and m[0] in mus]
            if len(ps_) != 1 or pd[ps_[0]] != 1:
                continue
            if src.vid in closed:
                continue
            p = byid(ps_[0][0])
            sup = vsupport(x)
            bad = [i for i in sup if i in mus and i != p.id]
            if bad or ("src", src.vid) in sup:
                continue
            # other loop-carried abstract values must not occur
            if any(isinstance(i, int) and byid(i).op == "v" and isinstance(byid(i).a, tuple) and byid(i).a and byid(i).a[0] == "mu" and byid(i).a[1] == p.a[1] and i != p.id for i in sup):
                continue
            k = V(("k", "bound"), 64)
            p0 = sub(p, ln)
            # element k is produced when ln == k, i.e. p = p0 + k
            kk = cast(k, p.w)
            closed[src.vid] = Lam(k, vsubst(x, VSubst({p.id: add(p0, kk)})))
        return closed

    def resolved(self, st, t):
        enter(st)
        env = {}
        for i in support(t) | {t.id}:
            if not isinstance(i, int):
                continue
            m = byid(i)
            if m.op == "f" and m.a[0] == "min":
                d = decide(st, ult(m.a[2], m.a[1]))
                if d is None:
                    d2 = decide(st, ult(m.a[1], m.a[2]))
                    d = None if d2 is None else not d2
                if d is not None:
                    env[i] = m.a[2] if d else m.a[1]
        return VSubst(env)(t) if env else t

    def unclip(self, st, ms):
        """replace min(x, y) by the smaller operand where the path decides it"""
        enter(st)
        env = {}
        for m in ms:
            x, y = m.a[1], m.a[2]
            d = decide(st, ult(y, x))
            if d is None:
                d2 = decide(st, ult(x, y))
                d = None if d2 is None else not d2
            if d is not None:
                env[m.id] = y if d else x
        if env:
            f = VSubst(env)
            for loc in list(st.mem):
                v = st.mem[loc]
                if isinstance(v, (T, Val)):
                    st.mem[loc] = vsubst(v, f)

    def closed_streams(self, order, leaves, backs, mus, closed):
        """sequences filled piece by piece with consecutive slices of one source"""
        for lf in order:
            init, mu, mode = leaves[lf]
            if not (isinstance(mu, Val) and mu.cls == "seq") or not backs:
                continue
            if mode == "append":
                ps = pieces(mu)
                if not ps or ps[-1][0] != "s":
                    continue
                src, ln = ps[-1][1], ps[-1][3]
            elif isinstance(mode, tuple):
                _, idx, i0, src, n = mode
                ln = sub(idx, i0)
            else:
                continue
            S = c = None
            ok = True
            for b in backs:
                enter(b)
                back = self.getleaf(b.mem[lf[0]], lf[1])
                if mode == "append":
                    if not self.is_prefix(b, mu, back):
                        # the new slice may have been merged with nothing but must follow the prefix
                        ok = False
                        break
                    extra = pieces(back)[len(ps):]
                else:
                    extra = [p for p in pieces(back) if p[0] == "s" and p[1] is not src and same(p[2], p[2])]
                    at = U64(0)
                    hit = None
                    for p in pieces(back):
                        if same(at, idx):
                            hit = p
                        at = add(at, plen(p))
                    extra = [hit] if hit is not None else []
                if mode == "append" and not extra:
                    continue
                extra = [as_slice(p) for p in extra]
                if len(extra) != 1 or extra[0][0] != "s" or extra[0][1].cls not in ("src", "seq"):
                    ok = False
                    break
                off = sub(extra[0][2], self.resolved(b, ln))
                if (support(off) & set(mus)) or (S is not None and (S is not extra[0][1] or not same(off, c))):
                    ok = False
                    break
                S, c = extra[0][1], off
                if any(isinstance(i, int) and i in mus for i in vsupport(S)):
                    ok = False
                    break
            if ok and S is not None:
                closed[src.vid] = Seq((("s", S, c, V(("long",), 64, 1 << 63, 1 << 63)),))

    def closed_chunks(self, order, leaves, backs, mus, closed):
        """sequences that grow by c elements per iteration, the last time by fewer: element t comes from iteration t/c"""
        for lf in order:
            init, mu, mode = leaves[lf]
            if mode != "append" or not (isinstance(mu, Val) and mu.cls == "seq") or not backs:
                continue
            ps = pieces(mu)
            if not ps or ps[-1][0] != "s" or ps[-1][1].vid in closed:
                continue
            src, X = ps[-1][1], ps[-1][3]
            if X.op == "f" and X.a[0] == "min":
                xs = [x for x in X.a[1:] if support(x) & set(mus)]
                if len(xs) != 1:
                    continue
                X = xs[0]
            pid = [i for i in support(X) if i in mus]
            if len(pid) != 1:
                continue
            p, p0 = byid(pid[0]), mus[pid[0]]
            c = sub(VSubst({p.id: add(p, C(1, p.w))})(X), X)
            if c.op != "c" or not 1 < c.a <= 4096 or not same(VSubst({p.id: p0})(X), U64(0)):
                continue
            c = c.a
            J = V(("k", "chunk", c), 64, 0, c - 1)
            gen, lists, good = [], [], True
            for b in backs:
                enter(b)
                back = self.getleaf(b.mem[lf[0]], lf[1])
                if not self.is_prefix(b, mu, back):
                    good = False
                    break
                extra = pieces(back)[len(ps):]
                if len(extra) != 1:
                    good = False
                    break
                q = extra[0]
                if q[0] == "e":
                    lists.append(q[1])
                    if len(q[1]) > c:
                        good = False
                        break
                elif q[0] == "l":
                    gen.append(lam_elem(q[1], add(q[2], J)))
                elif q[0] == "s" and q[1] is not src:
                    gen.append(src_elem(q[1], add(q[2], J)))
                elif q[0] == "r":
                    gen.append(q[1])
                else:
                    good = False
                    break
            if not good:
                continue
            full = [l for l in lists if len(l) == c]
            if gen:
                E = gen[0]
            elif full and all(isinstance(x, T) for x in full[0]):
                E = sel(list(full[0]), J)
            else:
                continue
            if any(x is not E for x in gen[1:]):
                continue
            f = {j: VSubst({J.id: U64(j)}) for j in range(max([len(l) for l in lists] or [0]))}
            if gen and any(vsubst(E, f[j]) is not x for l in lists for j, x in enumerate(l)):
                continue
            if not gen and any(x is not y for l in lists for x, y in zip(l, full[0])):
                continue
            sup = vsupport(E)
            if any(i in mus and i != p.id for i in sup) or ("src", src.vid) in sup:
                continue
            if any(isinstance(i, int) and byid(i).op == "v" and isinstance(byid(i).a, tuple) and byid(i).a and byid(i).a[0] == "mu" and byid(i).a[1] == p.a[1] and i != p.id for i in sup):
                continue
            k = V(("k", "bound"), 64)
            closed[src.vid] = Lam(k, vsubst(E, VSubst({J.id: urem(k, U64(c)), p.id: add(p0, cast(udiv(k, U64(c)), p.w))})))

    def headspan(self, body, head, lp):
        b = body.blocks[head]
        for s in b["st"]:
            if s.get("s"):
                return s["s"]
        return b.get("s")


def base_of(i, mus):
    """the induction quantity an atom stands for"""
    if i in mus:
        return i
    t = byid(i)
    if t.op == "s" and t.a[1] == 0 and isinstance(t.a[0], T) and t.a[0].id in mus:
        return t.a[0].id
    return None


def telescope(mu, dl, p, pdl):
    """g with mu' - mu = g(p') - g(p) in every iteration, for a counter p of constant stride"""
    if mu.w != 64 or p.w != 64 or not dl or any(d.op != "c" or d is not pdl[0] for d in pdl):
        return None
    f = VSubst({p.id: add(p, pdl[0])})
    g = None
    for d in dl:
        if d.op != "p":
            return None
        x = C(0, 64)
        for m, c in d.a:
            c = TT._sym(c, 64)
            if c < 0 and m:
                t = C(-c, 64)
                for i in m:
                    t = mul(t, cast(byid(i), 64))
                x = add(x, t)
        if x.op == "c" or mu.id in support(x) or (g is not None and not same(g, x)):
            return None
        g = x
        if not same(sub(f(g), g), d):
            return None
    return g


def ratio(a, b):
    """integer r with a == r*b, else None"""
    if a is b:
        return 1
    if a.op == "c" and b.op == "c":
        x, y = TT._sym(a.a, a.w), TT._sym(b.a, b.w)
        if y == 0:
            return 1 if x == 0 else None
        if x % y == 0:
            return x // y
        return None
    if b.op == "c":
        return None
    s = add(a, b)
    if s.op == "c" and s.a == 0:
        return -1
    if a.op == "c" and a.a == 0:
        return None
    return None
