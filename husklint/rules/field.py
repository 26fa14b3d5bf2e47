"""P-256: field arithmetic as integers (K04), group law as polynomial identities (K05), scalar multiplication (K06),
encodings (K07)."""
import itertools
import random
from rules.lib import *
from rules.sym import *
from rules.kex import funval, canon, deref_all, consts, PRIME, GX, GY, PT, NP, IT
from rules.poly import At, DEBUG
import zpoly
from zpoly import litsubst, lits
from rnd import Unknown
import term as TT

P = PRIME
R256 = 1 << 256
BEQ = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
ORDER = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551


def limbs(v):
    """the machine words of an aggregate of limb arrays, in order"""
    if isinstance(v, T):
        return [v]
    if v.cls == "agg":
        return [x for k in v.kids for x in limbs(k)]
    if v.cls == "seq":
        n = seq_len(v)
        if n.op == "c" and n.a <= 64:
            return [x for i in range(n.a) for x in limbs(seq_get(v, U64(i)))]
    raise KeyError(v.cls)


def refto(I, ty):
    t = I.ty(ty)
    return next(t[k] for k in ("to", "elem", "ty") if t.get(k) is not None)


def isref(I, ty):
    return I.ty(ty)["k"] in ("ref", "ptr")


class Fn:
    """a function of field elements, interpreted on free operands"""
    def __init__(self, cx, name, n, contracts={}, consts={}, path=IT):
        self.cx, self.name, self.ok = cx, name, False
        b = self.b = body(cx, path + name)
        if b is None:
            return
        self.at = b.path
        I = self.I = cx.new()
        I.contracts.update(contracts)
        st = State()
        enter(st)
        self.args, vals = [], []
        for i in range(n):
            ty = b.locals[i + 1]
            r = isref(I, ty)
            v = consts.get(i)
            if v is None:
                v = I.fresh(refto(I, ty) if r else ty, ("op%d" % i,))
            elif isinstance(v, int):
                v = const_like(I, st, I.fresh(refto(I, ty) if r else ty, ("op%d" % i,)), v)
            v = canon(I, st, v)
            self.args.append(v)
            vals.append(Ptr(I.alloc(st, v)) if r else v)
        I, outs = run(cx, b, vals, I, st)
        if outs is None:
            return
        self.I = I
        stuck_outs(cx, I, outs, b)
        rets = ret_outs(outs)
        if not rets or len(rets) > 64:
            cx.und("%s returns" % name, b.path, "%d outcomes" % len(rets))
            return
        self.cases = []
        try:
            for o in rets:
                enter(o.st)
                self.cases.append((o, limbs(canon(I, o.st, o.val))))
            self.ops = [limbs(a) for a in self.args]
        except KeyError as e:
            cx.und("%s returns machine words" % name, b.path, str(e))
            return
        self.o, self.out = self.cases[0]
        enter(self.o.st)
        self.ok = True
        self.one = len(self.cases) == 1

    def value(self, vals, out=None):
        """the result for concrete operands, by evaluating the summary of the path they take"""
        env = num_env(self.ops, vals)
        for o, ls in self.cases:
            s = At(o.st, {}, env)
            if self.one or s.consistent():
                return out(s, ls) if out else number_of(s, ls)
        raise Unknown("no path")


def const_like(I, st, v, n):
    """a constant in the shape of this aggregate (little-endian 32-bit limbs)"""
    v = canon(I, st, v)
    ls = limbs(v)
    env = {x.id: C((n >> (x.w * i)) & ((1 << x.w) - 1), x.w) for i, x in enumerate(ls)}
    return vsubst(v, VSubst(env))


def rebuild(v, terms):
    """the same aggregate with other machine words"""
    ls = limbs(v)
    return vsubst(v, VSubst({x.id: t for x, t in zip(ls, terms)}))


# ---------------------------------------------------------------- step functions of one integer
def linear_in(zz, i, S):
    """(c, j) with the floor symbol i = floor((S + c) / 2^j) + d; d too"""
    _, B, k = zz.keys[i]
    B = dict(B)
    m = next((m for m in B if m), None)
    if m is None or m not in S or S[m] % B[m]:
        return None
    r = S[m] // B[m]
    j = r.bit_length() - 1
    if r != 1 << j:
        return None
    c = (B.get((), 0) << j) - S.get((), 0)
    D = zz.sum((1, zz.fl(zz.sum((1, S), (c, {(): 1})), k + j)), (-1, {(i,): 1}))
    if any(D):
        return None
    return c, k + j, -D.get((), 0)


def floors_of(zz, P_):
    return {i for m in P_ for i in m if zz.keys[i][0] == "f"}


def steps(zz, polys, S, lo, hi):
    """intervals of S on which all floors in these polynomials that depend on S only are constant; None: too many"""
    cuts = {lo}
    seen = {}
    for i in {i for q in polys for i in floors_of(zz, q)}:
        r = linear_in(zz, i, S)
        if r is None:
            continue
        seen[i] = r
        c, j, d = r
        w = 1 << j
        a = (lo + c) // w + 1
        b = (hi + c) // w
        if b - a > 12:
            del seen[i]
            continue
        for t in range(a, b + 1):
            cuts.add(t * w - c)
    cs = sorted(cuts) + [hi + 1]
    return [(a, b - 1) for a, b in zip(cs, cs[1:])], seen


def at_step(zz, Q, seen, s):
    """the polynomial with the floors it has at this value of S"""
    r = {}
    for m, c in Q.items():
        rest = []
        for i in m:
            if i in seen:
                e, j, d = seen[i]
                c *= ((s + e) >> j) + d
            else:
                rest.append(i)
        zz.acc(r, {tuple(rest): 1}, c)
    return r


def stepwise(words, prep, S, lo, hi):
    """None when the number these words make is S mod P and below P for all S in [lo, hi]; or the reason.
    prep(zz) declares bounds; S(zz) gives the polynomial"""
    zz = zpoly.Z()
    prep(zz)
    S = S(zz)
    zz.know(S, lo, hi)
    g = zz.prim({m: c for m, c in S.items() if m})[0] or 1      # S is a constant plus a multiple of this
    cnt = {}
    for w in words:
        for k, v in lits(w).items():
            cnt[k] = cnt.get(k, 0) + v
    sel = [k for k, v in cnt.items() if v >= 60]
    if len(sel) > 6:
        return "%d selections" % len(sel)
    L = {k: zz.lit(*k) for k in sel}
    iv, seen = steps(zz, list(L.values()), S, lo, hi)
    for a, b in iv:
        ws = words
        for k in sel:
            v = at_step(zz, L[k], seen, a)
            if any(v):
                return "a selection does not depend on the exact result only"
            memo = {}
            ws = [litsubst(w, k, v.get((), 0), memo) for w in ws]
        N = zz.number(ws, 32)
        iv2, seen2 = steps(zz, [N], S, a, b)
        for a2, b2 in iv2:
            D = zz.sum((1, at_step(zz, N, seen2, a2)), (-1, S))
            if any(D):
                return "the result is not the exact one less a multiple of the prime"
            c = D.get((), 0)
            a2 += (S.get((), 0) - a2) % g
            b2 -= (b2 - S.get((), 0)) % g
            if a2 <= b2 and (c % P or a2 + c < 0 or b2 + c >= P):
                return "for results between %x and %x the value is off by %x" % (a2, b2, c)
    return None


# ---------------------------------------------------------------- directed operands
def specials():
    rnd = random.Random(5)
    out = [0, 1, 2, 3, P - 1, P - 2, P - 3, (P - 1) // 2, (P + 1) // 2, (P + 1) // 2 + 1, P >> 1, R256 - P, R256 - P - 1, R256 - P + 1, 1 << 255, 1 << 224, (1 << 224) - 1, 1 << 192, 1 << 96, (1 << 96) - 1]
    for k in range(0, 256, 32):
        out += [1 << k, (1 << k) - 1, P - (1 << k), (0xffffffff << k) % P, (P >> k), (0xfffffffe << k) % P]
    limb = [0, 1, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 0xffff0000]
    for _ in range(160):
        x = 0
        for i in range(8):
            x |= (rnd.choice(limb) if rnd.randrange(4) else rnd.randrange(1 << 32)) << 32 * i
        out.append(x % P)
    for _ in range(30):
        out.append(rnd.randrange(P))
    return list(dict.fromkeys(x for x in out if 0 <= x < P))


def operands(n, top=P):
    sp = specials()
    rnd = random.Random(9)
    if n == 1:
        if top > P:
            sp = sp + [P, P + 1, P + 2, top - 1, top - 2, R256 - 1] + [(P + x) for x in sp if P + x < top]
        for a in sp:
            yield (a,)
        return
    for k, a in enumerate(sp):
        yield a, a
        for b in (P - a, P - a - 1, P - a + 1, R256 - a, R256 - a - 1, a - 1, a + 1, a ^ 1, a ^ (1 << 31), a ^ (1 << 32 * (k % 8)), a ^ (1 << (k * 7) % 256)):
            if 0 <= b < P:
                yield a, b
        for _ in range(6):
            yield a, rnd.choice(sp)


def first_in(a, m, l, r):
    """the least k >= 0 with l <= a k mod m <= r, or None"""
    if l == 0:
        return 0
    if a == 0:
        return None
    k = -(-l // a)
    if a * k <= r:
        return k
    # a k - m j in [l, r]  <=>  m j mod a in [-r, -l] mod a
    j = first_in(m % a, a, -r % a, -l % a)
    return None if j is None else -(-(l + m * j) // a)


def products():
    """pairs whose product has chosen upper words, or a chosen middle"""
    rnd = random.Random(11)
    word = (0, 0, 0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 1, 0x80000000, 0x7fffffff)
    for n in range(2600):
        a = rnd.randrange(1 << 255, P) | 1
        H = 0
        for i in range(8):
            H |= (rnd.choice(word) if rnd.randrange(8) else rnd.randrange(1 << 32)) << 32 * i
        b = (H << 256) // a + 1
        if n % 2:
            # additionally the low half just below 2^256
            c = a * b % R256
            lo = P + (rnd.randrange(1 << 223) if n % 4 == 1 else (1 << 223))
            l, r = (lo - c) % R256, (R256 - 1 - c) % R256
            if l <= r:
                k = first_in(a, R256, l, r)
                if k is not None and k < 1 << 96:
                    b += k
        if 0 < b < P:
            yield a, b
            yield b, a


def num_env(ops, vals):
    env = {}
    for ls, v in zip(ops, vals):
        for i, x in enumerate(ls):
            if x.op != "c":
                env[x.id] = (v >> (32 * i)) & 0xffffffff
    return env


def number_of(s, ls):
    return sum(s.t(x) << (32 * i) for i, x in enumerate(ls))


def refute(cx, f, name, why, ref, ins, out=None):
    """look for operands on which the terms denote another value"""
    tried = 0
    for vals in ins:
        try:
            got = f.value(vals, out)
        except Unknown as e:
            cx.und(name, f.at, "%s; not evaluated: %s" % (why, e))
            return
        tried += 1
        want = ref(*vals)
        if got != want:
            cx.ob(name, False, f.at, "%s; for %s the result is %s instead of %s" % (why, ", ".join("%x" % v for v in vals), "%x" % got if isinstance(got, int) else got, "%x" % want if isinstance(want, int) else want))
            return
    cx.und(name, f.at, "%s (%d operands agree)" % (why, tried))


def conclude(cx, f, name, why, ref, ins, out=None):
    """why: None or a function that gives None when the property is shown and the reason otherwise"""
    why = why() if f.one else "several paths"
    if why is None:
        cx.ob(name, True, f.at)
    else:
        refute(cx, f, name, why, ref, ins, out)


# ---------------------------------------------------------------- groups: results of other field operations
class Groups:
    """field elements returned by the operations under contract: (operation, operands) by their limbs"""
    def __init__(self):
        self.d = {}
        self.n = 0
        self.keep = []
        self.fns = {}            # summaries of the operations

    def get(self, ls):
        return self.d.get(tuple(x.id for x in ls)) or ("raw", ls)

    def value(self, s, ls):
        g = self.get(ls)
        return number_of(s, ls) if g[0] == "raw" else evaluate(g, s, {}, self.fns)

    def contract(self, op):
        def c(I, st, cal, args, blk, span):
            enter(st)
            ks = []
            for a in args:
                v = canon(I, st, deref_all(I, st, a))
                try:
                    ls = limbs(v)
                except KeyError:
                    return None
                if len(ls) == 1 and op == "reduce":
                    if ls[0].op != "c" or ls[0].a:
                        return None
                    continue
                if len(ls) != 8:
                    return None
                ks.append(ls)
            return self.make(I, st, MD.retty(I, cal, blk), (op,) + tuple(self.get(k) for k in ks))
        return c

    def make(self, I, st, ty, g):
        self.n += 1
        v = canon(I, st, funval(I, ty, ("group", self.n), []))
        self.d[tuple(x.id for x in limbs(v))] = g
        self.keep.append(v)
        return v

    def all(self):
        return {IT + "add": self.contract("add"), IT + "sub": self.contract("sub"), IT + "double": self.contract("double"),
                IT + "reduce_once": self.contract("reduce"), IT + "reduce_once_zero": self.contract("reduce")}


def linear(g, memo):
    """the field element as a combination of raw numbers: {limb ids: (limbs, coefficient)}"""
    if g[0] == "raw":
        return {tuple(x.id for x in g[1]): (g[1], 1)}
    r = memo.get(id(g))
    if r is not None:
        return r
    r = {}
    cs = {"add": (1, 1), "sub": (1, -1), "double": (2,), "reduce": (1,)}[g[0]]
    for c, k in zip(cs, g[1:]):
        for key, (ls, d) in linear(k, memo).items():
            r[key] = (ls, r.get(key, (ls, 0))[1] + c * d)
    memo[id(g)] = r
    return r


def evaluate(g, s, memo, fns={}):
    """the value of the combination; an operation on numbers that are not below the prime by its own summary"""
    if g[0] == "raw":
        return number_of(s, g[1])
    r = memo.get(id(g))
    if r is None:
        xs = [evaluate(k, s, memo, fns) for k in g[1:]]
        op = g[0]
        if op != "reduce" and any(x >= P for x in xs):
            f = fns.get(op)
            if f is None or not f.ok:
                raise Unknown("operand not below the prime")
            r = f.value(xs)
        else:
            r = {"add": lambda: xs[0] + xs[1], "sub": lambda: xs[0] - xs[1], "double": lambda: 2 * xs[0], "reduce": lambda: xs[0], "mul": lambda: xs[0] * xs[1]}[op]() % P
        memo[id(g)] = r
    return r


def overlarge(g, zz, memo):
    """is a number that may not be below the prime an operand of an operation that needs it"""
    if g[0] == "raw" or id(g) in memo:
        return False
    memo[id(g)] = g
    for k in g[1:]:
        if k[0] == "raw" and g[0] != "reduce" and zz.interval(zz.number(k[1], 32))[1] >= P:
            return True
        if overlarge(k, zz, memo):
            return True
    return False


# ---------------------------------------------------------------- K04
def k04(cx):
    A = lambda zz, f: zz.number(f.ops[0], 32)
    B = lambda zz, f: zz.number(f.ops[1], 32)

    def below(f, n):
        def prep(zz):
            for ls in f.ops[:n]:
                zz.know(zz.number(ls, 32), 0, P - 1)
        return prep
    f = Fn(cx, "add", 2)
    if f.ok:
        conclude(cx, f, "addition is exact and reduced", lambda: stepwise(f.out, below(f, 2), lambda z: z.sum((1, A(z, f)), (1, B(z, f))), 0, 2 * P - 2),
                 lambda a, b: (a + b) % P, operands(2))
    f2 = Fn(cx, "double", 1)
    if f2.ok:
        conclude(cx, f2, "doubling is exact and reduced", lambda: stepwise(f2.out, below(f2, 1), lambda z: z.sum((2, A(z, f2))), 0, 2 * P - 2),
                 lambda a: 2 * a % P, operands(1))
    f3 = Fn(cx, "sub", 2)
    if f3.ok:
        conclude(cx, f3, "subtraction is exact and reduced", lambda: stepwise(f3.out, below(f3, 2), lambda z: z.sum((1, A(z, f3)), (-1, B(z, f3))), -(P - 1), P - 1),
                 lambda a, b: (a - b) % P, operands(2))
    f4 = Fn(cx, "reduce_once_zero", 1)
    if f4.ok:
        conclude(cx, f4, "reduction of a 256-bit number is exact", lambda: stepwise(f4.out, lambda z: None, lambda z: A(z, f4), 0, R256 - 1),
                 lambda a: a % P, operands(1, R256))
    for carry in (0, 1):
        g = Fn(cx, "reduce_once", 2, consts={1: carry})
        if g.ok:
            g.ops = g.ops[:1]
            hi = R256 - 1 if not carry else 2 * P - 1 - R256
            conclude(cx, g, "reduction of a number with carry %d is exact" % carry,
                     lambda g=g: stepwise(g.out, lambda z: z.know(A(z, g), 0, hi), lambda z: z.sum((1, A(z, g)), (carry << 256, {(): 1})), carry << 256, hi + (carry << 256)),
                     lambda a: (a + (carry << 256)) % P, (x for x in operands(1, hi + 1) if x[0] <= hi))
    halve(cx)
    choose(cx)
    compare(cx)
    mult(cx, {"add": f, "double": f2, "sub": f3})
    powers(cx)


def halve(cx):
    name = "halving is exact and reduced"
    f = Fn(cx, "divide_by_2", 1)
    if not f.ok:
        return

    def proof():
        v0 = f.ops[0][0]
        for odd in (0, 1):
            u = V(("half", "low"), 31)
            x = add(mul(cast(u, 32), C(2, 32)), C(odd, 32))
            sub_ = VSubst({v0.id: x})
            ws = [sub_(w) for w in f.out]
            ops = [x] + f.ops[0][1:]
            zz = zpoly.Z()
            A = zz.number(ops, 32)
            zz.know(A, 0, P - 1)
            N = zz.number(ws, 32)
            if zz.sum((2, N), (-1, A), (-odd * P, {(): 1})):
                return "for %s numbers twice the result is not the operand" % ("odd" if odd else "even")
        # (a + P)/2 < P and a/2 < P follow
    conclude(cx, f, name, proof, lambda a: a * pow(2, -1, P) % P, operands(1))


def choose(cx):
    for flag in (0, 1):
        f = Fn(cx, "choose", 3, consts={0: flag})
        if not f.ok:
            continue
        want = f.ops[1 + flag]
        if f.one and all(a is b for a, b in zip(f.out, want)):
            cx.ob("selection returns the %s operand" % ("second" if flag else "first"), True, f.at)
        else:
            f.ops = f.ops[1:]
            refute(cx, f, "selection returns the %s operand" % ("second" if flag else "first"), "other terms", lambda a, b: (a, b)[flag], operands(2))


def flagsum(t):
    """the bits of a sum of flags with distinct powers of two, by position"""
    r = {}
    for m, c in t.a:
        c &= (1 << t.w) - 1
        if len(m) != 1 or c & (c - 1) or rng(byid(m[0]))[1] > 1 or c in r:
            return None
        r[c] = getbits(byid(m[0]))[0]
    return {c.bit_length() - 1: x for c, x in r.items()}


def disjuncts(b, memo=None):
    """the sums of bits whose disjunction this bit is"""
    memo = {} if memo is None else memo
    r = memo.get(b)
    if r is None:
        r = memo[b] = disjuncts1(b, memo)
    return r


def disjuncts1(b, memo):
    if not b:
        return frozenset()
    if len(b) == 1 and frozenset() not in b:
        m = next(iter(b))
        if len(m) == 1:
            i, k = next(iter(m))
            t = byid(i)
            if t.op == "f" and t.a[0] == "OR":
                return frozenset().union(*(disjuncts(x, memo) for x in t.a[1]))
            if t.op == "p":
                bs = flagsum(t)
                if bs is not None:
                    return disjuncts(bs.get(k, frozenset()), memo)
    one = frozenset()
    for y in {l for m in b for l in m}:
        co = frozenset(m - {y} for m in b if y in m)
        rest = frozenset(m for m in b if y not in m)
        if len(co) > 1 and co == rest ^ {one}:
            # x + y + xy
            return disjuncts(rest, memo) | disjuncts(frozenset({frozenset({y})}), memo)
    return frozenset({b})


def compare(cx):
    name = "comparison is zero exactly for equal numbers"
    f = Fn(cx, "compare", 2)
    if not f.ok:
        return
    if len(f.out) != 1:
        return cx.und(name, f.at, "%d words" % len(f.out))

    def proof():
        bits = getbits(f.out[0])
        want = set()
        for x, y in zip(*f.ops):
            want |= set(b for b in getbits(xor(x, y)) if b)
        if any(bits[1:]):
            return "more than one bit"
        if disjuncts(bits[0]) != want:
            return "not the disjunction of all differing bits"
    conclude(cx, f, name, proof, lambda a, b: int(a != b), operands(2))


def mult(cx, fns):
    name = "multiplication is exact and reduced"
    G = Groups()
    G.fns = fns
    f = Fn(cx, "mult", 2, G.all())
    if f.ok:
        def proof():
            g = G.get(f.out)
            if g[0] == "raw":
                return "the result does not come from a reducing operation"
            zz = zpoly.Z()
            A, B = zz.number(f.ops[0], 32), zz.number(f.ops[1], 32)
            for x in (A, B):
                zz.know(x, 0, P - 1)
            if overlarge(g, zz, {}):
                return "an operand may not be below the prime"
            W = {}
            for ls, c in linear(g, {}).values():
                for i, x in enumerate(ls):
                    zz.acc(W, {(x.id,): 1}, c << 32 * i)
            d = {}
            for (i,), c in W.items():
                c %= P
                zz.acc(d, zz.z(byid(i)), c if c < P // 2 else c - P)
            # a weight is only known modulo the prime: take the one of the product's words
            d2 = {}
            for (i,), c in W.items():
                c %= P
                k = [k for k in range(16) if pow(2, 32 * k, P) == c]
                zz.acc(d2, zz.z(byid(i)), 1 << 32 * k[0] if k else c)
            cx.count("product_words", len(W))
            AB = zz.mul(A, B)
            if all(any(c % P for c in zz.sum((1, e), (-1, AB)).values()) for e in (d, d2)):
                return "the combination of partial products is not the product modulo the prime"
        conclude(cx, f, name, proof, lambda a, b: a * b % P, itertools.chain(operands(2), products()), G.value)
    G2 = Groups()
    cs = G2.all()
    cs[IT + "mult"] = G2.contract("mul")
    f = Fn(cx, "square", 1, cs)
    if f.ok:
        g = G2.get(f.out)
        raw = ("raw", f.ops[0])
        same_ = lambda k: k[0] == "raw" and [x.id for x in k[1]] == [x.id for x in f.ops[0]]
        if f.one and g[0] == "mul" and same_(g[1]) and same_(g[2]):
            cx.ob("squaring multiplies the operand with itself", True, f.at)
        else:
            f = Fn(cx, "square", 1, G2.all())
            if f.ok:
                refute(cx, f, "squaring multiplies the operand with itself", "other operation", lambda a: a * a % P, operands(1), G2.value)


class Exps:
    """powers of one element"""
    def __init__(self, cx):
        self.e = {}
        self.n = 0
        self.keep = []
        self.count = 0

    def of(self, I, st, a):
        return self.e.get(tuple(x.id for x in limbs(canon(I, st, deref_all(I, st, a)))))

    def contract(self, f):
        def c(I, st, cal, args, blk, span):
            enter(st)
            es = [self.of(I, st, a) for a in args]
            if any(e is None for e in es):
                return None
            self.count += 1
            e = f(*es)
            v = canon(I, st, funval(I, MD.retty(I, cal, blk), ("power", e), []))
            self.e[tuple(x.id for x in limbs(v))] = e
            self.keep.append(v)
            return v
        return c


def powers(cx):
    name = "inversion raises to the power P-2"
    b = body(cx, IT + "inverse")
    if b is None:
        return
    X = Exps(cx)
    I = cx.new()
    I.contracts.update({IT + "mult": X.contract(lambda a, b: a + b), IT + "square": X.contract(lambda a: 2 * a)})
    st = State()
    enter(st)
    ty = b.locals[1]
    r = isref(I, ty)
    v = canon(I, st, I.fresh(refto(I, ty) if r else ty, ("op0",)))
    X.e[tuple(x.id for x in limbs(v))] = 1
    I, outs = run(cx, b, [Ptr(I.alloc(st, v)) if r else v], I, st)
    if outs is None:
        return
    stuck_outs(cx, I, outs, b)
    rets = ret_outs(outs)
    if not rets:
        cx.absent(I, name, b.path)
    for o in rets:
        enter(o.st)
        e = X.of(I, o.st, o.val)
        cx.count("multiplications_followed", X.count)
        if e is None:
            cx.und(name, b.path, "not a power of the operand")
        else:
            cx.ob(name, e > 0 and e % (P - 1) == (P - 2) % (P - 1), b.path, "power %x" % e)
