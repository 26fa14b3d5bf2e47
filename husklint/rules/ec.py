"""P-256: the group law as polynomial identities over the field (K05), scalar multiplication as integer multiples (K06),
encodings (K07)."""
import itertools
import random
from rules.lib import *
from rules.sym import *
from rules.kex import funval, canon, deref_all, consts, GX, GY, PT, NP, IT
from rules.record import bytearg
from rules.poly import At, DEBUG
from rules.field import P, ORDER, BEQ, R256, limbs, refto, isref, const_like, rebuild, number_of
import zpoly
from rnd import Unknown
import term as TT

INV2 = (P + 1) // 2


# ---------------------------------------------------------------- field expressions
class Field:
    """results of field operations as expressions over the operands; comparisons as symbols 0/1"""
    def __init__(self):
        self.g = {}              # first limb -> (expression, index), by limb id
        self.cmp = {}            # symbol -> (expression, expression)
        self.n = 0
        self.keep = []
        self.intern = {}

    def node(self, *x):
        return self.intern.setdefault(x, x)

    def name(self, v, e):
        ls = limbs(v)
        self.keep.append(v)
        for i, x in enumerate(ls):
            self.g[x.id] = (e, i)
        return v

    def of(self, ls):
        if len(ls) != 8:
            return None
        e = self.g.get(ls[0].id)
        if e and all(self.g.get(x.id) == (e[0], i) for i, x in enumerate(ls)):
            return e[0]
        if all(x.op == "c" for x in ls):
            return self.node("num", sum(x.a << (32 * i) for i, x in enumerate(ls)))
        self.keep.append(ls)
        return self.node("raw", tuple(x.id for x in ls))

    def arg(self, I, st, a):
        try:
            return limbs(canon(I, st, deref_all(I, st, a)))
        except KeyError:
            return None

    def contract(self, op):
        def c(I, st, cal, args, blk, span):
            enter(st)
            ks = []
            for a in args:
                ls = self.arg(I, st, a)
                if ls is None:
                    return None
                if len(ls) == 1:
                    if op == "choose":
                        ks.append(ls[0])
                        continue
                    if op == "reduce" and ls[0].op == "c" and not ls[0].a:
                        continue
                    return None
                e = self.of(ls)
                if e is None:
                    return None
                ks.append(e)
            ty = MD.retty(I, cal, blk)
            if op == "compare":
                if ks[0] is ks[1]:
                    return None
                v = canon(I, st, funval(I, ty, ("cmp", self.n), []))
                self.n += 1
                s = V(("cmp", self.n), limbs(v)[0].w, 0, 1)
                v = rebuild(v, [s])
                self.cmp[s.id] = (ks[0], ks[1])
                self.keep.append(v)
                return v
            if op == "choose":
                f = ks[0]
                if f.op == "c" and f.a in (0, 1):
                    e = ks[1 + f.a]
                else:
                    self.keep.append(f)
                    e = self.node("choose", f.id, ks[1], ks[2])
            else:
                e = self.node(op, *ks)
            self.n += 1
            return self.name(canon(I, st, funval(I, ty, ("field", self.n), [])), e)
        return c

    def contracts(self):
        r = {IT + k: self.contract(k) for k in ("add", "sub", "double", "mult", "square", "inverse", "choose", "compare")}
        r[IT + "divide_by_2"] = self.contract("half")
        r[IT + "reduce_once"] = r[IT + "reduce_once_zero"] = self.contract("reduce")
        return r


class Eval(At):
    """terms for concrete operands, field operations by their definition"""
    def __init__(self, F_, st, data, nums, ins):
        super().__init__(st, data, nums)
        self.F, self.ins, self.vals = F_, ins, {}

    def _t(self, x):
        e = self.F.g.get(x.id)
        if e is not None:
            return (self.value(e[0]) >> (32 * e[1])) & 0xffffffff
        c = self.F.cmp.get(x.id)
        if c is not None:
            return int(self.value(c[0]) != self.value(c[1]))
        return super()._t(x)

    def value(self, e):
        r = self.vals.get(e)
        if r is None:
            r = self.vals[e] = self.value1(e)
        return r

    def value1(self, e):
        op = e[0]
        if op == "in":
            return self.ins[e[1]]
        if op == "num":
            return e[1]
        if op == "raw":
            return sum(self.t(byid(i)) << (32 * k) for k, i in enumerate(e[1]))
        if op == "choose":
            f = self.t(byid(e[1]))
            if f > 1:
                raise Unknown("selection by %d" % f)
            return self.value(e[2 + f])
        xs = [self.value(k) for k in e[1:]]
        if op in ("add", "double", "sub", "half") and any(x >= P for x in xs):
            # these reduce once only
            if op == "half":
                raise Unknown("operand not below the prime")
            v = OPS[op](*xs)
            v = v + P if v < 0 else v - P if v >= P else v
            if not 0 <= v < R256:
                raise Unknown("operand not below the prime")
            return v
        return OPS[op](*xs) % P


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "double": lambda a: 2 * a, "mult": lambda a, b: a * b, "square": lambda a: a * a,
       "half": lambda a: a * INV2, "reduce": lambda a: a, "inverse": lambda a: pow(a, P - 2, P)}


# ---------------------------------------------------------------- polynomials over the field
def padd(a, b, c=1):
    r = dict(a)
    for m, x in b.items():
        y = (r.get(m, 0) + c * x) % P
        if y:
            r[m] = y
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > 400000:
        raise Big()
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            k = tuple(i + j for i, j in zip(m, n))
            r[k] = (r.get(k, 0) + x * y) % P
    return {m: x for m, x in r.items() if x}


class Big(Exception):
    pass


class Ring:
    def __init__(self, names):
        self.names = names
        self.n = len(names)

    def c(self, x):
        x %= P
        return {(0,) * self.n: x} if x else {}

    def var(self, name):
        return {tuple(int(x == name) for x in self.names): 1}

    def pow(self, a, k):
        r = self.c(1)
        for _ in range(k):
            r = pmul(r, a)
        return r

    def monomial(self, a, units):
        """a nonzero constant times powers of the given variables"""
        return len(a) == 1 and all(k == 0 or x in units for k, x in zip(next(iter(a)), self.names))

    def unit(self, a, units, base=None):
        """... times a power of base"""
        if self.monomial(a, units):
            return True
        if base is None or not a:
            return False
        lead = lambda p: max(p)
        b = self.c(1)
        for k in range(1, 7):
            b = pmul(b, base)
            if len(b) != len(a):
                continue
            q = tuple(i - j for i, j in zip(lead(a), lead(b)))
            if min(q) < 0 or any(k and x not in units for k, x in zip(q, self.names)):
                continue
            c = a[lead(a)] * pow(b[lead(b)], -1, P) % P
            if not padd(a, pmul(b, {q: c}), -1):
                return True
        return False


class Case:
    """field expressions as fractions of polynomials, for given operands and comparison outcomes"""
    def __init__(self, F_, ring, ins, flags):
        self.F, self.R, self.ins, self.flags = F_, ring, ins, flags
        self.memo = {}

    def frac(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self.frac1(e)
        return r

    def frac1(self, e):
        op, R = e[0], self.R
        one = R.c(1)
        if op == "in":
            return self.ins[e[1]], one
        if op == "num":
            return R.c(e[1]), one
        if op == "raw":
            raise Unknown("machine words that are not the result of a field operation")
        if op == "choose":
            f = At(None, {}, self.flags).t(byid(e[1]))
            if f > 1:
                raise Unknown("selection by %d" % f)
            return self.frac(e[2 + f])
        xs = [self.frac(k) for k in e[1:]]
        a, d = xs[0]
        if op in ("add", "sub"):
            b, f = xs[1]
            s = 1 if op == "add" else -1
            if d == f:
                return padd(a, b, s), d
            return padd(pmul(a, f), pmul(b, d), s), pmul(d, f)
        if op == "double":
            return padd(a, a), d
        if op == "half":
            return {m: x * INV2 % P for m, x in a.items()}, d
        if op == "mult":
            return pmul(a, xs[1][0]), pmul(d, xs[1][1])
        if op == "square":
            return pmul(a, a), pmul(d, d)
        if op == "reduce":
            return a, d
        if op == "inverse":
            return d, a
        raise Unknown(op)

    def p(self, e):
        a, d = self.frac(e)
        if d != self.R.c(1):
            raise Unknown("an inverse where none is expected")
        return a


# ---------------------------------------------------------------- points over the integers
def ec_add(a, b):
    """affine points, None is the neutral element"""
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        l = (3 * a[0] * a[0] - 3) * pow(2 * a[1], -1, P) % P
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


def ec_mul(n, a=(GX, GY)):
    r = None
    while n:
        if n & 1:
            r = ec_add(r, a)
        a = ec_add(a, a)
        n >>= 1
    return r


def jac(a, z):
    if a is None:
        return 1, 1, 0
    return a[0] * z * z % P, a[1] * z * z * z % P, z % P


def affine(p):
    x, y, z = p
    if not z:
        return None
    i = pow(z, -1, P)
    return x * i * i % P, y * i * i * i % P


# ---------------------------------------------------------------- interpretation
def interpret(cx, name, b, F_, ops, I, args_of):
    """(I, operand names, outcomes with their limbs)"""
    st = State()
    enter(st)
    vals = args_of(I, st)
    I, outs = run(cx, b, vals, I, st)
    if outs is None:
        return None
    stuck_outs(cx, I, outs, b)
    rets = ret_outs(outs)
    if not rets:
        cx.absent(I, name, b.path)
        return None
    return I, rets


def operand(I, st, F_, ty, names):
    """a fresh operand with its coordinates named; a reference if the type is one"""
    r = isref(I, ty)
    v = canon(I, st, I.fresh(refto(I, ty) if r else ty, ("op",) + tuple(names)))
    ls = limbs(v)
    if len(ls) != 8 * len(names):
        raise KeyError("operand shape")
    for k, n in enumerate(names):
        for i, x in enumerate(ls[8 * k:8 * k + 8]):
            F_.g[x.id] = (F_.node("in", n), i)
    F_.keep.append(v)
    return Ptr(I.alloc(st, v)) if r else v


XYZ = [("x1", "y1", "z1"), ("x2", "y2", "z2")]


def order_xyz(I, ty):
    """field names of the point type in declaration order"""
    t = I.ty(refto(I, ty) if isref(I, ty) else ty)
    return [f["name"] for f in t["variants"][0]["fields"]]


def coords(F_, I, o, ty):
    """field expressions of the resulting point by coordinate name"""
    enter(o.st)
    v = canon(I, o.st, o.val)
    names = order_xyz(I, ty)
    r = {}
    for n, k in zip(names, v.kids):
        e = F_.of(limbs(k))
        if e is None:
            return None
        r[n] = e
    return r


class PointFn:
    def __init__(self, cx, name, n):
        self.cx, self.ok = cx, False
        b = self.b = body(cx, PT + name)
        if b is None:
            return
        self.at = b.path
        self.F = Field()
        I = cx.new()
        I.contracts.update(self.F.contracts())
        try:
            mk = lambda I, st: [operand(I, st, self.F, b.locals[i + 1], [c + str(i + 1) for c in order_xyz(I, b.locals[i + 1])]) for i in range(n)]
            r = interpret(cx, "%s returns" % name, b, self.F, None, I, mk)
        except KeyError as e:
            return cx.und("%s takes points" % name, b.path, str(e))
        if r is None:
            return
        self.I, rets = r
        self.cases = []
        for o in rets:
            try:
                c = coords(self.F, self.I, o, b.locals[0])
            except KeyError:
                c = None
            if c is None:
                return cx.und("%s returns field elements" % name, b.path)
            self.cases.append((o, c))
        self.ok = True
        self.n = n
        self.one = len(rets) == 1

    def value(self, pts):
        """the resulting point for concrete ones"""
        ins = {c + str(i + 1): v for i, p in enumerate(pts) for c, v in zip("xyz", p)}
        for o, c in self.cases:
            s = Eval(self.F, o.st, {}, {}, ins)
            if self.one or s.consistent():
                return tuple(s.value(c[k]) for k in sorted(c))
        raise Unknown("no path")


def outcomes(f, ring, ins, units, base, zero=()):
    """the assignments of comparison outcomes possible for these operands"""
    syms = list(f.F.cmp)
    if len(syms) > 8:
        raise Unknown("%d comparisons" % len(syms))

    def go(i, asg):
        if i == len(syms):
            yield dict(asg)
            return
        c = Case(f.F, ring, ins, asg)
        a, b = f.F.cmp[syms[i]]
        (an, ad), (bn, bd) = c.frac(a), c.frac(b)
        d = padd(pmul(an, bd), pmul(bn, ad), -1)
        if not d:
            vs = (0,)
        elif ring.unit(d, units, base):
            vs = (1,)
        else:
            vs = (0, 1)
        for v in vs:
            asg[syms[i]] = v
            yield from go(i + 1, asg)
        del asg[syms[i]]
    return list(go(0, {}))


def same_point(R, got, want, units, base):
    """None when (x,y,z) is the point num_x/den^2, num_y/den^3 for nonzero den; or the reason"""
    X, Y, Z = got
    nx, ny, d = want
    if not R.unit(Z, units, base):
        return "the third coordinate may be zero"
    if padd(pmul(X, R.pow(d, 2)), pmul(nx, R.pow(Z, 2)), -1):
        return "the x coordinate differs"
    if padd(pmul(Y, R.pow(d, 3)), pmul(ny, R.pow(Z, 3)), -1):
        return "the y coordinate differs"
    return None


def dbl(R, u, v):
    """affine doubling with denominator 2v: numerators over (2v)^2 and (2v)^3"""
    M = padd(R.pow(u, 2), R.c(1), -1)
    M = pmul(R.c(3), M)
    v2 = R.pow(v, 2)
    nx = padd(R.pow(M, 2), pmul(R.c(8), pmul(u, v2)), -1)
    ny = padd(pmul(M, padd(pmul(R.c(4), pmul(u, v2)), nx, -1)), pmul(R.c(8), R.pow(v, 4)), -1)
    return nx, ny, pmul(R.c(2), v)


def prove(f, cases):
    """every case of operands and every outcome of the comparisons possible there"""
    if not f.one:
        return "several paths"
    o, c = f.cases[0]
    E = [c[k] for k in ("x", "y", "z")]
    n = 0
    try:
        for name, R, ins, units, base, check in cases:
            for asg in outcomes(f, R, ins, units, base):
                k = Case(f.F, R, ins, asg)
                n += 1
                w = check(R, [k.p(e) for e in E])
                if w:
                    return "%s: %s" % (name, w)
    except (Unknown, Big) as e:
        return "not comparable as polynomials: %s" % (e or type(e).__name__)
    f.cx.count("identities", n)
    return None


def infinite(R, g):
    return "the third coordinate is not zero" if g[2] else None


def add_cases():
    R = Ring(["x1", "y1", "z1", "x2", "y2", "z2"])
    v = {n: R.var(n) for n in R.names}
    z = dict(v, z1={}, z2={})
    yield "both neutral", R, z, (), None, infinite
    l = dict(v, z1={})
    yield "left neutral", R, l, ("z2",), None, lambda R, g: same_point(R, g, (v["x2"], v["y2"], v["z2"]), ("z2",), None)
    r = dict(v, z2={})
    yield "right neutral", R, r, ("z1",), None, lambda R, g: same_point(R, g, (v["x1"], v["y1"], v["z1"]), ("z1",), None)
    Q = Ring(["u", "v", "s", "t", "z", "w"])
    u, vv, s, t, z, w = (Q.var(n) for n in Q.names)

    def pts(a, b, c, d):
        return {"x1": pmul(a, Q.pow(z, 2)), "y1": pmul(b, Q.pow(z, 3)), "z1": z, "x2": pmul(c, Q.pow(w, 2)), "y2": pmul(d, Q.pow(w, 3)), "z2": w}
    D = padd(s, u, -1)
    L = padd(t, vv, -1)
    D2 = Q.pow(D, 2)
    nx = padd(Q.pow(L, 2), pmul(padd(u, s), D2), -1)
    ny = padd(pmul(L, padd(pmul(u, D2), nx, -1)), pmul(vv, Q.pow(D, 3)), -1)
    yield "different x", Q, pts(u, vv, s, t), ("z", "w"), D, lambda R, g: same_point(R, g, (nx, ny, D), ("z", "w"), D)
    # no point of the curve has y = 0: its order is odd
    yield "opposite points", Q, pts(u, vv, u, padd({}, vv, -1)), ("z", "w", "v"), None, infinite
    yield "equal points", Q, pts(u, vv, u, vv), ("z", "w", "v"), None, lambda R, g: same_point(R, g, dbl(R, u, vv), ("z", "w", "v"), None)


def double_cases():
    R = Ring(["u", "v", "z"])
    u, v, z = (R.var(n) for n in R.names)
    yield "neutral", R, {"x1": u, "y1": v, "z1": {}}, (), None, infinite
    yield "other points", R, {"x1": pmul(u, R.pow(z, 2)), "y1": pmul(v, R.pow(z, 3)), "z1": z}, ("z", "v"), None, lambda R, g: same_point(R, g, dbl(R, u, v), ("z", "v"), None)


def zs(rnd):
    return rnd.choice([1, 2, P - 1, rnd.randrange(1, P), rnd.randrange(1, P)])


def some_points():
    rnd = random.Random(21)
    ns = [0, 1, 2, 3, 4, 5, 7, ORDER - 1, ORDER - 2, ORDER - 3, (ORDER + 1) // 2, (ORDER - 1) // 2] + [rnd.randrange(ORDER) for _ in range(4)]
    return rnd, [(n, ec_mul(n)) for n in ns]


def special_points():
    """points with x of few bits or limbs: what is confused with zero or the neutral element"""
    b = (GY * GY - GX ** 3 + 3 * GX) % P
    out = []
    for x in [0, 1, 2, 3, P - 1, P - 2, P - 3] + [k << s for s in (32, 64, 96, 128, 160, 192, 224, 240) for k in (1, 2, 3, 5, 7)]:
        y2 = (x ** 3 - 3 * x + b) % P
        y = pow(y2, (P + 1) // 4, P)
        if y * y % P == y2:
            out.append((x, y))
    return out


def refute_points(cx, f, name, why, ref, ins):
    tried = 0
    for pts in ins:
        try:
            got = f.value(pts)
        except Unknown as e:
            if "selection by" in str(e):
                cx.ob(name, False, f.at, "%s; %s for %s" % (why, e, pts))
                return
            cx.und(name, f.at, "%s; not evaluated: %s" % (why, e))
            return
        tried += 1
        want = ref(*pts)
        if affine(got) != want:
            cx.ob(name, False, f.at, ("%s; for points %s the result is %s" % (why, "; ".join("(%x, %x, %x)" % p for p in pts), "(%x, %x, %x)" % got))[:700])
            return
    cx.und(name, f.at, "%s (%d operands agree)" % (why, tried))


def k05(cx):
    name = "addition of points is the group law in every case"
    f = PointFn(cx, "add", 2)

    def pairs():
        rnd, ps = some_points()
        for n, a in ps:
            for m, b in ps[:10] + [(n, a), ((-n) % ORDER, ec_mul(-n % ORDER)), (2 * n % ORDER, ec_mul(2 * n % ORDER))]:
                for _ in range(2):
                    yield jac(a, zs(rnd)), jac(b, zs(rnd))
                if n == m:
                    p = jac(a, zs(rnd))
                    yield p, p
        for a in special_points():
            for b in [c for _, c in ps[:4]] + special_points()[:2] + [a, (a[0], P - a[1]), ec_add(a, a)]:
                yield jac(a, zs(rnd)), jac(b, zs(rnd))
                yield jac(b, zs(rnd)), jac(a, 1)
    if f.ok:
        w = prove(f, add_cases())
        if w is None:
            cx.ob(name, True, f.at)
        else:
            refute_points(cx, f, name, w, lambda a, b: ec_add(affine(a), affine(b)), pairs())
    name = "doubling of points is the group law in every case"
    f = PointFn(cx, "double", 1)
    if f.ok:
        w = prove(f, double_cases())
        if w is None:
            cx.ob(name, True, f.at)
        else:
            rnd, ps = some_points()
            refute_points(cx, f, name, w, lambda a: ec_add(affine(a), affine(a)), [(jac(a, zs(rnd)),) for a in [a for n, a in ps] + special_points() for _ in range(3)])
    k05_choose(cx)
    k05_affine(cx)
    k05_lift(cx)
    k05_consts(cx)


def k05_choose(cx):
    name = "selection of points returns the chosen one"
    b = body(cx, PT + "choose")
    if b is None:
        return
    for flag in (0, 1):
        F_ = Field()
        I = cx.new()
        I.contracts.update(F_.contracts())

        def mk(I, st):
            v = canon(I, st, I.fresh(b.locals[1], ("flag",)))
            v = rebuild(v, [C(flag, limbs(v)[0].w)])
            return [v] + [operand(I, st, F_, b.locals[i + 2], [c + str(i + 1) for c in order_xyz(I, b.locals[i + 2])]) for i in range(2)]
        try:
            r = interpret(cx, name, b, F_, None, I, mk)
        except KeyError as e:
            return cx.und(name, b.path, str(e))
        if r is None:
            return
        I, rets = r
        for o in rets:
            try:
                c = coords(F_, I, o, b.locals[0])
            except KeyError:
                c = None
            if c is None or any(e[0] not in ("in", "num") for e in c.values()):
                cx.und(name, b.path, "other expressions")
            else:
                cx.ob(name, all(e == ("in", k + str(flag + 1)) for k, e in c.items()), b.path, str(c))


def k05_affine(cx):
    name = "conversion to affine form divides by z^2 and z^3"
    b = body(cx, PT + "normalize")
    if b is None:
        return
    F_ = Field()
    I = cx.new()
    I.contracts.update(F_.contracts())
    try:
        r = interpret(cx, name, b, F_, None, I, lambda I, st: [operand(I, st, F_, b.locals[1], [c + "1" for c in order_xyz(I, b.locals[1])])])
    except KeyError as e:
        return cx.und(name, b.path, str(e))
    if r is None:
        return
    I, rets = r
    R = Ring(["x1", "y1", "z1"])
    ins = {n: R.var(n) for n in R.names}
    for o in rets:
        try:
            c = coords(F_, I, o, b.locals[0])
        except KeyError:
            c = None
        if c is None or set(c) != {"x", "y"}:
            cx.und(name, b.path, "other result")
            continue
        try:
            k = Case(F_, R, ins, {})
            (xn, xd), (yn, yd) = k.frac(c["x"]), k.frac(c["y"])
            ok = not padd(pmul(xn, R.pow(ins["z1"], 2)), pmul(xd, ins["x1"]), -1) and not padd(pmul(yn, R.pow(ins["z1"], 3)), pmul(yd, ins["y1"]), -1) and R.monomial(xd, ("z1",)) and R.monomial(yd, ("z1",))
            why = "another fraction"
        except (Unknown, Big) as e:
            ok, why = False, str(e)
        if ok:
            cx.ob(name, True, b.path)
            continue
        rnd, ps = some_points()
        bad = None
        try:
            for n, a in ps:
                for _ in range(4):
                    if a is None:
                        continue
                    p = jac(a, zs(rnd))
                    s = Eval(F_, o.st, {}, {}, dict(zip(("x1", "y1", "z1"), p)))
                    if len(rets) > 1 and not s.consistent():
                        continue
                    if (s.value(c["x"]), s.value(c["y"])) != a:
                        bad = p
        except Unknown as e:
            why += "; not evaluated: %s" % e
            bad = None
        if bad:
            cx.ob(name, False, b.path, "%s; wrong for (%x, %x, %x)" % ((why,) + bad))
        else:
            cx.und(name, b.path, why)


def k05_lift(cx):
    name = "an affine point becomes the projective one with z = 1"
    b = body(cx, NP + "to_point")
    if b is None:
        return
    F_ = Field()
    I = cx.new()
    I.contracts.update(F_.contracts())
    try:
        r = interpret(cx, name, b, F_, None, I, lambda I, st: [operand(I, st, F_, b.locals[1], [c + "1" for c in order_xyz(I, b.locals[1])])])
    except KeyError as e:
        return cx.und(name, b.path, str(e))
    if r is None:
        return
    I, rets = r
    for o in rets:
        try:
            c = coords(F_, I, o, b.locals[0])
        except KeyError:
            c = None
        if c is None or any(e[0] not in ("in", "num") for e in c.values()):
            cx.und(name, b.path, "other expressions")
            continue
        cx.ob(name, c.get("x") == ("in", "x1") and c.get("y") == ("in", "y1") and c.get("z") == ("num", 1), b.path, str(c))


def k05_consts(cx):
    """constants of the point type anywhere in the crate"""
    name = "constant points are the neutral element or the base point of P-256"
    I = cx.new()
    found = 0

    def walk(x, at):
        nonlocal found
        if isinstance(x, dict):
            if isinstance(x.get("k"), dict) and "t" in x:
                t = I.ty(x["t"])
                ty = x["t"]
                while t["k"] == "ref":
                    ty = refto(I, ty)
                    t = I.ty(ty)
                if t["k"] == "adt" and t["path"].endswith("p256::Point256"):
                    st = State()
                    enter(st)
                    v = canon(I, st, I.const(st, x["k"], x["t"]))
                    names = [f["name"] for f in t["variants"][0]["fields"]]
                    ns = consts(v)
                    if ns is None or len(ns) != 3:
                        cx.und(name, at, "not readable")
                        return
                    d = dict(zip(names, ns))
                    x_, y, z = d["x"], d["y"], d["z"]
                    if z % P == 0:
                        return
                    found += 1
                    a = affine((x_, y, z))
                    if a == (GX, GY):
                        cx.ob(name, True, at)
                    elif (a[1] * a[1] - a[0] ** 3 + 3 * a[0] - BEQ) % P:
                        cx.ob(name, False, at, "a point that is not on the curve: %x, %x" % a)
                    else:
                        cx.und(name, at, "another point of the curve")
                    return
            for y in x.values():
                walk(y, at)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y, at)
    for b in cx.P.bodies.values():
        walk(b.blocks, b.path)
    if not found:
        cx.und(name, "crypto::p256", "no constant point with z != 0")


# ---------------------------------------------------------------- K06
class Multiples:
    """points that are integer multiples of one point; the multiples are polynomials in the scalar's bits"""
    def __init__(self, zz):
        self.zz = zz
        self.m = {}
        self.n = 0
        self.keep = []
        self.flags = []

    def key(self, I, st, a):
        return tuple(x.id for x in limbs(canon(I, st, deref_all(I, st, a))))

    def of(self, I, st, a):
        v = canon(I, st, deref_all(I, st, a))
        try:
            ls = limbs(v)
        except KeyError:
            return None
        r = self.m.get(tuple(x.id for x in ls))
        if r is None and len(ls) == 24:
            names = [f["name"] for f in I.ty(v.shape[0])["variants"][0]["fields"]]
            z = limbs(v.kids[names.index("z")])
            if all(x.op == "c" and not x.a for x in z):
                return {}
        return r

    def new(self, I, st, ty, m):
        self.n += 1
        v = canon(I, st, funval(I, ty, ("multiple", self.n), []))
        self.m[tuple(x.id for x in limbs(v))] = m
        self.keep.append(v)
        return v

    def contract(self, op):
        def c(I, st, cal, args, blk, span):
            enter(st)
            ty = MD.retty(I, cal, blk)
            zz = self.zz
            if op == "choose":
                f = limbs(canon(I, st, deref_all(I, st, args[0])))
                a, b = (self.of(I, st, x) for x in args[1:])
                if len(f) != 1 or a is None or b is None:
                    return None
                f = zz.z(f[0])
                lo, hi = zz.interval(f)
                if lo < 0 or hi > 1:
                    self.flags.append(f)
                return self.new(I, st, ty, zz.sum((1, a), (1, zz.mul(f, zz.sum((1, b), (-1, a))))))
            ks = [self.of(I, st, x) for x in args]
            if any(k is None for k in ks):
                return None
            return self.new(I, st, ty, zz.sum((2, ks[0])) if op == "double" else zz.sum((1, ks[0]), (1, ks[1])))
        return c


def zvalue(zz, Q, val):
    """the number a polynomial with floors denotes"""
    r = 0
    for m, c in Q.items():
        for i in m:
            k = zz.keys[i]
            if k[0] == "t":
                c *= val(byid(k[1]))
            elif k[0] == "f":
                c *= zvalue(zz, dict(k[1]), val) >> k[2]
            elif k[0] == "bit":
                c *= sum(all(val(byid(a)) >> j & 1 for a, j in mono) for mono in k[1]) & 1
            else:
                raise Unknown(k[0])
        r += c
    return r


def scalars():
    rnd = random.Random(5)
    out = [0, 1, 2, 3, 4, 5, ORDER - 1, ORDER - 2, ORDER, ORDER + 1, R256 - 1, R256 - 2, 1 << 255, (1 << 255) - 1]
    out += [1 << k for k in range(256)] + [3 << k for k in range(0, 254, 5)] + [rnd.randrange(R256) for _ in range(40)]
    return out


def k06(cx):
    name = "scalar multiplication returns the scalar's multiple of the point"
    b = body(cx, PT + "mult_scalar")
    if b is None:
        return
    zz = zpoly.Z()
    X = Multiples(zz)
    I = cx.new()
    I.contracts.update({PT + k: X.contract(k) for k in ("double", "add", "choose")})
    st = State()
    enter(st)
    vals, scalar = [], None
    for i in (1, 2):
        ty = b.locals[i]
        r = isref(I, ty)
        v = canon(I, st, I.fresh(refto(I, ty) if r else ty, ("op%d" % i,)))
        ls = limbs(v)
        if len(ls) == 24 and i == 1:
            X.m[tuple(x.id for x in ls)] = {(): 1}
        elif len(ls) == 8:
            scalar = ls
        vals.append(Ptr(I.alloc(st, v)) if r else v)
    if scalar is None:
        return cx.und(name, b.path, "other operands")
    I, outs = run(cx, b, vals, I, st)
    if outs is None:
        return
    stuck_outs(cx, I, outs, b)
    rets = ret_outs(outs)
    if not rets:
        return cx.absent(I, name, b.path)
    cx.count("point_operations", X.n)
    N = zz.number(scalar, 32)
    for o in rets:
        enter(o.st)
        m = X.of(I, o.st, o.val)
        if m is None:
            cx.und(name, b.path, "not a multiple of the operand")
            continue
        D = zz.sum((1, m), (-1, N))
        if not X.flags and len(rets) == 1 and not any(D) and D.get((), 0) % ORDER == 0:
            cx.ob(name, True, b.path)
            continue
        bad, why = None, "another combination of the scalar's bits"
        try:
            for n in scalars():
                env = {x.id: (n >> (32 * i)) & 0xffffffff for i, x in enumerate(scalar)}
                if len(rets) > 1 and not At(o.st, {}, env).consistent():
                    continue
                if any(zvalue(zz, f, lambda t: At(None, {}, env).t(t)) > 1 for f in X.flags):
                    bad = "the selection is by a number above 1 for the scalar %x" % n
                    break
                k = zvalue(zz, m, lambda t: At(None, {}, env).t(t))
                if (k - n) % ORDER:
                    bad = "for the scalar %x the result is the multiple by %x" % (n, k % ORDER)
                    break
        except Unknown as e:
            why += "; not evaluated: %s" % e
        if bad:
            cx.ob(name, False, b.path, bad)
        else:
            cx.und(name, b.path, why)


# ---------------------------------------------------------------- K07
def k07(cx):
    to_bytes(cx)
    from_bytes(cx)
    decode(cx)
    encode(cx)


def some_numbers():
    rnd = random.Random(3)
    return [0, 1, 255, 256, P - 1, P, R256 - 1, 1 << 255] + [1 << k for k in range(0, 256, 8)] + [rnd.randrange(R256) for _ in range(8)]


def seq_bytes(st, v):
    """the terms of a byte string of fixed length, or None"""
    enter(st)
    v = MDseq(v)
    n = seq_len(v)
    if n.op != "c" or n.a > 256:
        return None
    return [seq_get(v, U64(i)) for i in range(n.a)]


def to_bytes(cx):
    name = "a field element is written as its 32 big-endian bytes"
    b = body(cx, IT + "to_bytes")
    if b is None:
        return
    F_ = Field()
    I = cx.new()
    try:
        r = interpret(cx, name, b, F_, None, I, lambda I, st: [operand(I, st, F_, b.locals[1], ["n"])])
    except KeyError as e:
        return cx.und(name, b.path, str(e))
    if r is None:
        return
    I, rets = r
    same_bytes(cx, F_, name, b, rets, 32, lambda n: list(n["n"].to_bytes(32, "big")), ["n"], lambda bs: None)


def same_bytes(cx, F_, name, b, rets, size, want, names, prefix):
    """the returned bytes are the big-endian numbers of the operands"""
    limbs_ = {n: [byid(i) for i, (e, k) in sorted(F_.g.items(), key=lambda x: x[1][1]) if e == ("in", n)] for n in names}
    for o in rets:
        bs = seq_bytes(o.st, o.val)
        if bs is None:
            cx.und(name, b.path, "length not fixed")
            continue
        if len(bs) != size:
            cx.ob(name, False, b.path, "%d bytes" % len(bs))
            continue
        zz = zpoly.Z()
        at = size - 32 * len(names)
        ok = all(x.op == "c" and x.a == y for x, y in zip(bs[:at], want({n: 0 for n in names})))
        for k, n in enumerate(names):
            ok = ok and not zz.sum((1, zz.number(bs[at + 32 * k:at + 32 * k + 32][::-1], 8)), (-1, zz.number(limbs_[n], 32)))
        if ok:
            cx.ob(name, True, b.path)
            continue
        bad, why = None, "other terms"
        try:
            rnd = random.Random(8)
            for x in some_numbers():
                nums = {n: x if k == 0 else rnd.choice(some_numbers()) for k, n in enumerate(names)}
                s = Eval(F_, o.st, {}, {}, nums)
                if not s.consistent():
                    continue
                if [s.t(t) for t in bs] != want(nums):
                    bad = "wrong bytes for %s" % ", ".join("%x" % v for v in nums.values())
                    break
        except Unknown as e:
            why += "; not evaluated: %s" % e
        if bad:
            cx.ob(name, False, b.path, bad)
        else:
            cx.und(name, b.path, why)


def encode(cx):
    name = "an affine point is written as 4, x, y"
    b = body(cx, NP + "to_uncompressed_bytes")
    if b is None:
        return
    F_ = Field()
    I = cx.new()
    try:
        r = interpret(cx, name, b, F_, None, I, lambda I, st: [operand(I, st, F_, b.locals[1], order_xyz(I, b.locals[1]))])
    except KeyError as e:
        return cx.und(name, b.path, str(e))
    if r is None:
        return
    I, rets = r
    same_bytes(cx, F_, name, b, rets, 65, lambda n: [4] + list(n["x"].to_bytes(32, "big")) + list(n["y"].to_bytes(32, "big")), ["x", "y"], None)


def payload(I, v):
    """the value inside Some"""
    return v.kids[0]


def number_is(zz, ls, seq, lo, n):
    """the limbs are the big-endian number of these bytes"""
    return not zz.sum((1, zz.number(ls, 32)), (-1, zz.number([seq_get(seq, U64(lo + n - 1 - i)) for i in range(n)], 8)))


def from_bytes(cx):
    name = "32 bytes are read as a big-endian number, other lengths refused"
    b = body(cx, IT + "from_bytes")
    if b is None:
        return
    I = cx.new()
    st = State()
    enter(st)
    p, seq = bytearg(I, st, "data")
    n = seq_len(seq)
    I, outs = run(cx, b, [p], I, st)
    if outs is None:
        return
    stuck_outs(cx, I, outs, b)
    rets = ret_outs(outs)
    if not rets:
        return cx.absent(I, name, b.path)
    for o in rets:
        enter(o.st)
        ok = is_ok(I, o.val)
        if ok is None:
            cx.und(name, b.path, "not a literal outcome")
        elif not ok:
            check_implies(cx, o.st, "only other lengths than 32 are refused", [ne(n, U64(32))], b.path)
        else:
            check_same(cx, I, o.st, "only 32 bytes are accepted", n, U64(32), b.path)
            try:
                ls = limbs(canon(I, o.st, o.val))
            except KeyError:
                cx.und(name, b.path, "no machine words")
                continue
            zz = zpoly.Z()
            if len(ls) == 8 and number_is(zz, ls, seq, 0, 32):
                cx.ob(name, True, b.path)
                continue
            bad, why = None, "other terms"
            try:
                for x in some_numbers():
                    s = At(o.st, {"data": list(x.to_bytes(32, "big"))}, {n.id: 32})
                    if s.consistent() and number_of(s, ls) != x:
                        bad = "wrong for %x" % x
                        break
            except Unknown as e:
                why += "; not evaluated: %s" % e
            if bad:
                cx.ob(name, False, b.path, bad)
            else:
                cx.und(name, b.path, why)


def encodings():
    """(bytes, point or None)"""
    rnd = random.Random(17)
    e = lambda x, y, t=4: [t] + list(x.to_bytes(32, "big")) + list(y.to_bytes(32, "big"))
    pts = [ec_mul(n) for n in (1, 2, 3, ORDER - 1, ORDER - 2, rnd.randrange(ORDER), rnd.randrange(ORDER))]
    small = []
    x = 0
    while len(small) < 4:
        y2 = (x ** 3 - 3 * x + BEQ) % P
        y = pow(y2, (P + 1) // 4, P)
        if y * y % P == y2:
            small.append((x, y))
        x += 1
    for x, y in pts + small:
        yield e(x, y), (x, y)
        yield e(x, P - y), (x, P - y)
        for t in (0, 1, 2, 3, 5, 6, 7, 0x44, 0x84, 255):
            yield e(x, y, t), None
        for k in (-1, 1):
            yield e(x, (y + k) % P), None
            yield e((x + k) % P, y), None
        yield e(y, x), None
        for k in range(0, 256, 31):
            yield e(x, y ^ (1 << k)), None
            yield e(x ^ (1 << k), y), None
        yield e(x, y)[:-1], None
        yield e(x, y) + [0], None
        yield e(x, y)[:33], None
        yield e(x, y)[1:], None
        if x + P < R256:
            yield e(x + P, y), None
        if y + P < R256:
            yield e(x, y + P), None
    # small y: a root x of x^3 - 3x + B - y^2 is not needed for the twist of both being too large
    yield e(0, 0), None
    yield e(P, 0), None
    yield e(0, P), None
    yield e(R256 - 1, R256 - 1), None
    yield [0], None
    yield [4], None
    yield [], None


def solutions(d, xi, yi):
    """points with d(x, y) = 0, for polynomials of degree at most two in y"""
    for x in range(1, 24):
        co = [0, 0, 0]
        for m, c in d.items():
            if m[yi] > 2:
                return
            co[m[yi]] = (co[m[yi]] + c * pow(x, m[xi], P)) % P
        c, b, a = co
        if not a:
            if b:
                yield x, -c * pow(b, -1, P) % P
            continue
        D = (b * b - 4 * a * c) % P
        r = pow(D, (P + 1) // 4, P)
        if r * r % P == D:
            for q in (r, P - r):
                yield x, (q - b) * pow(2 * a, -1, P) % P


def on_curve(x, y):
    return x < P and y < P and (y * y - x ** 3 + 3 * x - BEQ) % P == 0


def decode(cx):
    name = "a point is accepted only with both coordinates below the prime and on the curve"
    b = body(cx, NP + "from_uncompressed_bytes")
    if b is None:
        return
    F_ = Field()
    I = cx.new()
    I.contracts.update(F_.contracts())
    st = State()
    enter(st)
    p, seq = bytearg(I, st, "data")
    n = seq_len(seq)
    I, outs = run(cx, b, [p], I, st)
    if outs is None:
        return
    stuck_outs(cx, I, outs, b)
    rets = ret_outs(outs)
    if not rets:
        return cx.absent(I, name, b.path)
    found = {}
    polys = []

    def meaning():
        """comparison symbols by what they decide"""
        X = Y = None
        for o in rets:
            if is_ok(I, o.val):
                enter(o.st)
                v = canon(I, o.st, o.val).kids[0]
                names = [f["name"] for f in I.ty(v.shape[0])["variants"][0]["fields"]]
                x, y = (F_.of(limbs(v.kids[names.index(c)])) for c in "xy")
                if X not in (None, x) or Y not in (None, y):
                    return "several ways to accept"
                X, Y = x, y
        if X is None:
            return "never accepts"
        R = Ring(["x", "y"])
        x, y = R.var("x"), R.var("y")
        ins = {X: x, Y: y}
        curve = padd(padd(R.pow(y, 2), R.pow(x, 3), -1), padd(pmul(R.c(3), x), R.c(BEQ), -1))
        for s, (a, c) in F_.cmp.items():
            for nm, e in (("x", X), ("y", Y)):
                if {a, c} == {e, ("reduce", e)}:
                    found[nm] = s
            try:
                (an, ad), (cn, cd) = (Case2(F_, R, ins, {}).frac(q) for q in (a, c))
            except (Unknown, Big):
                continue
            d = padd(pmul(an, cd), pmul(cn, ad), -1)
            polys.append(d)
            if d and len(d) == len(curve) and set(d) == set(curve):
                k = d[max(d)] * pow(curve[max(curve)], -1, P) % P
                if not padd(d, pmul(R.c(k), curve), -1):
                    found["curve"] = s
        miss = {"x", "y", "curve"} - set(found)
        if miss:
            return "no comparison that decides %s" % ", ".join(sorted(miss))
        found["X"], found["Y"] = X, Y
        return None
    why = meaning()
    if why is None:
        zz = zpoly.Z()
        bit = lambda s: ult(C(0, byid(s).w), byid(s))
        for o in rets:
            enter(o.st)
            ok = is_ok(I, o.val)
            if ok is None:
                why = "not a literal outcome"
            elif ok:
                at = lambda i: seq_get(seq, U64(i))
                c = [decide(o.st, eq(n, U64(65)), 3), decide(o.st, eq(at(0), C(4, 8)), 3)] + [decide(o.st, eq(byid(found[k]), C(0, byid(found[k]).w)), 3) for k in ("x", "y", "curve")]
                if not all(x is True for x in c):
                    why = "accepted without %s" % ", ".join(k for k, x in zip(("length", "type", "x", "y", "curve"), c) if x is not True)
                elif not all(number_is(zz, [byid(i) for i in found[k][1]], seq, lo, 32) for k, lo in (("X", 1), ("Y", 33)) if found[k][0] == "raw") or found["X"][0] != "raw" or found["Y"][0] != "raw":
                    why = "the coordinates are not the bytes"
            else:
                r = implies(o.st, [ne(n, U64(65)), ne(seq_get(seq, U64(0)), C(4, 8))] + [bit(found[k]) for k in ("x", "y", "curve")])
                if r is not True:
                    why = "a refusal is not explained by length, type, range or curve"
            if why:
                break
    if why is None:
        cx.ob(name, True, b.path)
        cx.count("outcomes_of_decoding", len(rets))
        return
    tried = 0
    try:
        sol = [([4] + list(x.to_bytes(32, "big")) + list(y.to_bytes(32, "big")), (x, y) if on_curve(x, y) else None) for d in polys if d for x, y in solutions(d, 0, 1)]
        for data, want in itertools.chain(encodings(), sol):
            hit = None
            for o in rets:
                s = Eval(F_, o.st, {"data": data}, {n.id: len(data)}, {})
                try:
                    if not s.consistent():
                        continue
                except Unknown as e:
                    if "beyond" in str(e):
                        continue
                    raise
                hit = o, s
                break
            if hit is None:
                raise Unknown("no path")
            o, s = hit
            enter(o.st)
            got = None
            if is_ok(I, o.val):
                v = canon(I, o.st, o.val).kids[0]
                names = [f["name"] for f in I.ty(v.shape[0])["variants"][0]["fields"]]
                got = tuple(number_of(s, limbs(v.kids[names.index(c)])) for c in "xy")
            tried += 1
            if got != want:
                cx.ob(name, False, b.path, "%s; %s is %s" % (why, bytes(data).hex(), "accepted" + (" as %x, %x" % got) if got else "refused"))
                return
    except Unknown as e:
        return cx.und(name, b.path, "%s; not evaluated: %s" % (why, e))
    cx.und(name, b.path, "%s (%d encodings agree)" % (why, tried))


class Case2(Case):
    """operands may be machine words"""
    def frac1(self, e):
        if e in self.ins:
            return self.ins[e], self.R.c(1)
        return super().frac1(e)
