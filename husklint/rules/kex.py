"""Key exchange (src/cipher/ecdhe.rs) and the randomness of a connection."""
from rules.lib import *
from rules.record import *
from rules.client import CL, paths, seqs_in, deref_all
from rules.codes import CODES

KX = "<cipher::ecdhe::EllipticDiffieHellman as cipher::KeyExchange>::compute_keys"
PT = "crypto::p256::Point256::"
NP = "crypto::p256::NPoint256::"
IT = "crypto::p256::int256::Int256::"


def funval(I, ty, name, args):
    """an unspecified but fixed function of the arguments"""
    t = I.ty(ty)
    w = I.prog.width(ty)
    if w is not None:
        return F(("free",) + (name if isinstance(name, tuple) else (name,)), tuple(args), w)
    if t["k"] == "array":
        return srcslice(Src(("fun", name), tuple(args), I.ety(t["elem"])), U64(0), U64(int(t["len"])))
    if t["k"] == "adt" and t["kind"] == "struct" and (t.get("local") or I.expandable(t["path"])):
        return Agg(ty, 0, [funval(I, f["ty"], (name, f["name"]), args) for f in t["variants"][0]["fields"]])
    raise Stuck("no value of type %s" % t["s"])


def canon(I, st, v):
    """value behind references, with arrays spelled out"""
    v = deref_all(I, st, v)
    if isinstance(v, Val) and v.cls == "agg":
        return Agg(v.shape[0], v.shape[1], [canon(I, st, k) for k in v.kids])
    if isinstance(v, Val) and v.cls == "seq":
        n = seq_len(v)
        if n.op == "c" and n.a <= 64:
            return explicit([canon(I, st, seq_get(v, U64(i))) for i in range(n.a)])
    return v


def pure(name):
    def f(I, st, cal, args, blk, span):
        enter(st)
        ks = [canon(I, st, a) for a in args]
        v = funval(I, MD.retty(I, cal, blk), name, ks)
        st.emit("ec", name, tuple(ks), v, tuple(I.stack), span)
        return v
    return f


def pure_bytes(name, n):
    def f(I, st, cal, args, blk, span):
        enter(st)
        ks = [canon(I, st, a) for a in args]
        s = srcslice(Src(("fun", name), tuple(ks), ("int", 8)), U64(0), U64(n))
        st.emit("ec", name, tuple(ks), s, tuple(I.stack), span)
        return Vec(s, I.prog.tid("u8"))
    return f


def c_decode(I, st, cal, args, blk, span):
    """decoding an encoded point: rejected, or a point determined by the bytes (K07)"""
    enter(st)
    s = MD.seqof(I, st, args[0])
    ty = MD.retty(I, cal, blk)
    bad = st.copy()
    enter(bad)
    bad.emit("pt_bad", s)
    none = MD.none(I, ty)
    enter(st)
    v = funval(I, I.ty(ty)["args"][0], "decode", (s,))
    st.emit("pt_ok", s, v)
    return [Out("ret", st, MD.some(I, ty, v)), Out("ret", bad, none)]


ECC = {PT + "mult_scalar": pure("mul"), PT + "normalize": pure("affine"), NP + "to_point": pure("lift"),
       NP + "from_uncompressed_bytes": c_decode, NP + "to_uncompressed_bytes": pure_bytes("encode", 65), IT + "to_bytes": pure_bytes("bytes", 32)}


def run_kex(cx, extra={}):
    b = body(cx, KX)
    if b is None:
        return None
    I = cx.new()
    I.contracts.update(ECC)
    I.contracts.update(MEMC)
    I.contracts.update(extra)
    st = State()
    enter(st)
    p, s = bytearg(I, st, "ske", 1 << 24)
    I, outs = run(cx, b, [I.fresh(b.locals[1], ("self",)), p, I.fresh(b.locals[3], ("rng",))], I, st)
    if outs is None:
        return None
    stuck_outs(cx, I, outs, b)
    return I, b, s, ret_outs(outs)


# ---------------------------------------------------------------- ECDHE
GX = 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296
GY = 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5
PRIME = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff


def consts(v):
    """the numbers of a fully constant aggregate of limb arrays"""
    out = []
    if isinstance(v, Val) and v.cls == "agg":
        for k in v.kids:
            if isinstance(k, T):
                return None
            r = consts(k)
            if r is None:
                return None
            out += r
        return out
    if isinstance(v, Val) and v.cls == "seq":
        n = 0
        for i in range(seq_len(v).a):
            x = seq_get(v, U64(i))
            while isinstance(x, Val) and x.cls == "agg" and len(x.kids) == 1:
                x = x.kids[0]
            if not isinstance(x, T) or x.op != "c":
                return None
            n |= x.a << (32 * i)
        return [n]
    return None


def holds(cx, st, name, t, at):
    """the path facts imply a condition"""
    if decide(st, t, 3) is True:
        return cx.ob(name, True, at)
    return check_implies(cx, st, name, [t], at)


def fact_eq(st, t, v):
    return decide(st, eq(t, C(v, t.w)), 3)


def be16(s, i):
    return add(mul(cast(seq_get(s, i), 64), U64(256)), cast(seq_get(s, add(i, U64(1))), 64))


def c09(cx):
    r = run_kex(cx)
    if r is None:
        return
    I, b, s, outs = r
    at = b.path
    n = 0
    for o in outs:
        enter(o.st)
        evs = o.st.events()
        pt = [e for e in evs if e[0] in ("pt_ok", "pt_bad")]
        ec = [e for e in evs if e[0] == "ec"]
        muls = [e for e in ec if e[1] == "mul"]
        ok = is_ok(I, o.val)
        if ok is True:
            n += 1
            if len(pt) != 1 or pt[0][0] != "pt_ok":
                cx.viol("the server's point is decoded and validated exactly once", at, str([e[0] for e in pt]))
                continue
            ptlen = cast(seq_get(s, U64(3)), 64)
            try:
                holds(cx, o.st, "the parameters are a named curve", eq(seq_get(s, U64(0)), U8(3)), at)
                holds(cx, o.st, "the curve is secp256r1", eq(be16(s, U64(1)), U64(23)), at)
                check_same(cx, I, o.st, "the validated point is the one in the message", pt[0][1], seq_slice(s, U64(4), ptlen), at)
                siglen = be16(s, add(ptlen, U64(6)))
                holds(cx, o.st, "the parameters are completely consumed", eq(seq_len(s), add(add(ptlen, U64(8)), siglen)), at)
            except Undecided:
                cx.und("the message layout is known", at)
            pms, pub = MDseq(o.val.kids[0].kids[1]), MDseq(o.val.kids[0].kids[0])
            if len(muls) < 2:
                cx.viol("both the public point and the secret are multiples of a point", at, str([e[1] for e in ec]))
                continue
            ms = {}
            for e in muls:
                g = consts(e[2][0])
                kind = "G" if g is not None else "Y" if e[2][0] is lifted(I, pt[0][2], e[2][0]) else None
                if g is not None:
                    cx.ob("the base point is that of P-256", g == [GX, GY, 1], at, str([hex(x) for x in g]))
                elif kind is None:
                    cx.und("the multiplied point is the server's", at, showv(e[2][0])[:200])
                ms.setdefault(kind, []).append(e)
            if set(ms) != {"G", "Y"} or len(muls) != 2:
                if None not in ms:
                    cx.viol("the base point and the server's point are multiplied once each", at, str({k: len(v) for k, v in ms.items()}))
                continue
            x1, x2 = ms["G"][0][2][1], ms["Y"][0][2][1]
            cx.ob("both use the same scalar", vsame(I, o.st, x1, x2), at, "%s and %s" % (showv(x1)[:100], showv(x2)[:100]))
            aff = lambda m: [e[3] for e in ec if e[1] == "affine" and e[2][0] is canon(I, o.st, m)]
            ga, ya = aff(ms["G"][0][3]), aff(ms["Y"][0][3])
            if not ga or not ya:
                cx.und("both multiples are converted to affine coordinates", at, str([e[1] for e in ec]))
                continue
            enc_ = srcslice(Src(("fun", "encode"), (canon(I, o.st, ga[0]),), ("int", 8)), U64(0), U64(65))
            check_same(cx, I, o.st, "the client sends the length-prefixed encoding of x*G", pub, seq_cat(explicit([U8(65)]), enc_), at)
            xb = srcslice(Src(("fun", "bytes"), (canon(I, o.st, field(I, ya[0], "x")),), ("int", 8)), U64(0), U64(32))
            check_same(cx, I, o.st, "the premaster secret is the x coordinate of x*Y", pms, xb, at)
        elif ok is False:
            k = kindof(I, o.st, o.val.kids[0])
            bad = any(e[0] == "pt_bad" for e in pt)
            if bad:
                cx.ob("an invalid point fails with illegal_parameter", None if k is None else k == "IllegalParameter", at, str(k))
                cx.ob("no secret is derived from an invalid point", not muls, at)
            elif k == "IllegalParameter":
                try:
                    d = fact_eq(o.st, be16(s, U64(1)), 23)
                    cx.ob("illegal_parameter means a bad curve or point", d is False if d is not None else None, at, facts(o.st)[:300])
                except Undecided:
                    cx.und("illegal_parameter means a bad curve or point", at)
                cx.ob("no secret is derived with another curve", not muls, at)
            else:
                cx.ob("malformed parameters are decode errors", None if k is None else k == "DecodeError", at, str(k))
                cx.ob("no secret is derived from malformed parameters", not muls, at)
        else:
            cx.und("the outcome is known", at, showv(o.val)[:100])
    if not n:
        cx.absent(I, "the key exchange can succeed", at)


def lifted(I, pt, v):
    """the canonical form of lift(decoded point)"""
    return canon(I, None, funval(I, v.shape[0], "lift", [canon(I, None, pt)]))


# ---------------------------------------------------------------- randomness
def bits_of(v):
    """the bits of an array or integer, lowest first, as (atom id, bit) or constants / None"""
    out = []
    if isinstance(v, Val) and v.cls == "agg":
        for k in v.kids:
            r = bits_of(k)
            if r is None:
                return None
            out += r
        return out
    if isinstance(v, Val) and v.cls == "seq":
        n = seq_len(v)
        if n.op != "c" or n.a > 4096:
            return None
        for i in range(n.a):
            r = bits_of(seq_get(v, U64(i)))
            if r is None:
                return None
            out += r
        return out
    if isinstance(v, T):
        return [(v, i) for i in range(v.w)]
    return None


def rng_use(v):
    """draws each bit of a value comes from: [(draw number, position)] per bit; False for a bit that is not random; None if unknown"""
    bs = bits_of(v)
    if bs is None:
        return None
    out = []
    for t, i in bs:
        out.append(rng_bit(t, i))
    return out


def rng_bit(t, i):
    x = TT.getbits(t)[i]
    if x == TT.Z or x == TT.I:
        return False
    if len(x) != 1:
        return None
    m = next(iter(x))
    if not isinstance(m, frozenset) or len(m) != 1:
        return None
    aid, j = next(iter(m))
    a = byid(aid)
    if a.op == "v" and isinstance(a.a, tuple) and a.a[:1] == ("rng",):
        return (a.a[1], j)
    if a.op == "f" and a.a[0] == "elem" and a.a[1].shape[0][:1] == ("rng",) and a.a[2].op == "c":
        return (a.a[1].shape[0][1], a.a[2].a * a.w + j)
    if rnd.hasmu(a.a if a.op == "v" else getattr(a.a[1], "shape", ()) if a.op == "f" and a.a[0] == "elem" else ("mu",)):
        return None
    return False


def is_gen(I, st, p):
    """whether a receiver is the operating system's generator: True / False / None"""
    v = p
    n = 0
    while isinstance(v, Val) and v.cls == "ptr" and n < 5:
        try:
            v = I.loadp(st, v)
        except Stuck:
            return None
        n += 1
    if isinstance(v, Val) and isinstance(v.shape, tuple) and v.shape and isinstance(v.shape[0], int):
        s = I.ty(v.shape[0])["s"]
        return s.split("<")[0].split("::")[-1] == "OsRng"
    return None


def draws(st):
    return [e for e in st.events() if e[0] == "rng"]


def check_random(cx, I, st, what, v, nbits, at, last=None):
    """a value is nbits fresh generator bits"""
    us = rng_use(v)
    if us is None or (None in us and False not in us):
        cx.und("every bit of %s comes from the generator" % what, at, showv(v)[:200] if isinstance(v, Val) else show(v)[:200])
        return None
    if False in us:
        cx.viol("every bit of %s comes from the generator" % what, at, "%d of %d bits do not: %s" % (us.count(False), len(us), showv(v)[:200]))
        return None
    cx.ob("%s has %d bits" % (what, nbits), len(us) == nbits, at, str(len(us)))
    cx.ob("no generator bit is used twice in %s" % what, len(set(us)) == len(us), at, "%d distinct of %d" % (len(set(us)), len(us)))
    return set(k for k, j in us)


def c08(cx):
    # the client random
    hs, I = paths(cx)
    if I is not None:
        at = CL + "new"
        n = 0
        for h in hs:
            enter(h.st)
            ds = draws(h.st)
            for e in ds:
                g = is_gen(I, h.st, e[5])
                if g is not True:
                    cx.ob("random numbers come from the generator handed to the connection", g, at, showv(e[5])[:100])
            r = h.random(h.ch)
            if h.ch is not None:
                n += 1
                if r is None:
                    cx.und("the client random is locatable", at)
                    continue
                check_random(cx, I, h.st, "the client random", r, 256, at)
            if h.kex is not None:
                g = is_gen(I, h.st, h.kex[3])
                cx.ob("the key exchange gets the connection's generator", g, at, showv(h.kex[3])[:100])
        if not n:
            cx.absent(I, "a ClientHello is sent", at)
    # the private scalar
    for mode in ("rule", "sample"):
        r = run_kex_c08(cx, mode)
        if r is None:
            return
        I, b, s, outs = r
        at = b.path
        n = 0
        open_ = False
        for o in outs:
            enter(o.st)
            evs = o.st.events()
            ds = draws(o.st)
            for e in ds:
                g = is_gen(I, o.st, e[5])
                if g is not True:
                    cx.ob("random numbers come from the generator handed to the key exchange", g, at, showv(e[5])[:100])
            muls = [e for e in evs if e[0] == "ec" and e[1] == "mul"]
            if not muls:
                continue
            n += 1
            for x in {e[2][1].vid: e[2][1] for e in muls}.values():
                ks = check_random(cx, I, o.st, "the private scalar", x, 256, at)
                if ks is None:
                    continue
                order = [e[1] for e in ds]
                tail = order[len(order) - len(ks):]
                cx.ob("a rejected candidate is redrawn completely", set(tail) == ks, at, "draws %s of %s" % (sorted(ks), order))
                if mode == "rule":
                    d = decide(o.st, ltp(x))
                    if d is None:
                        open_ = True
                    else:
                        cx.ob("only a candidate below the bound is used", d, at, facts(o.st)[-300:])
                else:
                    bound_by_samples(cx, I, o.st, x, at)
        if not n:
            cx.absent(I, "a scalar is used", at)
        if not open_:
            break


def ltp(x):
    """the candidate is below the prime"""
    return F(("free", "below"), (x,), 1, 0, 1)


def c_reduce(I, st, cal, args, blk, span):
    enter(st)
    c = args[1] if len(args) > 1 else None
    if c is not None:
        while isinstance(c, Val) and c.cls == "agg" and len(c.kids) == 1:
            c = c.kids[0]
        if not isinstance(c, T) or c.op != "c" or c.a != 0:
            return None
    x = canon(I, st, args[0])
    return funval(I, MD.retty(I, cal, blk), "reduced", [x])


def c_cmp(I, st, cal, args, blk, span):
    """x is equal to its reduction exactly if it is below the prime (K04)"""
    enter(st)
    a, b = canon(I, st, args[0]), canon(I, st, args[1])
    for x, y in ((a, b), (b, a)):
        if y is canon(I, st, funval(I, x.shape[0], "reduced", [x])):
            t = I.ty(MD.retty(I, cal, blk))
            return Agg(MD.retty(I, cal, blk), 0, [cast(xor(ltp(x), TRUE_()), 32)])
    return None


def TRUE_():
    return C(1, 1)


BOUNDC = {IT + "reduce_once": c_reduce, IT + "reduce_once_zero": c_reduce, IT + "compare": c_cmp}


def run_kex_c08(cx, mode):
    extra = BOUNDC if mode == "rule" else {}
    return run_kex(cx, extra)


def limbs(x):
    s = x
    while isinstance(s, Val) and s.cls == "agg" and len(s.kids) == 1:
        s = s.kids[0]
    if not isinstance(s, Val) or s.cls != "seq":
        return None
    out = []
    for i in range(8):
        v = seq_get(s, U64(i))
        while isinstance(v, Val) and v.cls == "agg" and len(v.kids) == 1:
            v = v.kids[0]
        out.append(v)
    return out


def bound_by_samples(cx, I, st, x, at):
    """the conditions of the path, evaluated at the edges of the bound"""
    ls = limbs(x)
    ids = set(l.id for l in ls) if ls else set()
    if ls is None or any(l.op != "v" for l in ls):
        cx.und("only a candidate below the bound is used", at)
        return
    fs = []
    for k, v in list(st.truth.items()):
        t = byid(k[0]) if isinstance(k, tuple) else byid(k)
        if support(t) & ids and not (support(t) - ids):
            fs.append((t, k[1] if isinstance(k, tuple) else None, v))
    bad = None
    for val in (PRIME, PRIME + 1, (1 << 256) - 1, PRIME + (1 << 224) - 7, PRIME | (1 << 223), PRIME + 0x1234567):
        s = rnd.Sample(None, 3)
        for i, l in enumerate(ls):
            s.pins[l.id] = val >> (32 * i) & 0xffffffff
        try:
            if all(((s.t(t) if j is None else s.t(t) >> j & 1) != 0) == bool(v) for t, j, v in fs):
                bad = val
                break
        except rnd.Unknown:
            bad = None
            cx.und("only a candidate below the bound is used", at)
            return
    if bad is not None:
        cx.viol("only a candidate below the bound is used", at, "the conditions of the path admit the candidate %x" % bad)
    else:
        cx.und("only a candidate below the bound is used", at, "the conditions exclude every candidate tried at the bound")
