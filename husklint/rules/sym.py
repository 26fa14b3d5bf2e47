"""K01-K03, A01-A03: hash, stream cipher, authenticator, AEAD and PRF against their standards.

The functions are interpreted over symbolic bytes and compared with reference terms built from the same algebra, so
that any order of evaluation with the same value is accepted."""
from rules.lib import *
from rules.record import ret_outs, bytearg

CC = "crypto::chacha20::ChaCha20::"


def symbytes(name, n):
    return srcslice(Src((name,), (), ("int", 8)), U64(0), U64(n))


def symarr(name, n):
    s = Src((name,), (), ("int", 8))
    return explicit([src_elem(s, U64(i)) for i in range(n)])


def words_le(s, n):
    return [frombytes_le([seq_get(s, U64(4 * i + j)) for j in range(4)]) for i in range(n)]


def words_be(s, n, at=0):
    return [frombytes_le([seq_get(s, U64(at + 4 * i + j)) for j in range(4)][::-1]) for i in range(n)]


def slice_ptr(I, st, s, ty):
    """a reference to these bytes"""
    return Ptr(I.alloc(st, s))


def one_ok(cx, I, outs, b):
    """the only ordinary outcome"""
    if outs is None:
        return None
    stuck_outs(cx, I, outs, b)
    check_panics(cx, I, "%s returns for every input" % b.path)
    r = ret_outs(outs)
    if len(r) != 1:
        cx.und("%s has one outcome" % b.path, b.path, "%d" % len(r))
        return None
    enter(r[0].st)
    return r[0]


# ---------------------------------------------------------------- ChaCha20
def chacha_block(key, nonce, ctr):
    """RFC 7539 2.3: key 8 words, nonce 3 words, counter"""
    st = [C(x, 32) for x in (0x61707865, 0x3320646e, 0x79622d32, 0x6b206574)] + list(key) + [ctr] + list(nonce)
    v = list(st)

    def q(a, b, c, d):
        v[a] = add(v[a], v[b]); v[d] = rotl(xor(v[d], v[a]), 16)
        v[c] = add(v[c], v[d]); v[b] = rotl(xor(v[b], v[c]), 12)
        v[a] = add(v[a], v[b]); v[d] = rotl(xor(v[d], v[a]), 8)
        v[c] = add(v[c], v[d]); v[b] = rotl(xor(v[b], v[c]), 7)
    for i in range(10):
        q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15)
        q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14)
    out = []
    for a, b in zip(v, st):
        out += tobytes_le(add(a, b))
    return out


def leaves(v, path=()):
    if isinstance(v, T):
        yield path, v
        return
    if v.cls == "seq":
        for i, p in enumerate(pieces(v)):
            if p[0] != "e":
                yield path + (i,), v
                return
        for i, x in enumerate([x for p in pieces(v) for x in p[1]]):
            yield from leaves(x, path + (i,))
        return
    if not v.kids:
        yield path, v
    for i, k in enumerate(v.kids):
        yield from leaves(k, path + (i,))


def replace(v, path, x):
    if not path:
        return x
    if v.cls == "seq":
        xs = [y for p in pieces(v) for y in p[1]]
        xs[path[0]] = replace(xs[path[0]], path[1:], x)
        return explicit(xs)
    ks = list(v.kids)
    ks[path[0]] = replace(ks[path[0]], path[1:], x)
    return rebuild(v, ks)


def chacha_state(cx):
    """(state with a symbolic block counter, counter symbol, its path, key words, nonce words, state type)"""
    bn = body(cx, CC + "new")
    bx = body(cx, CC + "next")
    if bn is None or bx is None:
        return None
    I = cx.new()
    st = State()
    enter(st)
    key, nonce = symarr("key", 32), symarr("nonce", 12)
    I, outs = run(cx, bn, [slice_ptr(I, st, key, None), slice_ptr(I, st, nonce, None)], I, st)
    o = one_ok(cx, I, outs, bn)
    if o is None:
        return None
    S0 = o.val
    kw, nw = words_le(key, 8), words_le(nonce, 3)
    r = chacha_next(cx, bx, S0)
    if r is None:
        return None
    blk, S1 = r
    cx.count("keystream_bytes", 64)
    cmpseq(cx, "the first block of the keystream has counter 0", blk, explicit(chacha_block(kw, nw, C(0, 32))), bx.path)
    d = [(p, x, y) for (p, x), (q, y) in zip(leaves(S0), leaves(S1)) if x is not y]
    if len(d) != 1 or not isinstance(d[0][1], T):
        cx.ob("the block counter advances", False if not d else None, bx.path, "%d parts of the state change" % len(d))
        return None
    p, x, y = d[0]
    ctr = V(("ctr",), x.w, 0, (1 << 32) - 2)
    S = replace(S0, p, ctr)
    r = chacha_next(cx, bx, S)
    if r is None:
        return None
    blk, S2 = r
    cmpseq(cx, "every block is the ChaCha20 block function of key, nonce and counter", blk, explicit(chacha_block(kw, nw, cast(ctr, 32))), bx.path)
    want = replace(S0, p, add(ctr, C(1, x.w)))
    cx.ob("the counter advances by one per block", S2 is want, bx.path, "counter becomes %s" % [show(v)[:80] for q, v in leaves(S2) if q == p])
    return S, ctr, p, kw, nw


def chacha_next(cx, bx, S):
    I = cx.new()
    st = State()
    enter(st)
    l = I.alloc(st, S)
    I, outs = run(cx, bx, [Ptr(l)], I, st)
    if outs is not None and any(o.kind == "panic" for o in outs):
        # the counter overflow test
        outs = [o for o in outs if o.kind != "panic"]
    o = one_ok(cx, I, outs, bx)
    if o is None:
        return None
    return I.asseq(o.val), I.memget(o.st, l)


def cmpseq(cx, name, got, want, at):
    r = None
    if got is want:
        r = True
    else:
        a, b = seq_all(got), seq_all(want)
        if a is not None and b is not None:
            if len(a) != len(b):
                r = False
            else:
                bad = [i for i in range(len(a)) if not TT.same(a[i], b[i])]
                r = True if not bad else differ(a[bad[0]], b[bad[0]])
    cx.ob(name, r, at, "" if r else "found %s, specified %s" % (showv(got)[:200], showv(want)[:200]))
    return r


def seq_all(s):
    out = []
    for p in pieces(s):
        if p[0] != "e":
            return None
        out += p[1]
    return out


def differ(a, b):
    """two terms that are not the same normal form: False if they take different values"""
    st = State()
    enter(st)
    try:
        w = rnd.differs(st, a, b)
    except rnd.Unknown:
        w = None
    return False if w not in (None, False) else None


def k02(cx):
    r = chacha_state(cx)
    if r is None:
        return
    S, ctr, p, kw, nw = r
    b = body(cx, CC + "encrypt")
    if b is None:
        return
    I = cx.new()
    st = State()
    enter(st)
    l = I.alloc(st, S)

    def c_next(I, st, cal, args, blk, span):
        enter(st)
        v = I.loadp(st, args[0])
        c = dict(leaves(v)).get(p)
        if c is None or replace(v, p, ctr) is not S:
            return None
        I.storep(st, args[0], replace(v, p, add(c, C(1, c.w))))
        return [Out("ret", st, srcslice(Src(("block",), (cast(c, 32),), ("int", 8)), U64(0), U64(64)))]
    I.contracts[CC + "next"] = c_next
    dp, d = bytearg(I, st, "data", 1 << 36)
    I, outs = run(cx, b, [Ptr(l), dp], I, st)
    if outs is None:
        return
    stuck_outs(cx, I, outs, b)
    check_panics(cx, I, "%s returns for every input" % b.path)
    n = 0
    for o in ret_outs(outs):
        enter(o.st)
        n += 1
        k = V(("k", "bound"), 64)
        blk = Src(("block",), (add(cast(ctr, 32), cast(udiv(k, U64(64)), 32)),), ("int", 8))
        want = Seq([("l", Lam(k, xor(src_elem(blk, urem(k, U64(64))), src_elem(pieces(d)[0][1], k))), U64(0), seq_len(d))])
        got = I.asseq(o.val)
        check_same(cx, I, o.st, "as many bytes are returned as given", seq_len(got), seq_len(d), b.path)
        check_same(cx, I, o.st, "the data is xored with the keystream", got, want, b.path)
        v = I.memget(o.st, l)
        c = dict(leaves(v)).get(p)
        if c is None:
            cx.und("each piece of up to 64 bytes uses one block", b.path)
            continue
        # the counter: 64 times the blocks used covers the data, one block less would not
        used = sub(c, ctr)
        if used.op == "s" and used.a[1] == 0 and used.a[0].w == 64:
            used = used.a[0]
        used = zext(used, 64)
        check_implies(cx, o.st, "each piece of up to 64 bytes uses one block", [not_(ult(mul(used, U64(64)), seq_len(d)))], b.path)
        check_implies(cx, o.st, "no block is skipped", [ult(mul(used, U64(64)), add(seq_len(d), U64(64)))], b.path)
    if not n:
        cx.absent(I, "data can be encrypted", b.path)


# ---------------------------------------------------------------- SHA-256
def _primes(n):
    out, x = [], 2
    while len(out) < n:
        if all(x % p for p in out):
            out.append(x)
        x += 1
    return out


def _root(x, k, bits):
    """floor(x^(1/k) * 2^bits)"""
    n = x << (k * bits)
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


SHA_K = [_root(p, 3, 32) & 0xffffffff for p in _primes(64)]
SHA_IV = [_root(p, 2, 32) & 0xffffffff for p in _primes(8)]


def sha_compress(h, w):
    """FIPS 180-4 6.2.2"""
    w = list(w)
    for j in range(16, 64):
        s0 = xor(xor(rotl(w[j - 15], 25), rotl(w[j - 15], 14)), shr(w[j - 15], 3))
        s1 = xor(xor(rotl(w[j - 2], 15), rotl(w[j - 2], 13)), shr(w[j - 2], 10))
        w.append(add(add(add(s1, w[j - 7]), s0), w[j - 16]))
    a, b, c, d, e, f, g, hh = h
    ones = C(0xffffffff, 32)
    for j in range(64):
        S1 = xor(xor(rotl(e, 26), rotl(e, 21)), rotl(e, 7))
        ch = xor(and_(e, f), and_(xor(e, ones), g))
        t1 = add(add(add(add(hh, S1), ch), C(SHA_K[j], 32)), w[j])
        S0 = xor(xor(rotl(a, 30), rotl(a, 19)), rotl(a, 10))
        maj = xor(xor(and_(a, b), and_(a, c)), and_(b, c))
        t2 = add(S0, maj)
        hh, g, f, e, d, c, b, a = g, f, e, add(d, t1), c, b, a, add(t1, t2)
    return [add(x, y) for x, y in zip(h, (a, b, c, d, e, f, g, hh))]


def at_terms(t, out, seen):
    """element reads a term depends on: {sequence id: (sequence, {index id: index})}"""
    for i in support(t) | {t.id}:
        if not isinstance(i, int) or i in seen:
            continue
        seen.add(i)
        x = byid(i)
        if x.op == "f" and x.a[0] in ("at", "elem") and isinstance(x.a[1], Val):
            out.setdefault(x.a[1].vid, (x.a[1], {}))[1][x.a[2].id] = x.a[2]
    return out


def k01(cx):
    b = body(cx, "crypto::sha2::sha256")
    if b is None:
        return
    I = cx.new()
    st = State()
    enter(st)
    p, msg = bytearg(I, st, "msg", 1 << 40)
    I, outs = run(cx, b, [p], I, st)
    o = one_ok(cx, I, outs, b)
    if o is None:
        return
    r = I.asseq(o.val)
    cx.ob("the digest has 32 bytes", same(seq_len(r), U64(32)), b.path)
    ws = words_be(r, 8)
    lp = None
    for l in I.loops:
        ids = {l.leaves[k][1].id: k for k in l.leaves if isinstance(l.leaves[k][1], T)}
        if all(w.id in ids for w in ws):
            lp, keys = l, [ids[w.id] for w in ws]
    if lp is None:
        cx.und("the digest is the chaining value after the last block", b.path, showv(o.val)[:200])
        return
    cx.count("chaining_words", 8)
    enter(o.st)
    for i, k in enumerate(keys):
        check_same(cx, I, o.st, "the chaining value starts at the initial hash value", lp.leaves[k][0], C(SHA_IV[i], 32), b.path)
    # the message as the loop reads it
    M = base = None
    for bk in lp.backs:
        reads = {}
        for k in keys:
            at_terms(lp.back(bk, k), reads, set())
        for vid, (sq, idx) in reads.items():
            if len(idx) != 64 or sq.cls == "tab":
                continue
            for x in idx.values():
                if all(add(x, U64(j)).id in idx for j in range(64)):
                    M, base = sq, x
    if M is None:
        cx.und("every block is read completely", b.path)
        return
    padded(cx, I, o, b, M if M.cls == "seq" else Seq([("s", M, U64(0), add(seq_len(msg), U64(0)))]), msg)
    ms = {m: i for m, i in lp.prim.items()}
    piv = [i for i in support(base) if i in ms]
    if len(piv) != 1:
        cx.und("blocks are taken in order", b.path, show(base))
        return
    pt = byid(piv[0])
    enter(o.st)
    check_same(cx, I, o.st, "the first block starts the message", VSubst({pt.id: ms[pt.id]})(base), U64(0), b.path)
    for bk in lp.backs:
        enter(bk)
        words = words_be(Seq([("s", M, base, U64(64))]) if M.cls != "seq" else explicit([seq_get(M, add(base, U64(j))) for j in range(64)]), 16)
        want = sha_compress(ws, words)
        for k, w in zip(keys, want):
            check_same(cx, I, bk, "each block is compressed into the chaining value", lp.back(bk, k), w, b.path, True)
        lf = [k for k in lp.leaves if lp.leaves[k][1] is pt]
        nxt = lp.back(bk, lf[0]) if lf else None
        if nxt is None:
            cx.und("blocks are taken in order", b.path)
        else:
            check_same(cx, I, bk, "blocks are taken in order", VSubst({pt.id: nxt})(base), add(base, U64(64)), b.path, True)
    enter(o.st)
    pins = {}
    for n in o.st.notes:
        if n[0] == "pinned" and n[1] == lp.lid:
            pins.update(dict(n[2]))
    end = VSubst(pins)(base) if pt.id in pins else base
    n = seq_len(M) if M.cls == "seq" else seq_len(msg)
    r = True if same(end, n) else decide(o.st, eq(end, n), 3)
    cx.ob("all blocks are hashed", r if r is not None else None, b.path, "ends at %s of %s" % (show(end)[:120], show(n)[:120]))


def padded(cx, I, o, b, M, msg):
    enter(o.st)
    n = seq_len(msg)
    zeros = and_(sub(U64(55), n), U64(63))
    want = Seq(pieces(msg) + pieces(explicit([U8(0x80)])) + [("r", U8(0), zeros)] + pieces(explicit(be_bytes(mul(n, U64(8))))))
    check_same(cx, I, o.st, "the message is padded with 0x80, zeros and its bit length", M, want, b.path)


# ---------------------------------------------------------------- HMAC and PRF
def hash_contract(name, n):
    """the function as an uninterpreted one of its byte arguments"""
    def c(I, st, cal, args, blk, span):
        enter(st)
        a = tuple(MD.seqof(I, st, x) for x in args)
        return [Out("ret", st, srcslice(Src((name,), a, ("int", 8)), U64(0), U64(n)))]
    return c


SHA = {"crypto::sha2::sha256": hash_contract("sha256", 32)}
HMAC = {"cipher::prf::hmac_sha256": hash_contract("hmac", 32)}


def h_(name, *args):
    return srcslice(Src((name,), args, ("int", 8)), U64(0), U64(32))


def xored(s, n, byte):
    """the first n elements xored with a byte"""
    p = pieces(s)
    k = V(("k", "bound"), 64)
    return Seq([("l", Lam(k, xor(src_elem(p[0][1], add(p[0][2], k)), U8(byte))), U64(0), n)])


def a03(cx):
    b = body(cx, "cipher::prf::hmac_sha256")
    if b is not None:
        I = cx.new()
        I.contracts.update(SHA)
        st = State()
        enter(st)
        kp, key = bytearg(I, st, "key", 1 << 32)
        mp, msg = bytearg(I, st, "msg", 1 << 32)
        I, outs = run(cx, b, [kp, mp], I, st)
        if outs is not None:
            stuck_outs(cx, I, outs, b)
            check_panics(cx, I, "%s returns for every input" % b.path)
            n = 0
            for o in ret_outs(outs):
                enter(o.st)
                n += 1
                klen = seq_len(key)
                for long in (False, True):
                    # a path both kinds of key can take is judged for each
                    s2 = o.st.copy()
                    if not assume(s2, ult(U64(64), klen), long):
                        continue
                    enter(s2)
                    cx.count("key_classes")
                    if long:
                        hk = h_("sha256", key)
                        ip = explicit([xor(x, U8(0x36)) for x in seq_all(hk)] + [U8(0x36)] * 32)
                        op = explicit([xor(x, U8(0x5c)) for x in seq_all(hk)] + [U8(0x5c)] * 32)
                    else:
                        ip = seq_cat(xored(key, klen, 0x36), Seq([("r", U8(0x36), sub(U64(64), klen))]))
                        op = seq_cat(xored(key, klen, 0x5c), Seq([("r", U8(0x5c), sub(U64(64), klen))]))
                    want = h_("sha256", seq_cat(op, h_("sha256", seq_cat(ip, msg))))
                    check_same(cx, I, s2, "HMAC of a %s key" % ("long" if long else "short"), I.asseq(o.val), want, b.path)
            if not n:
                cx.absent(I, "HMAC can be computed", b.path)


    prf(cx)


PRF = "cipher::prf::Prf::"


def hmac(key, msg):
    return h_("hmac", key, msg)


def prf_self(I, P, ty, vals):
    """a generator with these fields (vec or array as declared)"""
    t = I.ty(ty)
    ks = []
    for f in t["variants"][0]["fields"]:
        s = vals[f["name"]]
        ks.append(s if I.ty(f["ty"])["k"] == "array" else Vec(s, P.tid("u8")))
    return Agg(ty, 0, ks)


def prf(cx):
    bn, bg = body(cx, PRF + "new"), body(cx, PRF + "get_bytes")
    if bn is None or bg is None:
        return
    I = cx.new()
    I.contracts.update(HMAC)
    st = State()
    enter(st)
    u8 = cx.P.tid("u8")
    sec, sec_l = msgarg("secret")
    seed, seed_l = msgarg("seed")
    I, outs = run(cx, bn, [Vec(sec, u8), Vec(seed, u8)], I, st)
    o = one_ok(cx, I, outs, bn)
    if o is None:
        return
    if cx.peel:
        prf_history(cx, I, o, bg, sec, seed)
        return
    ty = o.val.shape[0]
    g = gen_parts(I, o.val)
    if g is None:
        cx.und("the generator consists of secret, seed, chaining value and left-over bytes", bn.path)
        return
    check_same(cx, I, o.st, "the generator keeps the secret", g["secret"], sec, bn.path)
    check_same(cx, I, o.st, "the generator keeps the seed", g["seed"], seed, bn.path)
    check_same(cx, I, o.st, "nothing is left over at first", seq_len(g["buf"]), U64(0), bn.path)
    lazy = vsame(I, o.st, g["a"], seed) is True
    eager = vsame(I, o.st, g["a"], hmac(sec, seed)) is True
    if not lazy and not eager:
        cx.und("the chaining value starts at A(1)", bn.path, showv(g["a"])[:200])
        return
    cx.ob("the chaining value starts at A(1)", True, bn.path)
    cx.count("generator_fields", 4)
    # any later state: the output to come is the left-over bytes and the stream from the chaining value
    I = cx.new()
    I.contracts.update(HMAC)
    st = State()
    enter(st)
    a, buf = (msgarg("a")[0] if lazy else symarr("a", 32)), srcslice(Src(("buf",), (), ("int", 8)), U64(0), V(("buf", "len"), 64, 0, 64))
    S0 = prf_self(I, cx.P, ty, {"secret": sec, "seed": seed, "a": a, "buf": buf})
    l = I.alloc(st, S0)
    size = V(("size",), 64, 0, 1 << 40)
    I, outs = run(cx, bg, [Ptr(l), size], I, st)
    if outs is None:
        return
    stuck_outs(cx, I, outs, bg)
    check_panics(cx, I, "%s returns for every length" % bg.path, [ult(seq_len(buf), U64(32))])
    heads = [(explicit([]), S0)]
    for lp in I.loops:
        rk = [k for k, v in lp.leaves.items() if isinstance(v[0], Val) and k[0] != l]
        if len(rk) != 1:
            cx.und("the output of the loop is one sequence", bg.path, str(rk)[:200])
            continue
        S1 = I.memget(lp.start, l)
        i1 = S1
        for k, (x, y) in lp.leaves.items():
            if k[0] == l:
                i1 = replace(i1, k[1], x)
        prf_step(cx, I, lp.start, bg, "a request goes on with the stream", heads[:1], lp.leaves[rk[0]][0], i1, lazy)
        heads.append((lp.leaves[rk[0]][1], S1))
        for bk in lp.backs:
            enter(bk)
            prf_step(cx, I, bk, bg, "each further block continues the stream", heads[-1:], lp.back(bk, rk[0]), I.memget(bk, l), lazy)
    n = 0
    for o in ret_outs(outs):
        enter(o.st)
        n += 1
        R = MD.seqof(I, o.st, o.val)
        check_same(cx, I, o.st, "a request returns as many bytes as asked for", seq_len(R), size, bg.path)
        prf_step(cx, I, o.st, bg, "the output of a request continues the stream", heads, R, I.memget(o.st, l), lazy)
    if not n:
        cx.absent(I, "output can be requested", bg.path)


def msgarg(name, most=1 << 32):
    n = V((name, "len"), 64, 0, most)
    return srcslice(Src((name,), (), ("int", 8)), U64(0), n), n


def gen_parts(I, v):
    out = {}
    for n in ("secret", "seed", "a", "buf"):
        try:
            out[n] = MDseq(field(I, v, n))
        except KeyError:
            return None
    return out


def prf_step(cx, I, st, b, name, heads, R, S, lazy):
    """output so far and output to come are together what they were at one of the earlier points"""
    enter(st)
    det = ""
    for R0, S0 in heads:
        g0, g1 = gen_parts(I, S0), gen_parts(I, S)
        if g0 is None or g1 is None:
            break
        if not all(vsame(I, st, g0[x], g1[x]) is True for x in ("secret", "seed")):
            continue
        pins = {}
        for n in st.notes:
            if n[0] == "pinned":
                pins.update(dict(n[2]))
        sub_ = (lambda x, f=VSubst(pins): vsubst(x, f))
        g0 = {k: sub_(v) for k, v in g0.items()}
        want, a = seq_cat(sub_(R0), g0["buf"]), g0["a"]
        got = seq_cat(R, g1["buf"])
        for k in range(4):
            if seqsame(st, a, g1["a"]):
                if seq_nf(st, got, want):
                    # the bound assumed of what is left over
                    if implies(st, [ult(seq_len(g1["buf"]), U64(65))]) is True:
                        cx.ob(name, True, b.path)
                    else:
                        cx.und(name, b.path, "more than two blocks left over")
                    return
                det = "output %s, stream %s" % (showv(got)[:300], showv(want)[:300])
            nxt = hmac(g0["secret"], a)
            want = seq_cat(want, hmac(g0["secret"], seq_cat(nxt if lazy else a, g0["seed"])))
            a = nxt
    cx.und(name, b.path, det)


def seqsame(st, a, b):
    return a is b or seq_nf(st, a, b)


def prf_history(cx, I, o0, bg, sec, seed):
    """three requests of up to 64 bytes each from a fresh generator, loops peeled: any deviation is definite"""
    st = o0.st
    enter(st)
    a, want = seed, explicit([])
    for i in range(7):
        a = hmac(sec, a)
        want = seq_cat(want, hmac(sec, seq_cat(a, seed)))
    l = I.alloc(st, o0.val)
    todo = [(st, explicit([]), 0)]
    while todo:
        st, R, i = todo.pop()
        if i == 3:
            continue
        size = V(("size", i), 64, 0, 64)
        enter(st)
        try:
            outs = I.call_body(st, bg, [Ptr(l), size])
        except (Stuck, Undecided, RecursionError):
            continue
        for o in ret_outs(outs):
            enter(o.st)
            got = MD.seqof(I, o.st, o.val)
            r = check_same(cx, I, o.st, "a request returns as many bytes as asked for", seq_len(got), size, bg.path)
            R2 = seq_cat(R, got)
            if r is not False:
                r = check_same(cx, I, o.st, "the output of %d requests is the stream" % (i + 1), R2, seq_slice(want, U64(0), seq_len(R2)), bg.path)
            if r is not False:
                todo.append((o.st, R2, i + 1))
    cx.done(I)
