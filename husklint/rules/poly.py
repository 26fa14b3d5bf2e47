"""K03: Poly1305, as integers modulo 2^130-5."""
import random
from rules.lib import *
from rules.sym import *
import zpoly
from zpoly import Z, litsubst, lits, word
from rnd import Sample, Unknown
import os
import time
import term as TT
DEBUG = bool(os.environ.get("HUSKLINT_DEBUG"))

P130 = (1 << 130) - 5
CLAMP = [255, 255, 255, 15, 252, 255, 255, 15, 252, 255, 255, 15, 252, 255, 255, 15]


# ---------------------------------------------------------------- reference and evaluation of summaries
def poly1305(msg, r, s):
    R = int.from_bytes(bytes(x & m for x, m in zip(r, CLAMP)), "little")
    h = 0
    for i in range(0, len(msg), 16):
        h = (h + int.from_bytes(msg[i:i + 16] + b"\x01", "little")) * R % P130
    return ((h + int.from_bytes(s, "little")) % (1 << 128)).to_bytes(16, "little")


class At(Sample):
    """the value of terms for given inputs: names of byte strings, numbers by symbol"""
    def __init__(self, st, data, nums):
        super().__init__(st, 0)
        self.data, self.nums = data, nums

    def cong(self, t, key):
        if key[0] == "elem" and isinstance(key[1], tuple) and key[1][0][0] in self.data and not key[1][1]:
            d = self.data[key[1][0][0]]
            if key[2] < len(d):
                return d[key[2]]
            raise Unknown("beyond the data")
        raise Unknown("unknown symbol")

    def _t(self, x):
        if x.op == "v":
            if x.id in self.nums:
                return self.nums[x.id]
            raise Unknown(str(x.a))
        return super()._t(x)


def simulate(loops, outs, data, nums, result, limit=40):
    """the result of the function on given inputs, from its summary with at most one loop"""
    cur = dict(nums)
    if loops:
        lp = loops[0]
        s = At(None, data, cur)
        vals = {}
        for lf, (i, mu) in lp.leaves.items():
            if isinstance(mu, T) and mu.op == "v":
                vals[mu.id] = s.t(i)
        for mid, i in lp.prim.items():
            vals[mid] = s.t(i)
        cur.update(vals)
        for _ in range(limit):
            hit = []
            for bk in lp.backs:
                s = At(bk, data, cur)
                if s.consistent():
                    hit.append((bk, s))
            if not hit:
                break
            if len(hit) > 1:
                raise Unknown("two ways on")
            bk, s = hit[0]
            nxt = {}
            for lf, (i, mu) in lp.leaves.items():
                if isinstance(mu, T) and mu.op == "v":
                    nxt[mu.id] = s.t(lp.back(bk, lf))
            if not set(lp.prim) <= set(nxt):
                raise Unknown("hidden counter")
            cur.update(nxt)
        else:
            raise Unknown("does not end")
    hit = []
    for o in outs:
        s = At(o.st, data, cur)
        if s.consistent():
            hit.append((o, s))
    if len(hit) != 1:
        raise Unknown("%d outcomes" % len(hit))
    o, s = hit[0]
    return [s.t(x) for x in result(o)]


def inputs():
    """messages and keys that steer the accumulator to chosen values"""
    rnd = random.Random(3)
    le = lambda x: list(x.to_bytes(16, "little"))
    one = le(1)
    zero = [0] * 16
    s0 = [rnd.randrange(256) for _ in range(16)]
    big = [255] * 16
    for n in (0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 64):
        for k in range(3):
            yield [rnd.randrange(256) for _ in range(n)], [rnd.randrange(256) for _ in range(16)], [rnd.randrange(256) for _ in range(16)]
        yield [255] * n, big, big
        yield [0] * n, big, big
    # values a little above 2^130 left over by a block: the second limb too big, the upper ones full
    for d in range(8):
        for h0 in list(range(6)) + [(1 << 26) - k for k in range(1, 7)]:
            w = (1 << 130) + (d << 26) + h0
            for _ in range(8):
                r = [rnd.randrange(256) for _ in range(16)]
                R = int.from_bytes(bytes(x & m for x, m in zip(r, CLAMP)), "little")
                m = w * pow(R, -1, P130) % P130 - (1 << 128)
                if 0 <= m < 1 << 128:
                    yield le(m), r, big if d % 2 else s0
    limb = [0, 1, 4, 5, (1 << 26) - 6, (1 << 26) - 5, (1 << 26) - 4, (1 << 26) - 1]
    want = [P130 + k for k in (-2, -1, 0, 1, 2, 3, 4, 5, 6)]
    for k in range(0, 130, 26):
        want += [(1 << k) - 1, 1 << k, P130 - (1 << k), (1 << 130) - (1 << k), (1 << 130) + (1 << k) - 6]
    for _ in range(400):
        x = 0
        for i in range(5):
            x |= (limb[rnd.randrange(len(limb))] if rnd.randrange(3) else rnd.randrange(1 << 26)) << 26 * i
        want.append(x)
    # r = 1: the accumulator is the sum of the blocks; every block brings at least 2^128
    for w in want:
        for base in (w, w + P130 if w < 1 << 60 else w, w + (1 << 130)):
            for n in (1, 2, 3, 4, 5):
                m = base - (n << 128)
                if not 0 <= m < n << 128:
                    continue
                msg = []
                for i in range(n):
                    x = min(m, (1 << 128) - 1)
                    m -= x
                    msg += le(x)
                yield msg, one, s0 if w % 2 else big
                break
    # other keys: the last block is solved for the value wanted
    for w in want:
        for _ in range(2):
            r = [rnd.randrange(256) for _ in range(16)] if rnd.randrange(3) else le(1 << rnd.choice((0, 1, 26, 27, 52, 78, 104, 106, 107, 119)))
            R = int.from_bytes(bytes(x & m for x, m in zip(r, CLAMP)), "little")
            if not R:
                continue
            for n in (1, 2, 3, 4):
                msg = [rnd.randrange(256) for _ in range(16 * (n - 1))]
                h = 0
                for i in range(0, len(msg), 16):
                    h = (h + int.from_bytes(bytes(msg[i:i + 16]) + b"\x01", "little")) * R % P130
                m = (w * pow(R, -1, P130) - h) % P130 - (1 << 128)
                if 0 <= m < 1 << 128:
                    yield msg + le(m), r, s0
                    break


# ---------------------------------------------------------------- proof
def coef_mod(P, p):
    return {m: c % p for m, c in P.items() if c % p}


def limb_cases(limbs):
    """cases of the limbs without a carry into a full limb: [({limb id: term}, description)]"""
    cap = (1 << 26) - 1
    out = []

    def fresh(x, lo, hi):
        k = (lo ^ hi).bit_length()
        top = lo >> k << k
        if lo == hi:
            return C(lo, x.w)
        return add(C(top, x.w), V(tuple(x.a) + ("case", lo, hi), x.w, lo - top, hi - top))

    def go(i, cin, env):
        if i == 5:
            out.append(dict(env))
            return
        x = limbs[i]
        lo, hi = rng(x)
        top = cap - cin
        if hi <= top:
            go(i + 1, 0, env)
            return
        env[x.id] = fresh(x, lo, min(hi, top))
        go(i + 1, 0, env)
        env[x.id] = fresh(x, max(lo, top + 1), hi)
        go(i + 1, 1, env)
        del env[x.id]
    # a carry into the first limb comes only from the top one
    go(1, 0, {})
    return out


def const_floor(zz, key, H, lo, hi):
    """floor symbol as a constant when H lies in [lo, hi]"""
    _, B, k = key
    B = dict(B)
    for j in range(0, 140):
        D = zz.sum((1 << j, B), (-1, H))
        l, h = zz.interval(D)
        if h - l >= 1 << 60 and l != h:
            continue
        a, b = (lo + l) >> (k + j), (hi + h) >> (k + j)
        if a == b:
            return a
    return None


def lit_value(zz, L, H, lo, hi):
    v = 0
    for m, c in L.items():
        if not m:
            v += c
            continue
        x = 1
        for i in m:
            if zz.keys[i][0] != "f":
                return None
            y = const_floor(zz, zz.keys[i], H, lo, hi)
            if y is None:
                return None
            x *= y
        v += c * x
    return v


def lift(zz, N, H0):
    """the polynomial with these coefficients modulo 2^128 that is congruent to H0"""
    out = {}
    for m in set(N) | set(H0):
        a, h = N.get(m, 0) % (1 << 128), H0.get(m, 0)
        for k in sorted(range(-40, 41), key=abs):
            c = a + (k << 128)
            if (c - h) % P130 == 0:
                if c:
                    out[m] = c
                break
        else:
            return None
    return out


def final_case(words, limbs, S):
    """None when the words are ((sum of limbs mod p) + s) mod 2^128, or what is not shown"""
    zz = Z()
    Hm = zz.number(limbs, 26)
    s = zz.number(S)
    cnt = {}
    for w in words:
        for k, v in lits(w).items():
            cnt[k] = cnt.get(k, 0) + v
    top = sorted(cnt.items(), key=lambda x: -x[1])
    lit = top[0][0] if top and top[0][1] >= 64 else None

    def num(ws):
        d = zz.sum((1, zz.number(ws, 32)), (-1, s))
        return coef_mod(d, 1 << 128)
    if lit is None:
        N = num(words)
        H = lift(zz, N, Hm)
        if H is None:
            return "the value before the pad is not congruent to the accumulator"
        l, h = zz.interval(H)
        return None if 0 <= l and h < P130 else "the value before the pad may exceed the prime: %x..%x" % (l, h)
    L = zz.lit(*lit)
    Ns = [num([litsubst(w, lit, v) for w in words]) for v in (0, 1)]
    why = "no reading of the selection"
    for keep in (0, 1):
        H = lift(zz, Ns[keep], Hm)
        if H is None:
            why = "the value before the pad is not congruent to the accumulator"
            continue
        l, h = zz.interval(H)
        if not (0 <= l and h < 2 * P130):
            why = "the accumulator may be negative or twice the prime: %x..%x" % (l, h)
            continue
        if lit_value(zz, L, H, l, min(h, P130 - 1)) != keep or (h >= P130 and lit_value(zz, L, H, P130, h) != 1 - keep):
            why = "the selection does not compare with the prime"
            continue
        if h >= P130 and coef_mod(zz.sum((1, Ns[1 - keep]), (-1, H), (P130, {(): 1})), 1 << 128):
            why = "the two alternatives do not differ by the prime"
            continue
        return None
    return why


def again(s):
    """slices of sequences taken anew, with the facts of the present path"""
    out = []
    for p in pieces(s):
        if p[0] == "s" and p[1].cls == "seq":
            for t in p[2:] + tuple(plen(q) for q in pieces(p[1])):
                if t.op == "p":
                    l, h = TT.ip_range(dict(t.a))
                    if l >= 0 and h < 1 << t.w:
                        TT.CTX[0].exact = TT.CTX[0].exact | {t.id}
            out += pieces(seq_slice(again(p[1]), p[2], p[3]))
        else:
            out.append(p)
    return Seq(out)


def prove(cx, I, outs, b, msg, n, r, s):
    """[] when everything is shown, or the names of what is not"""
    bad = []
    if len(I.loops) != 1:
        return ["one loop over the blocks"]
    lp = I.loops[0]
    rets = ret_outs(outs)
    limbs = []
    for lf, (i, mu) in lp.leaves.items():
        if isinstance(mu, T) and mu.op == "v" and mu.w == 32:
            ch = False
            for bk in lp.backs:
                enter(bk)
                ch = ch or lp.back(bk, lf) is not mu
            if ch:
                limbs.append((lp.names[lf], lf, i, mu))
    limbs.sort(key=lambda x: x[0])
    if len(limbs) != 5:
        return ["an accumulator of five limbs"]
    if not all(i.op == "c" and i.a == 0 for _, _, i, _ in limbs):
        bad.append("the accumulator starts at zero")
    mus = [x[3] for x in limbs]
    # blocks: where they are read
    base = None
    for bk in lp.backs:
        enter(bk)
        reads = {}
        for _, lf, _, _ in limbs:
            at_terms(lp.back(bk, lf), reads, set())
        for sq, idx in reads.values():
            if sq.cls == "src" and sq.shape[0] == ("msg",):
                for x in idx.values():
                    if all(add(x, U64(j)).id in idx for j in range(16)):
                        base = x
    if base is None:
        return bad + ["a block is read completely"]
    piv = [i for i in support(base) | {base.id} if i in lp.prim]
    if len(piv) != 1:
        return bad + ["blocks are taken in order"]
    pt = byid(piv[0])
    plf = [k for k in lp.leaves if lp.leaves[k][1] is pt]
    enter(lp.start if isinstance(lp.start, State) else rets[0].st)
    if not same(VSubst({pt.id: lp.prim[pt.id]})(base), U64(0)):
        bad.append("the first block starts the message")
    if not plf:
        return bad + ["blocks are taken in order"]
    clamped = [and_(seq_get(r, U64(i)), C(m, 8)) for i, m in enumerate(CLAMP)]
    nfull = 0
    for bk in lp.backs:
        enter(bk)
        rest = sub(n, base)
        inside = decide(bk, ult(base, n))
        part = decide(bk, ult(rest, U64(16)))
        if inside is not True or part is None:
            bad.append("whether a block is full is known")
            continue
        zz = Z()
        if part:
            want = Seq([("s", Src(("msg",), (), ("int", 8)), base, rest), ("e", (C(1, 8),)), ("r", C(0, 8), sub(U64(15), rest))])
            blk = None
            reads = {}
            for _, lf, _, _ in limbs:
                at_terms(lp.back(bk, lf), reads, set())
            for sq, _ in reads.values():
                if sq.cls == "seq" and same(seq_len(sq), U64(16)) and vsame(I, bk, again(sq), want, True):
                    blk = sq
            if blk is None:
                bad.append("a partial block is padded with 1 and zeros")
                continue
            M = zz.number([seq_get(blk, U64(j)) for j in range(16)])
        else:
            nfull += 1
            M = zz.number([src_elem(Src(("msg",), (), ("int", 8)), add(base, U64(j))) for j in range(16)])
            M = zz.sum((1, M), (1 << 128, {(): 1}))
        H = zz.number(mus, 26)
        H2 = zz.number([lp.back(bk, lf) for _, lf, _, _ in limbs], 26)
        R = zz.number(clamped)
        d = coef_mod(zz.sum((1, H2), (-1, zz.mul(zz.sum((1, H), (1, M)), R))), P130)
        cx.count("coefficients_compared", len(H2))
        if d:
            bad.append("a %s block multiplies accumulator and block by the clamped key" % ("partial" if part else "full"))
        nxt = VSubst({pt.id: lp.back(bk, plf[0])})(base)
        if not same(nxt, add(base, U64(16))):
            bad.append("blocks are taken in order")
    if not nfull:
        bad.append("full blocks are handled")
    for o in rets:
        enter(o.st)
        pins = {}
        for k in o.st.notes:
            if k[0] == "pinned" and k[1] == lp.lid:
                pins.update(dict(k[2]))
        end = VSubst(pins)(base) if pt.id in pins else base
        if decide(o.st, ult(end, n), 3) is not False:
            bad.append("all blocks are consumed")
        v = I.asseq(o.val)
        if not same(seq_len(v), U64(16)):
            bad.append("the tag has 16 bytes")
            continue
        by = [seq_get(v, U64(i)) for i in range(16)]
        ws = [word(by[4 * i:4 * i + 4]) for i in range(4)]
        if any(w is None for w in ws):
            bad.append("the tag consists of four words")
            continue
        S = [seq_get(s, U64(i)) for i in range(16)]
        reads = {}
        for w in ws:
            at_terms(w, reads, set())
        if any(sq.cls != "src" or sq.shape[0] == ("msg",) for sq, _ in reads.values()):
            bad.append("the tag depends on the accumulator only")
            continue
        for env in limb_cases(mus):
            f = VSubst(env)
            cx.count("final_cases")
            x = final_case([f(w) for w in ws], [f(m) for m in mus], S)
            if x is not None:
                bad.append("the tag is the accumulator modulo the prime plus s: %s" % x)
    return bad


def k03(cx):
    b = body(cx, "crypto::poly1305::authenticate")
    if b is None:
        return
    I = cx.new()
    I.ranges = (32,)
    st = State()
    enter(st)
    msg, n = msgarg("msg", 1 << 40)
    r, s = symarr("r", 16), symarr("s", 16)
    I, outs = run(cx, b, [slice_ptr(I, st, x, None) for x in (msg, r, s)], I, st)
    if outs is None:
        return
    stuck_outs(cx, I, outs, b)
    check_panics(cx, I, "%s returns for every input" % b.path)
    rets = ret_outs(outs)
    name = "the tag is Poly1305 of the message"
    if not rets:
        cx.absent(I, name, b.path)
        return
    bad = prove(cx, I, outs, b, msg, n, r, s)
    if not bad:
        cx.ob(name, True, b.path, "block step, order, reduction and pad")
        return
    if DEBUG:
        print("unproved:", bad)
    if len(I.loops) > 1:
        cx.und(name, b.path, "; ".join(bad)[:300])
        return
    tried = lost = 0
    why = ""
    t0 = time.time()
    for m, kr, ks in inputs():
        if time.time() - t0 > 100:
            break
        want = list(poly1305(bytes(m), kr, bytes(ks)))
        try:
            got = simulate(I.loops, rets, {"msg": m, "r": kr, "s": ks}, {n.id: len(m)}, lambda o: [seq_get(I.asseq(o.val), U64(i)) for i in range(16)])
        except Unknown as e:
            lost += 1
            why = "; summary cannot be evaluated: %s" % e
            if lost > 100 and not tried:
                break
            continue
        tried += 1
        if got != want:
            cx.ob(name, False, b.path, "%s; for a message of %d bytes %s, r=%s, s=%s the tag would be %s, not %s" % (
                bad[0], len(m), bytes(m).hex()[:160], bytes(kr).hex(), bytes(ks).hex(), bytes(got).hex(), bytes(want).hex()))
            return
    cx.und(name, b.path, "%s%s (%d inputs agree)" % ("; ".join(bad)[:300], why, tried))
