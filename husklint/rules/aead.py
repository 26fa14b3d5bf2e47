"""A01, A02: the AEAD construction, over an uninterpreted stream cipher and authenticator (decided by K02 and K03)."""
from rules.lib import *
from rules.record import ret_outs
from rules.sym import msgarg, one_ok, seq_all

CC = "crypto::chacha20::ChaCha20::"
AE = "cipher::chacha20_poly1305::"


def c_new(I, st, cal, args, blk, span):
    enter(st)
    return [Out("ret", st, mk("chacha", (), (MD.seqof(I, st, args[0]), MD.seqof(I, st, args[1]), C(0, 64))))]


def cipher(I, st, p):
    v = I.loadp(st, p)
    if v.cls != "chacha":
        raise Stuck("not a stream cipher made by ChaCha20::new")
    return v


def c_next(I, st, cal, args, blk, span):
    enter(st)
    k, n, c = cipher(I, st, args[0]).kids
    I.storep(st, args[0], mk("chacha", (), (k, n, add(c, U64(1)))))
    return [Out("ret", st, srcslice(Src(("block",), (k, n, c), ("int", 8)), U64(0), U64(64)))]


def c_encrypt(I, st, cal, args, blk, span):
    enter(st)
    k, n, c = cipher(I, st, args[0]).kids
    d = MD.seqof(I, st, args[1])
    ln = seq_len(d)
    I.storep(st, args[0], mk("chacha", (), (k, n, add(c, udiv(add(ln, U64(63)), U64(64))))))
    return [Out("ret", st, Vec(srcslice(Src(("stream",), (k, n, c, d), ("int", 8)), U64(0), ln), I.prog.tid("u8")))]


def c_mac(I, st, cal, args, blk, span):
    enter(st)
    m, r, s = (MD.seqof(I, st, x) for x in args)
    return [Out("ret", st, srcslice(Src(("poly1305",), (m, r, s), ("int", 8)), U64(0), U64(16)))]


PRIMS = {CC + "new": c_new, CC + "next": c_next, CC + "encrypt": c_encrypt, "crypto::poly1305::authenticate": c_mac}


def stream(k, n, c, d):
    return srcslice(Src(("stream",), (k, n, C(c, 64), d), ("int", 8)), U64(0), seq_len(d))


def onekey(k, n):
    b = Src(("block",), (k, n, C(0, 64)), ("int", 8))
    return srcslice(b, U64(0), U64(16)), srcslice(b, U64(16), U64(16))


def le64(t):
    return explicit(tobytes_le(t))


def pad16(s):
    n = and_(seq_len(s), U64(15))
    d = VV.DECIDE[0](eq(n, U64(0)))
    if d is True:
        return s
    return seq_cat(s, Seq([("r", U8(0), sub(U64(16), n) if d is False else and_(sub(U64(0), n), U64(15)))]))


def macdata(ad, ct):
    return seq_cat(seq_cat(pad16(ad), pad16(ct)), seq_cat(le64(seq_len(ad)), le64(seq_len(ct))))


def mac(k, n, ad, ct):
    r, s = onekey(k, n)
    return srcslice(Src(("poly1305",), (macdata(ad, ct), r, s), ("int", 8)), U64(0), U64(16))


def maker(cx, kind):
    bs = [b for n, l in cx.P.byname.items() for b in l if n.endswith("::new_" + kind) and "chacha20" in n.lower()]
    return bs[0] if len(bs) == 1 else None


def setup(cx, kind, meth):
    """the object the AEAD makes for a symbolic key, its method, and symbolic nonce, data and additional data"""
    mb = maker(cx, kind)
    if mb is None:
        cx.und("the AEAD makes its %s" % kind, AE, "no unique constructor")
        return None
    I = cx.new()
    I.contracts.update(PRIMS)
    st = State()
    enter(st)
    key = srcslice(Src(("key",), (), ("int", 8)), U64(0), U64(32))
    me = I.fresh(mb.locals[1], ("me",))
    I, outs = run(cx, mb, [me, Vec(key, cx.P.tid("u8"))], I, st)
    o = one_ok(cx, I, outs, mb)
    if o is None:
        return None
    d = o.val.shape[2] if o.val.cls == "box" else None
    m = None
    for (ty, tr), ms in cx.P.vt.items():
        if d is not None and ty == d[0]:
            for k, c in ms.items():
                if k.split("::")[-1] == meth and c.get("key") in cx.P.bodies:
                    m = cx.P.bodies[c["key"]]
    if m is None:
        cx.und("the AEAD makes its %s" % kind, mb.path, showv(o.val)[:100])
        return None
    st = o.st
    enter(st)
    nonce = srcslice(Src(("nonce",), (), ("int", 8)), U64(0), U64(12))
    data, _ = msgarg("data", 1 << 20)
    ad, _ = msgarg("ad", 1 << 20)
    I, outs = run(cx, m, [Ptr(o.val.shape[0])] + [Ptr(I.alloc(st, x)) for x in (nonce, data, ad)], I, st)
    if outs is None:
        return None
    stuck_outs(cx, I, outs, m)
    check_panics(cx, I, "%s returns for every input" % m.path)
    return I, outs, m, key, nonce, data, ad


def tagsrc(s):
    """the authenticator application in a tag"""
    s = MDseq(s)
    for p in pieces(s):
        if p[0] == "s" and p[1].cls == "src" and p[1].shape[0] == ("poly1305",):
            return p[1]
        if p[0] == "e":
            for x in p[1]:
                if isinstance(x, T) and x.op == "f" and x.a[0] == "elem" and x.a[1].cls == "src" and x.a[1].shape[0] == ("poly1305",):
                    return x.a[1]
    return None


def a02(cx):
    r = setup(cx, "encryptor", "encrypt")
    if r is not None:
        I, outs, m, key, nonce, data, ad = r
        n = 0
        for o in ret_outs(outs):
            enter(o.st)
            n += 1
            got = MD.seqof(I, o.st, o.val)
            ct = stream(key, nonce, 1, data)
            check_same(cx, I, o.st, "sealing adds 16 bytes", seq_len(got), add(seq_len(data), U64(16)), m.path)
            body_ = seq_slice(got, U64(0), seq_len(data))
            tag = seq_slice(got, seq_len(data), U64(16))
            check_same(cx, I, o.st, "the ciphertext is the stream cipher from block 1 over the data", body_, ct, m.path)
            tagged(cx, I, o.st, m, tag, key, nonce, ad, ct)
            cx.count("sealing_paths")
        if not n:
            cx.absent(I, "data can be sealed", m.path)
    r = setup(cx, "decryptor", "decrypt")
    if r is not None:
        I, outs, m, key, nonce, data, ad = r
        n = 0
        for o in ret_outs(outs):
            enter(o.st)
            ct = seq_slice(data, U64(0), sub(seq_len(data), U64(16)))
            if is_ok(I, o.val):
                n += 1
                got = MD.seqof(I, o.st, o.val.kids[0])
                check_same(cx, I, o.st, "opening returns the stream cipher from block 1 over the ciphertext", got, stream(key, nonce, 1, ct), m.path)
                cx.count("opening_paths")
            elif is_ok(I, o.val) is False:
                # a record whose tag is right is not rejected
                s = o.st.copy()
                ok = assume(s, ult(seq_len(data), U64(16)), False)
                if not ok:
                    continue
                enter(s)
                bad = tagused(o.st)
                if bad is not None:
                    at = sub(seq_len(data), U64(16))
                    f = VSubst({src_elem(bad, U64(j)).id: seq_get(data, add(at, U64(j))) for j in range(16)})
                    for k, v in o.st.truth.items():
                        if not isinstance(k, tuple):
                            d = decide(State(), f(byid(k)))
                            ok = ok and d in (None, v)
                    enter(s)
                if not ok:
                    cx.ob("a record with the right tag is opened", True, m.path)
                elif bad is not None and not mac_is(cx, I, o.st, m, bad, key, nonce, ad, ct):
                    pass
                else:
                    cx.ob("a record with the right tag is opened", None if any(tagfact(k) for k in o.st.truth) else False if rnd.samples(s, 2, 300) else None, m.path, facts(o.st))
        if not n:
            cx.absent(I, "data can be opened", m.path)


def tagged(cx, I, st, m, tag, key, nonce, ad, ct):
    s = tagsrc(tag)
    if s is None:
        check_same(cx, I, st, "the tag is the authenticator's", tag, mac(key, nonce, ad, ct), m.path)
        return
    check_same(cx, I, st, "the tag is the authenticator's", tag, srcslice(s, U64(0), U64(16)), m.path)
    mac_is(cx, I, st, m, s, key, nonce, ad, ct)


def mac_is(cx, I, st, m, s, key, nonce, ad, ct):
    r, k = onekey(key, nonce)
    a = check_same(cx, I, st, "the authenticated data is additional data and ciphertext, padded, and their lengths", s.kids[0], macdata(ad, ct), m.path)
    b = check_same(cx, I, st, "the authenticator's key is the first half of block 0", s.kids[1], r, m.path)
    c = check_same(cx, I, st, "the authenticator's offset is the second quarter of block 0", s.kids[2], k, m.path)
    return a and b and c


def tagused(st):
    """the authenticator application the path facts are about"""
    found = []
    for k in st.truth:
        t = byid(k[0] if isinstance(k, tuple) else k)
        for i in support(t) | {t.id}:
            if isinstance(i, int):
                x = byid(i)
                if x.op == "f" and x.a[0] == "elem" and isinstance(x.a[1], Val) and x.a[1].cls == "src" and x.a[1].shape[0] == ("poly1305",):
                    if x.a[1] not in found:
                        found.append(x.a[1])
    return found[0] if len(found) == 1 else None


def a01(cx):
    r = setup(cx, "decryptor", "decrypt")
    if r is None:
        return
    I, outs, m, key, nonce, data, ad = r
    n = 0
    for o in ret_outs(outs):
        enter(o.st)
        ok = is_ok(I, o.val)
        cx.count("opening_outcomes")
        if ok is None:
            cx.und("opening returns data or an error", m.path, showv(o.val)[:100])
        elif ok:
            n += 1
            check_implies(cx, o.st, "input shorter than a tag is not opened", [not_(ult(seq_len(data), U64(16)))], m.path)
            at = sub(seq_len(data), U64(16))
            s = tagused(o.st)
            if s is None:
                # no tag, or one of unknown making: no fact relates the received tag to anything
                rel = [k for k in o.st.truth if tagfact(k)]
                cx.ob("data is released only with a matching tag", None if rel else False, m.path, facts(o.st))
                continue
            for j in range(16):
                r = decide(o.st, eq(src_elem(s, U64(j)), seq_get(data, add(at, U64(j)))))
                if r is not True:
                    r = False if forged(o.st, s, data, at, j) else None
                cx.ob("byte %d of the tag is compared" % j, r, m.path, "" if r else "released with: " + facts(o.st))
            mac_is(cx, I, o.st, m, s, key, nonce, ad, seq_slice(data, U64(0), at))
        else:
            k = errkind(I, o.st, o.val)
            cx.ob("the error is bad_record_mac", None if k is None else k == "BadRecordMac", m.path, str(k))
    if not n:
        cx.absent(I, "data can be opened", m.path)


def forged(st, s, data, at, j):
    """a record with a wrong byte j (and perhaps the next) for which every fact of the path still holds"""
    enter(st)
    for mask in (1, 0x80, 0x10, 0xff):
        for also in (0, 1):
            env = {}
            for i in range(16):
                t = src_elem(s, U64(i))
                if i == j or also and i == (j + 1) % 16:
                    t = xor(t, U8(mask))
                env[seq_get(data, add(at, U64(i))).id] = t
            f = VSubst(env)
            fresh = State()
            good = True
            for k, v in st.truth.items():
                t = byid(k[0]) if isinstance(k, tuple) else byid(k)
                if not any(i in env for i in support(t) | {t.id} if isinstance(i, int)):
                    continue
                x = f(t)
                if isinstance(k, tuple):
                    x = mkslice(x, k[1], 1)
                enter(fresh)
                d = decide(fresh, x)
                enter(st)
                if d is not v:
                    good = False
                    break
            if good:
                return True
    return False


def tagfact(k):
    t = byid(k[0] if isinstance(k, tuple) else k)
    return any(isinstance(i, int) and byid(i).op == "f" and byid(i).a[0] == "elem" for i in support(t) | {t.id})
