"""The connection object (src/client.rs): handshake, key schedule, transcript, alerts, application data."""
from rules.lib import *
from rules.record import *
from rules.codes import CODES

CL = "client::TlsClient::<R, W>::"


# ---------------------------------------------------------------- contracts of the layers below
def wire_fresh(I, ty, key):
    """a decoded value of a wire type: fixed-size arrays have their size (established by the decoders, see W02/W04)"""
    t = I.ty(ty)
    if t["k"] == "adt" and t.get("local") and t["kind"] == "struct":
        name = t["path"].split("::")[-1]
        fl = {"Random": 32, "VerifyData": 12}.get(name)
        fs = []
        for f in t["variants"][0]["fields"]:
            ft = I.ty(f["ty"])
            if fl and ft["k"] == "adt" and ft["path"].endswith("vec::Vec"):
                fs.append(Vec(srcslice(Src((key, f["name"]), (), ("int", 8)), U64(0), U64(fl)), ft["args"][0]))
            else:
                fs.append(wire_fresh(I, f["ty"], (key, f["name"])))
        return Agg(ty, 0, fs)
    return I.fresh(ty, key)


def fallible(tag, val=None, emit=None):
    """contract of an operation that either fails with some TlsError or succeeds"""
    def f(I, st, cal, args, blk, span):
        ty = MD.retty(I, cal, blk)
        t = I.ty(ty)
        st.nfresh += 1
        k = st.nfresh
        enter(st)
        data = emit(I, st, args) if emit else ()
        bad = st.copy()
        enter(bad)
        e = I.fresh(t["args"][1], (tag + "err", k))
        bad.emit(tag + "_err", k, data, e, tuple(I.stack))
        enter(st)
        st.emit(tag, k, data, tuple(I.stack))
        v = val(I, st, t["args"][0], k) if val else unit(I.prog)
        return [Out("ret", st, MD.ok(I, ty, v)), Out("ret", bad, MD.err(I, ty, e))]
    return f


def c_read_hs(I, st, cal, args, blk, span):
    """read_handshake: some error, or a handshake message of each type"""
    ty = MD.retty(I, cal, blk)
    t = I.ty(ty)
    st.nfresh += 1
    k = st.nfresh
    bad = st.copy()
    enter(bad)
    e = I.fresh(t["args"][1], ("rdhserr", k))
    bad.emit("r_hs_err", k, None, e, tuple(I.stack))
    out = [Out("ret", bad, MD.err(I, ty, e))]
    mt = t["args"][0]
    for vi, v in enumerate(I.ty(mt)["variants"]):
        s = st.copy()
        enter(s)
        m = Agg(mt, vi, [wire_fresh(I, f["ty"], ("msg", k, v["name"])) for f in v["fields"]])
        s.emit("r_hs", k, v["name"], m, tuple(I.stack))
        out.append(Out("ret", s, MD.ok(I, ty, m)))
    return out


def deref_all(I, st, v):
    n = 0
    while isinstance(v, Val) and v.cls == "ptr" and n < 4:
        v = I.loadp(st, v)
        n += 1
    return v


def enc(v):
    """wire encoding of a handshake message"""
    n = F(("free", "enclen"), (v,), 64, 4, 1 << 25)
    return srcslice(Src(("enc",), (v,), ("int", 8)), U64(0), n)


def c_hs_write(I, st, cal, args, blk, span):
    """Handshake::tls_write into memory: appends the wire encoding (W01, W07) or fails"""
    ty = MD.retty(I, cal, blk)
    t = I.ty(ty)
    m = deref_all(I, st, args[0])
    p = args[1]
    w = I.loadp(st, p)
    n = 0
    while isinstance(w, Val) and w.cls == "ptr" and n < 4:
        p = w
        w = I.loadp(st, p)
        n += 1
    if not (isinstance(w, Val) and w.cls == "vec"):
        return None
    st.nfresh += 1
    k = st.nfresh
    enter(st)
    bad = st.copy()
    enter(bad)
    e = I.fresh(t["args"][1], ("encerr", k))
    bad.emit("enc_err", k, None, e, tuple(I.stack))
    enter(st)
    I.storep(st, p, Vec(seq_cat(w.kids[0], enc(m)), w.shape[0]))
    return [Out("ret", st, MD.ok(I, ty, unit(I.prog))), Out("ret", bad, MD.err(I, ty, e))]


def digest(s):
    return srcslice(Src(("sha256",), (s,), ("int", 8)), U64(0), U64(32))


def prfsrc(secret, seed):
    return Src(("prf",), (secret, seed), ("int", 8))


def c_sha256(I, st, cal, args, blk, span):
    enter(st)
    s = MD.seqof(I, st, args[0])
    ty = MD.retty(I, cal, blk)
    if I.ty(ty)["k"] == "adt":
        return Vec(digest(s), I.prog.tid("u8"))
    return digest(s)


def c_prf_new(I, st, cal, args, blk, span):
    enter(st)
    a, b = MD.seqof(I, st, args[0]), MD.seqof(I, st, args[1])
    return mk("opq", (MD.retty(I, cal, blk), ("prf",)), (a, b, U64(0)))


def c_prf_get(I, st, cal, args, blk, span):
    enter(st)
    v = I.loadp(st, args[0])
    if not (isinstance(v, Val) and v.cls == "opq" and v.kids):
        raise Stuck("state of the Prf object")
    a, b, pos = v.kids
    n = args[1]
    I.storep(st, args[0], mk("opq", v.shape, (a, b, add(pos, n))))
    return Vec(srcslice(prfsrc(a, b), pos, n), I.prog.tid("u8"))


PRFC = {"cipher::prf::Prf::new": c_prf_new, "cipher::prf::Prf::get_bytes": c_prf_get, "crypto::sha2::sha256": c_sha256}


def e_arg1(I, st, args):
    return (deref_all(I, st, args[1]),)


def e_box(I, st, args):
    """key material inside a freshly made encryptor / decryptor"""
    b = args[1]
    v = b
    if isinstance(b, Val) and b.cls == "box":
        v = I.memget(st, b.shape[0])
    return (b, tuple(seqs_in(v)))


def seqs_in(v, depth=0):
    out = []
    if isinstance(v, Val) and depth < 6:
        if v.cls == "seq":
            return [v]
        if v.cls == "vec":
            return [v.kids[0]]
        for k in v.kids:
            out += seqs_in(k, depth + 1)
    return out


def c_set(tag):
    def f(I, st, cal, args, blk, span):
        enter(st)
        if tag.endswith("iv"):
            data = (MD.seqof(I, st, args[1]),)
        else:
            data = e_box(I, st, args)
        st.emit(tag, 0, data, tuple(I.stack))
        return unit(I.prog)
    return f


def c_kex(I, st, cal, args, blk, span):
    """KeyExchange::compute_keys: an error, or (public data to send, premaster secret)"""
    ty = MD.retty(I, cal, blk)
    t = I.ty(ty)
    st.nfresh += 1
    k = st.nfresh
    enter(st)
    data = MD.seqof(I, st, args[1])
    r = MD.rngval(I, st, args[2])
    bad = st.copy()
    enter(bad)
    e = I.fresh(t["args"][1], ("kexerr", k))
    bad.emit("kex_err", k, None, e, tuple(I.stack))
    enter(st)
    n = V(("kexpub", k, "len"), 64, 1, 1 << 10)
    pub = srcslice(Src(("kexpub", k), (), ("int", 8)), U64(0), n)
    pms = srcslice(Src(("premaster", k), (), ("int", 8)), U64(0), U64(32))
    st.emit("kex", k, data, r, pub, pms, tuple(I.stack))
    u8 = I.prog.tid("u8")
    return [Out("ret", st, MD.ok(I, ty, Agg(t["args"][0], 0, [Vec(pub, u8), Vec(pms, u8)]))), Out("ret", bad, MD.err(I, ty, e))]


def c_compare(I, st, cal, args, blk, span):
    """crypto_compare: the comparison is recorded, its outcome left open (decided by itself in C01)"""
    enter(st)
    a, b = MD.seqof(I, st, args[0]), MD.seqof(I, st, args[1])
    st.nfresh += 1
    k = st.nfresh
    r = V(("compared", k), 1)
    st.emit("cmp", k, a, b, r, tuple(I.stack))
    return r


HANDC = dict(PRFC)
HANDC["util::crypto_compare"] = c_compare
HANDC.update({
    RD + "read_handshake": c_read_hs,
    RD + "read_change_cipher_spec": fallible("r_ccs"),
    RD + "read_application_data": fallible("r_app"),
    RD + "read_message": fallible("r_any"),
    RD + "read_record": fallible("r_any"),
    WR + "write_handshake": fallible("w_hs", emit=e_arg1),
    WR + "write_change_cipher_spec": fallible("w_ccs"),
    WR + "write_alert": fallible("w_alert", emit=e_arg1),
    WR + "write_application_data": fallible("w_app"),
    WR + "write_data": fallible("w_any"),
    WR + "write_record": fallible("w_any"),
    WR + "set_encryptor": c_set("set_enc"),
    WR + "set_iv": c_set("set_wiv"),
    RD + "set_decryptor": c_set("set_dec"),
    RD + "set_iv": c_set("set_riv"),
    "<handshake::Handshake as tls_item::TlsItem>::tls_write": c_hs_write,
    "cipher::KeyExchange::compute_keys": c_kex,
})
STEPS = ("r_hs", "r_ccs", "r_app", "r_any", "w_hs", "w_ccs", "w_alert", "w_app", "w_any", "set_enc", "set_wiv", "set_dec", "set_riv", "kex", "rng")


def run_new(cx):
    b = body(cx, CL + "new")
    if b is None:
        return None
    I = cx.new()
    I.contracts.update(HANDC)
    st = State()
    enter(st)
    I, outs = run(cx, b, None, I, st)
    if outs is None:
        return None
    stuck_outs(cx, I, outs, b)
    return I, b, [o for o in outs if o.kind == "ret"]


class Hs:
    """what one path of the handshake did"""

    def __init__(self, I, b, o):
        self.I, self.b, self.o = I, b, o
        self.st = o.st
        self.ev = [e for e in o.st.events() if e[0] != "loop"]
        self.good = is_ok(I, o.val)
        enter(self.st)
        self.ch = self.first("w_hs", "client_hello")
        self.sh = self.first("r_hs", "server_hello")
        ks = [e for e in self.ev if e[0] == "kex"]
        self.kex = ks[0] if ks else None

    def name(self, m):
        return self.I.ty(m.shape[0])["variants"][m.shape[1]]["name"] if isinstance(m, Val) and m.cls == "agg" and not isinstance(m.shape[0], str) else None

    def msg(self, e):
        """the handshake message of an event, None for other events"""
        if e[0] == "w_hs":
            return e[2][0]
        if e[0] == "r_hs":
            return e[3]
        return None

    def first(self, tag, name):
        for e in self.ev:
            if e[0] == tag and self.name(self.msg(e)) == name:
                return self.msg(e)
        return None

    def bytesof(self, m):
        """the only byte string inside a message body"""
        s = seqs_in(m)
        return s[0] if len(s) == 1 else None

    def random(self, m):
        """the Random of a hello"""
        if m is None:
            return None
        try:
            return seqs_in(field(self.I, m.kids[0], "random"))[0]
        except (KeyError, IndexError):
            return None

    def master(self):
        cr, sr = self.random(self.ch), self.random(self.sh)
        if cr is None or sr is None or self.kex is None:
            return None
        return srcslice(prfsrc(self.kex[5], seq_cat(lab("master secret"), cr, sr)), U64(0), U64(48))

    def transcript(self, upto):
        out = EMPTY()
        for e in self.ev[:upto]:
            m = self.msg(e)
            if m is not None:
                out = seq_cat(out, enc(m))
        return out

    def verify_data(self, label, upto):
        ms = self.master()
        if ms is None:
            return None
        return srcslice(prfsrc(ms, seq_cat(lab(label), digest(self.transcript(upto)))), U64(0), U64(12))

    def index(self, pred):
        for i, e in enumerate(self.ev):
            if pred(e):
                return i
        return None

    def failed(self):
        """the first failing operation below, other than sending the alert"""
        for e in self.ev:
            if e[0].endswith("_err") and e[0] != "w_alert_err":
                return e
        return None

    def show(self):
        return " ".join(e[0] + (":" + str(self.name(self.msg(e))) if self.msg(e) is not None else "") for e in self.ev)[:400]


def lab(s):
    return explicit([U8(c) for c in s.encode()])


def paths(cx):
    r = run_new(cx)
    if r is None:
        return [], None
    I, b, outs = r
    return [Hs(I, b, o) for o in outs], I


def known(cx, name, v, at):
    if v is None:
        cx.und(name, at, "the value could not be located")
        return False
    return True


def ignored(h, got, cs):
    """a byte of the received verify data no condition of the path depends on; None when there is none (or it is not clear)"""
    enter(h.st)
    n = decide_const(seq_len(got))
    if n is None:
        return None
    seen = set()
    for e in cs:
        for x in (e[2], e[3]):
            m = decide_const(seq_len(x))
            if m is None or m > 4096:
                return None
            for i in range(m):
                seen |= support(seq_get(x, U64(i)))
    for k, v in h.st.truth.items():
        seen |= support(byid(k[0] if isinstance(k, tuple) else k))
    for k in h.st.ctx.iv:
        if not isinstance(k, tuple):
            seen |= support(byid(k))
            continue
        for ms, c in k[1]:
            for i in ms:
                seen |= support(byid(i))
    if any(not isinstance(i, int) for i in seen):
        src = {("src", p[1].vid) for p in pieces(got) if p[0] == "s"}
        if src & seen and not all(support(seq_get(got, U64(i))) & src for i in range(n)):
            return None
    for k in range(n):
        own = support(seq_get(got, U64(k)))
        mine = {i for i in own if isinstance(i, int)}
        if mine and not mine & seen:
            return k
    return None


def decide_const(t):
    return t.lo if t.lo == t.hi else None


def c01(cx):
    hs, I = paths(cx)
    if I is None:
        return
    at = CL + "new"
    n = 0
    for h in hs:
        enter(h.st)
        if h.good is not True:
            # the last thing that happened was a server Finished and nothing below failed: wrong verify data
            last = [e for e in h.ev if h.msg(e) is not None or e[0] in STEPS and e[0] != "w_alert"]
            if h.failed() is None and last and last[-1][0] == "r_hs" and last[-1][2] == "finished" and len([e for e in h.ev if e[0] == "r_ccs"]) == 1:
                al = [e for e in h.ev if e[0] in ("w_alert", "w_alert_err")]
                k = kindof(I, h.st, h.o.val.kids[0]) if not (al and al[-1][0] == "w_alert_err") else "DecryptError"
                cx.ob("wrong verify data is reported as decrypt_error", None if k is None else k == "DecryptError", at, str(k))
            continue
        n += 1
        fi = h.index(lambda e: e[0] == "r_hs" and e[2] == "finished")
        if fi is None:
            cx.viol("a connection needs the server's Finished", at, h.show())
            continue
        got = h.bytesof(h.ev[fi][3])
        want = h.verify_data("server finished", fi)
        if not known(cx, "verify data of the path is locatable", want, at) or got is None:
            continue
        later = [e for e in h.ev[fi + 1:] if e[0] in ("r_hs", "r_ccs", "r_any", "r_app")]
        cx.ob("the Finished is the last message read", not later, at, h.show())
        cs = [e for e in h.ev[fi:] if e[0] == "cmp" and decide(h.st, e[4]) is True]
        res = []
        for e in cs:
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                if vsame(I, h.st, x, got) is True:
                    res.append((vsame(I, h.st, y, want), y))
        if any(r is True for r, y in res):
            cx.ob("a connection needs a Finished equal to the expected verify data", True, at)
        elif not cs:
            check_implies(cx, h.st, "a connection needs a Finished equal to the expected verify data",
                          [TT_and([eq(seq_get(got, U64(i)), seq_get(want, U64(i))) for i in range(12)])], at)
        elif res and all(r is False for r, y in res):
            cx.viol("a connection needs a Finished equal to the expected verify data", at, "compared with %s, specified %s" % (showv(res[0][1])[:300], showv(want)[:300]))
        elif ignored(h, got, cs) is not None:
            cx.viol("a connection needs a Finished equal to the expected verify data", at, "byte %d of the received Finished is compared with nothing; compared: %s"
                    % (ignored(h, got, cs), [(showv(e[2])[:150], showv(e[3])[:150]) for e in cs]))
        else:
            cx.und("a connection needs a Finished equal to the expected verify data", at, str([(showv(e[2])[:150], showv(e[3])[:150]) for e in cs]))
        ms = h.ev[fi][3]
    if not n:
        cx.absent(I, "a handshake can succeed", at)
    compare_exact(cx)
    only_built_by(cx, "TlsClient", {"new"})
    # the comparison is over all bytes received because there are never fewer
    import rules.wire as wire
    wire.fixed_sizes(cx, ["VerifyData"])
    only_built_by(cx, "VerifyData", {"new", "tls_read"})


def TT_and(ts):
    r = ts[0]
    for t in ts[1:]:
        r = and_(r, t)
    return r


def compare_exact(cx):
    b = body(cx, "util::crypto_compare")
    if b is None:
        return
    for n in (12, 16):
        I = cx.new()
        st = State()
        enter(st)
        seqs = [explicit([V((x, i), 8) for i in range(n)]) for x in ("cmpa", "cmpb")]
        ptrs = [Ptr(I.alloc(st, s)) for s in seqs]
        I, outs = run(cx, b, ptrs, I, st)
        if outs is None or not stuck_outs(cx, I, outs, b):
            continue
        eqs = [eq(x, y) for x, y in zip(*[s_elems(s) for s in seqs])]
        for o in ret_outs(outs):
            d = decide(o.st, o.val)
            for want in ((True, False) if d is None else (d,)):
                s = o.st.copy()
                if not assume(s, o.val, want):
                    continue
                if want:
                    for i, e in enumerate(eqs):
                        check_implies(cx, s, "comparison of %d bytes succeeds only if all are equal" % n, [e], b.path)
                else:
                    check_implies(cx, s, "comparison of %d bytes fails only if some differ" % n, [not_(e) for e in eqs], b.path)


def s_elems(s):
    return [x for p in pieces(s) for x in p[1]]


def only_built_by(cx, sname, allowed):
    """a struct is put together only in the named functions"""
    P = cx.P
    n = 0
    for b in P.local_fns():
        for blk in b.blocks:
            for s in (blk or {}).get("st", []):
                v = s.get("v") or {}
                if v.get("r") == "agg" and v.get("k") == "adt":
                    t = P.types[v["ty"]]
                    if t["k"] == "adt" and t.get("local") and t["path"].split("::")[-1] == sname:
                        n += 1
                        cx.ob("%s is only built by %s" % (sname, "/".join(sorted(allowed))), used_only_by(P, b.key, allowed, sname), "%s %s" % (short(b.key), s.get("s")))
    cx.count("construction_sites", n)


def used_only_by(P, key, allowed, sname=None):
    g = callgraph(P)
    callers = {}
    for a, bs in g.items():
        for x in bs:
            callers.setdefault(x, set()).add(a)

    def cov(k, seen):
        b = P.bodies.get(k)
        if b is None:
            return False
        p = b.path.split("::{closure")[0]
        if p.split("::")[-1] in allowed and (sname is None or sname in p):
            return True
        cs = callers.get(k, set()) - {k}
        if not cs or k in seen:
            return False
        return all(cov(c, seen | {k}) for c in cs)
    return cov(key, frozenset())


ORDER_R = ["server_hello", "certificate", "server_key_exchange", "server_hello_done", "CCS", "finished"]


def c02(cx):
    hs, I = paths(cx)
    if I is None:
        return
    at = CL + "new"
    n = 0
    for h in hs:
        enter(h.st)
        rs = []
        for e in h.ev:
            if e[0] == "r_hs":
                rs.append(e[2])
            elif e[0] == "r_ccs":
                rs.append("CCS")
            elif e[0] in ("r_any", "r_app"):
                rs.append("record/application data")
        if h.good is True:
            n += 1
            cx.ob("the handshake succeeds only on the prescribed server flight", rs == ORDER_R, at, " ".join(rs))
        # never goes on reading after something out of order
        for i in range(1, len(rs)):
            cx.ob("nothing more is read after a message out of order", rs[:i] == ORDER_R[:i], at, " ".join(rs))
        for i, e in enumerate(h.ev):
            m = h.msg(e)
            if e[0] == "w_hs" and h.name(m) == "client_key_exchange" or e[0] == "w_ccs":
                done = [x[2] for x in h.ev[:i] if x[0] == "r_hs"]
                cx.ob("the client's second flight waits for ServerHelloDone", done == ORDER_R[:4], at, h.show())
    if not n:
        cx.absent(I, "a handshake can succeed", at)
    # the readers return what they say they return
    from rules.reader import run_over_message
    for fn, want in (("read_handshake", "HandshakeMessage"), ("read_change_cipher_spec", "ChangeCipherSpecMessage")):
        b = body(cx, RD + fn)
        if b is None:
            continue
        for o, I, e in run_over_message(cx, b, True):
            if is_ok(I, o.val) is True:
                cx.ob("%s succeeds only on a %s" % (fn, want), e is not None and e[0] == "msg" and e[2] == want and not I.passed, b.path, str([x[2] for x in I.passed + [e] if x]))
                if want == "HandshakeMessage" and e is not None and e[0] == "msg":
                    cx.ob("%s returns the message read" % fn, vsame(I, o.st, o.val.kids[0], e[3][0]), b.path, showv(o.val)[:200])
            elif e is not None and e[0] == "msg":
                k = errkind(I, o.st, o.val)
                if e[2] == "AlertMessage":
                    cx.ob("an alert in %s fails it" % fn, True, b.path)
                elif e[2] != want:
                    cx.ob("%s reports anything else as unexpected_message" % fn, None if k is None else k == "UnexpectedMessage", b.path, "%s on %s" % (k, e[2]))
                else:
                    cx.viol("%s accepts a %s" % (fn, want), b.path, "error %s" % k)


SUITE = "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256"


def variant_is(I, st, v, name):
    """term: an enum value is the named variant (by declaration)"""
    t = I.ty(v.shape[0])
    d = None
    for x in t["variants"]:
        if x["name"] == name:
            d = int(x["discr"])
    if d is None:
        raise KeyError(name)
    t = I.discr(st, v)
    return eq(t, C(d, t.w))


def c03(cx):
    hs, I = paths(cx)
    if I is None:
        return
    at = CL + "new"
    n = 0
    for h in hs:
        enter(h.st)
        if h.sh is None:
            continue
        st = h.st
        sh = h.sh.kids[0]
        ver = field(I, sh, "server_version")
        conds = [("version 3.3", and_(eq(field(I, ver, "major"), U8(3)), eq(field(I, ver, "minor"), U8(3)))),
                 ("the offered suite", variant_is(I, st, field(I, sh, "cipher_suite"), SUITE)),
                 ("null compression", variant_is(I, st, field(I, sh, "compression_method"), "null"))]
        i = h.index(lambda e: e[0] == "r_hs" and e[2] == "server_hello")
        after = [e for e in h.ev[i + 1:] if e[0].split("_err")[0] in STEPS and not e[0].startswith("w_alert")]
        if after or h.good is True:
            n += 1
            for nm, c in conds:
                check_implies(cx, st, "the handshake goes on only with " + nm, [c], at)
        else:
            check_implies(cx, st, "ServerHello is refused only for a wrong parameter", [not_(c) for nm, c in conds], at)
            e = [x for x in h.ev if x[0] == "w_alert_err"]
            k = kindof(I, st, h.o.val.kids[0]) if not e else "IllegalParameter"
            cx.ob("a wrong parameter is reported as illegal_parameter", None if k is None else k == "IllegalParameter", at, str(k))
    if not n:
        cx.absent(I, "the handshake can go past ServerHello", at)


def c04(cx):
    hs, I = paths(cx)
    if I is None:
        return
    at = CL + "new"
    import rules.wire as wir
    wir.fixed_sizes(cx, ["Random"])
    n = 0
    want = dict(set_enc=("client write key", 0, 32), set_dec=("server write key", 32, 32), set_wiv=("client write IV", 64, 12), set_riv=("server write IV", 76, 12))
    for h in hs:
        enter(h.st)
        evs = [e for e in h.ev if e[0] in want]
        if not evs:
            continue
        ms = h.master()
        if not known(cx, "master secret of the path is locatable", ms, at):
            continue
        blk = prfsrc(ms, seq_cat(lab("key expansion"), h.random(h.sh), h.random(h.ch)))
        for e in evs:
            nm, off, ln = want[e[0]]
            if e[0].endswith("iv"):
                got = e[2][0]
            else:
                if len(e[2][1]) != 1:
                    cx.und("%s is locatable in the cipher object" % nm, at, str(len(e[2][1])))
                    continue
                got = e[2][1][0]
            n += 1
            check_same(cx, I, h.st, "%s is bytes %d..%d of the key block" % (nm, off, off + ln), got, srcslice(blk, U64(off), U64(ln)), at)
        if h.good is True:
            cx.ob("both keys and both IVs are installed, once each", sorted(e[0] for e in evs) == sorted(want), at, h.show())
            i = h.index(lambda e: e[0] == "set_dec")
            ccs = h.index(lambda e: e[0] == "r_ccs")
            cx.ob("the server key is installed after the server's ChangeCipherSpec and before its Finished", i is not None and ccs is not None and ccs < i < h.index(lambda e: e[0] == "r_hs" and e[2] == "finished"), at, h.show())
    if not n:
        cx.absent(I, "keys are installed", at)


def c05(cx):
    hs, I = paths(cx)
    if I is None:
        return
    at = CL + "new"
    n = 0
    for h in hs:
        enter(h.st)
        for i, e in enumerate(h.ev):
            m = h.msg(e)
            if e[0] == "w_hs" and h.name(m) == "finished":
                n += 1
                got = h.bytesof(m)
                want = h.verify_data("client finished", i)
                if got is None or want is None:
                    cx.und("client verify data is locatable", at)
                    continue
                ms = [h.name(h.msg(x)) for x in h.ev[:i] if h.msg(x) is not None]
                cx.ob("six messages precede the client's Finished", ms == ["client_hello"] + ORDER_R[:4] + ["client_key_exchange"], at, " ".join(map(str, ms)))
                check_same(cx, I, h.st, "the client's verify data covers the transcript", got, want, at)
        if h.good is True:
            fi = h.index(lambda e: e[0] == "r_hs" and e[2] == "finished")
            if fi is None:
                continue
            want = h.verify_data("server finished", fi)
            for e in h.ev[fi:]:
                if e[0] == "cmp" and want is not None:
                    got = h.bytesof(h.ev[fi][3])
                    y = e[3] if vsame(I, h.st, e[2], got) is True else e[2]
                    check_same(cx, I, h.st, "the server's verify data covers the transcript and the client's Finished", y, want, at)
    if not n:
        cx.absent(I, "a client Finished is sent", at)


# ---------------------------------------------------------------- what the client sends
ORDER_W = ["client_hello", "client_key_exchange", "CCS", "KEY", "finished"]


def c06(cx):
    hs, I = paths(cx)
    if I is None:
        return
    at = CL + "new"
    n = 0
    hellos = {}
    for h in hs:
        enter(h.st)
        ws = []
        for i, e in enumerate(h.ev):
            if e[0].startswith("w_alert"):
                continue
            t = e[0][:-4] if e[0].endswith("_err") else e[0]
            if t == "w_hs":
                ws.append(h.name(e[2][0]))
                if ws[-1] == "client_hello":
                    cx.ob("ClientHello precedes everything read", not [x for x in h.ev[:i] if x[0].startswith("r_")], at, h.show())
                    hellos.setdefault(e[2][0].vid, (h, e[2][0]))
                if ws[-1] == "client_key_exchange":
                    got = h.bytesof(e[2][0])
                    if h.kex is None or got is None:
                        cx.ob("ClientKeyExchange carries the computed public value", None if got is None else False, at, h.show())
                    else:
                        check_same(cx, I, h.st, "ClientKeyExchange carries the computed public value", got, h.kex[4], at)
                        rx = [x for x in h.ev[:i] if x[0] == "r_hs" and x[2] == "server_key_exchange"]
                        if rx:
                            check_same(cx, I, h.st, "the key exchange uses the server's parameters", h.kex[2], h.bytesof(rx[0][3]), at)
            elif t == "w_ccs":
                ws.append("CCS")
            elif t == "set_enc":
                ws.append("KEY")
            elif t in ("w_any", "w_app"):
                ws.append("other data")
        cx.ob("the client's messages and key activation come in the prescribed order", ws == ORDER_W[:len(ws)], at, " ".join(map(str, ws)))
        if h.good is True:
            n += 1
            cx.ob("a successful handshake sent the whole client flight", ws == ORDER_W, at, " ".join(map(str, ws)))
            fi = h.index(lambda e: e[0] == "w_hs" and h.name(h.msg(e)) == "finished")
            iv = h.index(lambda e: e[0] == "set_wiv")
            cx.ob("the write IV is in place before the Finished", iv is not None and fi is not None and iv < fi, at, h.show())
    if not n:
        cx.absent(I, "a handshake can succeed", at)
    for h, m in hellos.values():
        hello_bytes(cx, h, m)


def hello_bytes(cx, h, m):
    """the encoding of the ClientHello the handshake sends"""
    P = cx.P
    b = None
    for x in P.find("<handshake::Handshake as tls_item::TlsItem>::tls_write"):
        t = P.types[x.locals[2]]
        if P.types[t.get("to", 0)]["s"].startswith("std::vec::Vec<u8"):
            b = x
    if b is None:
        cx.und("Handshake::tls_write into a vector is available", CL + "handshake")
        return
    I = cx.new()
    st = h.st.copy()
    enter(st)
    pm = Ptr(I.alloc(st, m))
    pv = Ptr(I.alloc(st, Vec(EMPTY(), P.tid("u8"))))
    try:
        outs = I.call_body(st, b, [pm, pv])
    except (Stuck, Undecided) as e:
        cx.und("ClientHello is encodable", b.path, str(e))
        return
    cx.done(I)
    stuck_outs(cx, I, outs, b)
    for o in ret_outs(outs):
        if is_ok(I, o.val) is not True:
            cx.und("ClientHello is encodable", b.path, showv(o.val)[:200])
            continue
        enter(o.st)
        s = I.loadp(o.st, pv)
        by = s_bytes(s.kids[0])
        if by is None:
            cx.und("ClientHello has a fixed layout", b.path, showv(s)[:200])
            continue
        rnd_ = [seq_get(h.random(m), U64(i)) for i in range(32)]
        n = len(by)
        at = CL + "handshake"

        def num(i, k):
            v = 0
            for x in by[i:i + k]:
                if x.op != "c":
                    return None
                v = v << 8 | x.a
            return v
        cx.ob("the offer is a ClientHello of matching length", num(0, 1) == 1 and num(1, 3) == n - 4, at, showv(s)[:200])
        cx.ob("version 3.3 is offered", num(4, 2) == 0x0303, at, str(num(4, 2)))
        cx.ob("the client random follows", all(TTsame(x, y) for x, y in zip(by[6:38], rnd_)), at)
        cx.ob("the session id is empty", num(38, 1) == 0, at, str(num(38, 1)))
        cx.ob("exactly the one supported suite is offered", num(39, 2) == 2 and num(41, 2) == CODES["CipherSuite"][SUITE], at, str((num(39, 2), num(41, 2))))
        cx.ob("only null compression is offered", num(43, 1) == 1 and num(44, 1) == 0, at, str((num(43, 1), num(44, 1))))
        exts = {}
        good = num(45, 2) == n - 47
        i = 47
        while i + 4 <= n and num(i, 2) is not None and num(i + 2, 2) is not None:
            L = num(i + 2, 2)
            exts[num(i, 2)] = [x.a if x.op == "c" else None for x in by[i + 4:i + 4 + L]]
            i += 4 + L
        cx.ob("the extension block is well formed", good and i == n, at, str(exts))
        want = {10: [0, 2, 0, 23], 11: [1, 0], 13: [0, 2, 4, 1]}
        for k, nm in ((10, "curve secp256r1"), (11, "uncompressed points"), (13, "RSA with SHA-256")):
            cx.ob("the extensions offer exactly %s" % nm, exts.get(k) == want[k], at, str(exts.get(k)))


def TTsame(x, y):
    return x is y or TT.same(x, y)


def s_bytes(s):
    out = []
    for p in pieces(s):
        L = plen(p)
        if p[0] == "e":
            out += p[1]
        elif L.op == "c" and L.a < 4096:
            out += [seq_get(s, U64(len(out) + j)) for j in range(L.a)]
        else:
            return None
    return out


# ---------------------------------------------------------------- alerts
KINDS = dict(UnexpectedMessage="unexpected_message", BadRecordMac="bad_record_mac", RecordOverflow="record_overflow",
             IllegalParameter="illegal_parameter", DecodeError="decode_error", DecryptError="decrypt_error",
             InternalError="internal_error", IoFailure="internal_error", AlertReceived="close_notify")


def fixed(st):
    """substitution of the symbols a path has narrowed to one value"""
    env = {}
    for k, (l, h) in st.ctx.iv.items():
        if l == h and not isinstance(k, tuple) and byid(k).op == "v":
            env[k] = C(l, byid(k).w)
    return VSubst(env)


def kinds_of(I, st, v):
    """names of the kinds an error can have on this path, with the path narrowed to each"""
    out = []
    if v is None or v.cls not in ("agg",):
        return None
    try:
        kv = field(I, v, "kind")
    except KeyError:
        return None
    for name in KINDS:
        enter(st)
        try:
            t = variant_is(I, st, kv, name)
        except KeyError:
            continue
        s = st.copy()
        if assume(s, t, True):
            out.append((name, s))
    return out


def alert_matches(cx, I, st, al, name, at, pre):
    """an Alert value is fatal and has the description of the error kind"""
    enter(st)
    al = vsubst(al, fixed(st))
    lv, de = field(I, al, "level"), field(I, al, "description")
    cx.ob(pre + "is fatal", decide(st, variant_is(I, st, lv, "fatal")), at, showv(lv)[:80])
    d = cast(I.discr(st, de), 64)
    cx.ob(pre + "has the description for %s" % name, decide(st, eq(d, C(CODES["AlertDescription"][KINDS[name]], 64))), at, showv(de)[:80])


def c07(cx):
    hs, I = paths(cx)
    if I is None:
        return
    at = CL + "new"
    n = 0
    for h in hs:
        if h.good is not False:
            al = [e for e in h.ev if e[0].startswith("w_alert")]
            cx.ob("no alert is sent by a successful handshake", not al, at, h.show())
            continue
        n += 1
        enter(h.st)
        f = h.failed()
        al = [e for e in h.ev if e[0].startswith("w_alert")]
        ret = h.o.val.kids[0]
        cause = f[3] if f is not None else None
        if len(al) > 1:
            cx.viol("at most one alert is sent", at, h.show())
            continue
        if al and h.ev[-1] is not al[0]:
            cx.viol("nothing follows the alert", at, h.show())
        if al and al[0][0] == "w_alert_err":
            # the failure to send replaces the error
            e = cause
        else:
            e = ret
            if cause is not None:
                cx.ob("the error that failed the handshake is returned", vsame(I, h.st, ret, cause) is True or kind_same(I, h.st, ret, cause), at, h.show())
        if e is None:
            # failed by a check of the handshake itself and the alert could not be sent: the twin path shows the kind
            al0 = al[0]
            lv = field(I, al0[2][0], "level")
            cx.ob("the alert is fatal", decide(h.st, variant_is(I, h.st, lv, "fatal")), at, showv(lv)[:80])
            continue
        ks = kinds_of(I, h.st, e)
        if ks is None:
            cx.und("the kind of the error is known", at, showv(e)[:200])
            continue
        for name, s in ks:
            enter(s)
            if name == "IoFailure":
                cx.ob("no alert is sent after an I/O failure", not al, at, h.show())
            elif not al:
                cx.viol("a fatal alert is sent for every failure but I/O", at, "none for %s after %s" % (name, h.show()))
            else:
                alert_matches(cx, I, s, al[0][2][0], name, at, "the alert ")
    if not n:
        cx.absent(I, "a handshake can fail", at)


def kind_same(I, st, a, b):
    try:
        return vsame(I, st, field(I, a, "kind"), field(I, b, "kind"))
    except (KeyError, TypeError, AttributeError):
        return None


def e01(cx):
    P = cx.P
    b = body(cx, "alert::Alert::from_tls_err")
    if b is not None:
        I = cx.new()
        st = State()
        enter(st)
        et = selftype(P, b.locals[1])
        ev = I.fresh(et, ("error",))
        p = Ptr(I.alloc(st, ev))
        I, outs = run(cx, b, [p], I, st)
        seen = set()
        if outs is not None and stuck_outs(cx, I, outs, b):
            for o in ret_outs(outs):
                ks = kinds_of(I, o.st, I.loadp(o.st, p))
                if ks is None:
                    cx.und("the error kind is a field", b.path)
                    continue
                for name, s in ks:
                    seen.add(name)
                    alert_matches(cx, I, s, o.val, name, b.path, "the alert for an error ")
            cx.ob("every error kind is mapped", seen == set(KINDS), b.path, str(set(KINDS) - seen))
            kt = None
            for f in P.types[et]["variants"][0]["fields"]:
                if f["name"] == "kind":
                    kt = P.types[f["ty"]]
            if kt is not None:
                cx.ob("the error kinds are the specified ones", set(v["name"] for v in kt["variants"]) == set(KINDS) or None, b.path)
    b = body(cx, "<tls_result::TlsError as std::convert::From<std::io::Error>>::from")
    if b is not None:
        I, outs = run(cx, b)
        if outs is not None and stuck_outs(cx, I, outs, b):
            for o in ret_outs(outs):
                k = kindof(I, o.st, o.val)
                cx.ob("transport errors are reported as I/O failures", None if k is None else k == "IoFailure", b.path, str(k))
    # TlsError::new keeps the kind
    b = body(cx, "tls_result::TlsError::new")
    if b is not None:
        I, outs = run(cx, b)
        if outs is not None and stuck_outs(cx, I, outs, b):
            for o in ret_outs(outs):
                cx.ob("TlsError::new fails with the given kind", is_ok(I, o.val) is False and vsame(I, o.st, field(I, o.val.kids[0], "kind"), I.fresh(b.locals[1], ("arg", 0))) is True or None, b.path, showv(o.val)[:200])
    send_alert(cx)


def send_alert(cx):
    """send_tls_alert: one alert of the right kind unless the transport failed"""
    b = body(cx, CL + "send_tls_alert")
    if b is None:
        return
    I = cx.new()
    I.contracts.update(HANDC)
    st = State()
    enter(st)
    I, outs = run(cx, b, None, I, st)
    if outs is None or not stuck_outs(cx, I, outs, b):
        return
    ev = I.fresh(b.locals[2], ("arg", 1))
    for o in ret_outs(outs):
        al = [e for e in o.st.events() if e[0].startswith("w_")]
        for name, s in kinds_of(I, o.st, ev) or []:
            enter(s)
            if name == "IoFailure":
                cx.ob("no alert is sent after an I/O failure", not al, b.path)
                cx.ob("the I/O failure itself is returned", vsame(I, s, o.val, ev), b.path, showv(o.val)[:200])
            elif len(al) != 1 or not al[0][0].startswith("w_alert"):
                cx.viol("exactly one alert is sent for every other error", b.path, "%s: %s" % (name, [e[0] for e in al]))
            else:
                alert_matches(cx, I, s, al[0][2][0], name, b.path, "the alert sent for an error ")
                if al[0][0] == "w_alert":
                    cx.ob("the error itself is returned", vsame(I, s, o.val, ev), b.path, showv(o.val)[:200])
                else:
                    cx.ob("a failed alert transmission replaces the error", vsame(I, s, o.val, al[0][3]), b.path, showv(o.val)[:200])


# ---------------------------------------------------------------- application data
def mkclient(I, st, P, tid, over=None):
    """a connected client: both directions keyed, everything else arbitrary"""
    t = P.types[tid]
    o = {}
    for f in t["variants"][0]["fields"]:
        ft = P.types[f["ty"]]
        nm = ft.get("path", "").split("::")[-1] if ft["k"] == "adt" else ""
        if nm == "TlsWriter":
            o[f["name"]] = I.loadp(st, mkwriter(I, st, P, f["ty"], True))
        elif nm == "TlsReader":
            o[f["name"]] = I.loadp(st, mkreader(I, st, P, f["ty"], True))
    o.update(over or {})
    return Ptr(I.alloc(st, mkself(I, st, P, tid, o)))


def c10(cx):
    P = cx.P
    for fn in ("write", "write_all"):
        b = body(cx, "<client::TlsClient<R, W> as std::io::Write>::" + fn)
        if b is None:
            continue
        I = cx.new()
        I.contracts.update(WRC)
        I.frag_checks = True
        cx.fragobs = []
        st = State()
        enter(st)
        st.mem[SENT] = EMPTY()
        c = mkclient(I, st, P, selftype(P, b.locals[1]))
        p, s = bytearg(I, st)
        I, outs = run(cx, b, [c, p], I, st)
        if outs is None:
            continue
        stuck_outs(cx, I, outs, b)
        n = 0
        for o in ret_outs(outs):
            enter(o.st)
            bad = any(e[0] == "record_err" for e in o.st.events())
            g = is_ok(I, o.val)
            if g is True:
                n += 1
                cx.ob("success is reported only if no record failed", not bad, b.path)
                check_same(cx, I, o.st, "on success every byte was handed to the record layer once and in order", o.st.mem[SENT], s, b.path)
                if fn == "write":
                    check_same(cx, I, o.st, "the full length is reported", o.val.kids[0], seq_len(s), b.path)
            elif g is False:
                cx.ob("an error is reported only if a record failed", bad, b.path)
        if not n:
            cx.absent(I, "%s can succeed" % fn, b.path)
        for st, n, ct, ma, mi, at in cx.fragobs:
            enter(st)
            if any(e[0] == "record_err" for e in st.events()):
                continue
            check_same(cx, I, st, "everything is sent as application data", ct, U8(23), at)


APP = ("g", "app")      # ghost: application data received and not yet handed out, and what was handed out before it


def c_read_app(I, st, cal, args, blk, span):
    """read_application_data: an error, some data, or nothing (orderly end)"""
    ty = MD.retty(I, cal, blk)
    t = I.ty(ty)
    st.nfresh += 1
    k = st.nfresh
    out = []
    bad = st.copy()
    enter(bad)
    e = I.fresh(t["args"][1], ("apperr", k))
    bad.emit("app_err", k, e)
    out.append(Out("ret", bad, MD.err(I, ty, e)))
    end = st.copy()
    enter(end)
    end.emit("app_end", k)
    u8 = I.prog.tid("u8")
    out.append(Out("ret", end, MD.ok(I, ty, Vec(EMPTY(), u8))))
    enter(st)
    n = V(("app", k, "len"), 64, 1, 1 << 14)
    s = srcslice(Src(("app", k), (), ("int", 8)), U64(0), n)
    if APP in st.mem:
        st.mem[APP] = seq_cat(st.mem[APP], s)
    st.emit("app", k, s)
    out.append(Out("ret", st, MD.ok(I, ty, Vec(s, u8))))
    return out


APPC = {RD + "read_application_data": c_read_app, WR + "write_alert": HANDC[WR + "write_alert"]}
