"""W01-W04, W07: encoders, decoders and sizes of the protocol structures (tls_item.rs, handshake.rs, signature.rs,
alert.rs, cipher/ecdhe.rs, cipher/mod.rs).

Compositional: the codec functions of one type are interpreted with those of the types inside it replaced by
uninterpreted encodings (a function of the value) and decodings (a function of the stream position), and compared
with the wire format of the RFCs."""
import re
from rules.lib import *
from rules.record import ret_outs, bytearg
from rules.codes import CODES

H, A, S_, E_ = "handshake::", "alert::", "signature::", "cipher::ecdhe::"
U24 = (1 << 24) - 1
U16 = (1 << 16) - 1
# RFC 5246, 4492, 6066 presentation language
SPEC = {
    "u8": ("int", 1), "u16": ("int", 2), "u32": ("int", 4), "u64": ("int", 8),
    H + "Random": ("fixed", 32),
    H + "VerifyData": ("fixed", 12),
    H + "ProtocolVersion": ("struct", [("major", "u8"), ("minor", "u8")]),
    H + "SessionId": ("vec", "u8", 0, 32),
    H + "CipherSuiteVec": ("vec", "cipher::CipherSuite", 2, U16 - 1),
    H + "CompressionMethod": ("enum", 1),
    H + "CompressionMethodVec": ("vec", H + "CompressionMethod", 1, 255),
    H + "Asn1Cert": ("vec", "u8", 1, U24),
    H + "CertificateList": ("vec", H + "Asn1Cert", 0, U24),
    H + "NamedCurve": ("enum", 2),
    H + "EllipticCurveList": ("vec", H + "NamedCurve", 1, U16),
    H + "ECPointFormat": ("enum", 1),
    H + "ECPointFormatList": ("vec", H + "ECPointFormat", 1, 255),
    H + "ClientCertificateType": ("enum", 1),
    H + "CertificiateTypeVec": ("vec", H + "ClientCertificateType", 1, 255),
    H + "DistinguishedName": ("vec", "u8", 1, U16),
    H + "DistinguishedNameVec": ("vec", H + "DistinguishedName", 0, U16),
    H + "ExtensionVec": ("vec", H + "Extension", 0, U16),
    "Option<handshake::ExtensionVec>": ("opt", H + "ExtensionVec"),
    H + "Extension": ("ext", dict(elliptic_curves=H + "EllipticCurveList", ec_point_formats=H + "ECPointFormatList", signature_algorithms=S_ + "SignatureAndHashAlgorithmVec")),
    H + "ClientHello": ("struct", [("client_version", H + "ProtocolVersion"), ("random", H + "Random"), ("session_id", H + "SessionId"),
                                   ("cipher_suites", H + "CipherSuiteVec"), ("compression_methods", H + "CompressionMethodVec"), ("extensions", "Option<handshake::ExtensionVec>")]),
    H + "ServerHello": ("struct", [("server_version", H + "ProtocolVersion"), ("random", H + "Random"), ("session_id", H + "SessionId"),
                                   ("cipher_suite", "cipher::CipherSuite"), ("compression_method", H + "CompressionMethod"), ("extensions", "Option<handshake::ExtensionVec>")]),
    H + "CertificateRequest": ("struct", [("certificate_types", H + "CertificiateTypeVec"), ("supported_signature_algorithms", S_ + "SignatureAndHashAlgorithmVec"),
                                          ("certificate_authorities", H + "DistinguishedNameVec")]),
    H + "Handshake": ("hs", dict(hello_request="tls_item::DummyItem", client_hello=H + "ClientHello", server_hello=H + "ServerHello", certificate=H + "CertificateList",
                                 server_key_exchange="tls_item::ObscureData", certificate_request=H + "CertificateRequest", server_hello_done="tls_item::DummyItem",
                                 client_key_exchange="tls_item::ObscureData", finished=H + "VerifyData")),
    "tls_item::DummyItem": ("empty",),
    "tls_item::ObscureData": ("rest",),
    S_ + "HashAlgorithm": ("enum", 1),
    S_ + "SignatureAlgorithm": ("enum", 1),
    S_ + "SignatureAndHashAlgorithm": ("struct", [("hash", S_ + "HashAlgorithm"), ("signature", S_ + "SignatureAlgorithm")]),
    S_ + "SignatureAndHashAlgorithmVec": ("vec", S_ + "SignatureAndHashAlgorithm", 2, U16 - 1),
    S_ + "Signature": ("vec", "u8", 0, U16),
    S_ + "DigitallySigned": ("struct", [("algorithm", S_ + "SignatureAndHashAlgorithm"), ("signature", S_ + "Signature")]),
    A + "AlertLevel": ("enum", 1),
    A + "AlertDescription": ("enum", 1),
    A + "Alert": ("struct", [("level", A + "AlertLevel"), ("description", A + "AlertDescription")]),
    E_ + "EcData": ("vec", "u8", 1, 255),
    E_ + "EcCurve": ("struct", [("a", E_ + "EcData"), ("b", E_ + "EcData")]),
    E_ + "EcParameters": ("tag", 1, dict(named_curve=(3, H + "NamedCurve"))),
    E_ + "ServerEcdhParams": ("struct", [("curve_params", E_ + "EcParameters"), ("public", E_ + "EcData")]),
    E_ + "EcdheServerKeyExchange": ("struct", [("params", E_ + "ServerEcdhParams"), ("signed_params", S_ + "DigitallySigned")]),
    "cipher::CipherSuite": ("suite",),
}
MAXLEN = 1 << 40


def tname(P, ty):
    s = P.types[ty]["s"]
    return re.sub(r"^[a-z_:]*Option<", "Option<", s)


def csize(name):
    """size of every value of a type, if it is one"""
    k = SPEC[name]
    if k[0] in ("int", "fixed", "enum"):
        return k[1]
    if k[0] == "suite":
        return 2
    if k[0] == "empty":
        return 0
    if k[0] == "struct":
        r = [csize(t) for f, t in k[1]]
        return None if None in r else sum(r)
    return None


def plen_of(mx):
    return 1 if mx < 1 << 8 else 2 if mx < 1 << 16 else 3 if mx < 1 << 24 else 4


def off(seq, i):
    return F(("free", "off"), (seq, i), 64, 0, MAXLEN)


def size_v(name, v):
    c = csize(name)
    return U64(c) if c is not None else F(("free", "size"), (v,), 64, 0, MAXLEN)


class Ref:
    """a value of a nested type given by reference: itself, or element i of a sequence"""

    def __init__(self, I, st, p, name):
        self.name = name
        while isinstance(p, Val) and p.cls == "ptr":
            pa = ptr_path(p)
            q = I.loadp(st, p)
            if isinstance(q, Val) and q.cls == "ptr":
                p = q
                continue
            break
        self.seq = self.idx = None
        self.val = I.loadp(st, p) if isinstance(p, Val) and p.cls == "ptr" else p
        if isinstance(p, Val) and p.cls == "ptr":
            pa = ptr_path(p)
            if pa and isinstance(pa[-1], tuple) and pa[-1][0] == "i":
                base = I.loadp(st, Ptr(p.shape[0], pa[:-1]))
                ps = pieces(I.asseq(base))
                if len(ps) == 1 and ps[0][0] == "s":
                    self.seq, self.idx = ps[0][1], add(ps[0][2], pa[-1][1])

    def size(self):
        c = csize(self.name)
        if c is not None:
            return U64(c)
        if self.seq is not None:
            return sub(off(self.seq, add(self.idx, U64(1))), off(self.seq, self.idx))
        return size_v(self.name, self.val)

    def enc(self):
        if self.seq is not None:
            c = csize(self.name)
            o = mul(U64(c), self.idx) if c is not None else off(self.seq, self.idx)
            return srcslice(Src(("encs", self.name), (self.seq,), ("int", 8)), o, self.size())
        return enc_v(self.name, self.val)


def enc_v(name, v):
    return srcslice(Src(("enc", name), (v,), ("int", 8)), U64(0), size_v(name, v))


DEC = ("g", "decoded")


class Codec:
    """contracts of the codec functions of all types but the one looked at"""

    def __init__(self, cx, own):
        self.cx, self.P, self.own = cx, cx.P, own

    def __call__(self, I, cal):
        b = I.prog.bodies.get(cal.get("key"))
        name = cal.get("rpath") or cal["path"]
        m = name.split("::")[-1]
        if b is None or not b.local:
            return None
        if "TlsItem" in name and m in ("tls_write", "tls_read", "tls_size"):
            if m == "tls_read":
                rt = self.P.types[b.locals[0]]
                ty = rt["args"][0] if rt.get("args") else None
            else:
                ty = self.P.types[b.locals[1]].get("to")
            if ty is None:
                return None
            n = tname(self.P, ty)
            if n == self.own or n not in SPEC or SPEC[n][0] == "int":
                return None
            return lambda I, st, cal, args, blk, span: getattr(self, m)(n, ty, I, st, cal, args, blk, span)
        if m == "new" and b.argc == 1:
            rt = self.P.types[b.locals[0]]
            if rt["k"] == "adt" and rt["path"].endswith("Result"):
                n = tname(self.P, rt["args"][0])
                if n in SPEC and SPEC[n][0] in ("vec",) and b.path == n + "::new":
                    return lambda I, st, cal, args, blk, span: self.new(n, rt["args"][0], I, st, cal, args, blk, span)
        return None

    def tls_size(self, n, ty, I, st, cal, args, blk, span):
        enter(st)
        t = Ref(I, st, args[0], n).size()
        if t.op == "p":
            st.ctx.exact = st.ctx.exact | {t.id}      # offsets of items do not decrease
        return t

    def tls_write(self, n, ty, I, st, cal, args, blk, span):
        enter(st)
        p = args[1]
        w = I.loadp(st, p)
        while isinstance(w, Val) and w.cls == "ptr":
            p, w = w, I.loadp(st, w)
        if not (isinstance(w, Val) and w.cls == "vec"):
            raise Stuck("writer of %s" % n)
        ety = MD.retty(I, cal, blk)
        st.nfresh += 1
        k = st.nfresh
        r = Ref(I, st, args[0], n)
        bad = st.copy()
        enter(bad)
        e = I.fresh(I.ty(ety)["args"][1], ("encerr", k))
        bad.emit("nested_err", n, e)
        enter(st)
        I.storep(st, p, Vec(seq_cat(w.kids[0], r.enc()), w.shape[0]))
        st.emit("enc", n)
        return [Out("ret", st, MD.ok(I, ety, unit(I.prog))), Out("ret", bad, MD.err(I, ety, e))]

    def tls_read(self, n, ty, I, st, cal, args, blk, span):
        enter(st)
        rt = MD.retty(I, cal, blk)
        k, p, v = MD.reader(I, st, args[0])
        st.nfresh += 1
        kk = st.nfresh
        bad = st.copy()
        enter(bad)
        e = I.fresh(I.ty(rt)["args"][1], ("decerr", kk))
        bad.emit("nested_err", n, e)
        enter(st)
        if k == "net":
            pos = MD.netpos(st)
            val = mk("opq", (ty, ("dec", n)), (pos,))
            sz = size_v(n, val)
            st.mem[MD.NET] = add(pos, sz)
        else:
            s, pos, rem = MD.rd_remaining(I, st, k, p, v)
            val = mk("opq", (ty, ("dec", n)), (s, pos))
            if SPEC[n][0] == "rest" or SPEC[n][0] == "opt":
                sz = rem        # these extend to the end of the data
            else:
                sz = size_v(n, val)
                if not assume(st, not_(ult(rem, sz)), True):
                    return [Out("ret", bad, MD.err(I, rt, e))]
            enter(st)
            MD.rd_advance(I, st, k, p, v, sz)
        st.emit("dec", n, pos, val, sz)
        g = st.mem.get(DEC)
        if g is not None:
            st.mem[DEC] = seq_cat(g, explicit([val]))
        return [Out("ret", st, MD.ok(I, rt, val)), Out("ret", bad, MD.err(I, rt, e))]

    def new(self, n, ty, I, st, cal, args, blk, span):
        enter(st)
        rt = MD.retty(I, cal, blk)
        st.nfresh += 1
        bad = st.copy()
        enter(bad)
        e = I.fresh(I.ty(rt)["args"][1], ("newerr", st.nfresh))
        bad.emit("new_err", n, args[0], e)
        enter(st)
        v = Agg(ty, 0, [args[0]])
        st.emit("new_ok", n, args[0], v)
        return [Out("ret", st, MD.ok(I, rt, v)), Out("ret", bad, MD.err(I, rt, e))]


def adt_of(P, n):
    for i, t in enumerate(P.types):
        if t["k"] == "adt" and tname(P, i) == n:
            return i
    return None


def codec_body(cx, n, m, inst):
    """the instance of a codec function for a type"""
    P = cx.P
    got = None
    for b in P.bodies.values():
        if not b.local or not b.path.endswith("::" + m) or "TlsItem" not in b.path:
            continue
        if m == "tls_read":
            rt = P.types[b.locals[0]]
            ty = rt["args"][0] if rt.get("args") else None
        else:
            ty = P.types[b.locals[1]].get("to")
        if ty is None or tname(P, ty) != n:
            continue
        if inst is None or b.key.endswith("::<%s>" % inst):
            return b
        got = got or b
    return None


def value(I, st, P, n, key=("self",)):
    """an arbitrary value of a wire type, as the constructors leave it"""
    ty = adt_of(P, n)
    if ty is None:
        w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}[n]
        return V(key, w)
    k = SPEC[n]
    t = I.ty(ty)
    if k[0] == "fixed":
        ft = I.ty(t["variants"][0]["fields"][0]["ty"])
        if ft["k"] == "adt":
            return Agg(ty, 0, [Vec(srcslice(Src(key, (), ("int", 8)), U64(0), U64(k[1])), ft["args"][0])])
    return I.fresh(ty, key)


def run_write(cx, n, vals=None):
    b = codec_body(cx, n, "tls_write", "std::vec::Vec<u8>") or codec_body(cx, n, "tls_write", None)
    if b is None:
        cx.und("the encoder of %s exists" % n, n)
        return None
    if not b.key.endswith("::<std::vec::Vec<u8>>"):
        return run_write_net(cx, n, b, vals)
    I = cx.new()
    I.fallback = Codec(cx, n)
    st = State()
    enter(st)
    pre = srcslice(Src(("before",), (), ("int", 8)), U64(0), V(("before", "len"), 64, 0, 1 << 40))
    wl = I.alloc(st, Vec(pre, cx.P.tid("u8")))
    v = vals(I, st) if vals else value(I, st, cx.P, n)
    vl = I.alloc(st, v)
    I, outs = run(cx, b, [Ptr(vl), Ptr(wl)], I, st)
    if outs is None:
        return None
    stuck_outs(cx, I, outs, b)
    return I, b, v, pre, [(o, lambda st, wl=wl: I.memget(st, wl).kids[0]) for o in ret_outs(outs)]


OUT = ("g", "written")


def run_write_net(cx, n, b, vals):
    """only an instance for the transport exists: what is written is collected in a ghost sequence"""
    I = cx.new()
    cod = Codec(cx, n)

    def w_all(I, st, cal, args, blk, span):
        enter(st)
        try:
            k = I.loadp(st, args[0])
        except Stuck:
            return None
        s = MD.seqof(I, st, args[1])
        ety = MD.retty(I, cal, blk)
        st.nfresh += 1
        bad = st.copy()
        enter(bad)
        e = I.fresh(I.ty(ety)["args"][1], ("ioerr", st.nfresh))
        bad.emit("nested_err", "io", e)
        enter(st)
        st.mem[OUT] = seq_cat(st.mem[OUT], s)
        return [Out("ret", st, MD.ok(I, ety, unit(I.prog))), Out("ret", bad, MD.err(I, ety, e))]

    def tls_write(n2, ty, I, st, cal, args, blk, span):
        enter(st)
        ety = MD.retty(I, cal, blk)
        st.nfresh += 1
        r = Ref(I, st, args[0], n2)
        bad = st.copy()
        enter(bad)
        e = I.fresh(I.ty(ety)["args"][1], ("encerr", st.nfresh))
        bad.emit("nested_err", n2, e)
        enter(st)
        st.mem[OUT] = seq_cat(st.mem[OUT], r.enc())
        return [Out("ret", st, MD.ok(I, ety, unit(I.prog))), Out("ret", bad, MD.err(I, ety, e))]
    cod.tls_write = tls_write
    I.fallback = cod
    I.contracts["std::io::Write::write_all"] = w_all
    st = State()
    enter(st)
    pre = srcslice(Src(("before",), (), ("int", 8)), U64(0), V(("before", "len"), 64, 0, 1 << 40))
    st.mem[OUT] = pre
    v = vals(I, st) if vals else value(I, st, cx.P, n)
    vl = I.alloc(st, v)
    I, outs = run(cx, b, [Ptr(vl), I.fresh(b.locals[2], ("writer",))], I, st)
    if outs is None:
        return None
    stuck_outs(cx, I, outs, b)
    return I, b, v, pre, [(o, lambda st: st.mem[OUT]) for o in ret_outs(outs)]


def run_size(cx, n, vals=None):
    b = codec_body(cx, n, "tls_size", None)
    if b is None:
        cx.und("the size of %s exists" % n, n)
        return None
    I = cx.new()
    I.fallback = Codec(cx, n)
    st = State()
    enter(st)
    v = vals(I, st) if vals else value(I, st, cx.P, n)
    I, outs = run(cx, b, [Ptr(I.alloc(st, v))], I, st)
    if outs is None:
        return None
    stuck_outs(cx, I, outs, b)
    return I, b, v, ret_outs(outs)


def run_read(cx, n, mem=False):
    b = codec_body(cx, n, "tls_read", "&[u8]" if mem else "std::net::TcpStream")
    if b is None:
        cx.und("the decoder of %s exists" % n, n)
        return None
    I = cx.new()
    I.fallback = Codec(cx, n)
    I.contracts.update(MEMC)
    st = State()
    enter(st)
    if mem:
        p, s = bytearg(I, st, "input", 1 << 24)
        rl = I.alloc(st, p)
        rd = Ptr(rl)
        used = lambda st: sub(seq_len(s), I.ptrlen(st, I.memget(st, rl)))
    else:
        s = srcslice(MD.netsrc(), U64(0), V(("long",), 64, 1 << 63, 1 << 63))
        rd = I.fresh(b.locals[1], ("reader",))
        used = lambda st: MD.netpos(st)
    st.mem[DEC] = EMPTY()
    I, outs = run(cx, b, [rd], I, st)
    if outs is None:
        return None
    stuck_outs(cx, I, outs, b)
    return I, b, s, used, ret_outs(outs)


def bytes_at(s, pos, n):
    ps = pieces(s)
    if len(ps) == 1 and ps[0][0] == "s":
        return [src_elem(ps[0][1], add(add(ps[0][2], pos), U64(i))) for i in range(n)]
    return [seq_get(s, add(pos, U64(i))) for i in range(n)]


def be_at(s, pos, n):
    return frombytes_le(bytes_at(s, pos, n)[::-1])


def plain(v, st=None):
    """nothing of the inside of nested values occurs: only then a difference is one of format"""
    for x in srcs_of(v, set()):
        nm = x.shape[0]
        if not (isinstance(nm, tuple) and nm and nm[0] in ("enc", "encs", "before", "input", "net")):
            return False
    return True


def srcs_of(v, seen, out=None):
    out = [] if out is None else out
    if isinstance(v, T):
        return out
    if v.vid in seen:
        return out
    seen.add(v.vid)
    if v.cls == "src":
        out.append(v)
        return out
    if v.cls == "seq":
        for p in pieces(v):
            if p[0] in "sl" and isinstance(p[1], Val):
                srcs_of(p[1], seen, out)
            elif p[0] == "e":
                for x in p[1]:
                    if isinstance(x, T):
                        out.extend(y for y in term_srcs(x))
                    else:
                        srcs_of(x, seen, out)
        return out
    for k in v.kids:
        if isinstance(k, Val):
            srcs_of(k, seen, out)
    return out


def term_srcs(t, depth=0):
    out = []
    for i in support(t) | {t.id}:
        if not isinstance(i, int):
            continue
        x = byid(i)
        if x.op == "f" and x.a[0] in ("elem", "at") and isinstance(x.a[1], Val) and x.a[1].cls == "src":
            out.append(x.a[1])
    return out


def cmp(cx, I, st, name, got, want, at, nested):
    """nested: the type has parts of its own; then an unfamiliar way of producing them is not judged"""
    r = vsame(I, st, got, want)
    if r is False and nested and isinstance(got, Val) and not plain(got):
        r = None
    if r is False and nested and isinstance(got, T) and any(True for _ in term_srcs(got)):
        r = None
    cx.ob(name, r, at, "" if r is True else "found %s, specified %s" % (showv(got)[:250], showv(want)[:250]))
    return r


def ref_enc(I, P, n, v):
    """reference encoding and size of a value of a type, its parts uninterpreted: (sequence, size)"""
    k = SPEC[n]
    if k[0] == "int":
        return explicit(be_bytes(v)), U64(k[1])
    if k[0] == "fixed":
        s = I.asseq(v.kids[0])
        return s, U64(k[1])
    if k[0] == "struct":
        out, sz = EMPTY(), U64(0)
        for f, t in k[1]:
            x = field(I, v, f)
            if SPEC[t][0] == "int":
                e, z = ref_enc(I, P, t, x)
            else:
                e, z = enc_v(t, x), size_v(t, x)
            out, sz = seq_cat(out, e), add(sz, z)
        return out, sz
    if k[0] == "vec":
        items = I.asseq(v.kids[0])
        src = pieces(items)[0][1]
        cnt = seq_len(items)
        it = k[1]
        pl = plen_of(k[3])
        if SPEC[it][0] == "int":
            total, body = cnt, items
        else:
            c = csize(it)
            total = mul(U64(c), cnt) if c is not None else off(src, cnt)
            body = srcslice(Src(("encs", it), (src,), ("int", 8)), U64(0), total)
        return seq_cat(explicit(be_bytes(total)[-pl:]), body), add(U64(pl), total)
    if k[0] == "rest":
        s = I.asseq(v.kids[0])
        return s, seq_len(s)
    if k[0] == "empty":
        return EMPTY(), U64(0)
    raise KeyError(n)


def nested_type(n):
    k = SPEC[n]
    return k[0] in ("struct", "opt", "ext", "hs", "tag") or (k[0] == "vec" and SPEC[k[1]][0] != "int")


def typ_present(cx, n):
    if SPEC[n][0] != "int" and adt_of(cx.P, n) is None:
        cx.und("%s is a type of the program" % n, n)
        return False
    return True


def enum_values(I, P, n):
    """(name, value) of the C-like variants"""
    ty = adt_of(P, n)
    return [(v["name"], i, int(v["discr"])) for i, v in enumerate(I.ty(ty)["variants"])], ty


# ---------------------------------------------------------------- W01
def w01(cx):
    for n in SPEC:
        k = SPEC[n][0]
        if not typ_present(cx, n):
            continue
        cx.count("wire_types")
        if k in ("int", "fixed", "struct", "vec", "rest", "empty"):
            w01_simple(cx, n)
        elif k == "enum" or k == "suite":
            w01_enum(cx, n)
        else:
            w01_variants(cx, n)
        w01_read(cx, n)


def w01_simple(cx, n):
    nest = nested_type(n)
    r = run_write(cx, n)
    if r:
        I, b, v, pre, outs = r
        nok = 0
        for o, content in outs:
            enter(o.st)
            g = is_ok(I, o.val)
            at = short(b.key)
            if g is True:
                nok += 1
                want, sz = ref_enc(I, cx.P, n, v)
                cmp(cx, I, o.st, "the encoder of %s writes its fields in order, in network byte order" % n, content(o.st), seq_cat(pre, want), at, nest)
            elif g is False:
                if not failed(o.st):
                    cx.viol("every value of %s is encodable" % n, at, facts(o.st))
            else:
                cx.und("the outcome of encoding %s is known" % n, at)
        if not nok:
            cx.absent(I, "%s can be encoded" % n, short(b.key))
    r = run_size(cx, n)
    if r:
        I, b, v, outs = r
        for o in outs:
            enter(o.st)
            want, sz = ref_enc(I, cx.P, n, v)
            cmp(cx, I, o.st, "the size of %s is the number of bytes written" % n, o.val, sz, short(b.key), nest)


def failed(st):
    return any(e[0] in ("nested_err", "net_fillerr", "new_err", "net_err", "net_werr") for e in st.events()) or any(e[0].endswith("err") for e in st.events())


def w01_enum(cx, n):
    k = SPEC[n]
    w = 2 if k[0] == "suite" else k[1]
    I0 = cx.new()
    vs, ty = enum_values(I0, cx.P, n)
    tab = CODES.get(n.split("::")[-1], {})
    for name, i, d in vs:
        num = tab.get(name)
        if k[0] == "suite" and num is None:
            num = None
        mkv = lambda I, st, i=i: Agg(ty, i, ())
        r = run_write(cx, n, mkv)
        if r:
            I, b, v, pre, outs = r
            for o, content in outs:
                enter(o.st)
                g = is_ok(I, o.val)
                if g is True and num is not None:
                    cmp(cx, I, o.st, "the encoder of %s writes the registered number" % n, content(o.st), seq_cat(pre, explicit(be_bytes(C(num, 8 * w)))), short(b.key), False)
                elif g is True:
                    cmp(cx, I, o.st, "the encoder of %s writes a number of its width" % n, seq_len(content(o.st)), add(seq_len(pre), U64(w)), short(b.key), False)
                elif g is False and not failed(o.st) and num is not None:
                    cx.viol("every registered value of %s is encodable" % n, short(b.key), name)
    r = run_size(cx, n)
    if r:
        I, b, v, outs = r
        for o in outs:
            enter(o.st)
            cmp(cx, I, o.st, "the size of %s is the number of bytes written" % n, o.val, U64(w), short(b.key), False)


def variants(cx, n):
    """(variant name, index, payload type, tag bytes(I, v), tail) of the tagged types"""
    k = SPEC[n]
    ty = adt_of(cx.P, n)
    out = []
    for i, v in enumerate(cx.P.types[ty]["variants"]):
        out.append((v["name"], i, [f["ty"] for f in v["fields"]]))
    return ty, out


def tagref(I, P, n, name, v):
    """reference encoding of one variant"""
    k = SPEC[n]
    if k[0] == "opt":
        if name == "None":
            return EMPTY(), U64(0)
        return enc_v(k[1], v.kids[0]), size_v(k[1], v.kids[0])
    if k[0] == "ext":
        num = CODES["Extension"].get(name)
        if num is None:
            d = I.asseq(v.kids[1])
            return seq_cat(explicit(be_bytes(v.kids[0])), explicit(be_bytes(seq_len(d))[-2:]), d), add(U64(4), seq_len(d))
        t = k[1][name]
        z = size_v(t, v.kids[0])
        return seq_cat(explicit(be_bytes(C(num, 16)) + be_bytes(z)[-2:]), enc_v(t, v.kids[0])), add(U64(4), z)
    if k[0] == "hs":
        num = CODES["Handshake"][name]
        t = k[1][name]
        z = size_v(t, v.kids[0])
        return seq_cat(explicit([U8(num)] + be_bytes(z)[-3:]), enc_v(t, v.kids[0])), add(U64(4), z)
    if k[0] == "tag":
        num, t = k[2][name]
        z = size_v(t, v.kids[0])
        return seq_cat(explicit(be_bytes(C(num, 8 * k[1]))), enc_v(t, v.kids[0])), add(U64(k[1]), z)


def w01_variants(cx, n):
    ty, vs = variants(cx, n)
    I0 = cx.new()
    for name, i, fs in vs:
        def mkv(I, st, i=i, fs=fs, name=name):
            out = []
            for j, f in enumerate(fs):
                t = I.ty(f)
                if t["k"] == "adt" and tname(cx.P, f) in SPEC:
                    # a part: nothing is known about it
                    out.append(mk("opq", (f, ("part", n, name)), ()))
                else:
                    out.append(I.fresh(f, ("self", name, j)))
            return Agg(ty, i, out)
        try:
            tagref(I0, cx.P, n, name, mkv(I0, State()))
        except (KeyError, TypeError):
            cx.und("the format of %s::%s is specified" % (n, name), n)
            continue
        r = run_write(cx, n, mkv)
        if r:
            I, b, v, pre, outs = r
            nok = 0
            for o, content in outs:
                enter(o.st)
                g = is_ok(I, o.val)
                if g is True:
                    nok += 1
                    want, sz = tagref(I, cx.P, n, name, v)
                    cmp(cx, I, o.st, "the encoder of %s::%s writes tag, length and body" % (n, name), content(o.st), seq_cat(pre, want), short(b.key), True)
                elif g is False and not failed(o.st):
                    cx.viol("every value of %s is encodable" % n, short(b.key), name)
                elif g is None:
                    cx.und("the outcome of encoding %s is known" % n, short(b.key))
            if not nok:
                cx.absent(I, "%s::%s can be encoded" % (n, name), short(b.key))
        r = run_size(cx, n, mkv)
        if r:
            I, b, v, outs = r
            for o in outs:
                enter(o.st)
                want, sz = tagref(I, cx.P, n, name, v)
                cmp(cx, I, o.st, "the size of %s::%s is the number of bytes written" % (n, name), o.val, sz, short(b.key), True)


# -- decoders
def w01_read(cx, n):
    k = SPEC[n]
    mem = k[0] in ("opt", "rest", "hs")
    r = run_read(cx, n, mem)
    if r is None:
        return
    I, b, s, used, outs = r
    at = short(b.key)
    nok = 0
    for o in outs:
        enter(o.st)
        g = is_ok(I, o.val)
        if g is None:
            cx.und("the outcome of decoding %s is known" % n, at, showv(o.val)[:100])
            continue
        if g is False:
            check_reject(cx, I, n, o, s, used, at)
            continue
        nok += 1
        check_decoded(cx, I, n, o, s, used, at)
    if not nok:
        cx.absent(I, "%s can be decoded" % n, at)


def check_decoded(cx, I, n, o, s, used, at):
    k = SPEC[n]
    st = o.st
    v = o.val.kids[0]
    decs = [e for e in st.events() if e[0] == "dec"]
    nm = "decoding %s gives the fields in wire order" % n
    cons = "decoding %s consumes exactly its encoding" % n
    if k[0] == "int":
        cmp(cx, I, st, nm, v, be_at(s, U64(0), k[1]), at, False)
        cmp(cx, I, st, cons, used(st), U64(k[1]), at, False)
    elif k[0] == "fixed":
        cmp(cx, I, st, nm, I.asseq(v.kids[0]), seq_slice(s, U64(0), U64(k[1])), at, False)
        cmp(cx, I, st, cons, used(st), U64(k[1]), at, False)
    elif k[0] == "rest":
        cmp(cx, I, st, nm, I.asseq(v.kids[0]), s, at, False)
    elif k[0] == "empty":
        cmp(cx, I, st, cons, used(st), U64(0), at, False)
    elif k[0] == "struct":
        pos = U64(0)
        want_types = sorted(t for f, t in k[1] if SPEC[t][0] != "int")
        same_types = sorted(e[1] for e in decs) == want_types
        for f, t in k[1]:
            x = field(I, v, f)
            if SPEC[t][0] == "int":
                cmp(cx, I, st, nm, x, be_at(s, pos, SPEC[t][1]), at, False)
                pos = add(pos, U64(SPEC[t][1]))
                continue
            hit = [e for e in decs if e[1] == t and TT.same(e[2], pos)]
            if len(hit) != 1:
                cx.ob(nm, False if same_types else None, at, "field %s: %s" % (f, [(e[1], show(e[2])[:60]) for e in decs]))
                return
            if x is not hit[0][3]:
                cx.ob(nm, False if any(x is e[3] for e in decs) else None, at, "field %s holds %s" % (f, showv(x)[:150]))
                return
            cx.ob(nm, True, at)
            pos = add(pos, hit[0][4])
        cmp(cx, I, st, cons, used(st), pos, at, True)
    elif k[0] == "enum":
        num = be_at(s, U64(0), k[1])
        cmp(cx, I, st, cons, used(st), U64(k[1]), at, False)
        d = discr_term(I, st, v)
        if d is None:
            cx.und(nm, at, showv(v)[:100])
        else:
            same_num(cx, I, st, "decoding %s gives the value with the number read" % n, d, num, at)
    elif k[0] == "suite":
        cmp(cx, I, st, cons, used(st), U64(2), at, False)
        num = be_at(s, U64(0), 2)
        nme = enumname(I, st, v)
        tab = CODES["CipherSuite"]
        if nme is None:
            cx.und(nm, at, showv(v)[:100])
        elif nme in tab:
            check_implies(cx, st, "decoding %s gives the suite with the number read" % n, [eq(num, C(tab[nme], 16))], at)
        else:
            for x, y in tab.items():
                check_implies(cx, st, "only unregistered numbers decode to an unknown suite", [not_(eq(num, C(y, 16)))], at)
    elif k[0] == "vec":
        pl = plen_of(k[3])
        total = zext(be_at(s, U64(0), pl), 64)
        if SPEC[k[1]][0] == "int":
            want = seq_slice(s, U64(pl), total)
        else:
            want = st.mem[DEC]
        items = vec_items(I, v)
        if items is None:
            cx.und(nm, at, showv(v)[:150])
            return
        r = vsame(I, st, items, want)
        if r is not True and SPEC[k[1]][0] != "int":
            r = None if r is None or not same_shape(items, want) else r
        cx.ob("decoding %s gives the items in wire order" % n, r, at, "" if r is True else "found %s, specified %s" % (showv(items)[:200], showv(want)[:200]))
        cmp(cx, I, st, cons, used(st), add(U64(pl), total), at, False)
    elif k[0] == "opt":
        nme = I.ty(v.shape[0])["variants"][v.shape[1]]["name"] if v.cls == "agg" else None
        if nme == "None":
            check_implies(cx, st, "a missing optional part decodes to nothing", [eq(seq_len(s), U64(0))], at)
        elif nme == "Some":
            hit = [e for e in decs if e[1] == k[1]]
            ok = len(hit) == 1 and v.kids[0] is hit[0][3]
            cx.ob(nm, True if ok else None, at, showv(v)[:100])
            if ok:
                cx.ob("the optional part is decoded from the data at hand", whole(hit[0], s), at, showv(hit[0][3])[:200])
        else:
            cx.und(nm, at)
    elif k[0] in ("tag", "hs", "ext"):
        check_tagged(cx, I, n, o, s, used, at, decs)


def whole(e, s):
    """the nested decoding starts at the beginning of this data"""
    v = e[3]
    if len(v.kids) == 2:
        return True if v.kids[0] is s and v.kids[1].op == "c" and v.kids[1].a == 0 else None
    return None


def same_shape(a, b):
    """both are plain lists: their difference is meaningful"""
    return all(p[0] == "e" for p in pieces(a)) and all(p[0] == "e" for p in pieces(b))


def vec_items(I, v):
    if v.cls == "agg" and v.kids and isinstance(v.kids[0], Val) and v.kids[0].cls == "vec":
        return v.kids[0].kids[0]
    return None


def discr_term(I, st, v):
    if v.cls == "agg":
        t = I.ty(v.shape[0])
        return C(int(t["variants"][v.shape[1]]["discr"]), 64)
    if v.cls == "enum":
        return v.kids[0]
    return None


def same_num(cx, I, st, name, d, num, at):
    d, num = cast(d, 64), cast(num, 64)
    if TT.same(d, num) or decide(st, eq(d, num), 3) is True:
        return cx.ob(name, True, at)
    return check_implies(cx, st, name, [eq(d, num)], at)


def check_tagged(cx, I, n, o, s, used, at, decs):
    k = SPEC[n]
    st = o.st
    v = o.val.kids[0]
    if v.cls != "agg":
        cx.und("decoding %s gives a known variant" % n, at, showv(v)[:100])
        return
    name = I.ty(v.shape[0])["variants"][v.shape[1]]["name"]
    tl = {"hs": 1, "ext": 2}.get(k[0]) or k[1]
    num = be_at(s, U64(0), tl)
    if k[0] == "tag":
        spec = k[2].get(name)
        want, t = spec if spec else (None, None)
        hd = tl
    else:
        want = CODES["Handshake" if k[0] == "hs" else "Extension"].get(name)
        t = k[1].get(name)
        hd = 4
    if want is None and k[0] == "ext":
        for x, y in CODES["Extension"].items():
            check_implies(cx, st, "a known extension is decoded as such", [not_(eq(num, C(y, 16)))], at)
        ln = zext(be_at(s, U64(2), 2), 64)
        cmp(cx, I, st, "an unknown extension keeps its number", v.kids[0], num, at, False)
        cmp(cx, I, st, "an unknown extension keeps its data", I.asseq(v.kids[1]), seq_slice(s, U64(4), ln), at, False)
        cmp(cx, I, st, "decoding %s consumes exactly its encoding" % n, used(st), add(U64(4), ln), at, False)
        return
    if want is None:
        cx.und("the format of %s::%s is specified" % (n, name), at)
        return
    check_implies(cx, st, "%s::%s is decoded from its registered number only" % (n, name), [eq(num, C(want, 8 * tl))], at)
    nm = "the number selects the decoder of %s" % n
    if SPEC[t][0] == "int":
        return
    hit = [e for e in decs if e[1] == t]
    if len(hit) != 1 or len(decs) != 1:
        cx.ob(nm, False if decs and not hit else None, at, "%s: %s" % (name, [e[1] for e in decs]))
        return
    cx.ob(nm, v.kids[0] is hit[0][3] or None, at, showv(v)[:100])
    start = body_start(hit[0], s)
    cmp(cx, I, st, "the body of %s follows the header" % n, start, U64(hd), at, False)
    if k[0] == "ext":
        ln = zext(be_at(s, U64(2), 2), 64)
        check_implies(cx, st, "an extension fills its announced length exactly", [eq(ln, size_v(t, hit[0][3]))], at)
    if k[0] == "hs":
        check_implies(cx, st, "a handshake message is consumed completely", [eq(used(st), seq_len(s))], at)
    else:
        cmp(cx, I, st, "decoding %s consumes exactly its encoding" % n, used(st), add(U64(hd), hit[0][4]), at, True)


def body_start(e, s):
    """where a nested decoding starts (in memory, positions are relative to the rest)"""
    v = e[3]
    if len(v.kids) == 2:
        return add(sub(seq_len(s), seq_len(v.kids[0])), v.kids[1])
    return e[2]


def check_reject(cx, I, n, o, s, used, at):
    """every rejection has a reason"""
    k = SPEC[n]
    st = o.st
    if failed(st):
        return
    nm = "%s rejects only malformed input" % n
    if k[0] in ("int", "fixed", "struct", "empty", "rest", "suite"):
        cx.viol(nm, at, "an error without a cause: " + facts(st)[:200])
        return
    kd = errkind(I, st, o.val)
    if k[0] == "enum":
        num = be_at(s, U64(0), k[1])
        for x, y in CODES[n.split("::")[-1]].items():
            check_implies(cx, st, "%s rejects only unregistered numbers" % n, [not_(eq(num, C(y, 8 * k[1])))], at)
        cx.ob("an unregistered number of %s is a decode error" % n, None if kd is None else kd == "DecodeError", at, str(kd))
    elif k[0] == "vec":
        pl = plen_of(k[3])
        total = zext(be_at(s, U64(0), pl), 64)
        check_implies(cx, st, "%s rejects only contents that do not fill the announced length" % n, [not_(eq(used(st), add(U64(pl), total)))], at)
        cx.ob("a wrong length of %s is a decode error" % n, None if kd is None else kd == "DecodeError", at, str(kd))
    elif k[0] == "opt":
        check_implies(cx, st, "only trailing bytes make %s fail" % n, [ult(U64(0), seq_len(s))], at)
        cx.ob("trailing bytes after %s are a decode error" % n, None if kd is None else kd == "DecodeError", at, str(kd))
    elif k[0] in ("tag", "ext", "hs"):
        tl = {"hs": 1, "ext": 2}.get(k[0]) or k[1]
        num = be_at(s, U64(0), tl)
        decs = [e for e in st.events() if e[0] == "dec"]
        if k[0] == "ext":
            if not decs:
                cx.viol(nm, at, facts(st)[:200])
                return
            ln = zext(be_at(s, U64(2), 2), 64)
            check_implies(cx, st, "an extension is rejected only for a wrong length", [not_(eq(ln, decs[0][4]))], at)
            cx.ob("a wrong length of an extension is a decode error", None if kd is None else kd == "DecodeError", at, str(kd))
            return
        if decs and k[0] == "hs":
            check_implies(cx, st, "a decoded message is rejected only for trailing bytes", [not_(eq(add(body_start(decs[0], s), decs[0][4]), seq_len(s)))], at)
            return
        tab = CODES["Handshake"].values() if k[0] == "hs" else [x for x, t in k[2].values()]
        for y in tab:
            check_implies(cx, st, "%s rejects only unknown numbers" % n, [not_(eq(num, C(y, 8 * tl)))], at)


# ---------------------------------------------------------------- W02
def w02(cx):
    P = cx.P
    for n, k in SPEC.items():
        if k[0] != "vec" or not typ_present(cx, n):
            continue
        cx.count("vector_types")
        it, mn, mx = k[1], k[2], k[3]
        bs = [b for b in P.find(n + "::new") if b.argc == 1]
        if not bs:
            cx.und("the constructor of %s exists" % n, n)
        else:
            b = bs[0]
            I = cx.new()
            cod = Codec(cx, n)
            I.fallback = cod
            st = State()
            enter(st)
            arg = I.fresh(b.locals[1], ("items",))
            seq = I.asseq(arg)
            src, cnt = pieces(seq)[0][1], seq_len(seq)
            c = csize(it)
            I, outs = run(cx, b, [arg], I, st)
            if outs is not None:
                stuck_outs(cx, I, outs, b)
                tot = mul(U64(c), cnt) if c is not None else off(src, cnt)
                at = b.path
                nok = 0
                for o in ret_outs(outs):
                    enter(o.st)
                    if c is not None and not assume(o.st, ult(cnt, U64(1 << 32)), True):
                        continue
                    enter(o.st)
                    g = is_ok(I, o.val)
                    if g is True:
                        nok += 1
                        if mn:
                            check_implies(cx, o.st, "%s is never shorter than %d bytes" % (n, mn), [not_(ult(tot, U64(mn)))], at)
                        check_implies(cx, o.st, "%s is never longer than %d bytes" % (n, mx), [ult(tot, U64(mx + 1))], at)
                        its = vec_items(I, o.val.kids[0])
                        if its is None:
                            cx.und("%s holds the items given" % n, at)
                        else:
                            check_same(cx, I, o.st, "%s holds the items given" % n, its, seq, at)
                    elif g is False:
                        dis = [ult(U64(mx), tot)] + ([ult(tot, U64(mn))] if mn else [])
                        check_implies(cx, o.st, "%s of a legal size are accepted" % n, dis, at)
                        kd = errkind(I, o.st, o.val)
                        cx.ob("a size violation of %s is a decode error" % n, None if kd is None else kd == "DecodeError", at, str(kd))
                    else:
                        cx.und("the outcome of constructing %s is known" % n, at)
                if not nok:
                    cx.absent(I, "%s can be constructed" % n, b.path)
        # decoding
        r = run_read(cx, n)
        if r is None:
            continue
        I, b, s, used, outs = r
        at = short(b.key)
        pl = plen_of(mx)
        for o in outs:
            enter(o.st)
            g = is_ok(I, o.val)
            total = zext(be_at(s, U64(0), pl), 64)
            if g is True:
                cmp(cx, I, o.st, "%s has a %d-byte length and fills it exactly" % (n, pl), used(o.st), add(U64(pl), total), at, False)
                news = [e for e in o.st.events() if e[0] == "new_ok" and e[1] == n]
                if news:
                    cx.ob("a decoded %s passed the size check" % n, o.val.kids[0] is news[-1][3] or None, at)
                else:
                    if mn:
                        check_implies(cx, o.st, "a decoded %s is not shorter than %d bytes" % (n, mn), [not_(ult(total, U64(mn)))], at)
                    if mx != (1 << (8 * pl)) - 1:
                        check_implies(cx, o.st, "a decoded %s is not longer than %d bytes" % (n, mx), [ult(total, U64(mx + 1))], at)
            elif g is False:
                check_reject(cx, I, n, o, s, used, at)
                if any(e[0] == "new_err" for e in o.st.events()):
                    e = [e for e in o.st.events() if e[0] == "new_err"][-1]
                    x = o.val.kids[0] if o.val.kids else None
                    cx.ob("the error of the size check is passed on", True if x is e[3] else None, at)
        # encoding: length prefix
        r = run_write(cx, n)
        if r:
            I, b, v, pre, outs = r
            for o, content in outs:
                enter(o.st)
                if is_ok(I, o.val) is True:
                    want, sz = ref_enc(I, P, n, v)
                    try:
                        got = seq_slice(content(o.st), seq_len(pre), U64(pl))
                    except Undecided:
                        cx.und("%s is written with a %d-byte length" % (n, pl), short(b.key))
                        continue
                    cmp(cx, I, o.st, "%s is written with a %d-byte length" % (n, pl), got, explicit([seq_get(want, U64(i)) for i in range(pl)]), short(b.key), False)
    # extensions are vectors inside a length of their own
    if typ_present(cx, H + "Extension"):
        r = run_read(cx, H + "Extension")
        if r:
            I, b, s, used, outs = r
            for o in outs:
                enter(o.st)
                g = is_ok(I, o.val)
                if g is True:
                    check_tagged(cx, I, H + "Extension", o, s, used, short(b.key), [e for e in o.st.events() if e[0] == "dec"])
                elif g is False:
                    check_reject(cx, I, H + "Extension", o, s, used, short(b.key))


# ---------------------------------------------------------------- W03
def w03(cx):
    P = cx.P
    I0 = cx.new()
    for short_, tab in CODES.items():
        tys = [i for i, t in enumerate(P.types) if t["k"] == "adt" and t.get("local") and t["path"].split("::")[-1] == short_]
        if short_ == "ECCurveType":
            continue
        if not tys:
            cx.und("%s exists" % short_, short_)
            continue
        t = P.types[tys[0]]
        clike = all(not v["fields"] for v in t["variants"])
        for v in t["variants"]:
            num = tab.get(v["name"])
            if clike and num is not None and short_ != "CipherSuite":
                cx.ob("%s has the registered numbers" % short_, int(v["discr"]) == num, "%s::%s" % (t["path"], v["name"]), "%s is %s, registered %d" % (v["name"], v["discr"], num))
            elif num is None and short_ not in ("CipherSuite", "Extension"):
                cx.und("the registered number of %s::%s is known" % (short_, v["name"]), t["path"])
        cx.count("enumerations")
        # number -> value conversions
        for m in ("from_u64", "from_i64"):
            for b in P.bodies.values():
                if not b.local or not b.path.endswith("::" + m) or "FromPrimitive" not in b.path:
                    continue
                rt = P.types[b.locals[0]]
                if rt["k"] != "adt" or not rt.get("args") or rt["args"][0] != tys[0]:
                    continue
                conv(cx, b, short_, tab, m == "from_i64")
                break
    for n in SPEC:
        k = SPEC[n][0]
        if k in ("enum", "suite", "ext", "hs", "tag") and typ_present(cx, n):
            if k in ("enum", "suite"):
                w01_enum(cx, n)
            else:
                w01_variants(cx, n)
            w01_read(cx, n)


def conv(cx, b, short_, tab, signed):
    I = cx.new()
    st = State()
    enter(st)
    x = V(("number",), 64)
    I, outs = run(cx, b, [x], I, st)
    if outs is None:
        return
    stuck_outs(cx, I, outs, b)
    at = b.path
    for o in ret_outs(outs):
        enter(o.st)
        g = is_ok(I, o.val)
        if g is True:
            d = discr_term(I, o.st, o.val.kids[0])
            if d is None:
                cx.und("a number is converted to the value with that number", at)
            else:
                same_num(cx, I, o.st, "a number is converted to the value of %s with that number" % short_, d, x, at)
        elif g is False:
            for nme, y in tab.items():
                check_implies(cx, o.st, "only unregistered numbers are not converted to %s" % short_, [not_(eq(x, C(y, 64)))], at)
        else:
            v = o.val
            cx.und("the outcome of converting to %s is known" % short_, at, showv(v)[:100])


# ---------------------------------------------------------------- W04
def w04(cx):
    P = cx.P
    for n in ("Option<handshake::ExtensionVec>", H + "Handshake"):
        if not typ_present(cx, n):
            continue
        r = run_read(cx, n, True)
        if r is None:
            continue
        I, b, s, used, outs = r
        at = short(b.key)
        nok = 0
        for o in outs:
            enter(o.st)
            g = is_ok(I, o.val)
            if g is True:
                nok += 1
                check_decoded(cx, I, n, o, s, used, at)
                if SPEC[n][0] == "opt":
                    v = o.val.kids[0]
                    decs = [e for e in o.st.events() if e[0] == "dec"]
                    if decs:
                        check_implies(cx, o.st, "no bytes are left after the optional part", [eq(decs[0][4], seq_len(s))], at)
                    cmp(cx, I, o.st, "the optional part extends to the end", used(o.st), seq_len(s), at, True)
            elif g is False:
                check_reject(cx, I, n, o, s, used, at)
            else:
                cx.und("the outcome of decoding %s is known" % n, at)
        if not nok:
            cx.absent(I, "%s can be decoded" % n, at)
    # structures whose last part is delimited by the message: all other parts are exact (each structure's consumption)
    for n, k in SPEC.items():
        if k[0] in ("struct", "fixed", "vec", "tag", "rest", "empty", "ext") and typ_present(cx, n):
            mem = k[0] == "rest"
            r = run_read(cx, n, mem)
            if r is None:
                continue
            I, b, s, used, outs = r
            for o in outs:
                enter(o.st)
                if is_ok(I, o.val) is True:
                    bad = [e for e in o.st.events() if e[0] in ("nested_err", "net_fillerr", "new_err")]
                    cx.ob("truncated or malformed input never yields a value of %s" % n, not bad, short(b.key), str([e[0] for e in bad]))
                    check_decoded(cx, I, n, o, s, used, short(b.key))
    message_errors(cx)
    import rules.kex as KX
    c2 = Sub(cx, ("the parameters are completely consumed", "malformed parameters are decode errors"))
    KX.c09(c2)


class Sub:
    """a view of a check that keeps only some obligations of another rule"""

    def __init__(self, cx, names):
        self.__dict__.update(cx=cx, names=names)

    def __getattr__(self, a):
        return getattr(self.cx, a)

    def ob(self, name, ok, where="", detail=""):
        if name in self.names or ok is None and "analysable" in name:
            return self.cx.ob(name, ok, where, detail)
        return ok

    def viol(self, name, where, detail=""):
        self.ob(name, False, where, detail)

    def und(self, name, where="", detail=""):
        self.ob(name, None, where, detail)

    def absent(self, I, name, where, detail=""):
        pass


def message_errors(cx):
    """get_message: a message that does not decode is an error, and not one of the transport"""
    b = body(cx, "handshake::HandshakeBuffer::get_message")
    if b is None:
        return
    I = cx.new()
    I.contracts.update(MEMC)
    cod = Codec(cx, "")
    I.fallback = cod
    I, outs = run(cx, b, None, I)
    if outs is None:
        return
    stuck_outs(cx, I, outs, b)
    n = 0
    for o in ret_outs(outs):
        enter(o.st)
        bad = [e for e in o.st.events() if e[0] == "nested_err"]
        g = is_ok(I, o.val)
        if bad:
            n += 1
            cx.ob("a message that does not decode is an error", None if g is None else g is False, b.path)
            if g is False:
                kd = errkind(I, o.st, o.val)
                e = o.val.kids[0]
                if kd is not None:
                    cx.ob("running out of data is not a transport failure", kd != "IoFailure", b.path, kd)
                else:
                    from rules.client import kinds_of
                    ks = kinds_of(I, o.st, e)
                    cx.ob("running out of data is not a transport failure", None if ks is None else all(x[0] != "IoFailure" for x in ks), b.path, str([x[0] for x in ks or []]))
        elif g is False:
            cx.und("only a message that does not decode is an error", b.path)
    if not n:
        cx.absent(I, "decoding a message can fail", b.path)


# ---------------------------------------------------------------- W07
def w07(cx):
    n = H + "Handshake"
    if not typ_present(cx, n):
        return
    w01_variants(cx, n)
    w01_read(cx, n)
    import rules.reader as RDR
    RDR.r08_buffer(cx)


# ---------------------------------------------------------------- sizes the handshake rests on
def fixed_sizes(cx, names):
    """values of these types have their size however they come about"""
    for n in names:
        full = H + n
        if full not in SPEC or not typ_present(cx, full):
            cx.und("the type %s exists" % n, full)
            continue
        want = U64(SPEC[full][1])
        name = "every %s has %d bytes" % (n, SPEC[full][1])
        for mem in (True, False):
            r = run_read(cx, full, mem)
            if r is None:
                continue
            I, b, s, used, outs = r
            for o in outs:
                enter(o.st)
                if is_ok(I, o.val) is True:
                    fixed_len(cx, I, o, name, want, b.path)
        bs = [b for b in cx.P.find(full + "::new") if b.argc == 1]
        if not bs:
            cx.und("the constructor of %s exists" % n, full)
            continue
        I = cx.new()
        st = State()
        enter(st)
        I, outs = run(cx, bs[0], [I.fresh(bs[0].locals[1], ("items",))], I, st)
        if outs is None:
            continue
        stuck_outs(cx, I, outs, bs[0])
        for o in ret_outs(outs):
            enter(o.st)
            if is_ok(I, o.val) is True:
                fixed_len(cx, I, o, name, want, bs[0].path)


def fixed_len(cx, I, o, name, want, at):
    try:
        v = I.asseq(o.val.kids[0].kids[0])
        n = seq_len(v)
    except (Stuck, Undecided, AttributeError, IndexError):
        cx.und(name, at, showv(o.val)[:200])
        return
    check_implies(cx, o.st, name, [eq(n, want)], at)
