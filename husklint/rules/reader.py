"""read_message and the handshake reassembly buffer (src/tls.rs, src/handshake.rs)."""
from rules.lib import *
from rules.record import *
from rules.codes import CODES

RECEV = ("rec", "rec_err", "hs_none", "hs_msg", "hs_err")


class Seg:
    """what happens between entry or a loop header and the end of the call or a loop header"""
    __slots__ = ("st", "ev", "out", "entry", "loop")

    def __init__(self, st, ev, out, entry, loop):
        self.st, self.ev, self.out, self.entry, self.loop = st, ev, out, entry, loop


def segments(outs, kinds=RECEV):
    res = []
    seen = set()

    def put(st, ev, out, entry, loop):
        key = (tuple(id(e) for e in ev), id(out), entry, id(loop))
        if key in seen:
            return
        seen.add(key)
        res.append(Seg(st, ev, out, entry, loop))

    done = set()

    def walk(st, out, base):
        cur, entry = [], base is None
        skip = base is not None
        loop = base
        for e in st.events():
            if e[0] == "loop":
                info = e[1]
                if skip:
                    if info is base:
                        skip = False
                        cur = []
                    continue
                put(st, cur, None, entry, loop)
                cur, entry, loop = [], False, info
                if id(info) not in done:
                    done.add(id(info))
                    for s in info.backs:
                        walk(s, None, info)
            elif not skip and e[0] in kinds:
                cur.append(e)
        put(st, cur, out, entry, loop)
    for o in outs:
        walk(o.st, o, None)
    return res


def msgname(I, v):
    """variant of the Message inside Ok"""
    m = v.kids[0]
    return I.ty(m.shape[0])["variants"][m.shape[1]]["name"] if m.cls == "agg" else None


def notin(t, codes):
    r = TRUE()
    for c in codes:
        r = and_(r, not_(eq(t, C(c, t.w))))
    return r


def TRUE():
    return eq(U8(0), U8(0))


def discr8(I, st, v):
    enter(st)
    return cast(I.discr(st, v), 8) if isinstance(v, Val) else cast(v, 8)


def byte(seq, i):
    return seq_get(seq, U64(i))


def r07(cx):
    for empty in (True, False):
        r = run_read_message(cx, True, empty)
        if not r:
            continue
        I, b, outs, rd, n = r
        okn = set()
        for g in segments(outs):
            st = g.st
            enter(st)
            recs = [e for e in g.ev if e[0] == "rec"]
            last = g.ev[-1] if g.ev else None
            for e in recs:
                ended = g.out is not None and e is last
                if e[2] == "HandshakeTy" and not (ended and is_ok(I, g.out.val) is False):
                    check_implies(cx, st, "an empty handshake record is rejected", [ult(U64(0), seq_len(e[3]))], b.path)
                if e[2] != "HandshakeTy" and not ended:
                    cx.viol("no record is skipped silently", b.path, "a %s record is passed over" % e[2])
            if g.out is None:
                continue
            o = g.out
            good = is_ok(I, o.val)
            if good is True:
                m = msgname(I, o.val)
                if m is None or last is None:
                    cx.und("the kind of message returned is known", b.path, showv(o.val)[:200])
                    continue
                okn.add(m)
                want = {"ChangeCipherSpecMessage": "ChangeCipherSpecTy", "AlertMessage": "AlertTy", "ApplicationDataMessage": "ApplicationDataTy"}.get(m)
                if want is None:
                    cx.ob("a handshake message comes from the reassembly buffer", last[0] == "hs_msg", b.path, str(last[:3]))
                    continue
                if last[0] != "rec" or last[2] != want:
                    cx.viol("a %s stems from a %s record" % (m, want), b.path, "last event %s" % (last[:3],))
                    continue
                d = last[3]
                if m == "ChangeCipherSpecMessage":
                    check_implies(cx, st, "ChangeCipherSpec is accepted only with one byte", [eq(seq_len(d), U64(1))], b.path)
                    check_implies(cx, st, "ChangeCipherSpec is accepted only with the byte 1", [eq(byte(d, 0), U8(1))], b.path)
                elif m == "AlertMessage":
                    check_implies(cx, st, "an alert is accepted only with two bytes", [not_(ult(seq_len(d), U64(2)))], b.path)
                    al = o.val.kids[0].kids[0]
                    check_same(cx, I, st, "the reported level is the first byte", discr8(I, st, field(I, al, "level")), byte(d, 0), b.path)
                    check_same(cx, I, st, "the reported description is the second byte", discr8(I, st, field(I, al, "description")), byte(d, 1), b.path)
                else:
                    check_same(cx, I, st, "application data is passed through unmodified", o.val.kids[0].kids[0], d, b.path)
            elif good is False and last is not None and last[0] == "rec":
                k = errkind(I, st, o.val)
                cx.ob("a malformed record is reported as unexpected_message", None if k is None else k == "UnexpectedMessage", b.path, "%s for %s" % (k, last[2]))
                d = last[3]
                n1 = seq_len(d)
                if last[2] == "ApplicationDataTy":
                    cx.viol("application data is never refused by the message reader", b.path, facts(st))
                    continue
                # elements only exist within the length: state the alternatives one by one
                if last[2] == "HandshakeTy":
                    alt = [eq(n1, U64(0))]
                elif last[2] == "ChangeCipherSpecTy":
                    alt = [not_(eq(n1, U64(1)))]
                    if decide(st, eq(n1, U64(1))) is True:
                        alt.append(not_(eq(byte(d, 0), U8(1))))
                        alt.append(ult(U64(0), seq_len(st.mem[HSX])))
                else:
                    alt = [ult(n1, U64(2))]
                    if decide(st, not_(ult(n1, U64(2)))) is True:
                        alt.append(notin(byte(d, 0), CODES["AlertLevel"].values()))
                        alt.append(notin(byte(d, 1), CODES["AlertDescription"].values()))
                check_implies(cx, st, "only a malformed %s record is refused" % last[2][:-2], alt, b.path)
        for m in ("ChangeCipherSpecMessage", "AlertMessage", "ApplicationDataMessage", "HandshakeMessage"):
            if m not in okn:
                cx.absent(I, "a %s can be delivered" % m, b.path)


def r09(cx):
    n = 0
    for prot in (True, False):
        r = run_read_message(cx, prot, False)
        if not r:
            continue
        I, b, outs, rd, _ = r
        for g in segments(outs):
            if g.out is None or is_ok(I, g.out.val) is not True or not g.ev or g.ev[-1][0] != "rec" or g.ev[-1][2] != "ChangeCipherSpecTy":
                continue
            n += 1
            enter(g.st)
            check_implies(cx, g.st, "ChangeCipherSpec is delivered only when no handshake bytes are pending", [eq(seq_len(g.st.mem[HSX]), U64(0))], b.path)
            hv = hsbytes(field(I, I.loadp(g.st, rd), "handshake_buffer"))
            if hv is not None:
                check_implies(cx, g.st, "the reassembly buffer is empty when ChangeCipherSpec is delivered", [eq(seq_len(hv), U64(0))], b.path)
        if not n:
            cx.absent(I, "a ChangeCipherSpec can be delivered", b.path)
    # read_change_cipher_spec: nothing else counts as one
    b = body(cx, RD + "read_change_cipher_spec")
    if b is None:
        return
    for o, I, e in run_over_message(cx, b, True):
        if is_ok(I, o.val) is True:
            cx.ob("read_change_cipher_spec succeeds only on a ChangeCipherSpec", e is not None and e[2] == "ChangeCipherSpecMessage" and not I.passed, b.path, str([x[2] for x in I.passed + [e] if x]))
        elif e is not None and e[0] == "msg":
            k = errkind(I, o.st, o.val)
            cx.ob("anything else in place of ChangeCipherSpec is unexpected_message", None if k is None else k == "UnexpectedMessage" and e[2] != "ChangeCipherSpecMessage", b.path, "%s on %s" % (k, e[2]))


def c_read_message(I, st, cal, args, blk, span):
    """read_message: an error or a message of each kind; alerts split into close_notify and others"""
    ty = MD.retty(I, cal, blk)
    t = I.ty(ty)
    st.nfresh += 1
    k = st.nfresh
    mt = t["args"][0]
    out = []
    err = st.copy()
    enter(err)
    e = I.fresh(t["args"][1], ("msgerr", k))
    err.emit("msg_err", k, "", e, tuple(I.stack))
    out.append(Out("ret", err, MD.err(I, ty, e)))
    for vi, v in enumerate(I.ty(mt)["variants"]):
        s = st.copy()
        enter(s)
        fs = [I.fresh(f["ty"], ("msg", k, v["name"], i)) for i, f in enumerate(v["fields"])]
        if v["name"] == "ApplicationDataMessage":
            n = V(("msg", k, "len"), 64, 0, 1 << 14)
            fs = [Vec(srcslice(Src(("msg", k), (), ("int", 8)), U64(0), n), I.prog.tid("u8"))]
        s.emit("msg", k, v["name"], tuple(fs), tuple(I.stack))
        out.append(Out("ret", s, MD.ok(I, ty, Agg(mt, vi, fs))))
    return out


MSGC = {"tls::TlsReader::<R>::read_message": c_read_message}


def run_over_message(cx, b, prot, peel=None):
    """paths of a TlsReader method down to read_message: (out, interp, last message event)"""
    P = cx.P
    I = cx.new()
    I.contracts.update(MSGC)
    st = State()
    enter(st)
    tid = selftype(P, b.locals[1])
    r = mkreader(I, st, P, tid, prot)
    I, outs = run(cx, b, [r], I, st)
    if outs is None:
        return
    stuck_outs(cx, I, outs, b)
    for o in outs:
        if o.kind == "ret":
            enter(o.st)
            es = [e for e in o.st.events() if e[0] in ("msg", "msg_err")]
            I.passed = es[:-1]          # messages the path went past
            yield o, I, es[-1] if es else None


# ---------------------------------------------------------------- reassembly
def r08(cx):
    P = cx.P
    for empty in (True, False):
        r = run_read_message(cx, True, empty)
        if not r:
            continue
        I, b, outs, rd, n = r
        for g in segments(outs):
            enter(g.st)
            prev = None
            for e in g.ev:
                if e[0].startswith("hs_"):
                    if e[2] is None or e[3] is None:
                        cx.und("the reassembly buffer keeps its bytes in one vector", b.path)
                    else:
                        check_same(cx, I, g.st, "the buffer holds exactly the handshake bytes received and not yet delivered", e[2], e[3], b.path, free_mu=False)
                elif prev is not None and prev[0] == "rec" and prev[2] == "HandshakeTy":
                    cx.viol("a complete message is delivered before more is read", b.path, "two records are read without looking for a message in between")
                if prev is not None and prev[0] == "hs_msg":
                    cx.viol("a complete message is delivered before more is read", b.path, "%s follows a complete message" % e[0])
                prev = e
            if g.entry and g.ev and g.ev[0][0].startswith("rec"):
                cx.viol("pending messages are delivered before more is read", b.path, "a record is read first")
            if g.out is not None and g.ev:
                last = g.ev[-1]
                good = is_ok(I, g.out.val)
                if last[0] == "hs_msg":
                    if good is True and msgname(I, g.out.val) == "HandshakeMessage":
                        v = g.out.val.kids[0].kids[0]
                        cx.ob("the message extracted is the one delivered", "('hsmsg', %d)" % last[1] in showv(v) or None, b.path, showv(v)[:200])
                    else:
                        cx.ob("an extracted message is delivered", None if good is None else False, b.path, showv(g.out.val)[:200])
                if last[0] == "hs_err":
                    cx.ob("a failed extraction is reported", good is False, b.path)
                hv = hsbytes(field(I, I.loadp(g.st, rd), "handshake_buffer"))
                if hv is not None and last[0] != "rec_err" and good is True:
                    check_same(cx, I, g.st, "left-over bytes are kept", hv, g.st.mem[HSX], b.path)
    r08_buffer(cx)


def c_hs_read(I, st, cal, args, blk, span):
    """Handshake::tls_read: decodes the given bytes or fails"""
    ty = MD.retty(I, cal, blk)
    t = I.ty(ty)
    st.nfresh += 1
    k = st.nfresh
    enter(st)
    try:
        kind, p, v = MD.reader(I, st, args[0])
        seq, pos, rem = MD.rd_remaining(I, st, kind, p, v)
        data = seq_slice(seq, pos, rem)
    except (Stuck, Undecided) as e:
        raise Stuck("the bytes handed to the decoder: %s" % e)
    s2 = st.copy()
    st.emit("decode", k, data)
    s2.emit("decode_err", k, data)
    e = I.fresh(t["args"][1], ("hsdec", k))
    enter(s2)
    return [Out("ret", st, MD.ok(I, ty, I.fresh(t["args"][0], ("hsdecoded", k)))), Out("ret", s2, MD.err(I, ty, e))]


def r08_buffer(cx):
    P = cx.P
    b = body(cx, "handshake::HandshakeBuffer::get_message")
    if b is None:
        return
    I = cx.new()
    I.contracts["<handshake::Handshake as tls_item::TlsItem>::tls_read"] = c_hs_read
    st = State()
    enter(st)
    n = V(("hsbuf", "len"), 64, 0, 1 << 40)
    s = srcslice(Src(("hsbuf",), (), ("int", 8)), U64(0), n)
    hv = I.fresh(selftype(P, b.locals[1]), ("hs",))
    if hsbytes(hv) is None:
        cx.und("HandshakeBuffer keeps its bytes in one vector", b.path)
        return
    p = Ptr(I.alloc(st, Agg(hv.shape[0], 0, [Vec(s, P.tid("u8"))] + list(hv.kids[1:]))))
    I, outs = run(cx, b, [p], I, st)
    if outs is None:
        return
    stuck_outs(cx, I, outs, b)
    e = [src_elem(Src(("hsbuf",), (), ("int", 8)), U64(i)) for i in range(4)]
    ln = add(zext(frombytes_le([e[3], e[2], e[1]]), 64), U64(4))
    nm = 0
    for o in outs:
        if o.kind != "ret":
            continue
        st = o.st
        enter(st)
        dec = [x for x in st.events() if x[0] in ("decode", "decode_err")]
        now = hsbytes(I.loadp(st, p))
        good = is_ok(I, o.val)
        if good is True and not dec:
            if is_ok(I, o.val.kids[0]) is not False:
                cx.viol("a message is decoded from the buffer", b.path, showv(o.val)[:200])
                continue
            check_implies(cx, st, "nothing is delivered only while the message is incomplete", [ult(n, U64(4)), ult(n, ln)], b.path)
            check_same(cx, I, st, "an incomplete message stays in the buffer", now, s, b.path)
            continue
        if not dec:
            cx.ob("extraction fails only when decoding fails", None if good is None else False, b.path, showv(o.val)[:200])
            continue
        if len(dec) > 1:
            cx.viol("one message per call", b.path)
            continue
        nm += 1
        check_implies(cx, st, "a message is delivered only when complete", [not_(ult(n, ln))], b.path)
        check_implies(cx, st, "a message is delivered only with its header", [not_(ult(n, U64(4)))], b.path)
        check_same(cx, I, st, "the decoder gets exactly header and announced body", dec[0][2], srcslice(Src(("hsbuf",), (), ("int", 8)), U64(0), ln), b.path)
        check_same(cx, I, st, "the rest stays in the buffer", now, srcslice(Src(("hsbuf",), (), ("int", 8)), ln, sub(n, ln)), b.path)
        if dec[0][0] == "decode":
            cx.ob("a decoded message is returned", good is True and is_ok(I, o.val.kids[0]) is True, b.path, showv(o.val)[:200])
        else:
            cx.ob("a decoding failure is returned", good is False, b.path, showv(o.val)[:200])
    if not nm:
        cx.absent(I, "a complete message can be extracted", b.path)
    # add_record appends
    b = body(cx, "handshake::HandshakeBuffer::add_record")
    if b is None:
        return
    I = cx.new()
    st = State()
    enter(st)
    p = Ptr(I.alloc(st, Agg(hv.shape[0], 0, [Vec(s, P.tid("u8"))] + list(hv.kids[1:]))))
    ap, aseq = bytearg(I, st, "frag")
    I, outs = run(cx, b, [p, ap], I, st)
    if outs is None:
        return
    for o in outs:
        if o.kind == "ret":
            enter(o.st)
            check_same(cx, I, o.st, "a fragment is appended unchanged", hsbytes(I.loadp(o.st, p)), seq_cat(s, aseq), b.path)


# ---------------------------------------------------------------- keys
def r06(cx):
    P = cx.P
    # writing
    for I, b, o, w, rec, tid in w_paths(cx, True):
        if not seal_events(o):
            ws = [e for e in o.st.events() if e[0] == "net_write"]
            cx.ob("nothing reaches the transport unsealed once a write key is set", not ws and is_ok(I, o.val) is not True, b.path)
        else:
            k = seal_events(o)[0][1]
            pay = [e for e in o.st.events() if e[0] == "net_write"]
            enter(o.st)
            for e in pay:
                cx.ob("only header and sealed bytes reach the transport", "fragment" not in showv(e[1]) or "sealed" in showv(e[1]) or None, b.path, showv(e[1])[:200])
        v = I.loadp(o.st, w)
        enc = field(I, v, "encryptor")
        cx.ob("writing keeps the write key installed", enc.cls == "agg" and len(enc.kids) == 1, b.path, showv(enc)[:100])
    # reading
    r = run_read_record(cx, True)
    if r:
        I, b, outs, rd, tid = r
        for o in outs:
            enter(o.st)
            if is_ok(I, o.val) is True:
                cx.ob("once a read key is set a record is delivered only opened", any(e[0] == "decrypt" for e in opens(o)), b.path, facts(o.st))
            d = field(I, I.loadp(o.st, rd), "decryptor")
            cx.ob("reading keeps the read key installed", d.cls == "agg" and len(d.kids) == 1, b.path, showv(d)[:100])
    r_setter(cx, "set_encryptor", "write_count", "encryptor")
    r_setter(cx, "set_decryptor", "read_count", "decryptor")
    r_fields(cx, "TlsWriter", {"encryptor"}, {"set_encryptor", "write_record", "new"})
    r_fields(cx, "TlsReader", {"decryptor"}, {"set_decryptor", "read_record", "new"})
    # application data needs the key
    def mk(I, st, b):
        p, s = bytearg(I, st)
        return [p]
    r = run_writer(cx, "write_application_data", mk, False)
    if r:
        I, b, outs, w, a = r
        bad = [o for o in outs if any(e[0] == "record" for e in o.st.events()) or is_ok(I, o.val) is True]
        cx.ob("application data is not sent before the write key is set", not bad, b.path)
    b = body(cx, RD + "read_application_data")
    if b is not None:
        bad = 0
        for o, I, e in run_over_message(cx, b, False):
            if is_ok(I, o.val) is True and e is not None and e[2] == "ApplicationDataMessage":
                bad += 1
        cx.ob("application data is not delivered before the read key is set", not bad, b.path)


def r10(cx):
    """second installation of a key or IV never returns with the state changed"""
    P = cx.P
    for pre, fn, names in ((WR, "set_encryptor", ("encryptor", "write_count", "iv")), (WR, "set_iv", ("iv", "encryptor", "write_count")),
                           (RD, "set_decryptor", ("decryptor", "read_count", "iv")), (RD, "set_iv", ("iv", "decryptor", "read_count"))):
        b = body(cx, pre + fn)
        if b is None:
            continue
        I = cx.new()
        st = State()
        enter(st)
        tid = selftype(P, b.locals[1])
        mk = mkwriter if pre == WR else mkreader
        w = mk(I, st, P, tid, True)
        before = I.loadp(st, w)
        arg = I.fresh(b.locals[2], ("newkey",))
        I, outs = run(cx, b, [w, arg], I, st)
        if outs is None or not stuck_outs(cx, I, outs, b):
            continue
        who = "%s of an already keyed %s" % (fn, "writer" if pre == WR else "reader")
        rets = [o for o in outs if o.kind == "ret"]
        if not rets:
            cx.ob("%s does not return" % who, True, b.path)
        for o in rets:
            enter(o.st)
            v = I.loadp(o.st, w)
            for n in names:
                x, y = field(I, before, n), field(I, v, n)
                same = x is y or vsame(I, o.st, x, y) is True
                cx.ob("%s leaves %s alone" % (who, n), same, b.path, "%s becomes %s" % (showv(x)[:100], showv(y)[:100]))
        # and the first installation works
        I = cx.new()
        st = State()
        enter(st)
        w = mk(I, st, P, tid, False) if fn != "set_iv" else None
        if w is not None:
            I, outs = run(cx, b, [w, I.fresh(b.locals[2], ("newkey",))], I, st)
            if outs is not None and stuck_outs(cx, I, outs, b) and not ret_outs(outs):
                cx.absent(I, "%s works once" % fn, b.path)
