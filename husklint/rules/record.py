"""Record layer (src/tls.rs)."""
from rules.lib import *

WR = "tls::TlsWriter::<W>::"
RD = "tls::TlsReader::<R>::"


def aead_contract(kind):
    def f(I, st, cal, args, blk, span):
        """Encryptor::encrypt / Decryptor::decrypt: an unknown function of key object, nonce, data and additional data"""
        nonce, data, ad = (MD.seqof(I, st, a) for a in args[1:4])
        st.nfresh += 1
        k = st.nfresh
        enter(st)
        ty = MD.retty(I, cal, blk)
        n = seq_len(data)
        if kind == "encrypt":
            L = add(n, V(("sealed", k, "over"), 64, 0, 2048))
            st.emit("encrypt", k, nonce, data, ad, vkey(args[0]), tuple(I.stack))
            return Vec(srcslice(Src(("sealed", k), (), ("int", 8)), U64(0), L), I.prog.tid("u8"))
        s2 = st.copy()
        st.emit("decrypt", k, nonce, data, ad, vkey(args[0]), tuple(I.stack))
        s2.emit("decrypt_err", k, nonce, data, ad, vkey(args[0]), tuple(I.stack))
        enter(st)
        out = []
        # never longer than what was received
        L = V(("opened", k, "len"), 64, 0, 1 << 17)
        if assume(st, not_(ult(n, L)), True):
            enter(st)
            v = Vec(srcslice(Src(("opened", k), (), ("int", 8)), U64(0), L), I.prog.tid("u8"))
            out.append(Out("ret", st, MD.ok(I, ty, v)))
        e = I.fresh(I.ty(ty)["args"][1], ("decerr", k))
        out.append(Out("ret", s2, MD.err(I, ty, e)))
        return out
    return f


def vkey(p):
    return p.shape[0] if isinstance(p, Val) and p.cls in ("ptr", "box") else None


def ML():
    return V(("maclen",), 64, 0, 2048)


def c_maclen(I, st, cal, args, blk, span):
    enter(st)
    return ML()


AEADC = {"cipher::Encryptor::encrypt": aead_contract("encrypt"), "cipher::Decryptor::decrypt": aead_contract("decrypt"),
         "cipher::Decryptor::mac_len": c_maclen}


def tyname(P, t):
    ty = P.types[t]
    while ty["k"] in ("ref", "ptr"):
        ty = P.types[ty["to"]]
    return ty.get("path", ty["s"])


def selftype(P, t):
    ty = P.types[t]
    while ty["k"] in ("ref", "ptr"):
        t = ty["to"]
        ty = P.types[t]
    return t


def mkself(I, st, P, tid, over):
    """a symbolic struct with some fields given"""
    t = P.types[tid]
    fs = []
    for f in t["variants"][0]["fields"]:
        fs.append(over[f["name"]] if f["name"] in over else I.fresh(f["ty"], ("self", f["name"])))
    return Agg(tid, 0, fs)


def opt(I, P, ty, v):
    return MD.some(I, ty, v) if v is not None else MD.none(I, ty)


def fty(P, tid, name):
    for f in P.types[tid]["variants"][0]["fields"]:
        if f["name"] == name:
            return f["ty"]
    raise KeyError(name)


def ivvec(P, key="iv", n=12):
    return Vec(srcslice(Src((key,), (), ("int", 8)), U64(0), U64(n)), P.tid("u8"))


def mkwriter(I, st, P, tid, prot, count=None):
    over = {"write_count": count if count is not None else V(("write_count",), 64, 0, (1 << 62))}
    if prot is not None:
        et = fty(P, tid, "encryptor")
        bx = I.fresh(P.types[et]["args"][0], ("encryptor",))
        over["encryptor"] = opt(I, P, et, bx if prot else None)
        it = fty(P, tid, "iv")
        over["iv"] = opt(I, P, it, ivvec(P) if prot else None)
    return Ptr(I.alloc(st, mkself(I, st, P, tid, over)))


def mkreader(I, st, P, tid, prot, count=None, hs=None):
    over = {"read_count": count if count is not None else V(("read_count",), 64, 0, (1 << 62))}
    et = fty(P, tid, "decryptor")
    bx = I.fresh(P.types[et]["args"][0], ("decryptor",))
    over["decryptor"] = opt(I, P, et, bx if prot else None)
    it = fty(P, tid, "iv")
    over["iv"] = opt(I, P, it, ivvec(P))
    if hs is not None:
        over["handshake_buffer"] = hs
    return Ptr(I.alloc(st, mkself(I, st, P, tid, over)))


def mkrecord(I, st, P, tid, maxlen=1 << 14, key="rec"):
    r = I.fresh(tid, (key,))
    n = V((key, "fragment", "len"), 64, 0, maxlen)
    fs = list(r.kids)
    i = findex(I, tid, "fragment")
    fs[i] = Vec(srcslice(Src((key, "fragment"), (), ("int", 8)), U64(0), n), P.tid("u8"))
    return Agg(tid, 0, fs)


def nonce_ref(count, iv=True, key="iv"):
    cnt = [U8(0)] * 4 + be_bytes(count)
    if not iv:
        return explicit(cnt)
    s = Src((key,), (), ("int", 8))
    return explicit([xor(src_elem(s, U64(i)), cnt[i]) for i in range(12)])


def run_write_record(cx, prot):
    P = cx.P
    b = body(cx, WR + "write_record")
    if b is None:
        return None
    I = cx.new()
    I.contracts.update(AEADC)
    st = State()
    enter(st)
    tid = selftype(P, b.locals[1])
    w = mkwriter(I, st, P, tid, prot)
    rec = mkrecord(I, st, P, b.locals[2])
    I, outs = run(cx, b, [w, rec], I, st)
    if outs is None:
        return None
    full = stuck_outs(cx, I, outs, b)
    return I, b, outs, w, rec, tid, full


def wire(st, upto=None):
    return seq_cat(EMPTY(), *[e[1] for e in st.events() if e[0] == "net_write"])


def ctype_byte(I, P, st, rec):
    ct = field(I, rec, "content_type")
    enter(st)
    return cast(I.discr(st, ct), 8)


def seal_events(o):
    return [e for e in o.st.events() if e[0] == "encrypt"]


def w_paths(cx, prot):
    r = run_write_record(cx, prot)
    if r is None:
        return
    I, b, outs, w, rec, tid, full = r
    for o in outs:
        if o.kind == "ret":
            enter(o.st)
            yield I, b, o, w, rec, tid


def r01(cx):
    P = cx.P
    for I, b, o, w, rec, tid in w_paths(cx, True):
        cnt = V(("write_count",), 64, 0, 1 << 62)
        es = seal_events(o)
        good = is_ok(I, o.val)
        tag = "on success" if good else "when the transport fails"
        if not es:
            if good:
                cx.viol("every record written under a key is sealed", b.path, "a success path writes without sealing")
            continue
        if len(es) > 1:
            cx.viol("one sealing per record", b.path, "%d sealings on one path" % len(es))
            continue
        check_same(cx, I, o.st, "the sealing nonce is iv xor (0000 || be64(write_count))", es[0][2], nonce_ref(cnt), b.path)
        after = field(I, I.loadp(o.st, w), "write_count")
        check_same(cx, I, o.st, "write_count grows by one once a record was sealed, " + tag, after, add(cnt, U64(1)), b.path)
    r_setter(cx, "set_encryptor", "write_count", "encryptor")
    r_fields(cx, "TlsWriter", {"write_count", "encryptor", "iv"}, {"set_encryptor", "set_iv", "write_record", "new"})


def r_setter(cx, fn, count, keyfield):
    """set_encryptor / set_decryptor: counter restarts at zero"""
    P = cx.P
    pre = WR if count == "write_count" else RD
    b = body(cx, pre + fn)
    if b is None:
        return
    I = cx.new()
    st = State()
    enter(st)
    tid = selftype(P, b.locals[1])
    mkx = mkwriter if pre == WR else mkreader
    w = mkx(I, st, P, tid, False)
    arg = I.fresh(b.locals[2], ("newkey",))
    I, outs = run(cx, b, [w, arg], I, st)
    if outs is None or not stuck_outs(cx, I, outs, b):
        return
    n = 0
    for o in outs:
        if o.kind == "ret":
            n += 1
            v = I.loadp(o.st, w)
            check_same(cx, I, o.st, "%s restarts the record number at 0" % fn, field(I, v, count), U64(0), b.path)
            k = field(I, v, keyfield)
            cx.ob("%s installs the key it is given" % fn, k.cls == "agg" and len(k.kids) == 1 and vkey(k.kids[0]) == vkey(arg), b.path, showv(k)[:200])
    if not n:
        cx.absent(I, "%s can succeed on a fresh %s" % (fn, "writer" if pre == WR else "reader"), b.path)


def methods_on(P, tname, module="tls::"):
    """local functions taking the named struct by reference or value, outside the trait glue"""
    out = []
    for b in P.local_fns():
        if b.argc < 1 or "{closure" in b.key:
            continue
        for i in range(b.argc):
            t = P.types[b.locals[i + 1]]
            mut = True
            if t["k"] == "ref":
                mut = t.get("mut", True)
                t = P.types[t["to"]]
            if t["k"] == "adt" and t.get("path", "").split("::")[-1] == tname and mut:
                out.append((b, i + 1))
    return out


def field_writes(P, b, sname, names):
    """direct stores to (or mutable borrows of) the given fields of a struct in one body: [(field, span, kind)]"""
    res = []
    for blk in b.blocks:
        if blk is None:
            continue
        for s in blk["st"]:
            if "p" not in s or "v" not in s:
                continue
            hit = place_field(P, b, s["p"], sname, names)
            if hit:
                res.append((hit, s.get("s"), "store"))
            v = s["v"]
            if v.get("r") in ("ref", "rawptr", "addr") and v.get("mut") and isinstance(v.get("p"), dict):
                hit = place_field(P, b, v["p"], sname, names)
                if hit and hit != "*":
                    res.append((hit, s.get("s"), "borrow"))
        if blk.get("dest"):
            hit = place_field(P, b, blk["dest"], sname, names)
            if hit:
                res.append((hit, blk.get("s"), "store"))
    return res


def place_field(P, b, p, sname, names):
    t = b.locals[p["l"]]
    last = None
    deref = False
    for e in p["p"]:
        ty = P.types[t]
        if e == "*":
            if ty["k"] not in ("ref", "ptr"):
                return None
            t = ty["to"]
            deref = True
        elif isinstance(e, dict) and "f" in e:
            if ty["k"] == "adt" and ty["path"].split("::")[-1] == sname and ty["kind"] == "struct":
                n = ty["variants"][0]["fields"][e["f"]]["name"]
                if n in names:
                    return n
            t = e["t"]
        else:
            return None
        last = e
    ty = P.types[t]
    if last == "*" and deref and ty["k"] == "adt" and ty["path"].split("::")[-1] == sname:
        return "*"
    return None


def callgraph(P):
    g = getattr(P, "_cg", None)
    if g is None:
        g = {}
        for b in P.local_fns():
            for blk in b.blocks:
                if blk and blk.get("callee"):
                    g.setdefault(b.key, set()).add(blk["callee"].get("key"))
                if blk:
                    for s in blk["st"]:
                        v = s.get("v") or {}
                        if v.get("r") == "agg" and v.get("k") == "closure":
                            c = P.types[v["ty"]]
                            if c.get("key"):
                                g.setdefault(b.key, set()).add(c["key"])
        P._cg = g
    return g


def r_fields(cx, sname, names, allowed):
    """nothing but the named functions (and helpers only they use) stores to the sequencing state"""
    P = cx.P
    g = callgraph(P)
    callers = {}
    for a, bs in g.items():
        for x in bs:
            callers.setdefault(x, set()).add(a)

    def fname(k):
        b = P.bodies[k]
        return b.path.split("::")[-1]

    def covered(k, seen):
        """k is one of the functions, or used only by them"""
        b = P.bodies.get(k)
        if b is None:
            return False
        if b.path.split("::")[-1].split("{")[0] in allowed and sname in b.path:
            return True
        if "{closure" in k or "{closure" in b.path:
            base = b.path.split("::{closure")[0]
            if base.split("::")[-1] in allowed:
                return True
        cs = callers.get(k, set()) - {k}
        if not cs or k in seen:
            return False
        return all(covered(c, seen | {k}) for c in cs)
    n = 0
    for b in P.local_fns():
        ws = field_writes(P, b, sname, names)
        if not ws:
            continue
        n += len(ws)
        if covered(b.key, frozenset()):
            cx.ob("stores to %s.{%s} only by %s" % (sname, ",".join(sorted(names)), "/".join(sorted(allowed))), True, short(b.key), str(ws[:3]))
        else:
            st = [w for w in ws if w[2] == "store"]
            if st:
                cx.viol("stores to %s.{%s} only by %s" % (sname, ",".join(sorted(names)), "/".join(sorted(allowed))), "%s %s" % (short(b.key), st[0][1]), "field %s" % st[0][0])
            else:
                cx.und("mutable borrows of %s.{%s} are harmless" % (sname, ",".join(sorted(names))), "%s %s" % (short(b.key), ws[0][1]))
    cx.count("state_store_sites", n)


# ---------------------------------------------------------------- reading one record
def run_read_record(cx, prot):
    P = cx.P
    b = body(cx, RD + "read_record")
    if b is None:
        return None
    I = cx.new()
    I.contracts.update(AEADC)
    I.contracts.update(NETC)
    st = State()
    enter(st)
    tid = selftype(P, b.locals[1])
    r = mkreader(I, st, P, tid, prot)
    I, outs = run(cx, b, [r], I, st)
    if outs is None:
        return None
    stuck_outs(cx, I, outs, b)
    return I, b, [o for o in outs if o.kind == "ret"], r, tid


def net(i):
    return src_elem(MD.netsrc(), U64(i))


def hdrlen():
    return zext(frombytes_le([net(4), net(3)]), 64)


def opens(o):
    return [e for e in o.st.events() if e[0] in ("decrypt", "decrypt_err")]


def failed_io(o):
    return any(e[0] in ("net_fillerr", "net_readerr", "net_writeerr") for e in o.st.events())


def recfields(I, o):
    rec = o.val.kids[0]
    return {f: field(I, rec, f) for f in ("content_type", "ver_major", "ver_minor", "fragment")}


def r02(cx):
    r = run_read_record(cx, True)
    if r:
        I, b, outs, rd, tid = r
        cnt = V(("read_count",), 64, 0, 1 << 62)
        nok = 0
        for o in outs:
            enter(o.st)
            es = opens(o)
            for e in es:
                check_same(cx, I, o.st, "the opening nonce is iv xor (0000 || be64(read_count))", e[2], nonce_ref(cnt), b.path)
            if is_ok(I, o.val) is True:
                nok += 1
                cx.ob("a record is delivered only after exactly one opening", len(es) == 1, b.path, "%d openings on a success path" % len(es))
                after = field(I, I.loadp(o.st, rd), "read_count")
                check_same(cx, I, o.st, "read_count grows by exactly one per accepted record", after, add(cnt, U64(1)), b.path)
        if not nok:
            cx.und("a record can be accepted", b.path)
    r_setter(cx, "set_decryptor", "read_count", "decryptor")
    r_fields(cx, "TlsReader", {"read_count", "decryptor", "iv"}, {"set_decryptor", "set_iv", "read_record", "new"})


def r03(cx):
    for prot in (True,):
        for I, b, o, w, rec, tid in w_paths(cx, prot):
            cnt = V(("write_count",), 64, 0, 1 << 62)
            P = cx.P
            frag = field(I, rec, "fragment")
            n = seq_len(MDseq(frag))
            for e in seal_events(o):
                want = be_bytes(cnt) + [ctype_byte(I, P, o.st, rec), field(I, rec, "ver_major"), field(I, rec, "ver_minor")] + be_bytes(trunc(n, 16))
                check_same(cx, I, o.st, "sealing AD is number, type, version, plaintext length", e[4], explicit(want), b.path)
                check_same(cx, I, o.st, "the sealed data is the record's fragment", e[3], MDseq(frag), b.path)
                if is_ok(I, o.val) is True:
                    hd = seq_slice(wire(o.st), U64(0), U64(3))
                    check_same(cx, I, o.st, "the authenticated type and version are those sent", seq_slice(e[4], U64(8), U64(3)), hd, b.path)
    r = run_read_record(cx, True)
    if r:
        I, b, outs, rd, tid = r
        cnt = V(("read_count",), 64, 0, 1 << 62)
        for o in outs:
            enter(o.st)
            for e in opens(o):
                n = sub(hdrlen(), ML())
                want = be_bytes(cnt) + [net(0), net(1), net(2)] + be_bytes(trunc(n, 16))
                check_same(cx, I, o.st, "opening AD is number and the received type, version and plaintext length", e[4], explicit(want), b.path)
                check_same(cx, I, o.st, "the opened data is the received fragment", e[3], srcslice(MD.netsrc(), U64(5), hdrlen()), b.path)


def r05(cx):
    """decision table of read_record, in clear and protected"""
    P = cx.P
    ct = net(0)
    ln = hdrlen()
    ENC, MAX = (1 << 14) + 2048, 1 << 14
    for prot in (False, True):
        r = run_read_record(cx, prot)
        if not r:
            continue
        I, b, outs, rd, tid = r
        tag = " (protected)" if prot else " (clear)"
        nok = 0
        for o in outs:
            enter(o.st)
            g = is_ok(I, o.val)
            if g is True:
                nok += 1
                f = recfields(I, o)
                check_implies(cx, o.st, "accepted content type is at least 20" + tag, [not_(ult(ct, U8(20)))], b.path)
                check_implies(cx, o.st, "accepted content type is at most 23" + tag, [ult(ct, U8(24))], b.path)
                check_implies(cx, o.st, "accepted wire length is at most 2^14+2048" + tag, [ult(ln, U64(ENC + 1))], b.path)
                check_same(cx, I, o.st, "content type is the received one" + tag, cast(I.discr(o.st, f["content_type"]), 8), ct, b.path)
                check_same(cx, I, o.st, "major version is the received one" + tag, f["ver_major"], net(1), b.path)
                check_same(cx, I, o.st, "minor version is the received one" + tag, f["ver_minor"], net(2), b.path)
                fr = MDseq(f["fragment"])
                check_implies(cx, o.st, "delivered plaintext is at most 2^14 bytes" + tag, [ult(seq_len(fr), U64(MAX + 1))], b.path)
                check_same(cx, I, o.st, "exactly the announced bytes are consumed" + tag, MD.netpos(o.st), add(ln, U64(5)), b.path)
                if prot:
                    es = [e for e in opens(o) if e[0] == "decrypt"]
                    if es:
                        want = srcslice(Src(("opened", es[-1][1]), (), ("int", 8)), U64(0), V(("opened", es[-1][1], "len"), 64, 0, 1 << 17))
                        check_same(cx, I, o.st, "delivered data is what the opening returned", fr, want, b.path)
                    else:
                        cx.viol("a protected record is delivered only opened", b.path, "success path without an opening")
                else:
                    check_same(cx, I, o.st, "delivered data is the received fragment", fr, srcslice(MD.netsrc(), U64(5), ln), b.path)
            elif g is False:
                k = errkind(I, o.st, o.val)
                if any(e[0] == "decrypt_err" for e in o.st.events()):
                    continue
                if failed_io(o):
                    cx.ob("a transport failure is reported as IoFailure" + tag, None if k is None else k == "IoFailure", b.path, str(k))
                    continue
                if k == "UnexpectedMessage":
                    check_implies(cx, o.st, "unexpected_message only for unknown content types" + tag, [ult(ct, U8(20)), not_(ult(ct, U8(24)))], b.path)
                elif k == "RecordOverflow":
                    d = [ult(U64(ENC), ln)]
                    es = [e for e in opens(o) if e[0] == "decrypt"]
                    if es:
                        d.append(ult(U64(MAX), V(("opened", es[-1][1], "len"), 64, 0, 1 << 17)))
                    elif not prot:
                        d.append(ult(U64(MAX), ln))
                    check_implies(cx, o.st, "record_overflow only for over-long records" + tag, d, b.path)
                elif k == "BadRecordMac" and prot:
                    check_implies(cx, o.st, "bad_record_mac before opening only for records shorter than a tag", [ult(ln, ML())], b.path)
                else:
                    cx.ob("rejections are unexpected_message, record_overflow or bad_record_mac" + tag, None if k is None else False, b.path, "error kind %s; %s" % (k, facts(o.st)))
        if not nok:
            cx.absent(I, "a well-formed record can be accepted" + tag, b.path, "no path delivers a record")
        r_panics(cx, I, b, "read_record never panics" + tag)


def r_panics(cx, I, b, name):
    bad = I.panics
    if not bad:
        cx.ob(name, True, b.path)
    seen = set()
    for p in bad:
        k = (p["span"], p["kind"], p["msg"])
        if k in seen:
            continue
        seen.add(k)
        r = possible_panic(p)
        cx.ob(name, r, "%s %s" % (p["fn"], p["span"]), "%s %s" % (p["kind"], p["msg"]))


def possible_panic(p):
    """False (violation) when a sample consistent with the path reaches it; None if unknown"""
    st = p["st"]
    if p["pred"] is not None and not p["definite"]:
        s = st.copy()
        if not assume(s, p["pred"], False):
            return True
        st = s
    ss = rnd.samples(st, 2, 300)
    return False if ss else None


# ---------------------------------------------------------------- writing
def r04(cx):
    P = cx.P
    # one record on the wire
    for prot in (False, True):
        for I, b, o, w, rec, tid in w_paths(cx, prot):
            tag = " (protected)" if prot else " (clear)"
            frag = MDseq(field(I, rec, "fragment"))
            good = is_ok(I, o.val)
            es = seal_events(o)
            if prot:
                if not es:
                    if good:
                        cx.viol("what is written under a key is sealed", b.path)
                    continue
                k = es[0][1]
                payload = srcslice(Src(("sealed", k), (), ("int", 8)), U64(0), add(seq_len(frag), V(("sealed", k, "over"), 64, 0, 2048)))
            else:
                payload = frag
                if es:
                    cx.viol("no sealing without a key", b.path)
            n = seq_len(payload)
            full = seq_cat(explicit([ctype_byte(I, P, o.st, rec), field(I, rec, "ver_major"), field(I, rec, "ver_minor")] + be_bytes(trunc(n, 16))), payload)
            if good is True:
                check_same(cx, I, o.st, "one record on the wire: type, version, 16-bit length, payload" + tag, wire(o.st), full, b.path)
            elif good is False:
                k = errkind(I, o.st, o.val)
                cx.ob("write_record fails only on a transport failure" + tag, None if k is None else (k == "IoFailure" and failed_io(o)), b.path, str(k))
        r = run_write_record(cx, prot)
        if r:
            r_panics(cx, r[0], r[1], "write_record never panics on a record within the limit" + (" (protected)" if prot else " (clear)"))
    # fragmentation
    r04_frag(cx)


def c_write_record(I, st, cal, args, blk, span):
    """write_record: hands one record to the transport or fails"""
    rec = args[1]
    ty = MD.retty(I, cal, blk)
    enter(st)
    fr = MDseq(field(I, rec, "fragment"))
    ct = cast(I.discr(st, field(I, rec, "content_type")), 8)
    n = seq_len(fr)
    cx = I.cx
    at = "%s %s" % (I.stack[-1], span)
    if getattr(I, "frag_checks", False):
        cx.fragobs.append((st.copy(), n, ct, field(I, rec, "ver_major"), field(I, rec, "ver_minor"), at))
    st.nfresh += 1
    s2 = st.copy()
    old = st.mem.get(SENT, EMPTY())
    st.mem[SENT] = seq_cat(old, fr)
    st.emit("record", ct, fr, tuple(I.stack))
    s2.emit("record_err", ct, fr, tuple(I.stack))
    e = I.fresh(I.ty(ty)["args"][1], ("wrerr", s2.nfresh))
    # a write failure is an I/O failure
    e = setkind(I, e, "IoFailure")
    return [Out("ret", st, MD.ok(I, ty, unit(I.prog))), Out("ret", s2, MD.err(I, ty, e))]


SENT = ("g", "sent")


def setkind(I, e, name):
    t = I.ty(e.shape[0])
    ks = list(e.kids)
    for i, f in enumerate(t["variants"][0]["fields"]):
        if f["name"] == "kind":
            ks[i] = Agg(f["ty"], MD.variant(I, f["ty"], name), [])
    return Agg(e.shape[0], 0, ks)


WRC = {"tls::TlsWriter::<W>::write_record": c_write_record}


def run_writer(cx, fn, mk, prot=True):
    """analyse a TlsWriter method down to write_record; returns (I, b, outs, w, args)"""
    P = cx.P
    b = body(cx, WR + fn)
    if b is None:
        return None
    I = cx.new()
    I.contracts.update(WRC)
    I.frag_checks = True
    cx.fragobs = []
    st = State()
    enter(st)
    st.mem[SENT] = EMPTY()
    tid = selftype(P, b.locals[1])
    w = mkwriter(I, st, P, tid, prot)
    a = mk(I, st, b)
    I, outs = run(cx, b, [w] + a, I, st)
    if outs is None:
        return None
    stuck_outs(cx, I, outs, b)
    return I, b, [o for o in outs if o.kind == "ret"], w, a


def bytearg(I, st, key="data", hi=1 << 40):
    n = V((key, "len"), 64, 0, hi)
    loc = I.alloc(st, srcslice(Src((key,), (), ("int", 8)), U64(0), n))
    return Ptr(loc, (("rng", U64(0), n),)), srcslice(Src((key,), (), ("int", 8)), U64(0), n)


def check_frags(cx, I, b, ctwant):
    for st, n, ct, ma, mi, at in cx.fragobs:
        enter(st)
        check_implies(cx, st, "every fragment has at least one byte", [ult(U64(0), n)], at)
        check_implies(cx, st, "every fragment has at most 2^14 bytes", [ult(n, U64((1 << 14) + 1))], at)
        check_same(cx, I, st, "every record carries the requested content type", ct, ctwant(I, st), at)
        check_same(cx, I, st, "every record carries version 3.3", explicit([ma, mi]), explicit([U8(3), U8(3)]), at)


def r04_frag(cx):
    P = cx.P
    data = {}

    def mk(I, st, b):
        p, s = bytearg(I, st)
        data["s"] = s
        data["ct"] = I.fresh(b.locals[2], ("ct",))
        return [data["ct"], p]
    r = run_writer(cx, "write_data", mk)
    if not r:
        return
    I, b, outs, w, a = r
    nok = 0
    for o in outs:
        enter(o.st)
        g = is_ok(I, o.val)
        if g is True:
            nok += 1
            check_same(cx, I, o.st, "on success the records carry every byte once and in order", o.st.mem[SENT], data["s"], b.path)
        elif g is False:
            cx.ob("write_data fails only when a record could not be written", any(e[0] == "record_err" for e in o.st.events()), b.path)
    if not nok:
        cx.absent(I, "write_data can succeed", b.path)
    check_frags(cx, I, b, lambda I, st: cast(I.discr(st, data["ct"]), 8))


# ---------------------------------------------------------------- read_message
HSX = ("g", "hsx")      # ghost: handshake bytes received and not yet delivered
CTS = ("ChangeCipherSpecTy", "AlertTy", "HandshakeTy", "ApplicationDataTy")


def c_read_record(I, st, cal, args, blk, span):
    """read_record: an error, or a record of one of the four types with at most 2^14 bytes"""
    ty = MD.retty(I, cal, blk)
    st.nfresh += 1
    k = st.nfresh
    t = I.ty(ty)
    enter(st)
    rec = I.fresh(t["args"][0], ("rec", k))
    n = V(("rec", k, "len"), 64, 0, 1 << 14)
    data = srcslice(Src(("rec", k), (), ("int", 8)), U64(0), n)
    fi, ci = findex(I, t["args"][0], "fragment"), findex(I, t["args"][0], "content_type")
    cty = I.ty(t["args"][0])["variants"][0]["fields"][ci]["ty"]
    out = []
    err = st.copy()
    for vi, v in enumerate(I.ty(cty)["variants"]):
        s = st.copy()
        fs = list(rec.kids)
        fs[fi] = Vec(data, I.prog.tid("u8"))
        fs[ci] = Agg(cty, vi, [])
        if v["name"] == "HandshakeTy" and HSX in s.mem:
            enter(s)
            s.mem[HSX] = seq_cat(s.mem[HSX], data)
        s.emit("rec", k, v["name"], data, tuple(I.stack))
        out.append(Out("ret", s, MD.ok(I, ty, Agg(t["args"][0], 0, fs))))
    err.emit("rec_err", k, "", None, tuple(I.stack))
    enter(err)
    out.append(Out("ret", err, MD.err(I, ty, I.fresh(t["args"][1], ("recerr", k)))))
    return out


def hsbytes(v):
    if v.cls == "agg" and v.kids and isinstance(v.kids[0], Val) and v.kids[0].cls == "vec":
        return v.kids[0].kids[0]
    return None


def c_get_message(I, st, cal, args, blk, span):
    """HandshakeBuffer::get_message: nothing, a message, or an error (R08 decides which)"""
    ty = MD.retty(I, cal, blk)
    t = I.ty(ty)
    oty = t["args"][0]
    st.nfresh += 1
    k = st.nfresh
    s2, s3 = st.copy(), st.copy()
    enter(st)
    v = I.loadp(st, args[0])
    data = (hsbytes(v), st.mem.get(HSX), tuple(I.stack))
    st.emit("hs_none", k, *data)
    s2.emit("hs_msg", k, *data)
    s3.emit("hs_err", k, *data)
    m = I.fresh(I.ty(oty)["args"][0], ("hsmsg", k))
    # the buffer keeps what is left
    b = Src(("hsleft", k), (), ("int", 8))
    n = V(("hsleft", k, "len"), 64, 0, 1 << 40)
    for s in (s2, s3):
        enter(s)
        hv = I.loadp(s, args[0])
        left = srcslice(b, U64(0), n)
        if HSX in s.mem:
            s.mem[HSX] = left
        if hsbytes(hv) is not None:
            I.storep(s, args[0], Agg(hv.shape[0], 0, [Vec(left, hv.kids[0].shape[0])] + list(hv.kids[1:])))
    enter(st)
    return [Out("ret", st, MD.ok(I, ty, MD.none(I, oty))), Out("ret", s2, MD.ok(I, ty, MD.some(I, oty, m))),
            Out("ret", s3, MD.err(I, ty, I.fresh(t["args"][1], ("hserr", k))))]


RMC = {"tls::TlsReader::<R>::read_record": c_read_record, "handshake::HandshakeBuffer::get_message": c_get_message}


def run_read_message(cx, prot=True, empty=False):
    P = cx.P
    b = body(cx, RD + "read_message")
    if b is None:
        return None
    I = cx.new()
    I.contracts.update(RMC)
    st = State()
    enter(st)
    tid = selftype(P, b.locals[1])
    hst = fty(P, tid, "handshake_buffer")
    n = U64(0) if empty else V(("hsbuf", "len"), 64, 0, 1 << 40)
    hv = I.fresh(hst, ("hs",))
    if not (hv.cls == "agg" and hv.kids and hv.kids[0].cls == "vec"):
        cx.und("HandshakeBuffer keeps its bytes in one vector", b.path)
        return None
    hseq = srcslice(Src(("hsbuf",), (), ("int", 8)), U64(0), n)
    hb = Agg(hst, 0, [Vec(hseq, P.tid("u8"))] + list(hv.kids[1:]))
    st.mem[HSX] = hseq
    r = mkreader(I, st, P, tid, prot, hs=hb)
    I, outs = run(cx, b, [r], I, st)
    if outs is None:
        return None
    stuck_outs(cx, I, outs, b)
    return I, b, [o for o in outs if o.kind == "ret"], r, n
