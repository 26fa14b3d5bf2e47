"""W05, W06: integer primitives and exact reads (src/util.rs)."""
from rules.lib import *


def _seqarg(I, t, seq):
    return Vec(seq, t)


def w05(cx):
    P = cx.P
    # array conversions
    for n, be in (("u64_be_array", 1), ("u64_le_array", 0), ("u32_be_array", 1), ("u32_le_array", 0), ("u16_be_array", 1), ("u16_le_array", 0)):
        for b in P.find("util::" + n)[:1]:
            I, outs = run(cx, b)
            if outs is None:
                continue
            a = V(("arg", 0), P.width(b.locals[1]))
            exp = explicit(be_bytes(a) if be else tobytes_le(a))
            for o in outs:
                if o.kind == "ret":
                    check_same(cx, I, o.st, "%s lists the bytes %s first" % (n, "most significant" if be else "least significant"), I.asseq(o.val), exp, b.path)
            stuck_outs(cx, I, outs, b)
    # writers
    seen = 0
    for nm, nb, be in (("write_u8", 1, 1), ("write_be_u16", 2, 1), ("write_be_u24", 3, 1), ("write_be_u32", 4, 1), ("write_be_u64", 8, 1),
                       ("write_le_u16", 2, 0), ("write_le_u32", 4, 0), ("write_le_u64", 8, 0)):
        for b in P.find("util::WriteExt::" + nm):
            if "TcpStream" not in b.key and "Vec<u8>" not in b.key:
                continue
            I = cx.new()
            st = State()
            enter(st)
            arg = V(("arg", 1), P.width(b.locals[2]))
            wr = I.fresh(b.locals[1], ("arg", 0))
            vec = "Vec<u8>" in b.key
            if vec:
                loc = I.alloc(st, Vec(EMPTY(), P.tid("u8")))
                wr = Ptr(loc)
            I, outs = run(cx, b, [wr, arg], I, st)
            if outs is None:
                continue
            seen += 1
            if not stuck_outs(cx, I, outs, b):
                continue
            bs = (be_bytes(arg)[-nb:] if be else tobytes_le(arg)[:nb])
            for o in outs:
                if o.kind != "ret":
                    continue
                good = is_ok(I, o.val)
                if good is True:
                    enter(o.st)
                    if vec:
                        got = I.memget(o.st, loc).kids[0]
                    else:
                        got = seq_cat(EMPTY(), *[e[1] for e in o.st.events() if e[0] == "net_write"])
                    # a value that does not fit (24-bit) must not be accepted
                    if nb * 8 < arg.w:
                        d = decide(o.st, ult(arg, C(1 << (8 * nb), arg.w)))
                        if d is not True:
                            fits = assume(o.st, ult(arg, C(1 << (8 * nb), arg.w)), True)
                            if not fits:
                                continue
                    check_same(cx, I, o.st, "%s writes the %d bytes of the value, %s first" % (nm, nb, "most significant" if be else "least significant"), got, explicit(bs), short(b.key))
                elif good is False and vec and arg.w == 8 * nb:
                    cx.viol("%s accepts every value" % nm, short(b.key), "a value is refused")
    # readers
    for nm, nb, be in (("read_u8", 1, 1), ("read_be_u16", 2, 1), ("read_be_u24", 3, 1), ("read_be_u32", 4, 1), ("read_be_u64", 8, 1),
                       ("read_le_u16", 2, 0), ("read_le_u32", 4, 0), ("read_le_u64", 8, 0)):
        for b in P.find("util::ReadExt::" + nm):
            kind = "TcpStream" in b.key
            if not kind and "Cursor<&[u8]>" not in b.key and "&[u8]" not in b.key:
                continue
            I = cx.new()
            st = State()
            enter(st)
            if not kind:
                src = Src(("input",), (), ("int", 8))
                n = V(("input", "len"), 64, 0, (1 << 40))
                if "Cursor" in b.key:
                    v = mk("cur", (), (Ptr(I.alloc(st, srcslice(src, U64(0), n))), U64(0)))
                else:
                    v = Ptr(I.alloc(st, srcslice(src, U64(0), n)), (("rng", U64(0), n),))
                rd = Ptr(I.alloc(st, v))
            else:
                rd = I.fresh(b.locals[1], ("arg", 0))
                src = MD.netsrc()
                I.contracts.update(NETC)
            I, outs = run(cx, b, [rd], I, st)
            if outs is None:
                continue
            seen += 1
            if not stuck_outs(cx, I, outs, b):
                continue
            for o in outs:
                if o.kind != "ret":
                    continue
                if is_ok(I, o.val) is True:
                    enter(o.st)
                    x = o.val.kids[0]
                    if not isinstance(x, T):
                        cx.und("%s returns an integer" % nm, short(b.key), showv(x))
                        continue
                    bs = [src_elem(src, U64(i)) for i in range(nb)]
                    want = zext(frombytes_le(bs[::-1] if be else bs), x.w)
                    check_same(cx, I, o.st, "%s combines %d bytes, %s first" % (nm, nb, "most significant" if be else "least significant"), x, want, short(b.key))
                    if kind:
                        check_same(cx, I, o.st, "%s consumes exactly %d bytes" % (nm, nb), MD.netpos(o.st), U64(nb), short(b.key))
    if not seen:
        cx.und("integer readers and writers exist", "src/util.rs")
    cx.count("integer_primitives", seen)


def w06(cx):
    """exact reads on a transport that splits, ends or fails anywhere"""
    P = cx.P
    done = 0
    for nm in ("fill_exact", "read_exact"):
        for b in P.find("util::ReadExt::" + nm):
            if "TcpStream" not in b.key:
                continue
            I = cx.new()
            st = State()
            enter(st)
            rd = I.fresh(b.locals[1], ("arg", 0))
            n = V(("n",), 64, 0, (1 << 32))
            bufloc = None
            if nm == "fill_exact":
                old = srcslice(Src(("old",), (), ("int", 8)), U64(0), n)
                bufloc = I.alloc(st, old)
                a = [rd, Ptr(bufloc, (("rng", U64(0), n),))]
            else:
                a = [rd, n]
            I, outs = run(cx, b, a, I, st)
            if outs is None:
                continue
            done += 1
            if not stuck_outs(cx, I, outs, b):
                continue
            nok = 0
            for o in outs:
                if o.kind != "ret":
                    continue
                enter(o.st)
                g = is_ok(I, o.val)
                if g is True:
                    nok += 1
                    got = I.memget(o.st, bufloc) if bufloc else I.asseq(o.val.kids[0])
                    want = srcslice(MD.netsrc(), U64(0), n)
                    check_same(cx, I, o.st, "%s succeeds only with the next n bytes of the stream" % nm, got, want, short(b.key))
                    check_same(cx, I, o.st, "%s consumes exactly n bytes" % nm, MD.netpos(o.st), n, short(b.key))
                elif g is None:
                    cx.und("%s result" % nm, short(b.key), showv(o.val))
            if not nok:
                cx.absent(I, "%s can succeed" % nm, short(b.key), "no path returns Ok")
    if not done:
        cx.und("exact reads exist", "src/util.rs")
