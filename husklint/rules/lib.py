"""Shared helpers of the property rules."""
from term import *
import term as TT
from val import *
import val as VV
import interp as IN
from interp import Interp, State, Stuck, Out, enter, decide, assume
import models as MD
import rnd

U8 = lambda v: C(v, 8)


def short(key):
    return key[:110]


def where(b):
    s = getattr(b, "span", None)
    return "%s (%s)" % (b.path, s) if s else b.path


def body(cx, path, key=None):
    """the (first) body of a function; None and an undecided obligation if there is none"""
    bs = cx.P.find(path, key)
    if not bs:
        cx.und("anchor %s exists" % path, path, "no such function in the analysed tree")
        return None
    return bs[0]


def args_of(I, b, over=None):
    over = over or {}
    return [over[i] if i in over else I.fresh(b.locals[i + 1], ("arg", i)) for i in range(b.argc)]


def run(cx, b, args=None, I=None, st=None, contracts=None):
    """analyse one function for every argument: (I, outs) or (I, None) when it cannot be followed"""
    if I is None:
        I = cx.new()
        if contracts:
            I.contracts.update(contracts)
    if st is None:
        st = State()
    enter(st)
    a = args(I, st, b) if callable(args) else args if args is not None else args_of(I, b)
    try:
        outs = I.call_body(st, b, a)
    except (Stuck, Undecided, RecursionError) as e:
        cx.done(I)
        cx.und("%s is analysable" % b.path, b.path, "%s: %s" % (type(e).__name__, e))
        return I, None
    cx.done(I)
    return I, outs


def stuck_outs(cx, I, outs, b):
    """records undecided when some path was not followed to its end; True if all paths are known"""
    if I.stucks:
        cx.und("every path of %s is analysable" % b.path, b.path, "; ".join(str(s)[:160] for s in I.stucks[:3]))
        return False
    return True


def vsame(I, st, a, b, free_mu=False):
    """True: equal normal forms; False: they differ on a sample consistent with the path; None: unresolved"""
    enter(st)
    if a is b:
        return True
    try:
        if isinstance(a, Val) and isinstance(b, Val) and a.cls in ("seq", "vec") and b.cls in ("seq", "vec"):
            if seq_nf(st, MDseq(a), MDseq(b)):
                return True
        e = MD.vequal(I, st, a, b)
        d = decide(st, e)
        if d is True:
            return True
        if isinstance(a, T) and isinstance(b, T) and TT.same(a, b):
            return True
    except (Stuck, Undecided):
        pass
    try:
        w = rnd.differs(st, a, b, free_mu)
    except rnd.Unknown:
        w = None
    if w is None or w is False:
        return None
    return False


def MDseq(v):
    return v.kids[0] if v.cls == "vec" else v


def seq_nf(st, a, b):
    """piecewise equality of normal forms"""
    enter(st)
    pa, pb = list(pieces(a)), list(pieces(b))
    n = 0
    while pa and pb:
        n += 1
        if n > 2000:
            return False
        x, y = pa[0], pb[0]
        lx, ly = plen(x), plen(y)
        if x[0] == "e" and y[0] == "e":
            k = min(len(x[1]), len(y[1]))
            for p, q in zip(x[1][:k], y[1][:k]):
                if not el_nf(st, p, q):
                    return False
            pa[0:1] = [("e", x[1][k:])] if len(x[1]) > k else []
            pb[0:1] = [("e", y[1][k:])] if len(y[1]) > k else []
            continue
        d = decide(st, eq(lx, ly))
        if d is not True:
            lt = decide(st, ult(lx, ly))
            if lt is True:
                if not piece_nf(st, x, piece_slice(y, U64(0), lx)):
                    return False
                pa.pop(0)
                pb[0] = piece_slice(y, lx, sub(ly, lx))
                continue
            gt = decide(st, ult(ly, lx))
            if gt is True:
                if not piece_nf(st, piece_slice(x, U64(0), ly), y):
                    return False
                pb.pop(0)
                pa[0] = piece_slice(x, ly, sub(lx, ly))
                continue
            return False
        if not piece_nf(st, x, y):
            return False
        pa.pop(0)
        pb.pop(0)
    for p in pa + pb:
        if decide(st, eq(plen(p), U64(0))) is not True:
            return False
    return True


def el_nf(st, p, q):
    if p is q:
        return True
    if isinstance(p, T) and isinstance(q, T):
        return p.w == q.w and (TT.same(p, q) or decide(st, eq(p, q)) is True)
    return False


def piece_nf(st, x, y):
    if x == y:
        return True
    if x[0] == "e" and y[0] != "e":
        x, y = y, x
    if y[0] == "e":
        for i, q in enumerate(y[1]):
            try:
                if not el_nf(st, piece_get(x, U64(i)), q):
                    return False
            except Undecided:
                return False
        return True
    if x[0] != y[0]:
        return False
    if x[0] == "r":
        return el_nf(st, x[1], y[1])
    return x[1] is y[1] and (TT.same(x[2], y[2]) or decide(st, eq(x[2], y[2])) is True)


def be_bytes(t):
    return list(reversed(tobytes_le(t)))


def is_ok(I, v):
    """True/False for Ok/Err (Some/None) values, None when not a literal variant"""
    if v.cls == "agg":
        ty = v.shape[0]
        if isinstance(ty, str):
            return None
        t = I.ty(ty)
        if t["k"] == "adt" and t["kind"] == "enum":
            return t["variants"][v.shape[1]]["name"] in ("Ok", "Some")
    return None


def errkind(I, st, v):
    """name of the TlsErrorKind inside Err(TlsError{kind,..}), or None"""
    if v.cls != "agg" or not v.kids:
        return None
    e = v.kids[0]
    return kindof(I, st, e)


def kindof(I, st, e):
    if e.cls != "agg":
        return None
    t = I.ty(e.shape[0])
    if t["k"] != "adt" or t["path"].split("::")[-1] != "TlsError":
        return None
    for f, x in zip(t["variants"][0]["fields"], e.kids):
        if f["name"] == "kind":
            return enumname(I, st, x)
    return None


def enumname(I, st, x):
    if not isinstance(x, Val):
        return None
    if x.cls == "agg":
        return I.ty(x.shape[0])["variants"][x.shape[1]]["name"]
    if x.cls == "enum":
        enter(st)
        d = x.kids[0]
        l, h = IN._range(st, dict(intpoly(d)), 2)
        if l == h:
            for v in I.ty(x.shape[0])["variants"]:
                if int(v["discr"]) == l:
                    return v["name"]
    return None


def field(I, v, name):
    t = I.ty(v.shape[0])
    for f, x in zip(t["variants"][v.shape[1]]["fields"], v.kids):
        if f["name"] == name:
            return x
    raise KeyError(name)


def findex(I, ty, name):
    t = I.ty(ty)
    for i, f in enumerate(t["variants"][0]["fields"]):
        if f["name"] == name:
            return i
    raise KeyError(name)


def check_same(cx, I, st, name, got, want, at, free_mu=False):
    r = vsame(I, st, got, want, free_mu)
    det = ""
    if r is not True:
        det = "found %s, specified %s" % (showv(got)[:250], showv(want)[:250])
    return cx.ob(name, r, at, det)


def possible(I, cx=None):
    """possible panics recorded by the interpreter"""
    return I.panics


def check_panics(cx, I, name, given=()):
    """a panic that inputs reach is a violation (the absence of all panics is S01's)"""
    for p in I.panics:
        s = p["st"].copy()
        if p["pred"] is not None and not p["definite"] and not assume(s, p["pred"], False):
            continue
        if not all(assume(s, t, True) for t in given):
            continue
        if rnd.samples(s, 2, 300):
            cx.viol(name, "%s %s" % (p["fn"], p["span"]), "%s %s; %s" % (p["kind"], p["msg"], facts(s)[:300]))
            return


def c_fill_exact(I, st, cal, args, blk, span):
    """fill_exact: reads exactly the buffer or fails (decided by W06 for the transport; by its own loop otherwise)"""
    try:
        k, p, v = MD.reader(I, st, args[0])
    except Stuck:
        return None
    if k != "net":
        return None
    b = MD.bufptr(I, st, args[1])
    return MD.net_fill(I, st, MD.retty(I, cal, blk), b, MD.plen_(I, st, b))


def c_fill_mem(I, st, cal, args, blk, span):
    """fill_exact over data in memory: the next bytes exactly, or failure with the data used up (W06)"""
    try:
        k, p, v = MD.reader(I, st, args[0])
    except Stuck:
        return None
    ty = MD.retty(I, cal, blk)
    b = MD.bufptr(I, st, args[1])
    n = MD.plen_(I, st, b)
    if k == "net":
        return MD.net_fill(I, st, ty, b, n)
    s, pos, rem = MD.rd_remaining(I, st, k, p, v)
    out = []
    for s1, short in MD.split(I, st, ult(rem, n)):
        enter(s1)
        if short:
            MD.rd_advance(I, s1, k, p, v, rem)
            s1.nfresh += 1
            s1.emit("mem_err")
            out.append(Out("ret", s1, MD.err(I, ty, MD.io_err(I, ty, ("eof", s1.nfresh), s1))))
        else:
            I.storep(s1, b, MD.sl(I, seq_slice, s, pos, n))
            MD.rd_advance(I, s1, k, p, v, n)
            out.append(Out("ret", s1, MD.ok(I, ty, unit(I.prog))))
    return out


MEMC = {"util::ReadExt::fill_exact": c_fill_mem}
NETC = {"util::ReadExt::fill_exact": c_fill_exact}


def implies(st, disj):
    """do the path facts imply the disjunction?  True / False (a consistent sample violates it) / None"""
    enter(st)
    for t in disj:
        if decide(st, t) is True:
            return True
    s = st.copy()
    for t in disj:
        if not assume(s, t, False):
            return True
    enter(s)
    for k, v in list(s.truth.items()):
        if v and not isinstance(k, tuple):
            t = byid(k)
            if t.op == "f" and t.a[0] == "OR" and all(IN.decide_bit(s, x) is False for x in t.a[1]):
                return True
    # small ranges: exhaust
    for k, (l, h) in list(s.ctx.iv.items()):
        if isinstance(k, tuple):
            continue
        if 0 <= h - l <= 16 and h != l:
            t = byid(k)
            alive = False
            for v in range(l, h + 1):
                s2 = s.copy()
                if assume(s2, eq(t, C(v, t.w)), True):
                    alive = True
                    break
            if not alive:
                return True
    enter(s)
    for t in disj:
        if decide(s, t) is True:
            return True
    ss = rnd.samples(s, 6, 300)
    if ss:
        return False
    ss = rnd.samples(st, 12, 300)
    for x in ss:
        try:
            if not any(x.t(t) for t in disj):
                return False
        except rnd.Unknown:
            pass
    return None


def check_implies(cx, st, name, disj, at):
    r = implies(st, disj)
    return cx.ob(name, r, at, "" if r is True else "path facts: " + facts(st))


def facts(st):
    out = []
    for k, v in list(st.truth.items())[:14]:
        out.append(("" if v else "not ") + (show(byid(k)) if not isinstance(k, tuple) else "%s[%d]" % (show(byid(k[0])), k[1])))
    return "; ".join(out)[:500]


def loopev(st):
    """events of a path, looking only at the ones after/outside loops"""
    return st.events()


def ret_outs(outs):
    return [o for o in outs if o.kind == "ret"]


def panics_ok(cx, I, name, at, allow=()):
    """no definite panic in the analysed function"""
    pass
