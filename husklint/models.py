"""Transfer functions of the standard-library operations the crate (or a rewrite of it) calls."""
import re
from term import *
import term as TT
from rnd import bitcount
from val import *
import val as VV
import interp as IN
from interp import Interp, Stuck, Out, State, enter, decide, assume

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


_norm = {}


def normname(p):
    r = _norm.get(p)
    if r is not None:
        return r
    q = p
    m = re.match(r"^(?:core|std)::num::<impl (\w+)>::(\w+)$", q)
    if m:
        r = "int." + m.group(2)
    if r is None:
        m = re.match(r"^(?:core|std|alloc)::slice::(?:\w+::)*<impl \[[^\]]*\]>::(\w+)", q)
        if m:
            r = "slice." + m.group(1)
    if r is None:
        m = re.match(r"^(?:core|std|alloc)::str::(?:\w+::)*<impl str>::(\w+)", q)
        if m:
            r = "str." + m.group(1)
    if r is None:
        m = re.match(r"^(?:core|std|alloc)::array::<impl \[T; N\]>::(\w+)", q)
        if m:
            r = "array." + m.group(1)
    if r is None:
        m = re.match(r"^.*<impl (?:\w+::)*(\w+)>::(\w+)$", q)
        if m:
            r = m.group(1) + "." + m.group(2)
    if r is None:
        # drop generic arguments
        x = q
        while True:
            y = re.sub(r"(::)?<[^<>]*>", "", x)
            if y == x:
                break
            x = y
        segs = [s for s in x.split("::") if s]
        r = ".".join(segs[-2:]) if len(segs) > 1 else x
    _norm[p] = r
    return r


class SymModels:
    """mixin installing the models on an interpreter"""


def install(I):
    def pat(name, cal):
        if cal.get("local"):
            # the arguments of a closure come as a tuple
            return call_fn if cal["path"].split("::")[-2:-1] in (["FnOnce"], ["FnMut"], ["Fn"]) and "ops::" in cal["path"] else None
        for n in (cal.get("rpath"), cal["path"]):
            if n is None:
                continue
            f = M.get(normname(n))
            if f is not None:
                return f
        if "fmt::" in name or "fmt::" in cal["path"]:
            return m_fmt
        if name in ("std::io::_print", "std::io::_eprint") or name.endswith("stdio::_print") or name.endswith("stdio::_eprint"):
            return m_opaque
        if "panicking::" in name or name.startswith("std::rt::"):
            return m_panic
        return None
    I.model_pattern = pat
    I.shim = lambda st, cal, args, blk, span: shim(I, st, cal, args, blk, span)


# ------------------------------------------------------------------ helpers
def retty(I, cal, blk):
    if blk is not None and (blk.get("callee") is cal or blk.get("_ty") is not None):
        return blk.get("_ty") if blk.get("callee") is not cal else blk["dty"]
    r = cal.get("dty")
    if r is not None:
        return r
    raise Stuck("result type of %s unknown" % cal["path"])


def variant(I, ty, name):
    for i, v in enumerate(I.ty(ty)["variants"]):
        if v["name"] == name:
            return i
    raise Stuck("no variant %s" % name)


def some(I, ty, v):
    return Agg(ty, variant(I, ty, "Some"), [v])


def none(I, ty):
    return Agg(ty, variant(I, ty, "None"), [])


def ok(I, ty, v):
    return Agg(ty, variant(I, ty, "Ok"), [v])


def err(I, ty, v):
    return Agg(ty, variant(I, ty, "Err"), [v])


def split(I, st, pred):
    """[(state, bool)] for the decided/possible outcomes of pred"""
    enter(st)
    d = decide(st, pred)
    if d is not None:
        return [(st, d)]
    s2 = st.copy()
    r = []
    if assume(s2, pred, True):
        r.append((s2, True))
    if assume(st, pred, False):
        r.append((st, False))
    return r


def vid(v):
    return v.id if isinstance(v, T) else v.vid


def seqof(I, st, v):
    """the sequence behind a slice reference / vec / array value"""
    if v.cls in ("ptr", "box"):
        w = I.loadp(st, v)
        if w.cls in ("ptr", "box"):
            return seqof(I, st, w)
        return I.asseq(w)
    return I.asseq(v)


def bufptr(I, st, p):
    """pointer to the element sequence of what p points at (vec buffer, array or slice)"""
    if p.cls == "box":
        p = Ptr(p.shape[0])
    v = I.loadp(st, p)
    if v.cls in ("ptr", "box"):
        return bufptr(I, st, v)
    if v.cls == "vec":
        return Ptr(p.shape[0], ptr_path(p) + (("b",),))
    return p


def subptr(p, start, ln):
    pa = ptr_path(p)
    if pa and isinstance(pa[-1], tuple) and pa[-1][0] == "rng":
        return Ptr(p.shape[0], pa[:-1] + (("rng", add(pa[-1][1], start), ln),), None)
    return Ptr(p.shape[0], pa + (("rng", start, ln),), None)


def elemptr(p, i):
    pa = ptr_path(p)
    if pa and isinstance(pa[-1], tuple) and pa[-1][0] == "rng":
        return Ptr(p.shape[0], pa[:-1] + (("i", add(pa[-1][1], i)),), None)
    return Ptr(p.shape[0], pa + (("i", i),), None)


def plen_(I, st, p):
    return I.ptrlen(st, p)


def sl(I, f, *a):
    try:
        return f(*a)
    except Undecided as e:
        raise Stuck(str(e))


def storeseq(I, st, p, s):
    """overwrite the slice behind p"""
    p = bufptr(I, st, p)
    v = I.loadp(st, p)
    pa = ptr_path(p)
    if pa and isinstance(pa[-1], tuple) and pa[-1][0] == "rng":
        I.storep(st, p, s)
    else:
        I.storep(st, p, s)


def deref_all(I, st, v, depth=0):
    """value behind any number of references (compared structurally)"""
    while isinstance(v, Val) and v.cls in ("ptr", "box") and depth < 6:
        v = I.loadp(st, v)
        depth += 1
    return v


# ------------------------------------------------------------------ effect-free / opaque
def m_fmt(I, st, cal, args, blk, span):
    for a in args:
        try:
            I.fmts.append((span, I.stack[-1] if I.stack else "?", deref_all(I, st, a)))
        except (Stuck, Undecided):
            I.fmts.append((span, I.stack[-1] if I.stack else "?", None))
    return m_opaque(I, st, cal, args, blk, span)


def m_opaque(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    k = I.ty(ty)
    if k["k"] == "tuple" and not k["elems"]:
        return Agg(ty, 0, [])
    st.nfresh += 1
    return I.fresh(ty, ("opaque", cal["path"], st.nfresh))


def m_panic(I, st, cal, args, blk, span):
    I.panic(st, span, cal["path"])
    return []


@model("must_use", "hint.must_use", "hint.black_box", "convert.identity")
def m_id(I, st, cal, args, blk, span):
    return args[0]


@model("mem.drop", "mem.forget")
def m_unit(I, st, cal, args, blk, span):
    return unit(I.prog)


@model("mem.replace")
def m_replace(I, st, cal, args, blk, span):
    old = I.loadp(st, args[0])
    I.storep(st, args[0], args[1])
    return old


@model("mem.swap")
def m_swap(I, st, cal, args, blk, span):
    a, b = I.loadp(st, args[0]), I.loadp(st, args[1])
    I.storep(st, args[0], b)
    I.storep(st, args[1], a)
    return unit(I.prog)


@model("mem.take")
def m_take(I, st, cal, args, blk, span):
    old = I.loadp(st, args[0])
    if old.cls == "vec":
        I.storep(st, args[0], Vec(EMPTY(), old.shape[0]))
        return old
    if isinstance(old, T):
        I.storep(st, args[0], C(0, old.w))
        return old
    raise Stuck("mem::take")


@model("intrinsics.integer_min")
def m_intmin(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    t = I.ty(ty)
    return C((1 << (t["bits"] - 1)) if t.get("signed") else 0, t["bits"])


@model("num.FromPrimitive.from_u8", "FromPrimitive.from_u8", "FromPrimitive.from_u16", "FromPrimitive.from_u32",
       "FromPrimitive.from_usize")
def m_fromprim(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    inner = I.ty(ty)["args"][0]
    name = I.ty(inner)["path"].split("::")[-1]
    for b in I.prog.bodies.values():
        if b.local and b.path.endswith("::from_u64") and b.locals[0] == ty:
            return I.call_body(st, b, [cast(args[0], 64)])
    raise Stuck("FromPrimitive for %s" % name)


# ------------------------------------------------------------------ integers
@model("int.count_ones", "int.count_zeros", "int.leading_zeros", "int.trailing_zeros", "int.leading_ones", "int.trailing_ones")
def i_count(I, st, cal, args, blk, span):
    a = args[0]
    n = normname(cal["path"])
    if a.op == "c":
        return C(bitcount(n, a.a, a.w), 32)
    return F(("free", n), (a,), 32, 0, a.w)


@model("std::string::String::is_empty", "std::string::String::len")
def s_len(I, st, cal, args, blk, span):
    v = I.loadp(st, args[0])
    if not isinstance(v, Val) or v.cls not in ("opq", "str"):
        raise Stuck("length of a string")
    n = U64(len(v.shape[0])) if v.cls == "str" else F(("free", "strlen"), (v,), 64, 0, 1 << 40)
    return n if cal["path"].endswith("::len") else eq(n, U64(0))


@model("int.rotate_left")
def i_rotl(I, st, cal, args, blk, span):
    n = args[1]
    if n.op != "c":
        raise Stuck("rotation by a variable")
    return rotl(args[0], n.a % args[0].w)


@model("int.rotate_right")
def i_rotr(I, st, cal, args, blk, span):
    n = args[1]
    if n.op != "c":
        raise Stuck("rotation by a variable")
    return rotl(args[0], (-n.a) % args[0].w)


@model("int.wrapping_add", "int.unchecked_add")
def i_wadd(I, st, cal, args, blk, span):
    return add(args[0], args[1])


@model("int.wrapping_sub", "int.unchecked_sub")
def i_wsub(I, st, cal, args, blk, span):
    return sub(args[0], args[1])


@model("int.wrapping_mul", "int.unchecked_mul")
def i_wmul(I, st, cal, args, blk, span):
    return mul(args[0], args[1])


@model("int.wrapping_neg")
def i_wneg(I, st, cal, args, blk, span):
    return neg(args[0])


@model("int.wrapping_shl")
def i_wshl(I, st, cal, args, blk, span):
    return I.binop(st, "Shl", args[0], and_(args[1], C(args[0].w - 1, args[1].w)), None)


@model("int.wrapping_shr")
def i_wshr(I, st, cal, args, blk, span):
    return I.binop(st, "Shr", args[0], and_(args[1], C(args[0].w - 1, args[1].w)), None)


def is_signed(I, cal):
    m = re.search(r"<impl ([iu])\w+>", cal["path"])
    return bool(m and m.group(1) == "i")


def _ovf(I, st, cal, args, op):
    return I.ovf(st, op, args[0], args[1], is_signed(I, cal), None)


@model("int.overflowing_add")
def i_oadd(I, st, cal, args, blk, span):
    p = _ovf(I, st, cal, args, "AddWithOverflow")
    return Agg(retty(I, cal, blk), 0, p.kids)


@model("int.overflowing_sub")
def i_osub(I, st, cal, args, blk, span):
    p = _ovf(I, st, cal, args, "SubWithOverflow")
    return Agg(retty(I, cal, blk), 0, p.kids)


@model("int.overflowing_mul")
def i_omul(I, st, cal, args, blk, span):
    p = _ovf(I, st, cal, args, "MulWithOverflow")
    return Agg(retty(I, cal, blk), 0, p.kids)


def _checked(op):
    def f(I, st, cal, args, blk, span):
        ty = retty(I, cal, blk)
        p = _ovf(I, st, cal, args, op)
        out = []
        for s, v in split(I, st, p.kids[1]):
            if not v and p.kids[0].op == "p":
                s.ctx.exact = s.ctx.exact | {p.kids[0].id}
            out.append(Out("ret", s, none(I, ty) if v else some(I, ty, p.kids[0])))
        return out
    return f


M["int.checked_add"] = _checked("AddWithOverflow")
M["int.checked_sub"] = _checked("SubWithOverflow")
M["int.checked_mul"] = _checked("MulWithOverflow")


@model("int.saturating_sub")
def i_ssub(I, st, cal, args, blk, span):
    out = []
    for s, v in split(I, st, ult(args[0], args[1])):
        enter(s)
        r = C(0, args[0].w) if v else sub(args[0], args[1])
        if not v and r.op == "p":
            s.ctx.exact = s.ctx.exact | {r.id}
        out.append(Out("ret", s, r))
    return out


@model("int.saturating_add")
def i_sadd(I, st, cal, args, blk, span):
    p = _ovf(I, st, cal, args, "AddWithOverflow")
    out = []
    for s, v in split(I, st, p.kids[1]):
        if not v and p.kids[0].op == "p":
            s.ctx.exact = s.ctx.exact | {p.kids[0].id}
        out.append(Out("ret", s, C(-1, args[0].w) if v else p.kids[0]))
    return out


@model("int.to_be", "int.from_be", "int.swap_bytes")
def i_tobe(I, st, cal, args, blk, span):
    return bswap(args[0])


@model("int.to_le", "int.from_le")
def i_tole(I, st, cal, args, blk, span):
    return args[0]


@model("int.to_le_bytes", "int.to_ne_bytes")
def i_tolb(I, st, cal, args, blk, span):
    return explicit(tobytes_le(args[0]))


@model("int.to_be_bytes")
def i_tobb(I, st, cal, args, blk, span):
    return explicit(list(tobytes_le(args[0]))[::-1])


def _bytes(s):
    v = seq_map_explicit(s)
    if v is None:
        raise Stuck("bytes of unknown length")
    return v


@model("int.from_le_bytes", "int.from_ne_bytes")
def i_flb(I, st, cal, args, blk, span):
    return frombytes_le(_bytes(args[0]))


@model("int.from_be_bytes")
def i_fbb(I, st, cal, args, blk, span):
    return frombytes_le(_bytes(args[0])[::-1])


@model("Ord.min", "cmp.min")
def i_min(I, st, cal, args, blk, span):
    a, b = args
    if not isinstance(a, T):
        return None
    out = []
    for s, v in split(I, st, ult(b, a)):
        out.append(Out("ret", s, b if v else a))
    return out


@model("Ord.max", "cmp.max")
def i_max(I, st, cal, args, blk, span):
    a, b = args
    if not isinstance(a, T):
        return None
    out = []
    for s, v in split(I, st, ult(a, b)):
        out.append(Out("ret", s, b if v else a))
    return out


def wrapping(f):
    def g(I, st, cal, args, blk, span):
        a, b = args
        if not (isinstance(a, Val) and a.cls == "agg" and len(a.kids) == 1):
            if isinstance(a, T) and isinstance(b, T):
                return f(I, st, a, b)
            da = deref_all(I, st, a)
            db = deref_all(I, st, b)
            if isinstance(da, T) and isinstance(db, T):
                return f(I, st, da, db)
            if isinstance(da, Val) and da.cls == "agg" and len(da.kids) == 1 and isinstance(da.kids[0], T):
                a, b = da, db
            else:
                return None
        x = a.kids[0]
        y = b.kids[0] if isinstance(b, Val) and b.cls == "agg" else deref_all(I, st, b)
        if isinstance(y, Val) and y.cls == "agg":
            y = y.kids[0]
        return Agg(a.shape[0], 0, [f(I, st, x, y)])
    return g


def _shf(op):
    def f(I, st, a, b):
        if b.op == "c":
            b = C(b.a % a.w, b.w)
        else:
            l, h = rng(b)
            if h >= a.w:
                b = and_(b, C(a.w - 1, b.w))
        return I.binop(st, op, a, b, None)
    return f


BIN = {"Add.add": lambda I, st, a, b: add(a, b), "Sub.sub": lambda I, st, a, b: sub(a, b),
       "Mul.mul": lambda I, st, a, b: mul(a, b), "BitAnd.bitand": lambda I, st, a, b: and_(a, b),
       "BitOr.bitor": lambda I, st, a, b: or_(a, b), "BitXor.bitxor": lambda I, st, a, b: xor(a, b),
       "Shl.shl": _shf("Shl"), "Shr.shr": _shf("Shr")}
for _n, _f in BIN.items():
    M[_n] = wrapping(_f)


def _assign(n):
    f = wrapping(BIN[n])

    def g(I, st, cal, args, blk, span):
        old = I.loadp(st, args[0])
        r = f(I, st, cal, [old, args[1]], blk, span)
        if r is None:
            return None
        I.storep(st, args[0], r)
        return unit(I.prog)
    return g


for _a, _n in (("AddAssign.add_assign", "Add.add"), ("SubAssign.sub_assign", "Sub.sub"), ("MulAssign.mul_assign", "Mul.mul"),
               ("BitAndAssign.bitand_assign", "BitAnd.bitand"), ("BitOrAssign.bitor_assign", "BitOr.bitor"),
               ("BitXorAssign.bitxor_assign", "BitXor.bitxor"), ("ShlAssign.shl_assign", "Shl.shl"),
               ("ShrAssign.shr_assign", "Shr.shr")):
    M[_a] = _assign(_n)


@model("Not.not")
def m_not(I, st, cal, args, blk, span):
    a = args[0]
    if isinstance(a, T):
        return not_(a)
    if a.cls == "agg" and len(a.kids) == 1:
        return Agg(a.shape[0], 0, [not_(a.kids[0])])
    return None


# ------------------------------------------------------------------ comparison
def vequal(I, st, a, b):
    """term: structural equality of two values"""
    enter(st)
    a, b = deref_all(I, st, a), deref_all(I, st, b)
    if isinstance(a, T) and isinstance(b, T):
        return eq(a, b)
    if isinstance(a, T) or isinstance(b, T):
        raise Stuck("comparison of unlike values")
    if a is b:
        return TRUE
    if a.cls == "vec":
        a = a.kids[0]
    if b.cls == "vec":
        b = b.kids[0]
    if a.cls == "seq" and b.cls == "seq":
        return seq_equal(I, st, a, b)
    if a.cls == "str" and b.cls == "str":
        return C(int(a.shape == b.shape), 1)
    if a.cls in ("agg", "enum") and b.cls in ("agg", "enum"):
        ta = I.ty(a.shape[0]) if not isinstance(a.shape[0], str) else None
        if ta and ta["k"] == "adt" and ta["kind"] == "enum":
            da, db = I.discr(st, a), I.discr(st, b)
            e = eq(da, db)
            if all(not v["fields"] for v in ta["variants"]):
                return e
            d = decide(st, e)
            if d is False:
                return FALSE
            for s in (a, b):
                if s.cls == "agg":
                    v = s.shape[1]
                    x, y = I.variant_fields(a, v) if a.cls == "enum" else a, I.variant_fields(b, v) if b.cls == "enum" else b
                    if x.shape[1] != y.shape[1]:
                        return FALSE
                    r = e
                    for p, q in zip(x.kids, y.kids):
                        r = and_(r, vequal(I, st, p, q))
                    return r
            return F("veq", (a, b), 1, 0, 1)
        r = TRUE
        for p, q in zip(a.kids, b.kids):
            r = and_(r, vequal(I, st, p, q))
        return r
    return F("veq", (a, b) if a.vid < b.vid else (b, a), 1, 0, 1)


def seq_equal(I, st, a, b):
    la, lb = seq_len(a), seq_len(b)
    e = eq(la, lb)
    if decide(st, e) is False:
        return FALSE
    xa, xb = seq_map_explicit(a), seq_map_explicit(b)
    if xa is not None and xb is not None:
        if len(xa) != len(xb):
            return FALSE
        if len(xa) <= 64:
            ds = []
            ne_ = None
            allb = True
            r = TRUE
            for p, q in zip(xa, xb):
                c = vequal(I, st, p, q)
                d = decide(st, c)
                if d is False:
                    return FALSE
                if d is True:
                    continue
                r = and_(r, c)
            return r
    if a is b:
        return TRUE
    return F("seqeq", (a, b) if a.vid < b.vid else (b, a), 1, 0, 1)


def note_eq(I, st, args, span):
    """the library's comparison of sequences stops at the first difference"""
    try:
        a, b = deref_all(I, st, args[0]), deref_all(I, st, args[1])
    except (Stuck, Undecided):
        return
    if all(isinstance(x, Val) for x in (a, b)):
        I.eqs.append((span, I.stack[-1] if I.stack else "?", a, b))


@model("PartialEq.eq", "SliceEq.eq")
def m_eq(I, st, cal, args, blk, span):
    note_eq(I, st, args, span)
    return vequal(I, st, args[0], args[1])


@model("PartialEq.ne")
def m_ne(I, st, cal, args, blk, span):
    note_eq(I, st, args, span)
    return not_(vequal(I, st, args[0], args[1]))


def _cmp(op):
    def f(I, st, cal, args, blk, span):
        a, b = deref_all(I, st, args[0]), deref_all(I, st, args[1])
        if isinstance(a, Val) and a.cls == "agg" and len(a.kids) == 1:
            a, b = a.kids[0], b.kids[0]
        if isinstance(a, Val) and isinstance(b, Val) and a.cls == b.cls == "agg" and len(a.kids) == len(b.kids) and all(isinstance(x, T) for x in a.kids + b.kids):
            # tuples and derived orders: the first differing field decides
            if I.ty(a.shape[0])["k"] != "tuple":
                return None
            enter(st)
            x, y = (a, b) if op in ("lt", "ge") else (b, a)
            r = FALSE
            for p, q in reversed(list(zip(x.kids, y.kids))):
                r = or_(ult(p, q), and_(eq(p, q), r))
            return r if op in ("lt", "gt") else not_(r)
        if isinstance(a, T) and isinstance(b, T):
            sg = "i" == (re.search(r"<impl[^>]*for ([iu])", cal.get("rpath") or "") or [None, "u"])[1]
            lt = slt if sg else ult
            return {"lt": lambda: lt(a, b), "gt": lambda: lt(b, a), "le": lambda: not_(lt(b, a)), "ge": lambda: not_(lt(a, b))}[op]()
        return None
    return f


for _o in ("lt", "le", "gt", "ge"):
    M["PartialOrd." + _o] = _cmp(_o)


# ------------------------------------------------------------------ Vec
@model("Vec.new", "Vec.with_capacity")
def v_new(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    return Vec(EMPTY(), I.ty(ty)["args"][0])


@model("vec.from_elem")
def v_from_elem(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    enter(st)
    return Vec(Seq((("r", args[0], args[1]),)), I.ty(ty)["args"][0])


@model("Vec.len", "slice.len", "array.len")
def v_len(I, st, cal, args, blk, span):
    return plen_(I, st, args[0])


@model("Vec.is_empty", "slice.is_empty")
def v_isempty(I, st, cal, args, blk, span):
    return eq(plen_(I, st, args[0]), U64(0))


@model("Vec.capacity")
def v_cap(I, st, cal, args, blk, span):
    st.nfresh += 1
    return V(("cap", st.nfresh), 64)


@model("Vec.reserve", "Vec.reserve_exact", "Vec.shrink_to_fit")
def v_reserve(I, st, cal, args, blk, span):
    return unit(I.prog)


@model("Vec.push")
def v_push(I, st, cal, args, blk, span):
    v = I.loadp(st, args[0])
    I.storep(st, args[0], Vec(sl(I, seq_cat, v.kids[0], explicit([args[1]])), v.shape[0]))
    return unit(I.prog)


@model("Vec.pop")
def v_pop(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    v = I.loadp(st, args[0])
    n = seq_len(v.kids[0])
    out = []
    for s, e in split(I, st, eq(n, U64(0))):
        if e:
            out.append(Out("ret", s, none(I, ty)))
        else:
            enter(s)
            m = sub(n, U64(1))
            x = sl(I, seq_get, v.kids[0], m)
            I.storep(s, args[0], Vec(sl(I, seq_slice, v.kids[0], U64(0), m), v.shape[0]))
            out.append(Out("ret", s, some(I, ty, x)))
    return out


@model("Vec.clear")
def v_clear(I, st, cal, args, blk, span):
    v = I.loadp(st, args[0])
    I.storep(st, args[0], Vec(EMPTY(), v.shape[0]))
    return unit(I.prog)


@model("Vec.truncate")
def v_truncate(I, st, cal, args, blk, span):
    v = I.loadp(st, args[0])
    n = seq_len(v.kids[0])
    out = []
    for s, lt in split(I, st, ult(args[1], n)):
        enter(s)
        if lt:
            I.storep(s, args[0], Vec(sl(I, seq_slice, v.kids[0], U64(0), args[1]), v.shape[0]))
        out.append(Out("ret", s, unit(I.prog)))
    return out


@model("Vec.resize")
def v_resize(I, st, cal, args, blk, span):
    v = I.loadp(st, args[0])
    n = seq_len(v.kids[0])
    out = []
    for s, lt in split(I, st, ult(args[1], n)):
        enter(s)
        if lt:
            r = sl(I, seq_slice, v.kids[0], U64(0), args[1])
        else:
            r = seq_cat(v.kids[0], Seq((("r", args[2], sub(args[1], n)),)))
        I.storep(s, args[0], Vec(r, v.shape[0]))
        out.append(Out("ret", s, unit(I.prog)))
    return out


@model("Vec.insert")
def v_insert(I, st, cal, args, blk, span):
    v = I.loadp(st, args[0])
    s = v.kids[0]
    n = seq_len(s)
    if not I.oblige(st, not_(ult(n, args[1])), "bounds", span, "Vec::insert"):
        return []
    r = seq_cat(sl(I, seq_slice, s, U64(0), args[1]), explicit([args[2]]), sl(I, seq_slice, s, args[1], sub(n, args[1])))
    I.storep(st, args[0], Vec(r, v.shape[0]))
    return unit(I.prog)


@model("Vec.remove")
def v_remove(I, st, cal, args, blk, span):
    v = I.loadp(st, args[0])
    s = v.kids[0]
    n = seq_len(s)
    if not I.oblige(st, ult(args[1], n), "bounds", span, "Vec::remove"):
        return []
    enter(st)
    x = sl(I, seq_get, s, args[1])
    b = add(args[1], U64(1))
    r = seq_cat(sl(I, seq_slice, s, U64(0), args[1]), sl(I, seq_slice, s, b, sub(n, b)))
    I.storep(st, args[0], Vec(r, v.shape[0]))
    return x


@model("Vec.split_off")
def v_split_off(I, st, cal, args, blk, span):
    v = I.loadp(st, args[0])
    s = v.kids[0]
    n = seq_len(s)
    if not I.oblige(st, not_(ult(n, args[1])), "bounds", span, "Vec::split_off"):
        return []
    enter(st)
    a = sl(I, seq_slice, s, U64(0), args[1])
    b = sl(I, seq_slice, s, args[1], sub(n, args[1]))
    I.storep(st, args[0], Vec(a, v.shape[0]))
    return Vec(b, v.shape[0])


@model("Vec.append")
def v_append(I, st, cal, args, blk, span):
    a, b = I.loadp(st, args[0]), I.loadp(st, args[1])
    I.storep(st, args[0], Vec(seq_cat(a.kids[0], b.kids[0]), a.shape[0]))
    I.storep(st, args[1], Vec(EMPTY(), b.shape[0]))
    return unit(I.prog)


@model("Vec.extend_from_slice")
def v_efs(I, st, cal, args, blk, span):
    v = I.loadp(st, args[0])
    s = seqof(I, st, args[1])
    enter(st)
    I.storep(st, args[0], Vec(seq_cat(v.kids[0], s), v.shape[0]))
    return unit(I.prog)


@model("Vec.into_boxed_slice")
def v_ibs(I, st, cal, args, blk, span):
    loc = I.alloc(st, args[0].kids[0])
    return Box(loc, retty(I, cal, blk))


@model("Vec.drain")
def v_drain(I, st, cal, args, blk, span):
    v = I.loadp(st, args[0])
    s = v.kids[0]
    n = seq_len(s)
    r = rangeof(I, st, args[1], n)
    if r is None:
        raise Stuck("drain")
    a, e = r
    if not I.oblige(st, not_(ult(e, a)), "bounds", span, "drain") or not I.oblige(st, not_(ult(n, e)), "bounds", span, "drain"):
        return []
    enter(st)
    mid = sl(I, seq_slice, s, a, sub(e, a))
    rest = seq_cat(sl(I, seq_slice, s, U64(0), a), sl(I, seq_slice, s, e, sub(n, e)))
    I.storep(st, args[0], Vec(rest, v.shape[0]))
    return It("own", (), (mid, U64(0), seq_len(mid)))


@model("Vec.as_slice", "Vec.as_mut_slice", "Deref.deref", "DerefMut.deref_mut", "AsRef.as_ref", "AsMut.as_mut",
       "Borrow.borrow", "BorrowMut.borrow_mut", "array.as_slice", "array.as_mut_slice")
def v_deref(I, st, cal, args, blk, span):
    p = args[0]
    v = I.loadp(st, p)
    if v.cls == "vec":
        return bufptr(I, st, p)
    if v.cls == "seq":
        return p
    if v.cls in ("box", "ptr"):
        return Ptr(v.shape[0], ptr_path(v) if v.cls == "ptr" else (), v.shape[2])
    if v.cls == "opq" or v.cls == "str":
        return v if v.cls == "str" else Opaque(v.shape[0], ("deref", v.shape[1]))
    return None


@model("Clone.clone", "ToOwned.to_owned", "slice.to_vec", "slice.into_vec")
def v_clone(I, st, cal, args, blk, span):
    p = args[0]
    ty = retty(I, cal, blk)
    t = I.ty(ty)
    v = I.loadp(st, p) if p.cls in ("ptr", "box") else p
    n = 0
    while isinstance(v, Val) and v.cls in ("ptr", "box") and t["k"] not in ("ref",) and n < 4:
        v = I.loadp(st, v)
        n += 1
    if t["k"] == "adt" and t["path"] in ("std::vec::Vec", "alloc::vec::Vec"):
        s = I.asseq(v)
        return Vec(s, t["args"][0])
    if isinstance(v, T):
        return v
    if v.cls == "vec":
        return v
    return v


@model("slice.concat")
def s_concat(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    s = seqof(I, st, args[0])
    vs = seq_map_explicit(s)
    if vs is None:
        raise Stuck("concat")
    out = EMPTY()
    for x in vs:
        out = seq_cat(out, seqof(I, st, x))
    return Vec(out, I.ty(ty)["args"][0])


# ------------------------------------------------------------------ Box / Cursor
@model("Box.new")
def b_new(I, st, cal, args, blk, span):
    loc = I.alloc(st, args[0])
    ty = retty(I, cal, blk)
    return Box(loc, ty)


@model("Box.new_uninit")
def b_uninit(I, st, cal, args, blk, span):
    # MaybeUninit { value: ManuallyDrop { value } }
    loc = I.alloc(st, mk("agg", ("uninit", 0), (UNDEF, mk("agg", ("uninit", 0), (UNDEF,)))))
    return Box(loc, retty(I, cal, blk))


@model("boxed.box_assume_init_into_vec_unsafe")
def b_intovec(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    v = I.loadp(st, args[0])
    while isinstance(v, Val) and v.cls == "agg" and v.shape[0] == "uninit":
        v = v.kids[-1]
    return Vec(I.asseq(v), I.ty(ty)["args"][0])


@model("Cursor.new")
def c_new(I, st, cal, args, blk, span):
    return mk("cur", (), (args[0], U64(0)))


@model("Cursor.position")
def c_pos(I, st, cal, args, blk, span):
    return I.loadp(st, args[0]).kids[1]


@model("Cursor.set_position")
def c_setpos(I, st, cal, args, blk, span):
    c = I.loadp(st, args[0])
    I.storep(st, args[0], mk("cur", (), (c.kids[0], args[1])))
    return unit(I.prog)


@model("Cursor.get_ref", "Cursor.into_inner")
def c_getref(I, st, cal, args, blk, span):
    p = args[0]
    if p.cls == "cur":
        return p.kids[0]
    return None


# ------------------------------------------------------------------ ranges and indexing
def rangeof(I, st, r, n):
    """(start, end) of a range value used as an index into something of length n"""
    if isinstance(r, T):
        return None
    if r.cls == "ptr":
        r = I.loadp(st, r)
    t = I.ty(r.shape[0])
    p = t.get("path", "").split("::")[-1]
    if p == "Range":
        return r.kids[0], r.kids[1]
    if p == "RangeFrom":
        return r.kids[0], n
    if p == "RangeTo":
        return U64(0), r.kids[0]
    if p == "RangeFull":
        return U64(0), n
    if p == "RangeInclusive":
        return r.kids[0], add(r.kids[1], U64(1))
    if p == "RangeToInclusive":
        return U64(0), add(r.kids[0], U64(1))
    raise Stuck("index by %s" % t["s"])


@model("Index.index", "IndexMut.index_mut")
def m_index(I, st, cal, args, blk, span):
    if args[0].cls not in ("ptr", "box"):
        raise Stuck("index into %s" % args[0].cls)
    p = bufptr(I, st, args[0])
    n = plen_(I, st, p)
    enter(st)
    if isinstance(args[1], T):
        if not I.oblige(st, ult(args[1], n), "bounds", span, "index"):
            return []
        if args[1].op != "c":
            I.accesses.append((span, I.stack[-1] if I.stack else "?", args[1]))
        return elemptr(p, args[1])
    a, b = rangeof(I, st, args[1], n)
    if not I.oblige(st, not_(ult(b, a)), "bounds", span, "slice index starts after its end"):
        return []
    if not I.oblige(st, not_(ult(n, b)), "bounds", span, "slice end out of range"):
        return []
    enter(st)
    ln = sub(b, a)
    if ln.op == "p":
        st.ctx.exact = st.ctx.exact | {ln.id}
        enter(st)
    return subptr(p, a, ln)


@model("slice.get", "slice.get_mut")
def m_get(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    p = bufptr(I, st, args[0])
    n = plen_(I, st, p)
    out = []
    if isinstance(args[1], T):
        if args[1].op != "c":
            I.accesses.append((span, I.stack[-1] if I.stack else "?", args[1]))
        for s, v in split(I, st, ult(args[1], n)):
            out.append(Out("ret", s, some(I, ty, elemptr(p, args[1])) if v else none(I, ty)))
        return out
    a, b = rangeof(I, st, args[1], n)
    for s, v in split(I, st, not_(ult(b, a))):
        if not v:
            out.append(Out("ret", s, none(I, ty)))
            continue
        for s2, v2 in split(I, s, not_(ult(n, b))):
            enter(s2)
            if v2:
                ln = sub(b, a)
                if ln.op == "p":
                    s2.ctx.exact = s2.ctx.exact | {ln.id}
            out.append(Out("ret", s2, some(I, ty, subptr(p, a, ln)) if v2 else none(I, ty)))
    return out


@model("slice.first", "slice.last", "slice.first_mut", "slice.last_mut")
def m_first(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    p = bufptr(I, st, args[0])
    n = plen_(I, st, p)
    out = []
    for s, v in split(I, st, eq(n, U64(0))):
        enter(s)
        if v:
            out.append(Out("ret", s, none(I, ty)))
        else:
            i = U64(0) if "first" in normname(cal["path"]) else sub(n, U64(1))
            out.append(Out("ret", s, some(I, ty, elemptr(p, i))))
    return out


@model("slice.split_at_mut", "slice.split_at")
def m_splitat(I, st, cal, args, blk, span):
    p = bufptr(I, st, args[0])
    n = plen_(I, st, p)
    if not I.oblige(st, not_(ult(n, args[1])), "bounds", span, "split_at"):
        return []
    enter(st)
    r = sub(n, args[1])
    if r.op == "p":
        st.ctx.exact = st.ctx.exact | {r.id}
    return Agg(retty(I, cal, blk), 0, [subptr(p, U64(0), args[1]), subptr(p, args[1], r)])


@model("slice.clone_from_slice", "slice.copy_from_slice")
def m_copyfrom(I, st, cal, args, blk, span):
    p = bufptr(I, st, args[0])
    n = plen_(I, st, p)
    s = seqof(I, st, args[1])
    enter(st)
    if not I.oblige(st, eq(n, seq_len(s)), "length", span, "copy_from_slice"):
        return []
    I.storep(st, p, s)
    return unit(I.prog)


@model("slice.fill")
def m_fill(I, st, cal, args, blk, span):
    p = bufptr(I, st, args[0])
    n = plen_(I, st, p)
    I.storep(st, p, Seq((("r", args[1], n),)))
    return unit(I.prog)


@model("slice.swap")
def m_sswap(I, st, cal, args, blk, span):
    p = bufptr(I, st, args[0])
    n = plen_(I, st, p)
    for k in (1, 2):
        if not I.oblige(st, ult(args[k], n), "bounds", span, "swap"):
            return []
    a, b = I.loadp(st, elemptr(p, args[1])), I.loadp(st, elemptr(p, args[2]))
    I.storep(st, elemptr(p, args[1]), b)
    I.storep(st, elemptr(p, args[2]), a)
    return unit(I.prog)


@model("slice.reverse")
def m_reverse(I, st, cal, args, blk, span):
    p = bufptr(I, st, args[0])
    s = seqof(I, st, p)
    vs = seq_map_explicit(s)
    if vs is None:
        raise Stuck("reverse")
    I.storep(st, p, explicit(vs[::-1]))
    return unit(I.prog)


@model("slice.rotate_left", "slice.rotate_right")
def m_srot(I, st, cal, args, blk, span):
    p = bufptr(I, st, args[0])
    s = seqof(I, st, p)
    vs = seq_map_explicit(s)
    if vs is None or args[1].op != "c":
        k, n = args[1], seq_len(s)
        if decide(st, ult(n, k)) is not False:
            raise Stuck("slice rotate")
        if "right" in normname(cal["path"]):
            k = sub(n, k)
        I.storep(st, p, sl(I, seq_cat, sl(I, seq_slice, s, k, sub(n, k)), sl(I, seq_slice, s, U64(0), k)))
        return unit(I.prog)
    k = args[1].a
    if "right" in normname(cal["path"]):
        k = len(vs) - k
    I.storep(st, p, explicit(vs[k:] + vs[:k]))
    return unit(I.prog)


@model("slice.starts_with", "slice.ends_with")
def m_starts(I, st, cal, args, blk, span):
    a, b = seqof(I, st, args[0]), seqof(I, st, args[1])
    la, lb = seq_len(a), seq_len(b)
    out = []
    for s, v in split(I, st, ult(la, lb)):
        enter(s)
        if v:
            out.append(Out("ret", s, FALSE))
        else:
            off = U64(0) if "starts" in normname(cal["path"]) else sub(la, lb)
            out.append(Out("ret", s, seq_equal(I, s, sl(I, seq_slice, a, off, lb), b)))
    return out


@model("slice.contains")
def m_contains(I, st, cal, args, blk, span):
    a = seqof(I, st, args[0])
    x = deref_all(I, st, args[1])
    vs = seq_map_explicit(a)
    if vs is None or not isinstance(x, T):
        if vs is not None:
            r = FALSE
            for v in vs:
                r = or_(r, vequal(I, st, v, x))
            return r
        return F("contains", (a, x), 1, 0, 1)
    r = FALSE
    for v in vs:
        r = or_(r, eq(v, x))
    return r


@model("TryFrom.try_from", "TryInto.try_into")
def m_tryfrom(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    t = I.ty(ty)
    if t.get("path", "").split("::")[-1] != "Result":
        return None
    tgt = t["args"][0]
    tt = I.ty(tgt)
    a = args[0]
    isref = tt["k"] == "ref"
    at = I.ty(tt["to"]) if isref else tt
    if at["k"] == "array":
        s = seqof(I, st, a)
        n = U64(int(at["len"]))
        out = []
        for s2, v in split(I, st, eq(seq_len(s), n)):
            if v:
                out.append(Out("ret", s2, ok(I, ty, bufptr(I, s2, a) if isref else s)))
            else:
                out.append(Out("ret", s2, err(I, ty, I.fresh(t["args"][1], ("tryfrom",)))))
        return out
    w = I.prog.width(tgt)
    if w is not None and isinstance(a, T):
        if w >= a.w:
            return ok(I, ty, cast(a, w))
        out = []
        for s2, v in split(I, st, ult(a, C(1 << w, a.w))):
            enter(s2)
            out.append(Out("ret", s2, ok(I, ty, trunc(a, w)) if v else err(I, ty, I.fresh(t["args"][1], ("tryfrom",)))))
        return out
    return None


@model("From.from", "Into.into")
def m_from(I, st, cal, args, blk, span):
    if cal.get("has_body") and I.prog.bodies.get(cal.get("key")) is not None and I.prog.bodies[cal["key"]].local:
        return None
    ty = retty(I, cal, blk)
    w = I.prog.width(ty)
    if w is not None and isinstance(args[0], T):
        return cast(args[0], w)
    t = I.ty(ty)
    if t["k"] == "adt" and t["path"] == "std::vec::Vec":
        return Vec(seqof(I, st, args[0]), t["args"][0])
    if cal.get("has_body"):
        return None
    if t["k"] == "adt" and ("String" in t["path"] or "Box" in t["path"] or "io::Error" in t["s"]):
        return m_opaque(I, st, cal, args, blk, span)
    return None


@model("Default.default")
def m_default(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    return zero(I, ty)


def zero(I, ty):
    t = I.ty(ty)
    w = I.prog.width(ty)
    if w is not None:
        return C(0, w)
    if t["k"] == "array":
        return Seq((("r", zero(I, t["elem"]), U64(int(t["len"]))),))
    if t["k"] == "adt" and t["path"] in ("std::vec::Vec",):
        return Vec(EMPTY(), t["args"][0])
    if t["k"] == "tuple":
        return Agg(ty, 0, [zero(I, e) for e in t["elems"]])
    if t["k"] == "adt" and t["kind"] == "struct" and t["path"].endswith("Wrapping"):
        return Agg(ty, 0, [zero(I, t["args"][0])])
    raise Stuck("default of %s" % t["s"])


# ------------------------------------------------------------------ byteorder
def _readinto(be, n):
    def f(I, st, cal, args, blk, span):
        s = seqof(I, st, args[0])
        p = bufptr(I, st, args[1])
        m = plen_(I, st, p)
        enter(st)
        if not I.oblige(st, eq(seq_len(s), mul(m, U64(n))), "length", span, "byteorder"):
            return []
        vs = seq_map_explicit(s)
        if vs is None:
            raise Stuck("byteorder on unknown length")
        out = []
        for i in range(0, len(vs), n):
            b = vs[i:i + n]
            out.append(frombytes_le(b[::-1] if be else b))
        I.storep(st, p, explicit(out))
        return unit(I.prog)
    return f


def _writeinto(be, n):
    def f(I, st, cal, args, blk, span):
        s = seqof(I, st, args[0])
        p = bufptr(I, st, args[1])
        m = plen_(I, st, p)
        enter(st)
        if not I.oblige(st, eq(m, mul(seq_len(s), U64(n))), "length", span, "byteorder"):
            return []
        vs = seq_map_explicit(s)
        if vs is None:
            raise Stuck("byteorder on unknown length")
        out = []
        for x in vs:
            b = list(tobytes_le(x))
            out.extend(b[::-1] if be else b)
        I.storep(st, p, explicit(out))
        return unit(I.prog)
    return f


def _readn(be, n):
    def f(I, st, cal, args, blk, span):
        s = seqof(I, st, args[0])
        enter(st)
        if not I.oblige(st, not_(ult(seq_len(s), U64(n))), "length", span, "byteorder"):
            return []
        b = [sl(I, seq_get, s, U64(i)) for i in range(n)]
        return frombytes_le(b[::-1] if be else b)
    return f


def _writen(be, n):
    def f(I, st, cal, args, blk, span):
        p = bufptr(I, st, args[0])
        enter(st)
        if not I.oblige(st, not_(ult(plen_(I, st, p), U64(n))), "length", span, "byteorder"):
            return []
        b = list(tobytes_le(args[1]))
        I.storep(st, subptr(p, U64(0), U64(n)), explicit(b[::-1] if be else b))
        return unit(I.prog)
    return f


for _nm, _be in (("BigEndian", True), ("LittleEndian", False)):
    for _w in (16, 32, 64, 128):
        for _pre in ("<byteorder::%s as byteorder::ByteOrder>::" % _nm,):
            M["!" + _pre + "read_u%d_into" % _w] = _readinto(_be, _w // 8)
            M["!" + _pre + "write_u%d_into" % _w] = _writeinto(_be, _w // 8)
            M["!" + _pre + "read_u%d" % _w] = _readn(_be, _w // 8)
            M["!" + _pre + "write_u%d" % _w] = _writen(_be, _w // 8)


# ------------------------------------------------------------------ iterators
def is_range(I, v):
    return isinstance(v, Val) and v.cls == "agg" and not isinstance(v.shape[0], str) and \
        I.ty(v.shape[0]).get("path", "").endswith("ops::Range")


def is_rangefrom(I, v):
    return isinstance(v, Val) and v.cls == "agg" and not isinstance(v.shape[0], str) and \
        I.ty(v.shape[0]).get("path", "").endswith("ops::RangeFrom")


def is_rangeincl(I, v):
    return isinstance(v, Val) and v.cls == "agg" and not isinstance(v.shape[0], str) and \
        I.ty(v.shape[0]).get("path", "").endswith("ops::RangeInclusive")


def to_iter(I, st, v, ty=None):
    """IntoIterator::into_iter"""
    if isinstance(v, T):
        raise Stuck("into_iter of an integer")
    if v.cls == "it" or is_range(I, v) or is_rangefrom(I, v) or is_rangeincl(I, v):
        return v
    if v.cls == "vec":
        return It("own", (), (v.kids[0], U64(0), seq_len(v.kids[0])))
    if v.cls == "seq":
        return It("own", (), (v, U64(0), seq_len(v)))
    if v.cls in ("ptr", "box"):
        w = I.loadp(st, v)
        if w.cls in ("it",) or is_range(I, w):
            return It("byref", (), (v,))
        p = bufptr(I, st, v)
        return It("slice", (), (p, U64(0), plen_(I, st, p)))
    if v.cls == "agg" and not isinstance(v.shape[0], str):
        t = I.ty(v.shape[0])
        if t.get("path", "").endswith("Option"):
            if v.kids:
                return It("own", (), (explicit([v.kids[0]]), U64(0), U64(1)))
            return It("own", (), (EMPTY(), U64(0), U64(0)))
    raise Stuck("into_iter of %s" % v.cls)


def it_next(I, st, it, back=False):
    """[(state, item or None, iterator)]"""
    enter(st)
    if is_range(I, it):
        a, b = it.kids
        t = I.ty(it.shape[0])
        at = I.ty(t["args"][0])
        lt = slt(a, b) if at.get("signed") else ult(a, b)
        out = []
        for s, v in split(I, st, lt):
            enter(s)
            if not v:
                out.append((s, None, it))
            elif back:
                n = sub(b, C(1, b.w))
                if n.op == "p":
                    s.ctx.exact = s.ctx.exact | {n.id}
                out.append((s, n, Agg(it.shape[0], 0, [a, n])))
            else:
                n = add(a, C(1, a.w))
                if n.op == "p":
                    s.ctx.exact = s.ctx.exact | {n.id}
                out.append((s, a, Agg(it.shape[0], 0, [n, b])))
        return out
    if is_rangefrom(I, it):
        a = it.kids[0]
        n = add(a, C(1, a.w))
        return [(st, a, Agg(it.shape[0], 0, [n]))]
    if is_rangeincl(I, it):
        a, b, ex = it.kids
        out = []
        for s, v in split(I, st, or_(ex, ult(b, a))):
            enter(s)
            if v:
                out.append((s, None, it))
                continue
            for s2, e in split(I, s, eq(a, b)):
                enter(s2)
                if e:
                    out.append((s2, a, Agg(it.shape[0], 0, [a, b, TRUE])))
                elif back:
                    out.append((s2, b, Agg(it.shape[0], 0, [a, sub(b, C(1, b.w)), ex])))
                else:
                    out.append((s2, a, Agg(it.shape[0], 0, [add(a, C(1, a.w)), b, ex])))
        return out
    if it.cls != "it":
        raise Stuck("next of %s" % it.cls)
    k = it.shape[0]
    if k in ("slice", "own"):
        src, lo, hi = it.kids
        out = []
        for s, v in split(I, st, ult(lo, hi)):
            enter(s)
            if not v:
                out.append((s, None, it))
                continue
            if back:
                i = sub(hi, U64(1))
                n = It(k, (), (src, lo, i))
                if i.op == "p":
                    s.ctx.exact = s.ctx.exact | {i.id}
            else:
                i = lo
                j = add(lo, U64(1))
                n = It(k, (), (src, j, hi))
            x = elemptr(src, i) if k == "slice" else sl(I, seq_get, src, i)
            out.append((s, x, n))
        return out
    if k in ("chunks", "chunksx"):
        # chunk number j of a slice of length L: elements n*j .. min(n*j+n, L)
        p, n, j, L = it.kids
        if back:
            raise Stuck("chunks from the back")
        out = []
        pos = mul(n, j)
        full = k == "chunksx"
        for s, v in split(I, st, not_(ult(L, add(pos, n))) if full else ult(pos, L)):
            enter(s)
            if not v:
                out.append((s, None, it))
                continue
            nx = It(k, (), (p, n, add(j, U64(1)), L))
            if full:
                out.append((s, subptr(p, pos, n), nx))
                continue
            rem = sub(L, pos)
            if rem.op == "p":
                s.ctx.exact = s.ctx.exact | {rem.id}
                enter(s)
            for s2, sh in split(I, s, ult(rem, n)):
                enter(s2)
                out.append((s2, subptr(p, pos, rem if sh else n), nx))
        return out
    if k == "windows":
        p, n, j, L = it.kids
        out = []
        for s, v in split(I, st, not_(ult(L, add(j, n)))):
            enter(s)
            out.append((s, subptr(p, j, n), It(k, (), (p, n, add(j, U64(1)), L))) if v else (s, None, it))
        return out
    if k == "enum":
        inner, c = it.kids
        if back:
            L = it_len(I, st, inner)
            out = []
            for s, x, n in it_next(I, st, inner, True):
                enter(s)
                out.append((s, x if x is None else mk("agg", (it.shape[1], 0), (sub(add(c, L), U64(1)), x)), It(k, it.shape[1], (n, c))))
            return out
        out = []
        for s, x, n in it_next(I, st, inner):
            enter(s)
            if x is None:
                out.append((s, None, It(k, it.shape[1], (n, c))))
            else:
                nc = add(c, U64(1))
                out.append((s, mk("agg", (it.shape[1], 0), (c, x)), It(k, it.shape[1], (n, nc))))
        return out
    if k == "zip":
        a, b = it.kids
        if back:
            la, lb = it_len(I, st, a), it_len(I, st, b)
            if not (la is not None and lb is not None and same(la, lb)):
                raise Stuck("zip from the back")
        out = []
        for s, x, na in it_next(I, st, a, back):
            if x is None:
                out.append((s, None, It(k, it.shape[1], (na, b))))
                continue
            for s2, y, nb in it_next(I, s, b, back):
                if y is None:
                    out.append((s2, None, It(k, it.shape[1], (na, nb))))
                else:
                    out.append((s2, mk("agg", (it.shape[1], 0), (x, y)), It(k, it.shape[1], (na, nb))))
        return out
    if k == "rev":
        return [(s, x, It(k, (), (n,))) for s, x, n in it_next(I, st, it.kids[0], not back)]
    if k == "take":
        inner, c = it.kids
        if back:
            raise Stuck("take from the back")
        out = []
        for s, z in split(I, st, eq(c, U64(0))):
            if z:
                out.append((s, None, it))
                continue
            enter(s)
            m = sub(c, U64(1))
            if m.op == "p":
                s.ctx.exact = s.ctx.exact | {m.id}
            for s2, x, n in it_next(I, s, inner):
                out.append((s2, x, It(k, (), (n, m))))
        return out
    if k == "step":
        inner, n, first = it.kids
        out = []
        cur = [(st, inner)]
        res = []
        skip = 0 if first.a else n.a - 1
        for _ in range(skip):
            nn = []
            for s, i2 in cur:
                for s2, x, i3 in it_next(I, s, i2):
                    if x is None:
                        res.append((s2, None, It(k, (), (i3, n, FALSE))))
                    else:
                        nn.append((s2, i3))
            cur = nn
        for s, i2 in cur:
            for s2, x, i3 in it_next(I, s, i2):
                res.append((s2, x, It(k, (), (i3, n, FALSE))))
        return res
    if k == "skip":
        inner, n = it.kids
        if n.op == "c" and n.a == 0:
            return [(s, x, It(k, (), (i, n))) for s, x, i in it_next(I, st, inner, back)]
        i2 = it_advance(I, st, inner, n)
        if i2 is not None:
            return [(s, x, It(k, (), (i, U64(0)))) for s, x, i in it_next(I, st, i2, back)]
        if n.op != "c" or back:
            raise Stuck("skip")
        cur = [(st, inner)]
        res = []
        for _ in range(n.a):
            nn = []
            for s, i2 in cur:
                for s2, x, i3 in it_next(I, s, i2):
                    if x is None:
                        res.append((s2, None, It(k, (), (i3, U64(0)))))
                    else:
                        nn.append((s2, i3))
            cur = nn
        for s, i2 in cur:
            for s2, x, i3 in it_next(I, s, i2):
                res.append((s2, x, It(k, (), (i3, U64(0)))))
        return res
    if k == "repeat":
        return [(st, it.kids[0], it)]
    if k == "once":
        x, d = it.kids
        return [(st, None, it)] if d.a else [(st, x, It(k, (), (x, TRUE)))]
    if k == "map":
        inner, f = it.kids
        out = []
        for s, x, n in it_next(I, st, inner, back):
            if x is None:
                out.append((s, None, It(k, it.shape[1], (n, f))))
                continue
            loc = I.alloc(s, f)
            for o in I.call_value_mut(s, Ptr(loc), [x], None):
                if o.kind != "ret":
                    raise Stuck("closure in map: %s" % (o.val,))
                f2 = o.st.mem.pop(loc, f)
                out.append((o.st, o.val, It(k, it.shape[1], (n, f2))))
        return out
    if k == "filter":
        inner, f = it.kids
        out = []
        work = [(st, inner)]
        n_ = 0
        while work:
            s, i = work.pop()
            for s2, x, i2 in it_next(I, s, i, back):
                if x is None:
                    out.append((s2, None, It(k, it.shape[1], (i2, f))))
                    continue
                loc = I.alloc(s2, f)
                xl = I.alloc(s2, x)
                for o in I.call_value_mut(s2, Ptr(loc), [Ptr(xl)], None):
                    if o.kind != "ret":
                        raise Stuck("closure in filter")
                    for s3, v in split(I, o.st, o.val):
                        if v:
                            out.append((s3, x, It(k, it.shape[1], (i2, f))))
                        else:
                            work.append((s3, i2))
            n_ += 1
            if n_ > 300:
                raise Stuck("filter over a long sequence")
        return out
    if k == "cloned":
        out = []
        for s, x, n in it_next(I, st, it.kids[0], back):
            out.append((s, x if x is None else I.loadp(s, x), It(k, (), (n,))))
        return out
    if k == "chain":
        a, b = it.kids
        f, g = (b, a) if back else (a, b)
        out = []
        for s, x, n in it_next(I, st, f, back):
            if x is not None:
                out.append((s, x, It(k, (), (a, n) if back else (n, b))))
            else:
                for s2, y, n2 in it_next(I, s, g, back):
                    out.append((s2, y, It(k, (), (n2, n) if back else (n, n2))))
        return out
    if k == "peek":
        inner, pk = it.kids
        if pk is not UNDEF:
            return [(st, pk.kids[0] if pk.kids else None, It(k, it.shape[1], (inner, UNDEF)))]
        return [(s, x, It(k, it.shape[1], (n, UNDEF))) for s, x, n in it_next(I, st, inner, back)]
    if k == "byref":
        p = it.kids[0]
        out = []
        for s, x, n in it_next(I, st, I.loadp(st, p), back):
            I.storep(s, p, n)
            out.append((s, x, it))
        return out
    raise Stuck("iterator %s" % k)


def it_len(I, st, it):
    """number of remaining items, None if unbounded or unknown"""
    enter(st)
    if is_range(I, it):
        a, b = it.kids
        d = decide(st, ult(b, a))
        if d is True:
            return U64(0)
        if d is None and not (a.op == "c" and a.a == 0):
            return None
        return cast(sub(b, a), 64)
    if it.cls != "it":
        return None
    k = it.shape[0]
    if k in ("slice", "own"):
        return sub(it.kids[2], it.kids[1])
    if k in ("enum", "map", "cloned", "rev"):
        return it_len(I, st, it.kids[0])
    if k == "zip":
        a, b = it_len(I, st, it.kids[0]), it_len(I, st, it.kids[1])
        if a is None:
            return b
        if b is None:
            return a
        if same(a, b) or decide(st, not_(ult(b, a))) is True:
            return a
        if decide(st, not_(ult(a, b))) is True:
            return b
        return None
    if k == "take":
        a, c = it_len(I, st, it.kids[0]), it.kids[1]
        if a is None:
            return c if it_infinite(I, it.kids[0]) else None
        if decide(st, not_(ult(a, c))) is True:
            return c
        if decide(st, not_(ult(c, a))) is True:
            return a
        return None
    if k == "skip":
        a, c = it_len(I, st, it.kids[0]), it.kids[1]
        if a is not None and decide(st, not_(ult(a, c))) is True:
            return sub(a, c)
        return None
    if k == "chain":
        a, b = it_len(I, st, it.kids[0]), it_len(I, st, it.kids[1])
        return None if a is None or b is None else add(a, b)
    return None


def it_infinite(I, it):
    if is_rangefrom(I, it):
        return True
    if it.cls == "it":
        if it.shape[0] == "repeat":
            return True
        if it.shape[0] in ("map", "enum", "cloned"):
            return it_infinite(I, it.kids[0])
    return False


def it_advance(I, st, it, n):
    """iterator without its first n items (n within the length), None if not expressible"""
    enter(st)
    if it.cls != "it":
        return None
    if it.shape[0] in ("slice", "own"):
        L = sub(it.kids[2], it.kids[1])
        if decide(st, not_(ult(L, n))) is True:
            return It(it.shape[0], (), (it.kids[0], add(it.kids[1], n), it.kids[2]))
    return None


def it_item(I, st, it, k):
    """(state, item number k) without side effects; Stuck if not expressible"""
    enter(st)
    if is_range(I, it):
        return st, add(it.kids[0], cast(k, it.kids[0].w))
    if is_rangefrom(I, it):
        return st, add(it.kids[0], cast(k, it.kids[0].w))
    if it.cls != "it":
        raise Stuck("item of %s" % it.cls)
    kk = it.shape[0]
    if kk == "slice":
        return st, elemptr(it.kids[0], add(it.kids[1], k))
    if kk == "own":
        return st, sl(I, seq_get, it.kids[0], add(it.kids[1], k))
    if kk == "enum":
        s, x = it_item(I, st, it.kids[0], k)
        return s, mk("agg", (it.shape[1], 0), (add(it.kids[1], k), x))
    if kk == "zip":
        s, x = it_item(I, st, it.kids[0], k)
        s, y = it_item(I, s, it.kids[1], k)
        return s, mk("agg", (it.shape[1], 0), (x, y))
    if kk == "rev":
        L = it_len(I, st, it.kids[0])
        if L is None:
            raise Stuck("rev")
        return it_item(I, st, it.kids[0], sub(sub(L, U64(1)), k))
    if kk == "take":
        return it_item(I, st, it.kids[0], k)
    if kk == "skip":
        return it_item(I, st, it.kids[0], add(k, it.kids[1]))
    if kk == "repeat":
        return st, it.kids[0]
    if kk == "cloned":
        s, x = it_item(I, st, it.kids[0], k)
        return s, I.loadp(s, x)
    if kk == "map":
        s, x = it_item(I, st, it.kids[0], k)
        ev = s.ev
        rs = I.call_value(s, it.kids[1], [x], None)
        if len(rs) != 1 or rs[0].kind != "ret" or rs[0].st.ev is not ev:
            raise Stuck("closure in map")
        return rs[0].st, rs[0].val
    raise Stuck("item of %s" % kk)


def drain_iter(I, st, it, limit=5000):
    """all items as [(state, [items])], stepping while decided"""
    done = []
    cur = [(st, [], it)]
    n = 0
    while cur:
        nxt = []
        for s, xs, i in cur:
            for s2, x, i2 in it_next(I, s, i):
                if x is None:
                    done.append((s2, xs))
                else:
                    nxt.append((s2, xs + [x], i2))
        cur = nxt
        n += 1
        if n > limit or len(cur) > 16 or (done and cur and len(done) > 3):
            raise Stuck("iteration count unknown")
    return done


def items_seq(I, st, it):
    """[(state, Seq)] of the items an iterator yields"""
    L = it_len(I, st, it)
    if L is not None and L.op != "c":
        # blockwise
        r = direct_seq(I, st, it, L)
        if r is not None:
            return [(st, r)]
        k = V(("k", "bound"), 64)
        s2 = st.copy()
        if not assume(s2, ult(k, L), True):
            return [(st, EMPTY())]
        s2, x = it_item(I, s2, it, k)
        enter(st)
        return [(st, Seq((("l", Lam(k, x), U64(0), L),)))]
    if L is not None:
        r = direct_seq(I, st, it, L)
        if r is not None:
            return [(st, r)]
    return [(s, explicit(xs)) for s, xs in drain_iter(I, st, it)]


def direct_seq(I, st, it, L):
    if it.cls != "it":
        return None
    k = it.shape[0]
    if k == "own":
        return sl(I, seq_slice, it.kids[0], it.kids[1], L)
    if k == "cloned" and it.kids[0].cls == "it" and it.kids[0].shape[0] == "slice":
        j = it.kids[0]
        return sl(I, seq_slice, seqof(I, st, j.kids[0]), j.kids[1], L)
    if k == "take" and it.kids[0].cls == "it" and it.kids[0].shape[0] == "repeat":
        return Seq((("r", it.kids[0].kids[0], L),))
    if k == "take":
        return direct_seq(I, st, it.kids[0], L)
    if k == "chain":
        a, b = it_len(I, st, it.kids[0]), it_len(I, st, it.kids[1])
        x, y = direct_seq(I, st, it.kids[0], a), direct_seq(I, st, it.kids[1], b)
        if x is not None and y is not None:
            return seq_cat(x, y)
    return None


@model("IntoIterator.into_iter")
def m_intoiter(I, st, cal, args, blk, span):
    return to_iter(I, st, args[0])


@model("slice.iter", "slice.iter_mut", "array.iter")
def m_iter(I, st, cal, args, blk, span):
    p = bufptr(I, st, args[0])
    return It("slice", (), (p, U64(0), plen_(I, st, p)))


@model("slice.chunks", "slice.chunks_mut", "slice.chunks_exact", "slice.chunks_exact_mut")
def m_chunks(I, st, cal, args, blk, span):
    p = bufptr(I, st, args[0])
    n = args[1]
    if n.op != "c":
        raise Stuck("chunks of unknown size")
    if n.a == 0:
        I.panic(st, span, "chunks of size 0")
        return []
    nm = normname(cal["path"])
    return It("chunksx" if "exact" in nm else "chunks", (), (p, n, U64(0), plen_(I, st, p)))


@model("ChunksExact.remainder")
def m_chunkrem(I, st, cal, args, blk, span):
    it = I.loadp(st, args[0])
    p, n, j, L = it.kids
    enter(st)
    r = urem(L, n)
    return subptr(p, sub(L, r), r)


@model("slice.windows")
def m_windows(I, st, cal, args, blk, span):
    p = bufptr(I, st, args[0])
    return It("windows", (), (p, args[1], U64(0), plen_(I, st, p)))


@model("Iterator.next", "DoubleEndedIterator.next_back")
def m_next(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    it = I.loadp(st, args[0])
    if it.cls in ("ptr",):
        return m_next(I, st, cal, [it], blk, span)
    if it.cls not in ("it",) and not (is_range(I, it) or is_rangefrom(I, it) or is_rangeincl(I, it)):
        return None
    out = []
    for s, x, n in it_next(I, st, it, "next_back" in cal["path"]):
        I.storep(s, args[0], n)
        out.append(Out("ret", s, none(I, ty) if x is None else some(I, ty, x)))
    return out


def tupty(I, *tys):
    """id of a tuple type (or a marker when the program has none)"""
    for i, t in enumerate(I.prog.types):
        if t["k"] == "tuple" and list(t["elems"]) == list(tys):
            return i
    return "tuple"


@model("Iterator.enumerate")
def m_enumerate(I, st, cal, args, blk, span):
    return It("enum", "tuple", (args[0], U64(0)))


@model("Iterator.zip", "iter.zip")
def m_zip(I, st, cal, args, blk, span):
    return It("zip", "tuple", (to_iter(I, st, args[0]), to_iter(I, st, args[1])))


@model("Iterator.rev")
def m_rev(I, st, cal, args, blk, span):
    return It("rev", (), (args[0],))


@model("Iterator.take")
def m_take_(I, st, cal, args, blk, span):
    return It("take", (), (args[0], args[1]))


@model("Iterator.skip")
def m_skip(I, st, cal, args, blk, span):
    return It("skip", (), (args[0], args[1]))


@model("Iterator.step_by")
def m_step(I, st, cal, args, blk, span):
    if args[1].op != "c":
        raise Stuck("step_by")
    return It("step", (), (args[0], args[1], TRUE))


@model("Iterator.chain")
def m_chain(I, st, cal, args, blk, span):
    return It("chain", (), (args[0], to_iter(I, st, args[1])))


@model("Iterator.map")
def m_map(I, st, cal, args, blk, span):
    return It("map", (), (args[0], args[1]))


@model("Iterator.filter")
def m_filter(I, st, cal, args, blk, span):
    return It("filter", (), (args[0], args[1]))


@model("Iterator.copied", "Iterator.cloned")
def m_cloned(I, st, cal, args, blk, span):
    return It("cloned", (), (args[0],))


@model("Iterator.by_ref")
def m_byref(I, st, cal, args, blk, span):
    return args[0]


@model("Iterator.peekable")
def m_peekable(I, st, cal, args, blk, span):
    return It("peek", (), (args[0], UNDEF))


@model("iter.repeat")
def m_repeat(I, st, cal, args, blk, span):
    return It("repeat", (), (args[0],))


@model("iter.repeat_n")
def m_repeatn(I, st, cal, args, blk, span):
    return It("take", (), (It("repeat", (), (args[0],)), args[1]))


@model("iter.once")
def m_once(I, st, cal, args, blk, span):
    return It("once", (), (args[0], FALSE))


@model("ExactSizeIterator.len", "Iterator.count")
def m_itlen(I, st, cal, args, blk, span):
    it = args[0]
    if it.cls == "ptr":
        it = I.loadp(st, it)
    n = it_len(I, st, it)
    if n is None:
        raise Stuck("length of an iterator")
    return n


@model("Extend.extend")
def m_extend(I, st, cal, args, blk, span):
    v = I.loadp(st, args[0])
    a = args[1]
    byref = "Extend<&" in (cal.get("rpath") or "")
    if isinstance(a, Val) and a.cls in ("ptr", "vec", "seq", "box"):
        w = I.loadp(st, a) if a.cls in ("ptr", "box") else a
        if w.cls in ("vec", "seq"):
            s = I.asseq(w)
            enter(st)
            I.storep(st, args[0], Vec(seq_cat(v.kids[0], s), v.shape[0]))
            return unit(I.prog)
    it = to_iter(I, st, a)
    if byref:
        it = It("cloned", (), (it,))
    out = []
    for s, xs in items_seq(I, st, it):
        enter(s)
        I.storep(s, args[0], Vec(seq_cat(v.kids[0], xs), v.shape[0]))
        out.append(Out("ret", s, unit(I.prog)))
    return out


@model("Iterator.collect", "FromIterator.from_iter")
def m_collect(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    t = I.ty(ty)
    if t["k"] == "adt" and t["path"] == "std::vec::Vec":
        return [Out("ret", s, Vec(xs, t["args"][0])) for s, xs in items_seq(I, st, to_iter(I, st, args[0]))]
    raise Stuck("collect into %s" % t["s"])


@model("Iterator.for_each")
def m_foreach(I, st, cal, args, blk, span):
    it, f = args
    loc = I.alloc(st, f)
    return drive(I, st, it, lambda s, x: [(o, None) for o in I.call_value_mut(s, Ptr(loc), [x], span)], lambda s: unit(I.prog))


def drive(I, st, it, step, fin, limit=5000):
    """run `step` on every item while the end is decided; step -> [(Out, stop value or None)]"""
    outs = []
    cur = [(st, to_iter(I, st, it))]
    n = 0
    und = 0
    while cur:
        nxt = []
        for s, i in cur:
            for s2, x, i2 in it_next(I, s, i):
                if x is None:
                    outs.append(Out("ret", s2, fin(s2)))
                    continue
                for o, stop in step(s2, x):
                    if o.kind != "ret":
                        outs.append(o)
                    elif stop is not None:
                        outs.append(Out("ret", o.st, stop))
                    else:
                        nxt.append((o.st, i2))
        cur = nxt
        n += 1
        if n > limit or len(cur) > 32 or (cur and sum(1 for o in outs if o.kind == "ret") > 64):
            raise Stuck("iteration count unknown")
        if n > 40 and it_len(I, cur[0][0], cur[0][1]) is not None and it_len(I, cur[0][0], cur[0][1]).op != "c" if cur else False:
            raise Stuck("iteration count unknown")
    return outs


@model("Iterator.fold")
def m_fold(I, st, cal, args, blk, span):
    it, acc, f = args
    fl = I.alloc(st, f)
    al = I.alloc(st, acc)

    def step(s, x):
        r = []
        for o in I.call_value_mut(s, Ptr(fl), [s.mem[al], x], span):
            if o.kind == "ret":
                o.st.mem[al] = o.val
            r.append((o, None))
        return r
    return drive(I, st, it, step, lambda s: s.mem[al])


@model("Iterator.sum")
def m_sum(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    w = I.prog.width(ty)
    if w is None:
        raise Stuck("sum")
    al = I.alloc(st, C(0, w))

    def step(s, x):
        x = deref_all(I, s, x)
        p = I.ovf(s, "AddWithOverflow", s.mem[al], x, False, None)
        if not I.oblige(s, not_(p.kids[1]), "overflow", span, "sum"):
            return []
        s.mem[al] = p.kids[0]
        return [(Out("ret", s, None), None)]
    return drive(I, st, args[0], step, lambda s: s.mem[al])


def _anyall(isany):
    def f(I, st, cal, args, blk, span):
        it, f_ = args
        fl = I.alloc(st, f_)
        al = I.alloc(st, FALSE if isany else TRUE)
        ipt = it if it.cls == "ptr" else None
        if ipt is not None:
            it = I.loadp(st, it)

        def step(s, x):
            r = []
            ev = s.ev
            for o in I.call_value_mut(s, Ptr(fl), [x], span):
                if o.kind != "ret":
                    r.append((o, None))
                    continue
                for s2, v in split(I, o.st, o.val):
                    I.branches.append((span, I.stack[-1] if I.stack else "?", o.val)) if o.val.op != "c" else None
                    r.append((Out("ret", s2, None), (TRUE if isany else FALSE) if v == isany else None))
            return r
        return drive(I, st, it, step, lambda s: FALSE if isany else TRUE)
    return f


M["Iterator.any"] = _anyall(True)
M["Iterator.all"] = _anyall(False)


def _find(kind):
    def f(I, st, cal, args, blk, span):
        ty = retty(I, cal, blk)
        it, f_ = args
        if it.cls == "ptr":
            it = I.loadp(st, it)
        fl = I.alloc(st, f_)
        cnt = [0]
        outs = []
        cur = [(st, it, 0)]
        while cur:
            nxt = []
            for s, i, n in cur:
                for s2, x, i2 in it_next(I, s, i):
                    if x is None:
                        outs.append(Out("ret", s2, none(I, ty)))
                        continue
                    arg = x
                    if kind == "find":
                        arg = Ptr(I.alloc(s2, x))
                    for o in I.call_value_mut(s2, Ptr(fl), [arg], span):
                        if o.kind != "ret":
                            outs.append(o)
                            continue
                        for s3, v in split(I, o.st, o.val):
                            if v:
                                outs.append(Out("ret", s3, some(I, ty, x if kind == "find" else U64(n))))
                            else:
                                nxt.append((s3, i2, n + 1))
            cur = nxt
            if len(outs) > 64:
                raise Stuck("iteration count unknown")
        return outs
    return f


M["Iterator.find"] = _find("find")
M["Iterator.position"] = _find("position")


@model("array.map")
def m_amap(I, st, cal, args, blk, span):
    vs = seq_map_explicit(args[0])
    fl = I.alloc(st, args[1])
    cur = [(st, [])]
    for x in vs:
        nx = []
        for s, xs in cur:
            for o in I.call_value_mut(s, Ptr(fl), [x], span):
                if o.kind != "ret":
                    raise Stuck("closure in array map")
                nx.append((o.st, xs + [o.val]))
        cur = nx
    return [Out("ret", s, explicit(xs)) for s, xs in cur]


@model("array.from_fn")
def m_fromfn(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    n = int(I.ty(ty)["len"])
    fl = I.alloc(st, args[0])
    cur = [(st, [])]
    for k in range(n):
        nx = []
        for s, xs in cur:
            for o in I.call_value_mut(s, Ptr(fl), [U64(k)], span):
                if o.kind != "ret":
                    raise Stuck("closure in from_fn")
                nx.append((o.st, xs + [o.val]))
        cur = nx
    return [Out("ret", s, explicit(xs)) for s, xs in cur]


@model("RangeInclusive.new")
def m_rinew(I, st, cal, args, blk, span):
    return Agg(retty(I, cal, blk), 0, [args[0], args[1], FALSE])


# ------------------------------------------------------------------ closures
def shim(I, st, cal, args, blk, span):
    p = cal["path"]
    if "FnOnce::call_once" in p or "FnMut::call_mut" in p or "Fn::call" in p:
        return call_fn(I, st, cal, args, blk, span)
    return None


@model("FnOnce.call_once", "FnMut.call_mut", "Fn.call")
def call_fn(I, st, cal, args, blk, span):
    f = args[0]
    a = args[1]
    xs = list(a.kids) if isinstance(a, Val) and a.cls == "agg" else [a]
    if f.cls == "ptr":
        return I.call_value_mut(st, f, xs, span)
    return I.call_value(st, f, xs, span, blk)


# ------------------------------------------------------------------ random numbers
def rngval(I, st, p):
    n = 0
    v = p
    while isinstance(v, Val) and v.cls == "ptr" and n < 6:
        try:
            v = I.loadp(st, v)
        except Stuck:
            return p
        n += 1
    return v


@model("RngCore.fill_bytes", "Rng.fill", "OsRng.fill_bytes", "Rng.fill_bytes")
def m_fillbytes(I, st, cal, args, blk, span):
    p = bufptr(I, st, args[1])
    n = plen_(I, st, p)
    st.nfresh += 1
    k = st.nfresh
    enter(st)
    I.storep(st, p, srcslice(Src(("rng", k), (), ("int", 8)), U64(0), n))
    st.emit("rng", k, args[1], n, tuple(I.stack), rngval(I, st, args[0]))
    return unit(I.prog)


@model("RngCore.try_fill_bytes")
def m_tryfill(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    t = I.ty(ty)
    s2 = st.copy()
    m_fillbytes(I, st, cal, args, blk, span)
    st.nfresh += 1
    return [Out("ret", st, ok(I, ty, unit(I.prog))), Out("ret", s2, err(I, ty, I.fresh(t["args"][1], ("rngerr",))))]


@model("RngCore.next_u32", "RngCore.next_u64")
def m_nextu(I, st, cal, args, blk, span):
    st.nfresh += 1
    k = st.nfresh
    n = 4 if "32" in cal["path"] else 8
    st.emit("rng", k, None, U64(n), tuple(I.stack), rngval(I, st, args[0]))
    return V(("rng", k), 8 * n)


# ------------------------------------------------------------------ I/O
NET = ("g", "net")        # location holding the number of bytes consumed from the transport


def netpos(st):
    v = st.mem.get(NET)
    if v is None:
        v = U64(0)
    return v


NETSRC = None


def netsrc():
    return Src(("net",), (), ("int", 8))


def io_err(I, ty, tag, st):
    """an io::Error value"""
    t = I.ty(ty)
    return I.fresh(t["args"][1], ("ioerr", tag))


def reader(I, st, p):
    """classify the reader behind a `&mut R`: (kind, pointer)"""
    v = I.loadp(st, p)
    n = 0
    while v.cls in ("ptr",) and n < 4:
        w = I.loadp(st, v)
        if w.cls in ("seq",):
            return "slice", p, v
        p, v = v, w
        n += 1
    if v.cls == "cur":
        return "cursor", p, v
    if v.cls == "opq":
        return "net", p, v
    raise Stuck("reader %s" % v.cls)


def rd_remaining(I, st, k, p, v):
    """(source sequence, position, remaining)"""
    if k == "slice":
        s = seqof(I, st, v)
        return s, U64(0), seq_len(s)
    inner = v.kids[0]
    s = seqof(I, st, inner)
    pos = v.kids[1]
    r = sub(seq_len(s), pos)
    if r.op == "p":
        # a cursor is never beyond its data here: positions only come from reading
        st.ctx.exact = st.ctx.exact | {r.id}
        enter(st)
    return s, pos, r


def rd_advance(I, st, k, p, v, n):
    enter(st)
    if k == "slice":
        L = plen_(I, st, v)
        r = sub(L, n)
        if r.op == "p":
            st.ctx.exact = st.ctx.exact | {r.id}
        I.storep(st, p, subptr(bufptr(I, st, v), n, r))
    else:
        np_ = add(v.kids[1], n)
        if np_.op == "p":
            st.ctx.exact = st.ctx.exact | {np_.id}
        I.storep(st, p, mk("cur", (), (v.kids[0], np_)))


@model("Read.read")
def m_read(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    k, p, v = reader(I, st, args[0])
    b = bufptr(I, st, args[1])
    n = plen_(I, st, b)
    if k == "net":
        st.nfresh += 1
        s2 = st.copy()
        m = V(("nread", st.nfresh), 64)
        out = []
        if assume(st, not_(ult(n, m)), True):
            enter(st)
            pos = netpos(st)
            I.storep(st, subptr(b, U64(0), m), srcslice(netsrc(), pos, m))
            st.mem[NET] = add(pos, m)
            st.emit("net_read", n, m, tuple(I.stack))
            out.append(Out("ret", st, ok(I, ty, m)))
        s2.emit("net_readerr", n, tuple(I.stack))
        out.append(Out("ret", s2, err(I, ty, io_err(I, ty, ("read", s2.nfresh), s2))))
        return out
    s, pos, rem = rd_remaining(I, st, k, p, v)
    out = []
    for s1, short in split(I, st, ult(rem, n)):
        enter(s1)
        m = rem if short else n
        I.storep(s1, subptr(b, U64(0), m), sl(I, seq_slice, s, pos, m))
        rd_advance(I, s1, k, p, v, m)
        out.append(Out("ret", s1, ok(I, ty, m)))
    return out


@model("Read.read_exact")
def m_readexact(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    k, p, v = reader(I, st, args[0])
    b = bufptr(I, st, args[1])
    n = plen_(I, st, b)
    if k == "net":
        return net_fill(I, st, ty, b, n)
    s, pos, rem = rd_remaining(I, st, k, p, v)
    out = []
    for s1, short in split(I, st, ult(rem, n)):
        enter(s1)
        if short:
            out.append(Out("ret", s1, err(I, ty, io_err(I, ty, ("eof", len(I.stack)), s1))))
        else:
            I.storep(s1, b, sl(I, seq_slice, s, pos, n))
            rd_advance(I, s1, k, p, v, n)
            out.append(Out("ret", s1, ok(I, ty, unit(I.prog))))
    return out


def net_fill(I, st, ty, b, n):
    """fill a buffer completely from the transport, or fail"""
    st.nfresh += 1
    s2 = st.copy()
    pos = netpos(st)
    enter(st)
    I.storep(st, b, srcslice(netsrc(), pos, n))
    st.mem[NET] = add(pos, n)
    st.emit("net_fill", pos, n, tuple(I.stack))
    s2.emit("net_fillerr", n, tuple(I.stack))
    return [Out("ret", st, ok(I, ty, unit(I.prog))), Out("ret", s2, err(I, ty, io_err(I, ty, ("fill", s2.nfresh), s2)))]


@model("Read.read_to_end")
def m_readtoend(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    k, p, v = reader(I, st, args[0])
    if k == "net":
        raise Stuck("read_to_end on the transport")
    s, pos, rem = rd_remaining(I, st, k, p, v)
    vec = I.loadp(st, args[1])
    enter(st)
    I.storep(st, args[1], Vec(seq_cat(vec.kids[0], sl(I, seq_slice, s, pos, rem)), vec.shape[0]))
    rd_advance(I, st, k, p, v, rem)
    return ok(I, ty, rem)


@model("Write.write_all", "Write.write")
def m_writeall(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    isall = cal["path"].endswith("write_all")
    data = seqof(I, st, args[1])
    p = args[0]
    v = I.loadp(st, p)
    n = 0
    while v.cls == "ptr" and n < 4:
        w = I.loadp(st, v)
        if w.cls == "seq":
            break
        p, v = v, w
        n += 1
    enter(st)
    L = seq_len(data)
    if v.cls == "vec":
        I.storep(st, p, Vec(seq_cat(v.kids[0], data), v.shape[0]))
        return ok(I, ty, unit(I.prog) if isall else L)
    if v.cls == "ptr":
        # &mut [u8]: fills the front and shrinks
        cap = plen_(I, st, v)
        out = []
        for s1, short in split(I, st, ult(cap, L)):
            enter(s1)
            m = cap if short else L
            b = bufptr(I, s1, v)
            I.storep(s1, subptr(b, U64(0), m), sl(I, seq_slice, data, U64(0), m))
            I.storep(s1, p, subptr(b, m, sub(cap, m)))
            if isall:
                out.append(Out("ret", s1, err(I, ty, io_err(I, ty, ("full",), s1)) if short else ok(I, ty, unit(I.prog))))
            else:
                out.append(Out("ret", s1, ok(I, ty, m)))
        return out
    if v.cls == "opq":
        st.nfresh += 1
        s2 = st.copy()
        if isall:
            st.emit("net_write", data, tuple(I.stack))
            s2.emit("net_writeerr", data, tuple(I.stack))
            return [Out("ret", st, ok(I, ty, unit(I.prog))), Out("ret", s2, err(I, ty, io_err(I, ty, ("write", s2.nfresh), s2)))]
        m = V(("nwritten", st.nfresh), 64)
        out = []
        if assume(st, not_(ult(L, m)), True):
            enter(st)
            st.emit("net_write", sl(I, seq_slice, data, U64(0), m), tuple(I.stack))
            out.append(Out("ret", st, ok(I, ty, m)))
        s2.emit("net_writeerr", data, tuple(I.stack))
        out.append(Out("ret", s2, err(I, ty, io_err(I, ty, ("write", s2.nfresh), s2))))
        return out
    raise Stuck("writer %s" % v.cls)


@model("Write.flush")
def m_flush(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    st.nfresh += 1
    s2 = st.copy()
    st.emit("net_flush", tuple(I.stack))
    return [Out("ret", st, ok(I, ty, unit(I.prog))), Out("ret", s2, err(I, ty, io_err(I, ty, ("flush", s2.nfresh), s2)))]


@model("TcpStream.try_clone", "TcpStream.connect")
def m_tryclone(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    t = I.ty(ty)
    s2 = st.copy()
    return [Out("ret", st, ok(I, ty, I.fresh(t["args"][0], ("stream", cal["path"])))),
            Out("ret", s2, err(I, ty, io_err(I, ty, ("connect",), s2)))]


@model("Error.new", "Error.other")
def m_ioerr(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    st.nfresh += 1
    kind = None
    a = args[0]
    if isinstance(a, Val) and a.cls == "agg":
        kind = I.ty(a.shape[0])["variants"][a.shape[1]]["name"]
    msg = None
    for x in args[1:]:
        if isinstance(x, Val) and x.cls == "agg":
            for y in x.kids:
                if isinstance(y, Val) and y.cls == "str":
                    msg = y.shape[0]
        elif isinstance(x, Val) and x.cls == "str":
            msg = x.shape[0]
    return Opaque(ty, ("ioerr", "made", kind, msg))


@model("Error.kind")
def m_iokind(I, st, cal, args, blk, span):
    ty = retty(I, cal, blk)
    t = I.ty(ty)
    if t["k"] != "adt" or not t["path"].endswith("ErrorKind"):
        return None
    e = deref_all(I, st, args[0])
    sh = e.shape
    for x in (sh[1:] if isinstance(sh, tuple) else ()):
        if isinstance(x, tuple) and x[:2] == ("ioerr", "made"):
            for i, v in enumerate(t["variants"]):
                if v["name"] == x[2]:
                    return Agg(ty, i, [])
    return I.fresh(ty, ("kind of", e.vid))


# exact-path models take precedence
for _k in [k for k in M if k.startswith("!")]:
    M[_k[1:]] = M.pop(_k)
_inner = normname


def _nn(p):
    if p in M:
        return p
    return _inner(p)


normname = _nn
