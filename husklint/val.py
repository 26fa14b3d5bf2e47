"""Abstract values: aggregates, piecewise sequences, pointers, iterators."""
from term import *
import term as T_

_vt = {}


class Val:
    """immutable, hash-consed: `shape` is plain data, `kids` are values/terms"""
    __slots__ = ("cls", "shape", "kids", "vid", "_sup")

    def __repr__(self):
        return showv(self)

    def __hash__(self):
        return self.vid

    def __eq__(self, o):
        return self is o

    def support(self):
        if self._sup is None:
            s = set()
            for k in self.kids:
                s |= vsupport(k)
            if self.cls == "sym" or self.cls == "src":
                s.add(("src", self.vid))
            self._sup = frozenset(s)
        return self._sup

    def subst(self, f):
        if self.cls == "src":
            return f.src(self)
        nk = tuple(vsubst(k, f) for k in self.kids)
        if nk == self.kids:
            return self
        return rebuild(self, nk)

    # "elem" applications substitute through here
    def elem(self, idx):
        return src_elem(self, idx)


def mk(cls, shape, kids):
    k = (cls, shape, kids)
    v = _vt.get(k)
    if v is None:
        v = Val()
        v.cls, v.shape, v.kids = cls, shape, kids
        v.vid = len(_vt) + (1 << 40)
        v._sup = None
        _vt[k] = v
    return v


def vsupport(x):
    if isinstance(x, T):
        return support(x)
    if isinstance(x, Val):
        return x.support()
    return frozenset()


def vsubst(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, Val):
        r = f.memo.get(x.vid)
        if r is None:
            r = x.subst(f)
            f.memo[x.vid] = r
        return r
    return x


class VSubst(Subst):
    """substitution of terms (by id) and of sources (by vid)"""

    def __init__(self, env, srcs=None):
        Subst.__init__(self, env)
        self.srcs = srcs or {}

    def src(self, s):
        r = self.srcs.get(s.vid)
        if r is not None:
            return r
        nk = tuple(vsubst(k, self) for k in s.kids)
        if nk == s.kids:
            return s
        return mk("src", s.shape, nk)


# ------------------------------------------------------------------ simple values
def Agg(ty, variant, fields):
    return mk("agg", (ty, variant), tuple(fields))


UNIT = None


def unit(prog):
    t = prog.tid("()")
    return Agg(t, 0, ())


UNDEF = mk("undef", (), ())


def Enum(ty, key, discr):
    """value of an enum type with a symbolic discriminant; payloads by key"""
    return mk("enum", (ty, key), (discr,))


def Opaque(ty, key):
    return mk("opq", (ty, key), ())


def Fn(ty):
    return mk("fn", (ty,), ())


def Str(s):
    return mk("str", (s,), ())


def Box(loc, ty, dyn=None):
    return mk("box", (loc, ty, dyn), ())


def Vec(seq, ety):
    return mk("vec", (ety,), (seq,))


def Ptr(loc, path=(), dyn=None):
    """path: field ints, ("d", variant), ("b",), ("i", T), ("rng", start, len)"""
    sh = []
    kids = []
    for e in path:
        if isinstance(e, tuple) and e[0] == "i":
            sh.append(("i",))
            kids.append(e[1])
        elif isinstance(e, tuple) and e[0] == "rng":
            sh.append(("rng",))
            kids.append(e[1])
            kids.append(e[2])
        else:
            sh.append(e)
    return mk("ptr", (loc, tuple(sh), dyn), tuple(kids))


def ptr_path(p):
    out = []
    i = 0
    for e in p.shape[1]:
        if e == ("i",):
            out.append(("i", p.kids[i]))
            i += 1
        elif e == ("rng",):
            out.append(("rng", p.kids[i], p.kids[i + 1]))
            i += 2
        else:
            out.append(e)
    return tuple(out)


def It(kind, extra, kids):
    return mk("it", (kind, extra), tuple(kids))


def rebuild(v, kids):
    if v.cls == "seq":
        return seq_rebuild(v, kids)
    return mk(v.cls, v.shape, tuple(kids))


# ------------------------------------------------------------------ sources and sequences
def Src(name, args=(), ety=("int", 8)):
    """an unknown sequence; ety = ("int", bits) or ("ty", type id)"""
    return mk("src", (name, ety), tuple(args))


_mat = [None]        # hook: materialise a value of a non-integer element type


def src_elem(s, idx):
    if s.cls == "lam":
        return lam_elem(s, idx)
    if s.cls == "tab":
        return s.kids[idx.a] if idx.op == "c" and idx.a < len(s.kids) else sel(s.kids, idx)
    if s.cls == "seq":
        return seq_get(s, idx)
    ety = s.shape[1]
    if s.shape[0] == "tab":
        return src_elem(s.kids[0], idx)
    if ety[0] == "int":
        return F("elem", (s, idx), ety[1])
    return _mat[0](ety[1], ("elem", s.vid, idx.id))


def U64(n):
    return C(n, 64)


_lamvar = {}


def Lam(var, body):
    """function of an index: element k is body[var := k] (alpha-normalised)"""
    d = V(("k", "bound"), 64)
    if var is not d:
        body = vsubst(body, VSubst({var.id: d}))
    return mk("lam", (), (d, body))


def lam_elem(l, idx):
    d, body = l.kids
    return vsubst(body, VSubst({d.id: idx}))


# pieces are tuples:
#  ("e", (v0, v1, ...))            explicit elements
#  ("s", src, start, len)          slice of an unknown sequence
#  ("r", val, len)                 repetition
#  ("l", lam, start, len)          computed elements
EXPAND = 600


def plen(p):
    if p[0] == "e":
        return U64(len(p[1]))
    return p[-1]


def Seq(pieces):
    out = []
    for p in pieces:
        n = plen(p)
        if p[0] == "l":
            x = p[1].kids[1]
            if isinstance(x, T) and x.op == "f" and x.a[0] == "elem" and x.a[1].cls == "src":
                d = p[1].kids[0]
                c = sub(x.a[2], d)
                if d.id not in support(c) and d.id not in x.a[1].support():
                    p = ("s", x.a[1], add(p[2], c), p[3])
            if p[0] == "l" and p[1].kids[0].id not in (support(x) if isinstance(x, T) else vsupport(x)):
                p = ("r", x, p[3])
        if n.op == "c":
            if n.a == 0:
                continue
            if p[0] != "e" and n.a <= EXPAND:
                p = ("e", tuple(piece_get(p, U64(i)) for i in range(n.a)))
        else:
            l, h = rng(n)
            if h == 0:
                continue
        if p[0] == "e" and out and out[-1][0] == "e":
            out[-1] = ("e", out[-1][1] + p[1])
            continue
        if out and p[0] in ("s", "l") and out[-1][0] == p[0] and out[-1][1] is p[1] and same(add(out[-1][2], out[-1][3]), p[2]):
            q = out[-1]
            out.pop()
            m = add(q[3], p[3])
            out.append((p[0], p[1], q[2], m))
            continue
        if out and p[0] == "r" and out[-1][0] == "r" and out[-1][1] is p[1]:
            q = out.pop()
            out.append(("r", p[1], add(q[2], p[2])))
            continue
        out.append(p)
    shape = []
    kids = []
    for p in out:
        if p[0] == "e":
            shape.append(("e", len(p[1])))
            kids.extend(p[1])
        else:
            shape.append((p[0],))
            kids.extend(p[1:])
    return mk("seq", tuple(shape), tuple(kids))


def pieces(s):
    out = []
    i = 0
    for sh in s.shape:
        if sh[0] == "e":
            n = sh[1]
            out.append(("e", s.kids[i:i + n]))
            i += n
        elif sh[0] == "r":
            out.append(("r",) + s.kids[i:i + 2])
            i += 2
        else:
            out.append((sh[0],) + s.kids[i:i + 3])
            i += 3
    return out


def seq_rebuild(s, kids):
    i = 0
    ps = []
    for sh in s.shape:
        if sh[0] == "e":
            n = sh[1]
            ps.append(("e", tuple(kids[i:i + n])))
            i += n
        elif sh[0] == "r":
            ps.append(("r",) + tuple(kids[i:i + 2]))
            i += 2
        else:
            x = kids[i]
            st, ln = kids[i + 1], kids[i + 2]
            i += 3
            if x.cls == "seq":
                ps.extend(pieces(seq_slice(x, st, ln)))
            elif x.cls == "lam":
                ps.append(("l", x, st, ln))
            else:
                ps.append((sh[0], x, st, ln))
    return Seq(ps)


def EMPTY():
    return Seq(())


def explicit(vals):
    return Seq((("e", tuple(vals)),))


def srcslice(src, start, ln):
    return Seq((("s", src, start, ln),))


def seq_len(s):
    n = U64(0)
    for p in pieces(s):
        n = add(n, plen(p))
    return n


def seq_cat(*ss):
    ps = []
    for s in ss:
        ps.extend(pieces(s))
    return Seq(ps)


class Undecided(Exception):
    pass


def piece_get(p, i):
    k = p[0]
    if k == "e":
        if i.op == "c":
            return p[1][i.a]
        r = p[1][0]
        if all(v is r for v in p[1]):
            return r
        return sel(p[1], i)
    if k == "r":
        return p[1]
    if k == "s":
        return src_elem(p[1], add(p[2], i))
    if k == "l":
        return lam_elem(p[1], add(p[2], i))


def sel(vals, i):
    """element at a symbolic position of explicit values"""
    v0 = vals[0]
    if isinstance(v0, T):
        if all(v.op == "c" for v in vals):
            lo = min(v.a for v in vals)
            hi = max(v.a for v in vals)
        else:
            lo, hi = 0, (1 << v0.w) - 1
            if v0.op == "f" and v0.a[0] == "elem" and isinstance(v0.a[1], Val) and v0.a[1].cls == "src" and all(
                    v.op == "f" and v.a[0] == "elem" and v.a[1] is v0.a[1] and v.a[2] is add(v0.a[2], C(k, 64)) for k, v in enumerate(vals)):
                return src_elem(v0.a[1], add(v0.a[2], i))     # consecutive elements of one source
        return F("sel", (mk("tab", (), tuple(vals)), i), v0.w, lo, hi)
    raise Undecided("symbolic index into values that are not integers")


def locate(s, i):
    """(piece number, offset inside) of element i, or None if undecided"""
    off = U64(0)
    ps = pieces(s)
    for n, p in enumerate(ps):
        L = plen(p)
        end = add(off, L)
        a = decide_le(off, i)
        b = decide_lt(i, end)
        if a is True and b is True:
            return n, sub(i, off)
        if b is not False and not (b is None and n == len(ps) - 1 and a is True):
            if b is None and a is True and n == len(ps) - 1:
                return n, sub(i, off)
            return None
        if b is None and n == len(ps) - 1 and a is True:
            return n, sub(i, off)
        off = end
    return None


def decide_le(a, b):
    r = DECIDE[0](ult(b, a))
    if r is None:
        return None
    return not r


def decide_lt(a, b):
    return DECIDE[0](ult(a, b))


def _dec0(t):
    if t.op == "c":
        return bool(t.a)
    return None


DECIDE = [_dec0]     # decision procedure for predicates under the path facts


def src_ety(s):
    """element type of a source: ("int", bits) or ("ty", id)"""
    if s.cls == "src":
        return s.shape[1]
    if s.cls == "seq":
        return seq_elty(s)
    if s.cls == "lam":
        b = s.kids[1]
        return ("int", b.w) if isinstance(b, T) else ("val",)
    return ("val",)


def seq_elty(s):
    for p in pieces(s):
        x = None
        if p[0] == "e":
            x = p[1][0]
        elif p[0] == "r":
            x = p[1]
        else:
            return src_ety(p[1])
        return ("int", x.w) if isinstance(x, T) else ("val",)
    return ("int", 8)


def wrap_slice(s, start, ln):
    """slice whose boundaries cannot be placed among the pieces"""
    if src_ety(s)[0] != "int":
        raise Undecided("slice of values at an undecided position")
    return Seq((("s", s, start, ln),))


def seq_get(s, i):
    r = locate(s, i)
    if r is None:
        ps = pieces(s)
        if len(ps) == 1:
            return piece_get(ps[0], i)
        v = None
        for p in ps:
            if p[0] == "e" and p[1] and isinstance(p[1][0], T):
                v = p[1][0]
            elif p[0] == "s" and src_ety(p[1])[0] == "int":
                v = V("_w", src_ety(p[1])[1])
            elif p[0] == "r" and isinstance(p[1], T):
                v = p[1]
            elif p[0] == "l" and isinstance(p[1].kids[1], T):
                v = p[1].kids[1]
        if v is None:
            raise Undecided("symbolic index")
        return F("at", (s, i), v.w)
    n, k = r
    return piece_get(pieces(s)[n], k)


def seq_set(s, i, v):
    r = locate(s, i)
    if r is None or True and pieces(s)[r[0]][0] != "e" or r[1].op != "c":
        # split around the position
        n = seq_len(s)
        a = seq_slice(s, U64(0), i)
        b = seq_slice(s, add(i, U64(1)), sub(n, add(i, U64(1))))
        return seq_cat(a, explicit([v]), b)
    n, k = r
    ps = pieces(s)
    e = list(ps[n][1])
    e[k.a] = v
    ps[n] = ("e", tuple(e))
    return Seq(ps)


def seq_slice(s, start, ln):
    """elements start .. start+ln (bounds are the caller's obligation)"""
    if ln.op == "c" and ln.a == 0:
        return EMPTY()
    total = seq_len(s)
    if start.op == "c" and start.a == 0 and (ln is total or same(ln, total)):
        return s
    out = []
    off = U64(0)
    end = add(start, ln)
    ps = pieces(s)
    state = 0
    for n, p in enumerate(ps):
        L = plen(p)
        nxt = add(off, L)
        if state == 0:
            x = decide_lt(start, nxt)
            if x is False:
                off = nxt
                continue
            y = decide_le(off, start)
            if (x is None and n < len(ps) - 1) or y is not True:
                if same(start, off):
                    pass
                else:
                    return wrap_slice(s, start, ln)
            if x is None and same(start, nxt):
                off = nxt
                continue
            a = sub(start, off)
            state = 1
        else:
            a = U64(0)
        z = decide_le(end, nxt)
        if z is None and n == len(ps) - 1:
            z = True
        if z is None:
            if same(end, nxt):
                z = True
            else:
                return wrap_slice(s, start, ln)
        b = sub(end, off) if z else L
        out.append(piece_slice(p, a, sub(b, a)))
        if z:
            return Seq([q for r in out for q in r])
        off = nxt
    if state == 1 or not out:
        return Seq([q for r in out for q in r])
    return wrap_slice(s, start, ln)


def as_slice(p):
    """listed consecutive elements of one source as a slice"""
    if p[0] != "e" or not p[1]:
        return p
    x0 = p[1][0]
    if not isinstance(x0, T) or x0.op != "f" or x0.a[0] != "elem" or not isinstance(x0.a[1], Val):
        return p
    for i, x in enumerate(p[1]):
        if not isinstance(x, T) or x.op != "f" or x.a[0] != "elem" or x.a[1] is not x0.a[1] or not same(x.a[2], add(x0.a[2], U64(i))):
            return p
    return ("s", x0.a[1], x0.a[2], U64(len(p[1])))


def piece_slice(p, a, n):
    if n.op == "c" and n.a == 0:
        return []
    k = p[0]
    if k == "e":
        vals = p[1]
        if a.op == "c" and n.op == "c":
            return [("e", vals[a.a:a.a + n.a])]
        if all(v is vals[0] for v in vals):
            return [("r", vals[0], n)]
        q = as_slice(p)
        if q[0] == "s":
            return [("s", q[1], add(q[2], a), n)]
        if isinstance(vals[0], T):
            src = mk("src", ("tab", ("int", vals[0].w)), (mk("tab", (), tuple(vals)),))
            return [("s", src, a, n)]
        raise Undecided("symbolic slice of explicit values")
    if k == "r":
        return [("r", p[1], n)]
    return [(k, p[1], add(p[2], a), n)]


def seq_map_explicit(s, limit=4096):
    """explicit list of elements if the length is constant"""
    n = seq_len(s)
    if n.op != "c" or n.a > limit:
        return None
    out = []
    for p in pieces(s):
        m = plen(p)
        if m.op != "c":
            return None
        m = m.a
        if p[0] == "e":
            out.extend(p[1])
        else:
            out.extend(piece_get(p, U64(i)) for i in range(m))
    return out


# ------------------------------------------------------------------ printing
@budgeted
def showv(v, d=0):
    if isinstance(v, T):
        return show(v)
    if not isinstance(v, Val):
        return repr(v)
    if d > 6:
        return "…"
    c = v.cls
    if c == "agg":
        return "agg%s%s(%s)" % (v.shape[0], "" if v.shape[1] == 0 else ":%d" % v.shape[1], ", ".join(showv(k, d + 1) for k in v.kids))
    if c == "seq":
        out = []
        for p in pieces(v):
            if p[0] == "e":
                if len(p[1]) > 12:
                    out.append("[%s, … %d]" % (", ".join(showv(x, d + 1) for x in p[1][:4]), len(p[1])))
                else:
                    out.append("[%s]" % ", ".join(showv(x, d + 1) for x in p[1]))
            elif p[0] == "r":
                out.append("%s×%s" % (showv(p[1], d + 1), show(p[2])))
            else:
                out.append("%s[%s;+%s]" % (showv(p[1], d + 1), show(p[2]), show(p[3])))
        return "seq<" + " ++ ".join(out) + ">"
    if c == "vec":
        return "vec" + showv(v.kids[0], d + 1)
    if c == "ptr":
        return "&%s%s" % (v.shape[0], "".join("." + (show(e[1]) if isinstance(e, tuple) and e[0] == "i" else str(e)) for e in ptr_path(v)))
    if c == "enum":
        return "enum(%s, %s)" % (v.shape[1], show(v.kids[0]))
    if c == "src":
        return "%s%s" % (v.shape[0], "(%s)" % ", ".join(showv(k, d + 1) for k in v.kids) if v.kids else "")
    if c == "lam":
        return "λk.%s" % showv(v.kids[1], d + 1)
    if c == "tab":
        return "tab%d" % len(v.kids)
    return "%s%s%s" % (c, v.shape, "(%s)" % ", ".join(showv(k, d + 1) for k in v.kids) if v.kids else "")
