"""A04: secrets do not decide control flow, indices or divisions in the cryptographic code."""
import importlib
from rules.lib import *
from rules.safety import Rec, short, reachable
from term import support, byid
import models as MD
import val as VV

# rule -> heads of the names that stand for secrets in its runs, and the size of a comparison that may decide
RUNS = [
    ("sym.k01", {"msg"}, 99),
    ("sym.k02", {"key", "block", "data"}, 99),
    ("poly.k03", {"msg", "r", "s"}, 99),
    ("aead.a01", {"key", "block", "poly1305", "stream"}, 16),
    ("aead.a02", {"key", "block", "poly1305", "stream"}, 16),
    ("sym.a03", {"key", "secret", "a", "hmac", "tab", "buf"}, 99),
    ("field.k04", {"op0", "op1", "op2"}, 99),
    ("ec.k05", {"op", "cmp", "flag"}, 99),
    ("ec.k06", {"op1", "op2"}, 99),
    ("ec.to_bytes", {"op", "n"}, 99),
    ("ec.encode", {"op"}, 99),
    ("timing.own_runs", {"arg"}, 99),
    ("client.c01", {"premaster", "prf", "cmpa", "cmpb"}, 12),
]
# the private scalar: branches belong to the rejection of whole candidates
SCALAR = ("kex.c08", {"rng"})
WHAT = ("crypto::", "cipher::", "util::crypto_compare")


def head(n):
    """the name an unknown was introduced under; None for lengths and discriminants"""
    while isinstance(n, tuple) and n:
        if n[0] == "mu":
            return n[:3]
        if n[0] == "elem" and len(n) == 3 and isinstance(n[1], int):
            v = VIDS(n[1])
            return head(v.shape[0]) if v is not None and isinstance(v.shape, tuple) and v.shape else "elem"
        if n[-1] in ("len", "discr", "kind") and len(n) > 1:
            return None
        n = n[0]
    return n


class Taint:
    def __init__(self, I, secret):
        self.secret = secret
        self.mus = {}
        self.memo = {}
        for info in I.loops:
            for lf, (init, mu) in info.leaves.items():
                self.mus.setdefault((info.lid, info.names[lf]), []).append((info, lf, init))

    def names(self, ids):
        out = set()
        for i in ids:
            if isinstance(i, int):
                t = byid(i)
                if t.op == "v":
                    out.add(head(t.a))
            else:
                v = VIDS(i[1])
                if v is not None:
                    out.add(head(v.shape[0]) if isinstance(v.shape, tuple) and v.shape else None)
        out.discard(None)
        return out

    def of(self, ids):
        """secret names something depends on, through loops; '?' for a loop unknown without a summary"""
        res, todo, seen = set(), list(self.names(ids)), set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if isinstance(n, tuple) and n[:1] == ("mu",):
                for x in self.mu(n):
                    if x == "?":
                        res.add("?")
                    else:
                        todo.append(x)
            elif n in self.secret:
                res.add(n)
        return res

    def mu(self, n):
        r = self.memo.get(n)
        if r is not None:
            return r
        self.memo[n] = r = set()
        nm = n[2] if len(n) > 2 else ""
        if isinstance(nm, str) and nm.endswith(".len"):
            return r                                  # lengths change only under branches, which are looked at themselves
        es = self.mus.get((n[1], nm))
        if not es:
            r.add("?")
            return r
        for info, lf, init in es:
            r |= self.names(vsup(init))
            for b in info.backs:
                try:
                    r |= self.names(vsup(info.back(b, lf)))
                except Exception:
                    r.add("?")
        return r


_vids = {}


def VIDS(k):
    if len(_vids) != len(VV._vt):
        _vids.clear()
        _vids.update({v.vid: v for v in VV._vt.values()})
    return _vids.get(k)


def vsup(v):
    return support(v) if isinstance(v, T) else v.support() if isinstance(v, Val) else ()


def direct(t, out):
    """the leaves a term is put together from, an element of a sequence being one"""
    if t.op == "v":
        out.add(t.id)
    elif t.op == "f":
        if t.a[0] in ("elem", "tab"):
            out.add(t.id)
        else:
            for x in t.a[1:]:
                darg(x, out)
    elif t.op == "s":
        direct(t.a[0], out)
    elif t.op == "p":
        for m, c in t.a:
            for i in m:
                direct(byid(i), out)
    elif t.op == "b":
        for b in t.a:
            for m in b:
                for i, k in m:
                    direct(byid(i), out)


def darg(x, out):
    if isinstance(x, T):
        direct(x, out)
    elif isinstance(x, Val):
        for k in x.kids:
            darg(k, out)
    elif isinstance(x, (tuple, list, frozenset)):
        for y in x:
            if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], int) and isinstance(y[1], int) and isinstance(x, frozenset):
                direct(byid(y[0]), out)
            elif isinstance(y, tuple) and y and isinstance(y[0], tuple) and len(y) == 2 and isinstance(y[1], int):
                for i in y[0]:
                    direct(byid(i), out)
            else:
                darg(y, out)


def complete(tn, t, n):
    """does the condition look at n elements of the computed value at once?  None: it looks at what a loop accumulated"""
    out = set()
    direct(t, out)
    el, mu = {}, False
    for i in out:
        x = byid(i)
        h = head(x.a) if x.op == "v" else None
        if isinstance(h, tuple):
            mu = mu or bool(tn.of({i}))
        elif h in ("cmpa", "cmpb"):
            el.setdefault(h, set()).add(i)
        elif x.op == "f":
            hs = tn.names(support(x))
            for h in hs & {"poly1305", "prf", "cmpa"}:
                el.setdefault(h, set()).add(i)
    most = max([len(x) for x in el.values()] or [0])
    if mu:
        return None if most == 0 else False
    return most >= n


class Enough(BaseException):
    """a secret decides a branch: the rest of this analysis is not needed"""


class Watch(list):
    def __init__(self, f):
        list.__init__(self)
        self.f = f

    def append(self, x):
        list.append(self, x)
        if isinstance(x[2], T) and self.f(x):
            raise Enough()


_left = {}


def a04(cx):
    done, where, left = set(), {}, set()
    for rule, secret, whole in RUNS + [SCALAR + (99,)]:
        m, f = rule.split(".")
        if cx.peel and rule not in _left.get(id(cx.P), (rule,)):
            continue
        before = len([o for o in cx.obs if o[1] == "undecided"])
        rec = Rec(cx, rule)
        if rule != SCALAR[0]:
            watch(cx, rec, rule, secret, whole)
        try:
            if m == "timing":
                globals()[f](rec.sub)
            else:
                getattr(importlib.import_module("rules." + m), f)(rec.sub)
        except Enough:
            pass
        except Exception as e:
            cx.und("analysis %s ran to the end" % rule, rule, "%s: %s" % (type(e).__name__, e))
        for I in rec.Is:
            look(cx, rule, I, secret, whole, where)
            cx.npaths += I.npaths
            cx.loops += len(I.loops)
            done |= I.analysed
            if (I.stucks or I.cut) and f != "own_runs":
                cx.und("every path could be followed", rule, "; ".join(str(s)[:120] for s in I.stucks[:2]))
        if not cx.peel and len([o for o in cx.obs if o[1] == "undecided"]) > before:
            left.add(rule)
    if cx.peel:
        return
    _left[id(cx.P)] = left
    cx.analysed |= done
    P = cx.P
    n = 0
    for k in sorted(done):
        b = P.bodies.get(k)
        if b is None or not b.local or not any(w in b.path for w in WHAT):
            continue
        n += 1
        if not any(x[0] == k for x in where):
            cx.ob("no secret decides control flow, an index or a divisor", True, short(b.path))
    cx.count("functions_examined", n)


def watch(cx, rec, rule, secret, whole):
    """stop an analysis at the first branch that a secret decides"""
    make = rec.sub.new

    def new(**k):
        I = make(**k)

        def f(x):
            tn = Taint(I, secret)
            return any(n != "?" for n in tn.of(support(x[2]))) and (whole > 90 or complete(tn, x[2], whole) is False)
        I.branches = Watch(f)
        return I
    rec.sub.new = new


def own_runs(cx):
    """each operation on field elements and points, and the selections, on its own for arbitrary operands"""
    P = cx.P
    for b in sorted(P.local_fns(), key=lambda b: b.path):
        if "crypto::p256::" not in b.path or not b.argc or b.path.rsplit("::", 1)[-1] not in ("choose", "compare", "select", "add", "sub", "double"):
            continue
        if any(P.types[b.locals[i + 1]]["k"] == "slice" for i in range(b.argc)) or "Int256" not in b.path and "choose" not in b.path:
            continue
        I = cx.new()
        I.maxsteps = 60000
        sub = type(cx)(cx.prop, P, cx.tier, cx.seed)
        run(sub, b, None, I)


def look(cx, rule, I, secret, whole, where):
    secret = set(secret)
    if rule == "aead.a02" and not any("decrypt" in str(k) for k in I.analysed):
        secret.add("data")
    tn = Taint(I, secret)
    seen = set()

    def tell(kind, fn, span, ids, what, t=None):
        key = (kind, fn, span, tuple(sorted(map(str, ids)))[:40])
        if key in seen:
            return
        seen.add(key)
        src = tn.of(ids)
        bad = sorted(str(x) for x in src if x != "?")
        nm = "no secret decides %s" % kind
        at = "%s %s" % (short(str(fn)), span or "")
        if bad:
            ok = False
            if kind == "a branch":
                if rule == SCALAR[0]:
                    full = len({n for n in ids if isinstance(n, int) and byid(n).op == "v" and head(byid(n).a) == "rng"}) >= 8
                    ok = True if full or any(isinstance(n, int) and byid(n).op == "f" and byid(n).a[0] == ("free", "below") for n in ids) else None
                else:
                    ok = complete(tn, t, whole) if whole < 90 else False
            if ok is not True:
                where[(fn, kind)] = ok
            cx.ob(nm, ok, at, "%s depends on %s (%s)" % (what, ", ".join(bad), "in the analysis " + rule))
        elif src:
            where[(fn, kind)] = None
            cx.ob(nm, None, at, what + " depends on a loop unknown without a summary")
        else:
            cx.count("public_decisions")

    for span, fn, t in I.branches:
        if isinstance(t, T):
            tell("a branch", fn, span, support(t), "the condition", t)
    for span, fn, t in I.accesses:
        tell("an index", fn, span, support(t), "the index")
    for (fn, i), t in I.indices.items():
        tell("an index", fn, "", support(t), "the index")
    for (fn, i, j), (a, b) in I.divs.items():
        tell("a division", fn, "", support(a) | support(b), "the division")
    for span, fn, a, b in I.eqs:
        if any(x.cls in ("seq", "vec") for x in (a, b)):
            ids = vsup(a) | vsup(b)
            if not all(seq_len(MD.MDseq(x) if hasattr(MD, "MDseq") else x).a == 1 if x.cls == "seq" and seq_len(x).op == "c" else False for x in (a, b)):
                tell("a comparison that stops at the first difference", fn, span, ids, "the comparison")
