"""E02: no fallible operation's failure is ignored.

Every function is interpreted on its own; each call of a fallible operation (anything that returns a Result of
an I/O or TLS error: transport, codec, record layer, cipher, constructor) either succeeds or fails, and a path
on which one failed must not return success."""
import os
import time
from rules.lib import *

ERRS = ("std::io::Error", "tls_result::TlsError")
EXEMPT = ("<client::TlsClient",)


def result_err(P, ty):
    t = P.types[ty]
    if t["k"] == "adt" and t["path"].split("::")[-1] == "Result" and len(t["args"]) > 1:
        e = P.types[t["args"][1]]
        return e.get("path") or e["s"]
    return None


def is_result(P, ty):
    return result_err(P, ty) in ERRS


def holds_err(P, ty, depth=0):
    """the type is or contains an error or a Result"""
    t = P.types[ty]
    if t["k"] in ("ref", "ptr") and depth < 3:
        return holds_err(P, t["to"], depth + 1)
    if t["k"] == "adt":
        return t.get("path") in ERRS or is_result(P, ty)
    return False


IO = ("std::io::Read::", "std::io::Write::", "std::io::BufRead::", "std::io::copy", "as std::io::Read>::", "as std::io::Write>::", "std::net::TcpStream::",
      "rand::RngCore::try_fill", "std::io::impls::")


def operation(I, cal):
    """is this call a fallible operation?  (conversions of errors are not)"""
    P = I.prog
    name = cal.get("rpath") or cal["path"]
    b = P.bodies.get(cal.get("key"))
    if b is not None and b.local:
        if not is_result(P, b.locals[0]):
            return False
        if any(holds_err(P, b.locals[i + 1]) for i in range(b.argc)):
            return False
        if "::tls_result::" in b.mod or b.path.startswith("tls_result::") or b.path.startswith("<tls_result::"):
            return False
        return True
    if cal["kind"] == "virtual":
        return True
    return any(x in name or x in cal["path"] for x in IO)


def havoc(I, v, ty, key):
    if isinstance(v, Val) and v.cls == "cur":
        return mk("cur", v.shape, (v.kids[0], V((key, "pos"), 64)))
    t = I.ty(ty)
    if isinstance(v, Val) and v.cls == "seq" and t["k"] in ("slice", "array"):
        return srcslice(Src(key, (), I.ety(t["elem"])), U64(0), seq_len(v))
    return I.fresh(ty, key)


def c_op(I, st, cal, args, blk, span):
    P = I.prog
    ty = MD.retty(I, cal, blk)
    if not is_result(P, ty):
        return c_opaque(I, st, cal, args, blk, span) if cal["kind"] == "virtual" else None
    t = I.ty(ty)
    name = cal.get("rpath") or cal["path"]
    st.nfresh += 1
    k = st.nfresh
    enter(st)
    # whatever the operation may change through its arguments is unknown afterwards
    b = P.bodies.get(cal.get("key"))
    if b is not None:
        for i, a in enumerate(args):
            at = P.types[b.locals[i + 1]]
            if at["k"] == "ref" and at.get("mut") and isinstance(a, Val) and a.cls == "ptr":
                try:
                    I.storep(st, a, havoc(I, I.loadp(st, a), at["to"], ("hav", k, i)))
                except (Stuck, KeyError):
                    raise Stuck("effects of %s" % name)
    site = (tuple(I.stack), span, id(blk))
    bad = st.copy()
    enter(bad)
    e = I.fresh(t["args"][1], ("operr", k))
    bad.emit("op_err", name, site, e)
    enter(st)
    v = I.fresh(t["args"][0], ("opval", k))
    st.emit("op", name, site)
    return [Out("ret", st, MD.ok(I, ty, v)), Out("ret", bad, MD.err(I, ty, e))]


def c_opaque(I, st, cal, args, blk, span):
    """arithmetic: some value"""
    st.nfresh += 1
    b = I.prog.bodies.get(cal.get("key"))
    if b is not None and any(I.prog.types[b.locals[i + 1]].get("mut") for i in range(b.argc)):
        return None
    return I.fresh(MD.retty(I, cal, blk), ("opaque", st.nfresh))


def fallback(I, cal):
    if operation(I, cal):
        return c_op
    b = I.prog.bodies.get(cal.get("key"))
    if b is not None and b.local and "::crypto::" in b.mod:
        return c_opaque
    return None


def callsites(P):
    """who calls whom (local bodies, by path)"""
    out = {}
    for b in P.bodies.values():
        if not b.local:
            continue
        s = out.setdefault(b.path, set())
        for blk in b.blocks:
            if blk and blk["t"] == "call" and blk.get("callee"):
                c = P.bodies.get(blk["callee"].get("key"))
                if c is not None and c.local:
                    s.add(c.path)
    return out


def has_ops(I, P, b):
    for blk in b.blocks:
        if blk and blk["t"] == "call" and blk.get("callee") and operation(I, blk["callee"]):
            return True
    return False


def e02(cx):
    P = cx.P
    I0 = cx.new()
    calls = callsites(P)
    callers = {}
    for f, s in calls.items():
        for g in s:
            callers.setdefault(g, set()).add(f)
    byp = {}
    for b in P.bodies.values():
        if b.local and b.path not in ("main",):
            byp.setdefault(b.path, []).append(b)
    # the application read (and what only it uses) is decided by C12
    ex = set(p for p in byp if p.startswith("<client::TlsClient") and p.endswith("Read>::read"))
    while True:
        more = set(p for p in byp if p not in ex and callers.get(p) and callers[p] <= ex)
        # functions with other callers, of course, stay
        if not more:
            break
        ex |= more
    n = nf = 0
    for path in sorted(byp):
        if path in ex or "as std::fmt::" in path or "as std::ops::Drop>" in path:
            continue
        bs = byp[path]
        bs.sort(key=lambda b: ("TcpStream" not in b.key, b.key))
        b = next((x for x in bs if has_ops(I0, P, x)), None)
        if b is None:
            continue
        res = is_result(P, b.locals[0])
        if not res and callers.get(path):
            continue        # part of its callers
        if "{closure" in path:
            continue
        nf += 1
        for b in ([b] if cx.tier == "quick" else [x for x in bs if has_ops(I0, P, x)][:4]):
            t = time.time()
            n += one(cx, P, b, res)
            if os.environ.get("HUSKLINT_DEBUG") and time.time() - t > 1:
                print("  slow: %s %.1f s" % (short(b.key), time.time() - t))
    cx.count("functions_with_operations", nf)
    # an alert that cannot be sent: its failure is the one reported
    from rules.client import paths, kind_same
    hs, I = paths(cx)
    k = 0
    for h in hs:
        enter(h.st)
        if h.good is not False or not h.ev or h.ev[-1][0] != "w_alert_err":
            continue
        k += 1
        r, e = h.o.val.kids[0], h.ev[-1][3]
        z = True if vsame(I, h.st, r, e) is True else kind_same(I, h.st, r, e)
        cx.ob("a failure to send the alert is the one reported", z, "client::TlsClient::<R, W>::new", "returns %s for %s" % (showv(r)[:150], showv(e)[:150]))
    cx.count("handshake_paths_with_failed_alert", k)
    cx.count("failure_paths", n)


def one(cx, P, b, res):
    at = short(b.key)
    I = cx.new()
    I.fallback = fallback
    I, outs = run(cx, b, None, I)
    if outs is None:
        return 0
    stuck_outs(cx, I, outs, b)
    rets = [o for o in outs if o.kind == "ret"]
    oks = {}
    for o in rets:
        if res:
            g = is_ok(I, o.val)
            for e in o.st.events():
                if e[0] == "op":
                    oks.setdefault(e[2], set()).add(g)
    n = 0
    for o in rets:
        bad = [e for e in o.st.events() if e[0] == "op_err"]
        if not bad:
            continue
        n += 1
        g = is_ok(I, o.val) if res else True
        if g is False:
            cx.ob("a failed operation makes the enclosing operation fail", True, at)
            continue
        if g is None:
            # the value of a Result computed elsewhere: success must still be excluded
            cx.und("a failed operation makes the enclosing operation fail", at, "outcome %s after %s" % (showv(o.val)[:100], bad[0][1]))
            continue
        open_ = []
        for e in bad:
            if "ead" in e[1] and res and oks.get(e[2]) == {False}:
                continue        # the probe for the end of a message expects a failure
            if tested(I, o.st, e[3]):
                cx.und("a failed operation makes the enclosing operation fail", at, "the kind of the failure of %s decides" % e[1])
                continue
            open_.append(e)
        if open_:
            cx.viol("a failed operation makes the enclosing operation fail", at, "%s fails at %s and %s returns success" % (open_[0][1], open_[0][2][1], b.path))
    for li in I.loops:
        for s in li.backs:
            if any(e[0] == "op_err" for e in s.events(li.ev0)):
                cx.und("a failed operation ends the loop", at, str(li))
    return n


def tested(I, st, e):
    """an I/O error whose kind the path has looked at (a retry)"""
    if not (isinstance(e, Val) and e.cls == "opq"):
        return False
    for k in st.truth:
        t = byid(k[0] if isinstance(k, tuple) else k)
        if e.vid in vals_in(t):
            return True
    return False


def vals_in(t, depth=0):
    out = set()
    if isinstance(t, T):
        if t.op == "f":
            for x in t.a:
                if isinstance(x, Val):
                    out |= vals_in(x)
                elif isinstance(x, T) and depth < 5:
                    out |= vals_in(x, depth + 1)
                elif isinstance(x, tuple):
                    for m in x:
                        if isinstance(m, tuple) and m and isinstance(m[0], tuple):
                            for i in m[0]:
                                if isinstance(i, int) and depth < 5:
                                    out |= vals_in(byid(i), depth + 1)
        elif t.op == "p" and depth < 5:
            for m, c in t.a:
                for i in m:
                    out |= vals_in(byid(i), depth + 1)
    elif isinstance(t, Val):
        out.add(t.vid)
        for k in t.kids:
            if isinstance(k, (Val, T)) and depth < 5:
                out |= vals_in(k, depth + 1)
    return out
