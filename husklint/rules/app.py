"""Application data through the connection object: Read for TlsClient, close, close_notify."""
from rules.lib import *
from rules.record import *
from rules.reader import run_over_message, MSGC
from rules.client import (APP, APPC, CL, HANDC, KINDS, alert_matches, fixed, kinds_of, kind_same, mkclient, paths)
from rules.codes import CODES

READ = "<client::TlsClient<R, W> as std::io::Read>::read"
EVS = ("app", "app_err", "app_end", "w_alert", "w_alert_err")


def bufname(P, tid):
    """the field holding surplus application data: the client's only byte vector"""
    t = P.types[tid]
    ns = [f["name"] for f in t["variants"][0]["fields"] if P.types[f["ty"]]["s"].startswith("std::vec::Vec<u8")]
    return ns[0] if len(ns) == 1 else None


def ubuf(I, st, key, lo=0):
    n = V((key, "len"), 64, lo, 1 << 40)
    src = Src((key,), (), ("int", 8))
    loc = I.alloc(st, srcslice(src, U64(0), n))
    return Ptr(loc, (("rng", U64(0), n),)), loc, src, n


def written(st, v, src):
    """the part of the user buffer before its untouched rest; None if untouched bytes lie in between"""
    enter(st)
    ps = list(pieces(v))
    n = seq_len(v)
    if ps and ps[-1][0] == "s" and ps[-1][1] is src:
        p = ps.pop()
        # the rest is in its original place
        if not same(add(p[2], p[3]), n):
            return None
    if any(p[0] in "sl" and p[1] is src for p in ps):
        return None
    return Seq(ps)


def run_read(cx, over=None, st=None, I=None, c=None, key="ubuf", lo=0):
    """one call of read on a connected client: (I, outs, client pointer, buffer location, its source and length)"""
    P = cx.P
    b = body(cx, READ)
    if b is None:
        return None
    tid = selftype(P, b.locals[1])
    bn = bufname(P, tid)
    if bn is None:
        cx.und("surplus application data is one byte vector", b.path)
        return None
    if I is None:
        I = cx.new()
        I.contracts.update(APPC)
    fresh = st is None
    if fresh:
        st = State()
        enter(st)
        o = dict(over(I, st) if over else {})
        o.pop(bn, None)
        c = mkclient(I, st, P, tid, o)
    enter(st)
    p, loc, src, n = ubuf(I, st, key + ("+" if lo else ""), lo)
    st.mem[APP] = MDseq(field(I, I.loadp(st, c), bn))

    def fn(s):
        w = written(s, s.mem[loc], src)
        if w is None:
            return None
        bv = field(I, I.loadp(s, c), bn)
        if bv.cls != "vec":
            return None
        return seq_cat(w, MDseq(bv))
    I.derived = {APP: (fn, lambda s, x, y: vsame(I, s, x, y))}
    I, outs = run(cx, b, [c, p], I, st)
    I.derived = {}
    if outs is None:
        return None
    stuck_outs(cx, I, outs, b)
    return I, outs, c, bn, loc, src, n


def appev(st, since=0):
    return [e for e in list(st.events())[since:] if e[0] in EVS]


def c11(cx):
    at = READ
    r = run_read(cx)
    if r is None:
        return
    I, outs, c, bn, loc, src, n = r
    good = 0
    for o in ret_outs(outs):
        enter(o.st)
        v = I.loadp(o.st, c)
        left = MDseq(field(I, v, bn))
        app = o.st.mem[APP]
        ok = is_ok(I, o.val)
        evs = appev(o.st)
        if ok is True:
            good += 1
            k = o.val.kids[0]
            cx.ob("the count does not exceed the buffer", decide(o.st, not_(ult(n, k)), 3), at, showv(k)[:200])
            try:
                pre = seq_slice(o.st.mem[loc], U64(0), k)
            except Undecided:
                cx.und("the stored part of the buffer is known", at)
                continue
            check_same(cx, I, o.st, "bytes returned followed by bytes kept are the bytes received, in order", seq_cat(pre, left), app, at)
            # a call that ends early has nothing left to deliver
            s2 = o.st.copy()
            if assume(s2, eq(k, U64(0)), True) and assume(s2, eq(n, U64(0)), False):
                enter(s2)
                d = decide(s2, eq(seq_len(left), U64(0)), 3)
                cx.ob("no end of data is reported while bytes are kept", d, at, showv(left)[:200])
            if not any(e[0] in ("app_err", "app_end") for e in evs):
                v0 = None
                same_ = True
                for f, x in zip(I.ty(v.shape[0])["variants"][0]["fields"], v.kids):
                    nm = I.ty(f["ty"]).get("path", "").split("::")[-1] if I.ty(f["ty"])["k"] == "adt" else ""
                    if f["name"] == bn or nm in ("TlsReader", "TlsWriter"):
                        continue
                    x0 = I.fresh(f["ty"], ("self", f["name"]))
                    cx.ob("a call that meets neither end nor failure leaves the stream state alone", vsame(I, o.st, x, x0), at, "%s: %s" % (f["name"], showv(x)[:100]))
        elif ok is False:
            check_same(cx, I, o.st, "a failing call takes no bytes with it", left, app, at)
            s2 = o.st
        else:
            cx.und("the result is a count or an error", at, showv(o.val)[:100])
    if not good:
        cx.absent(I, "read can succeed", at)
    # a fresh connection delivers
    f = fresh_fields(cx)
    if f is None:
        return
    r = run_read(cx, over=lambda I, st: f, lo=1)
    if r is None:
        return
    I, outs, c, bn, loc, src, n = r
    for o in ret_outs(outs):
        enter(o.st)
        evs = appev(o.st)
        if is_ok(I, o.val) is True and not any(e[0] in ("app_err", "app_end") for e in evs):
            cx.ob("a fresh connection reports no end of data by itself", decide(o.st, eq(o.val.kids[0], U64(0)), 3) is False or None, at, showv(o.val)[:100])
        if is_ok(I, o.val) is True:
            # an open connection that still has bytes for the user
            left = MDseq(field(I, I.loadp(o.st, c), bn))
            s2 = o.st.copy()
            if assume(s2, eq(o.val.kids[0], U64(0)), True):
                check_implies(cx, s2, "an open connection does not report the end of data while it keeps bytes", [eq(seq_len(left), U64(0))], at)
        if is_ok(I, o.val) is False and not any(e[0] == "app_err" for e in evs):
            cx.viol("a fresh connection reports no error by itself", at, facts(o.st)[:200])


def fresh_fields(cx):
    """values of the plain fields of a connection as TlsClient::new leaves it"""
    hs, I = paths(cx)
    if I is None:
        return None
    for h in hs:
        if h.good is True:
            v = h.o.val.kids[0]
            t = I.ty(v.shape[0])
            r = {}
            for f, x in zip(t["variants"][0]["fields"], v.kids):
                ft = I.ty(f["ty"])
                nm = ft.get("path", "").split("::")[-1] if ft["k"] == "adt" else ""
                if nm in ("TlsReader", "TlsWriter") or ft["k"] == "param":
                    continue
                if x.cls not in ("ptr", "src"):
                    r[f["name"]] = x
            return r
    cx.absent(I, "TlsClient::new can succeed", CL + "new")
    return None


def narrowed(st, k):
    """whether the count can be zero / positive on this path"""
    enter(st)
    return decide(st, eq(k, U64(0)), 3)


def c12(cx):
    at = READ
    f = fresh_fields(cx)
    if f is None:
        return
    r = run_read(cx, over=lambda I, st: f, lo=1)
    if r is None:
        return
    I, outs, c, bn, loc, src, n = r
    ne = 0
    for o in ret_outs(outs):
        enter(o.st)
        evs = appev(o.st)
        errs = [i for i, e in enumerate(evs) if e[0] == "app_err"]
        ok = is_ok(I, o.val)
        if not errs:
            cx.ob("no alert is sent unless reading failed", not any(e[0].startswith("w_alert") for e in evs), at, str([e[0] for e in evs]))
            cx.ob("an error is reported only for a failure", ok is True if ok is not None else None, at, facts(o.st)[:200])
            continue
        ks = kinds_of(I, o.st, evs[errs[0]][2])
        if ks is None:
            cx.und("the kind of the failure is known", at)
            continue
        for name, s in ks:
            if name == "IoFailure":
                continue
            ne += 1
            enter(s)
            after = evs[errs[0] + 1:]
            al = [e for e in after if e[0].startswith("w_alert")]
            if any(e[0] in ("app", "app_end", "app_err") for e in after):
                cx.viol("nothing is read after a failure in the same call", at, "%s after %s" % ([e[0] for e in after], name))
                continue
            if len(al) != 1:
                cx.viol("exactly one alert is sent for a failure", at, "%d alerts for %s" % (len(al), name))
                continue
            alert_matches(cx, I, s, al[0][2][0], name, at, "the alert ")
            if ok is False:
                cx.ob("the failure is reported", True, at)
            elif ok is True:
                # data delivered before the failure may be returned first; then the failure
                k = o.val.kids[0]
                z = narrowed(s, k)
                cx.ob("a failure is not shown as end of data", z is False if z is not None else None, at, "%s: returns %s" % (name, showv(k)[:120]))
                if z is False:
                    follow(cx, I, s, c, name, at)
            else:
                cx.und("the result is a count or an error", at, showv(o.val)[:100])
    if not ne:
        cx.absent(I, "read can meet a failure", at)
    # what the record layer hands up
    b = body(cx, RD + "read_application_data")
    if b is None:
        return
    n = 0
    for o, I, e in run_over_message(cx, b, True):
        if e is None:
            cx.viol("application data comes from a message", b.path, showv(o.val)[:200])
            continue
        n += 1
        ok = is_ok(I, o.val)
        for x in I.passed:
            if x[0] == "msg_err":
                cx.viol("a record failure is an error", b.path, "reads on after %s" % showv(x[3])[:150])
            elif x[2] == "ApplicationDataMessage":
                check_implies(cx, o.st, "data is not skipped", [eq(seq_len(MDseq(x[3][0])), U64(0))], b.path)
            elif x[2] == "AlertMessage":
                cx.viol("other alerts are failures of protocol", b.path, "reads on after an alert")
            else:
                cx.viol("%s is a failure where application data is expected" % x[2], b.path, "reads on after it")
        if e[0] == "msg_err":
            cx.ob("a record failure is an error", ok is False if ok is not None else None, b.path, showv(o.val)[:200])
            if ok is False:
                cx.ob("a record failure keeps its kind", kind_same(I, o.st, o.val.kids[0], e[3]) if vsame(I, o.st, o.val.kids[0], e[3]) is not True else True, b.path, showv(o.val)[:200])
        elif e[2] == "ApplicationDataMessage":
            cx.ob("application data is delivered", ok is True if ok is not None else None, b.path, showv(o.val)[:200])
            if ok is True:
                check_same(cx, I, o.st, "the delivered bytes are the record's", MDseq(o.val.kids[0]), MDseq(e[3][0]), b.path)
                z = decide(o.st, eq(seq_len(MDseq(o.val.kids[0])), U64(0)), 3)
                cx.ob("an empty record is not delivered as end of data", z is False if z is not None else None, b.path, facts(o.st)[:200])
        elif e[2] == "AlertMessage":
            d = cast(I.discr(o.st, field(I, e[3][0], "description")), 64)
            cn = eq(d, C(CODES["AlertDescription"]["close_notify"], 64))
            if ok is True:
                check_implies(cx, o.st, "only close_notify ends the data", [cn], b.path)
            elif ok is False:
                check_implies(cx, o.st, "close_notify is no failure", [not_(cn)], b.path)
                cx.ob("other alerts are failures of protocol", notio(I, o), b.path, showv(o.val)[:200])
        else:
            cx.ob("%s is a failure where application data is expected" % e[2], ok is False if ok is not None else None, b.path, showv(o.val)[:200])
            if ok is False:
                cx.ob("%s is not taken for a transport failure" % e[2], notio(I, o), b.path, showv(o.val)[:200])
    if not n:
        cx.und("read_application_data is analysable", b.path)


def notio(I, o):
    k = kindof(I, o.st, o.val.kids[0])
    return None if k is None else k != "IoFailure"


def follow(cx, I, s, c, name, at):
    """the call after one that returned data and met a failure"""
    s = s.copy()
    enter(s)
    m = len(list(s.events()))
    v = I.loadp(s, c)
    r = run_read(cx, None, s, I, c, "ubuf2", 1)
    if r is None:
        return
    I, outs = r[0], r[1]
    for o in ret_outs(outs):
        enter(o.st)
        ok = is_ok(I, o.val)
        evs = appev(o.st, m)
        if ok is True:
            z = narrowed(o.st, o.val.kids[0])
            if z is False and not any(e[0] == "app" for e in evs):
                continue        # still surplus data
            cx.ob("the failure is reported by the next call", False, at, "%s: next call returns %s after %s" % (name, showv(o.val)[:100], [e[0] for e in evs]))
        elif ok is False:
            cx.ob("the failure is reported by the next call", True, at)
            cx.ob("the alert is not repeated", not any(e[0].startswith("w_alert") for e in evs), at, str([e[0] for e in evs]))
        else:
            cx.und("the failure is reported by the next call", at, showv(o.val)[:100])


def c13(cx):
    P = cx.P
    b = body(cx, CL + "close")
    if b is not None:
        I = cx.new()
        I.contracts.update(HANDC)
        st = State()
        enter(st)
        c = mkclient(I, st, P, selftype(P, b.locals[1]))
        I, outs = run(cx, b, [c], I, st)
        if outs is not None and stuck_outs(cx, I, outs, b):
            n = 0
            for o in ret_outs(outs):
                enter(o.st)
                w = [e for e in o.st.events() if e[0].startswith("w_")]
                ok = is_ok(I, o.val)
                if len(w) != 1 or not w[0][0].startswith("w_alert"):
                    cx.viol("closing writes exactly one alert", b.path, str([e[0] for e in w]))
                    continue
                n += 1
                al = vsubst(w[0][2][0], fixed(o.st))
                d = cast(I.discr(o.st, field(I, al, "description")), 64)
                cx.ob("the alert is close_notify", decide(o.st, eq(d, C(CODES["AlertDescription"]["close_notify"], 64))), b.path, showv(al)[:200])
                if w[0][0] == "w_alert":
                    cx.ob("closing succeeds when the alert was written", ok, b.path)
                else:
                    cx.ob("a transport failure while closing is reported", ok is False if ok is not None else None, b.path)
            if not n:
                cx.absent(I, "closing can complete", b.path)
    # write_alert is one record with the two bytes
    def mk(I, st, b):
        t = selftype(P, b.locals[2])
        al = I.fresh(t, ("alert",))
        return [Ptr(I.alloc(st, al))]
    r = run_writer(cx, "write_alert", mk)
    if r:
        I, b, outs, w, a = r
        for o in outs:
            enter(o.st)
            rec = [e for e in o.st.events() if e[0] in ("record", "record_err")]
            al = I.loadp(o.st, a[0])
            ok = is_ok(I, o.val)
            lv = cast(I.discr(o.st, field(I, al, "level")), 8)
            de = cast(I.discr(o.st, field(I, al, "description")), 8)
            if len(rec) != 1:
                cx.viol("an alert is exactly one record", b.path, str([e[0] for e in rec]))
                continue
            check_same(cx, I, o.st, "an alert record is level and description", rec[0][2], bytes2(lv, de), b.path)
            check_same(cx, I, o.st, "an alert has content type alert", rec[0][1], U8(CODES["ContentType"]["AlertTy"]), b.path)
            cx.ob("a failed record fails the alert", (ok is True) == (rec[0][0] == "record") if ok is not None else None, b.path)
    # close_notify from the peer
    f = fresh_fields(cx)
    if f is None:
        return
    r = run_read(cx, over=lambda I, st: f, lo=1)
    if r is None:
        return
    I, outs, c, bn, loc, src, n = r
    k = 0
    for o in ret_outs(outs):
        enter(o.st)
        evs = appev(o.st)
        i = [j for j, e in enumerate(evs) if e[0] == "app_end"]
        if not i:
            continue
        k += 1
        cx.ob("close_notify is not an error", is_ok(I, o.val), READ, showv(o.val)[:100])
        cx.ob("nothing is read after close_notify", not any(e[0].startswith("app") for e in evs[i[0] + 1:]), READ, str([e[0] for e in evs]))
        m = len(list(o.st.events()))
        r2 = run_read(cx, None, o.st.copy(), I, c, "ubuf2", 1)
        if r2 is None:
            continue
        for o2 in ret_outs(r2[1]):
            enter(o2.st)
            ev2 = appev(o2.st, m)
            cx.ob("nothing is delivered after close_notify", not any(e[0] == "app" for e in ev2), READ, str([e[0] for e in ev2]))
            if is_ok(I, o2.val) is True:
                z = narrowed(o2.st, o2.val.kids[0])
                cx.ob("reading after close_notify reports end of data", z if z is not None else None, READ, showv(o2.val)[:100])
    if not k:
        cx.absent(I, "a close_notify is processed", READ)


def bytes2(a, b):
    return Seq([("e", (a, b))])
