"""S01-S03: no panic from the network, unsafe confined, secrets stay in."""
from rules.lib import *

INTS = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "isize": 8}


def bytesize(t):
    """size of [u8; n]"""
    t = t.replace(" ", "")
    if t.startswith("[u8;") and t.endswith("]"):
        n = t[4:-1].split("_")[0].replace("usize", "")
        if n.isdigit():
            return int(n)
    return None


def s02(cx):
    """every unsafe operation of the source is an integer <-> byte array transmute of the same size"""
    u = cx.P.unsafety
    if u is None:
        cx.und("the source was examined", "", "no unsafety record in the dump")
        return
    cx.count("function_bodies_examined", u["bodies"])
    cx.count("items_examined", u["items"])
    cx.count("unsafe_blocks", u["blocks"])
    cx.count("statics_examined", u["statics"])
    n = 0
    for f in u["found"]:
        at = f["span"]
        if f["kind"] == "transmute":
            n += 1
            a, b = f["from"], f["to"]
            good = (a in INTS and bytesize(b) == INTS[a]) or (b in INTS and bytesize(a) == INTS[b])
            if not good and ("$" in a + b or not a or not b):
                cx.und("a transmute converts between an integer and its bytes", at, "%s -> %s" % (a, b))
                continue
            cx.ob("a transmute converts between an integer and its bytes", good, at, "in %s: %s -> %s" % (f["fn"], a, b))
        else:
            cx.viol("the only unsafe operations are integer/byte conversions", at, "%s in %s: %s" % (f["kind"], f["fn"], f["detail"]))
    cx.count("transmutes", n)
    for b in sorted(cx.P.bodies):
        cx.analysed.add(b)
    cx.ob("every body and item of the crate was examined", u["bodies"] > 0 and u["items"] > 0, "src", "%d bodies, %d items, %d unsafe blocks" % (u["bodies"], u["items"], u["blocks"]))


# ---------------------------------------------------------------- S01
import importlib
from rules.record import possible_panic, ret_outs

# analyses that put an object into a state no caller can bring about, or a function in front of arbitrary arguments
NOT = ("reader.r06", "reader.r10", "errs.e02")
NOPANIC = ("alloc::", "core::fmt", "std::fmt", "core::clone", "core::default", "core::marker", "core::mem", "std::io::Write::flush", "core::num::wrapping")


def runs(cx):
    import table
    out = []
    for p in sorted(table.RULES):
        if p[0] in "SN" or p in ("A04",):
            continue
        for r in table.RULES[p]["rules"]:
            if r not in NOT and r not in out:
                out.append(r)
    return out


def entries(P):
    return [f["root"] for f in P.fns if f["exported"] and f["root"] and "client::TlsClient" in f["path"]]


def callees(P, b):
    for blk in b.blocks:
        if not blk:
            continue
        c = blk.get("callee") if blk["t"] == "call" else None
        if c:
            if c.get("kind") == "virtual" or c.get("trait") and c.get("key") not in P.bodies:
                for (ty, tr), m in P.vt.items():
                    for x in (m.values() if isinstance(m, dict) else m):
                        yield x if isinstance(x, str) else (x or {}).get("key")
            yield c.get("key")
        for k in refs(blk):
            yield k


def refs(x):
    """functions mentioned as values"""
    if isinstance(x, dict):
        if "key" in x and isinstance(x["key"], str) and "path" in x:
            yield x["key"]
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from refs(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from refs(v)


def reachable(P):
    seen, q = set(), list(entries(P))
    while q:
        k = q.pop()
        if k in seen or k not in P.bodies:
            continue
        seen.add(k)
        q.extend(x for x in callees(P, P.bodies[k]) if x)
    return seen


def sites(P, b):
    """places of this body that can panic by themselves or in the standard library"""
    n = 0
    for blk in b.blocks:
        if not blk:
            continue
        if blk["t"] == "assert":
            n += 1
        elif blk["t"] == "call":
            c = blk.get("callee")
            if c is None:
                n += 1
                continue
            m = c.get("rmod") or c.get("mod") or ""
            if c.get("local"):
                continue
            if not any(m.startswith(x) for x in NOPANIC):
                n += 1
    return n


class Rec:
    """the interpreters a rule makes"""

    def __init__(self, cx, name):
        self.sub = type(cx)(cx.prop, cx.P, cx.tier, cx.seed)
        self.sub.peel = cx.peel
        self.Is = []
        old = self.sub.new

        def new(**k):
            I = old(**k)
            self.Is.append(I)
            return I
        self.sub.new = new


_todo = {}


def s01(cx):
    P = cx.P
    reach = reachable(P)
    ends = entries(P)
    cx.ob("the entry points are known", True if len(ends) >= 4 else None, "src/client.rs", ", ".join(short(x) for x in ends)[:300])
    an = set()
    cand = {}
    key = id(P)
    todo = _todo.get(key)
    later = set()
    nsite = 0
    seen_sites = {}
    for r in runs(cx):
        if cx.peel and todo is not None and r not in todo:
            continue
        m, f = r.split(".")
        rec = Rec(cx, r)
        try:
            getattr(importlib.import_module("rules." + m), f)(rec.sub)
        except Exception as e:
            cx.und("analysis %s ran to the end" % r, r, "%s: %s" % (type(e).__name__, e))
            later.add(r)
        for I in rec.Is:
            an |= I.analysed
            cx.analysed |= I.analysed
            cx.npaths += I.npaths
            for k, v in I.entered.items():
                seen_sites[k] = seen_sites.get(k, 0) + len(v)
            if I.stucks or I.cut:
                later.add(r)
                cx.und("every path could be followed", r, "; ".join(str(s)[:120] for s in I.stucks[:2]))
            for d in I.panics:
                v = possible_panic(d)
                if v is True:
                    continue
                later.add(r)
                k = (d["span"], d["kind"], v)
                if k not in cand:
                    cand[k] = (d, r, v)
    if not cx.peel:
        _todo[key] = later
    for (span, kind, v), (d, r, _) in sorted(cand.items(), key=lambda x: str(x[0])):
        cx.ob("no panic: %s" % kind, v, "%s %s" % (short(d["fn"]), span), "%s (in the analysis %s; reached when %s)" % (d["msg"], r, facts(d["st"])))
    bad = {k[0] for k in cand}
    for (fn, span, kind), n in sorted(seen_sites.items()):
        if span not in bad:
            nsite += 1
            cx.ob("no panic: %s" % kind, True, "%s %s" % (short(fn), span), "holds on %d visits" % n)
    cx.count("panic_sites_visited", len(seen_sites))
    if cx.peel:
        return
    # every function that can be reached has been looked at
    done = {P.bodies[k].path for k in an if k in P.bodies} | {k for k in an}
    left = []
    for k in sorted(reach):
        b = P.bodies[k]
        if not b.local or k in an or b.path in done or "as std::fmt::" in b.path or "as std::error::Error" in b.path:
            continue
        if b.path in left:
            continue
        n = sites(P, b)
        if n and alone(cx, b):
            cx.ob("no panic in a function on its own", True, b.path, "%d places" % n)
        elif n:
            left.append(b.path)
            cx.und("every reachable function was analysed", b.path, "%d places could panic" % n)
        else:
            cx.ob("a function without places that can panic", True, b.path)
    cx.count("reachable_functions", len([k for k in reach if P.bodies[k].local]))
    history(cx)


def alone(cx, b):
    """does the function, for any arguments and any outcome of what it calls, come to its end?  A method of an object
    that arbitrary fields make panic is tried on a freshly constructed one."""
    import rules.errs as ER
    P = cx.P
    for fresh in (False, True):
        sub = type(cx)(cx.prop, P, cx.tier, cx.seed)
        I = sub.new()
        I.fallback = ER.fallback
        st = State()
        enter(st)
        args = None
        if fresh:
            own = b.path.rsplit("::", 1)[0]
            c = next((x for x in P.bodies.values() if x.path == own + "::new" and x.local), None)
            if c is None or not b.argc:
                return False
            I, outs = run(sub, c, None, I, st)
            r = ret_outs(outs or [])
            if len(r) != 1 or r[0].val is None:
                return False
            st = r[0].st
            enter(st)
            v = r[0].val
            if P.types[b.locals[1]]["k"] == "ref":
                v = Ptr(I.alloc(st, v))
            args = [v] + [I.fresh(b.locals[i + 1], ("arg", i)) for i in range(1, b.argc)]
        try:
            I, outs = run(sub, b, args, I, st)
        except (Stuck, Undecided):
            continue
        if outs is not None and not I.stucks and not I.cut and all(possible_panic(d) is True for d in I.panics):
            cx.analysed |= I.analysed
            return True
    return False


def history(cx):
    """the setters refuse a second installation by panicking: each is reached at most once in a connection's life"""
    import rules.client as CLN
    hs, I = CLN.paths(cx)
    if I is None:
        return
    most = {}
    for h in hs:
        c = {}
        for e in h.ev:
            if e[0].startswith("set_"):
                c[e[0]] = c.get(e[0], 0) + 1
        for k, n in c.items():
            most[k] = max(most.get(k, 0), n)
            if n > 1:
                cx.ob("a key or IV is installed at most once", False if h.failed() is None or True else None, "TlsClient::new", h.show())
    cx.ob("a key or IV is installed at most once", True if most and max(most.values()) <= 1 else None, "TlsClient::new", str(most))
