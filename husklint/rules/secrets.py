"""S03: secrets do not get into formatted text, error descriptions or messages."""
import importlib
from rules.lib import *
from rules.safety import Rec, reachable, runs
from rules.timing import Taint, VIDS, direct, head, vsup
from term import support, byid
import rules.client as CLN
import models as MD

# names that stand for secrets in the runs of a module
SECRET = {
    "sym": {"key", "secret", "a", "hmac", "tab", "buf", "block"},
    "poly": {"r", "s"},
    "aead": {"key", "block", "poly1305", "stream"},
    "field": {"op0", "op1", "op2"},
    "ec": {"op", "op0", "op1", "op2"},
    "client": {"premaster", "prf", "iv", "cmpa", "cmpb"},
    "app": {"premaster", "prf", "iv"},
    "kex": {"premaster", "prf", "rng"},
    "record": {"iv", "key"},
    "reader": {"iv", "key"},
}
FINISHED = (b"client finished", b"server finished")


def s03(cx):
    P = cx.P
    done, visited, bad = set(), {}, set()
    for rule in runs(cx):
        m, f = rule.split(".")
        rec = Rec(cx, rule)
        try:
            getattr(importlib.import_module("rules." + m), f)(rec.sub)
        except Exception as e:
            cx.und("analysis %s ran to the end" % rule, rule, "%s: %s" % (type(e).__name__, e))
        for I in rec.Is:
            done |= I.analysed
            cx.npaths += I.npaths
            tn = Taint(I, SECRET.get(m, set()))
            for span, fn, v in I.fmts:
                visited.setdefault((str(fn), span), 0)
                visited[(str(fn), span)] += 1
                if v is None:
                    continue
                leak = tn.of(vsup(v))
                if not leak:
                    continue
                at = "%s %s" % (short(str(fn)), span)
                sure = sorted(str(x) for x in leak if x != "?")
                if sure:
                    # what is meant for the peer is no secret: sealed records, the public key, the contents of Finished messages
                    out = set()
                    sources(v, out, set())
                    if not any(isinstance(x, tuple) for x in out):
                        sure = [x for x in sure if x in out]
                        if not sure:
                            continue
                if not sure:
                    cx.und("no secret in formatted text or an error description", at, "an unknown without a summary is formatted")
                    bad.add((str(fn), span))
                    continue
                ok = False
                if sure == ["rng"]:
                    d = set()
                    for t in terms(v):
                        direct(t, d)
                    # the public key is a function of the scalar too
                    ok = False if any("rng" == head(byid(i).a) for i in d if byid(i).op == "v") else None
                bad.add((str(fn), span))
                cx.ob("no secret in formatted text or an error description", ok, at, "what is formatted depends on %s (in the analysis %s)" % (", ".join(sure), rule))
            if I.stucks or I.cut:
                cx.und("every path could be followed", rule, "; ".join(str(s)[:120] for s in I.stucks[:2]))
    cx.analysed |= done
    for fn, span in sorted(set(visited) - bad):
        cx.ob("no secret in formatted text or an error description", True, "%s %s" % (short(fn), span), "%d visits" % visited[(fn, span)])
    if not cx.peel:
        sites(cx, done, visited)
    wire(cx)


def terms(v):
    if isinstance(v, T):
        return [v]
    return [t for k in v.kids for t in terms(k)] if isinstance(v, Val) else []


def sites(cx, done, visited):
    """every place in reachable code that formats something is in a function that was followed"""
    P = cx.P
    n = 0
    seen = {fn for fn, span in visited}
    paths = {P.bodies[k].path for k in done if k in P.bodies}
    for k in sorted(reachable(P)):
        b = P.bodies[k]
        if not b.local or "as std::fmt::" in b.path or "as std::error::Error" in b.path:
            continue
        fm = [blk for blk in b.blocks if blk and blk.get("t") == "call" and blk.get("callee") and "fmt::rt::Argument" in (blk["callee"].get("path") or "")]
        if not fm:
            continue
        n += len(fm)
        if k in done or b.path in paths:
            cx.ob("a function that formats text was followed", True, short(b.path), "%d places" % len(fm))
        else:
            cx.und("a function that formats text was followed", short(b.path), "%d places" % len(fm))
    cx.count("format_sites", n)


def sources(v, out, seen):
    """what a value sent is made of, not looking behind the functions that may be applied to secrets"""
    if v is None:
        return
    key = v.id if isinstance(v, T) else ("v", v.vid)
    if key in seen:
        return
    seen.add(key)
    if isinstance(v, T):
        d = set()
        direct(v, d)
        for i in d:
            t = byid(i)
            if t.op == "v":
                out.add(head(t.a))
            else:
                for x in t.a[1:]:
                    if isinstance(x, (T, Val)):
                        sources(x, out, seen)
        return
    if v.cls == "src":
        h = head(v.shape[0])
        if h == "prf":
            if label(v) in FINISHED:
                return
        elif h in ("kexpub", "sealed", "opened"):
            return
        out.add(h)
    for k in v.kids:
        sources(k, out, seen)


def label(src):
    out = []
    for i in range(15):
        try:
            t = seq_get(src.kids[1], U64(i))
        except Exception:
            return None
        if not isinstance(t, T) or t.op != "c":
            return None
        out.append(t.a)
    return bytes(out)


def wire(cx):
    """what the handshake hands to the record layer"""
    hs, I = CLN.paths(cx)
    if I is None:
        return
    n = 0
    for h in hs:
        enter(h.st)
        for e in h.ev:
            if e[0] not in ("w_hs", "w_alert", "w_app", "w_any"):
                continue
            n += 1
            out, seen = set(), set()
            for x in e[1:]:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, (T, Val)):
                        sources(y, out, seen)
            leak = out & {"premaster", "prf"}
            cx.ob("a message carries no secret outside the prescribed functions", not leak, "TlsClient::handshake",
                  "%s depends on %s" % (h.name(h.msg(e)) or e[0], ", ".join(sorted(leak))) if leak else e[0])
    cx.count("messages_examined", n)
