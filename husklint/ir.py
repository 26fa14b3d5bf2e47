"""The dumped MIR program: types, bodies, control-flow facts."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d["types"]
        self.bodies = {b["key"]: Body(b, self) for b in d["bodies"]}
        self.fns = d["fns"]
        self.consts = {c["path"]: c for c in d["consts"]}
        self.statics = {s["path"]: s for s in d["statics"]}
        self.unsafety = d.get("unsafety")
        self.vt = {}
        for v in d["vtables"]:
            self.vt[(v["ty"], v["trait"])] = v["m"]
        self.byname = {}
        for k, b in self.bodies.items():
            self.byname.setdefault(norm(b.path), []).append(b)
        self._tid = {}
        for i, t in enumerate(self.types):
            self._tid.setdefault(t["s"], i)

    def ty(self, i):
        return self.types[i]

    def tid(self, s):
        return self._tid.get(s)

    def width(self, i):
        t = self.types[i]
        k = t["k"]
        if k == "int":
            return t["bits"]
        if k == "bool":
            return 1
        if k == "char":
            return 32
        return None

    def local_fns(self):
        return [b for b in self.bodies.values() if b.local]

    def find(self, path, key=None):
        """bodies of a crate path, e.g. crypto::sha2::sha256"""
        r = self.byname.get(path, [])
        if key:
            r = [b for b in r if key in b.key]
        return r

    def adt(self, path):
        for i, t in enumerate(self.types):
            if t["k"] == "adt" and t.get("path") == path:
                return i
        return None


def norm(p):
    return p


class Body:
    def __init__(self, b, prog):
        self.b = b
        self.prog = prog
        self.key = b["key"]
        self.path = b["path"]
        self.mod = b["mod"]
        self.local = b["local"]
        self.span = b["span"]
        self.argc = b["argc"]
        self.locals = b["locals"]
        self.names = b.get("names", {})
        self.blocks = b["blocks"]
        self._loops = None
        self._live = None

    def succ(self, i):
        blk = self.blocks[i]
        if blk is None:
            return []
        t = blk
        k = blk["t"]
        if k == "goto" or k == "drop" or k == "assert":
            x = t["to"]
            return [x] if x is not None else []
        if k == "switch":
            r = [v[1] for v in t["vs"]]
            if t.get("else") is not None:
                r.append(t["else"])
            return r
        if k == "call":
            return [t["to"]] if t["to"] is not None else []
        return []

    def loops(self):
        """header -> set of blocks of the natural loop"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        succ = [self.succ(i) for i in range(n)]
        # reverse postorder
        seen = set()
        order = []
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            v, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen and self.blocks[s] is not None:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    adv = True
                    break
            if not adv:
                order.append(v)
                stack.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                if s in preds:
                    preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in num and dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(preds[x])
        self._loops = loops
        return loops

    # ------------------------------------------------ liveness of locals
    def live_in(self, blk):
        if self._live is None:
            self._compute_live()
        return self._live.get(blk, frozenset())

    def _compute_live(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        addr = set()

        def place_use(p, u, d):
            if p["l"] not in d:
                u.add(p["l"])
            for e in p["p"]:
                if isinstance(e, dict) and "i" in e and "f" not in e:
                    if e["i"] not in d:
                        u.add(e["i"])

        def op(o, u, d):
            if "c" in o:
                place_use(o["c"], u, d)
            elif "m" in o:
                place_use(o["m"], u, d)

        for i, blk in enumerate(self.blocks):
            if blk is None:
                continue
            u, d = use[i], deff[i]
            for s in blk["st"]:
                if "copy" in s:
                    for o in s["copy"]:
                        if isinstance(o, dict):
                            op(o, u, d)
                    continue
                if "p" not in s:
                    continue
                if "v" in s:
                    self._rv_uses(s["v"], u, d, addr, op, place_use)
                p = s["p"]
                if p["p"]:
                    place_use(p, u, d)
                else:
                    if p["l"] not in u:
                        d.add(p["l"])
            t = blk
            k = blk["t"]
            if k == "switch":
                op(t["o"], u, d)
            elif k == "assert":
                op(t["o"], u, d)
                for o in t.get("ops", []):
                    op(o, u, d)
            elif k == "drop":
                pass
            elif k == "call":
                if isinstance(t.get("f"), dict):
                    op(t["f"], u, d)
                for o in t["args"]:
                    op(o, u, d)
                p = t["dest"]
                if p["p"]:
                    place_use(p, u, d)
                elif p["l"] not in u:
                    d.add(p["l"])
            elif k == "return":
                if 0 not in d:
                    u.add(0)
        live = [set(use[i]) for i in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                if self.blocks[i] is None:
                    continue
                s = set(use[i])
                for x in self.succ(i):
                    s |= (live[x] - deff[i])
                # values defined here and needed later do not enter
                if not s <= live[i]:
                    live[i] |= s
                    ch = True
        self._live = {i: frozenset(live[i] | addr) for i in range(n)}

    def _rv_uses(self, v, u, d, addr, op, place_use):
        r = v["r"]
        if r == "ref":
            p = v["p"]
            place_use(p, u, d)
            if "*" not in p["p"]:
                addr.add(p["l"])
        elif r == "discr":
            place_use(v["p"], u, d)
        elif r == "bin":
            op(v["a"], u, d)
            op(v["b"], u, d)
        elif r == "agg":
            for o in v["o"]:
                op(o, u, d)
        elif "o" in v and isinstance(v["o"], dict):
            op(v["o"], u, d)

