#!/usr/bin/env python3
"""check.py <property id>: analyse the current source of /repo and decide one property.

Builds the MIR dumper (driver/) if needed, dumps the resolved MIR of /repo's working tree, runs the
property's rules over it, writes evidence/<id>.json and reports."""
import fcntl, hashlib, importlib, json, os, signal, subprocess, sys, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("HUSK_REPO", "/repo")
BUILD = os.environ.get("HUSKLINT_BUILD", os.path.join(VERIF, ".build"))
sys.path.insert(0, HERE)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def treehash(*roots):
    h = hashlib.sha256()
    for r in roots:
        if os.path.isfile(r):
            h.update(r.encode() + open(r, "rb").read())
            continue
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()[:24]


def make_dump():
    """returns the path of the dump of the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sysroot + "/lib:" + env.get("LD_LIBRARY_PATH", "")
        for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
            env.pop(k, None)
        drv = os.path.join(VERIF, "driver")
        dh = treehash(os.path.join(drv, "src"), os.path.join(drv, "Cargo.toml"))
        dtd = os.path.join(BUILD, "driver")
        exe = os.path.join(dtd, "debug", "huskmir")
        stamp = os.path.join(BUILD, "driver.stamp")
        if not os.path.exists(exe) or not os.path.exists(stamp) or open(stamp).read() != dh:
            r = sh(["cargo", "+nightly", "build", "--offline", "--target-dir", dtd], cwd=drv, env=env)
            if r.returncode != 0 or not os.path.exists(exe):
                raise SystemExit("husklint: the MIR dumper does not build:\n" + r.stdout[-3000:])
            open(stamp, "w").write(dh)
        rh = treehash(os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")) + dh[:8]
        out = os.path.join(BUILD, "dump-%s.json" % rh)
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):
            if f.startswith("dump-"):
                os.unlink(os.path.join(BUILD, f))
        td = os.path.join(BUILD, "target")
        import shutil
        for sub in (".fingerprint", "build", "incremental", "deps"):
            d = os.path.join(td, "debug", sub)
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if f == "husk" or f.startswith("husk-"):
                        shutil.rmtree(os.path.join(d, f), ignore_errors=True)
        tmp = out + ".tmp"
        env["HUSKMIR_OUT"] = tmp
        env["CARGO_INCREMENTAL"] = "0"
        # debug_assert! is not a check to rely on; arithmetic overflow is looked at in any case
        env["RUSTFLAGS"] = "-C debug-assertions=off -C overflow-checks=on"
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        r = sh(["cargo", "+nightly", "check", "--lib", "--offline", "--target-dir", td], cwd=REPO, env=env)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise SystemExit("husklint: /repo does not compile for the analysis:\n" + r.stdout[-1500:])
        os.rename(tmp, out)
        return out


class Cx:
    """what a rule sees"""

    def __init__(self, prop, prog, tier, seed):
        self.prop, self.prog, self.tier, self.seed = prop, prog, tier, seed
        self.P = prog
        self.peel = 0
        self.obs = []            # (name, status, where, detail)
        self.analysed = set()
        self.npaths = 0
        self.loops = 0
        self.accesses = 0
        self.notes = []
        self.covered = {}
        self.t0 = time.time()

    # -- obligations
    def ob(self, name, ok, where="", detail=""):
        """ok: True discharged, False violated, None undecided"""
        st = "discharged" if ok is True else "violated" if ok is False else "undecided"
        self.obs.append((name, st, where, str(detail)[:600]))
        return ok

    def viol(self, name, where, detail=""):
        self.ob(name, False, where, detail)

    def absent(self, I, name, where, detail=""):
        """no path shows what some path must show: a violation only if every path was followed"""
        self.ob(name, None if self.peel or (I is not None and (I.stucks or I.cut)) else False, where, detail)

    def und(self, name, where="", detail=""):
        self.ob(name, None, where, detail)

    def note(self, s):
        self.notes.append(s)

    def count(self, k, n=1):
        self.covered[k] = self.covered.get(k, 0) + n

    # -- interpreter
    def new(self, **contracts):
        import interp, models
        I = interp.Interp(self.prog)
        models.install(I)
        I.cx = self
        I.peel = self.peel
        return I

    def done(self, I):
        self.analysed |= I.analysed
        self.npaths += I.npaths
        self.loops += len(I.loops)
        self.accesses += len(I.accesses)


def rules(prop, cx):
    import table
    for r in table.RULES[prop]["rules"]:
        mod, fn = r.split(".")
        m = importlib.import_module("rules." + mod)
        try:
            getattr(m, fn)(cx)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            cx.und("rule %s ran to the end" % r, "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno),
                   "%s: %s" % (type(e).__name__, e))
            if os.environ.get("HUSKLINT_DEBUG"):
                traceback.print_exc()


def known_findings():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                r.append(l[6:].strip())
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    dump = sys.argv[2] if len(sys.argv) > 2 else make_dump()
    res = {}

    def run():
        try:
            import ir, table
            P = ir.Prog(dump)
            cx = Cx(prop, P, tier, seed)
            res["cx"] = cx
            rules(prop, cx)
            if any(o[1] == "undecided" for o in cx.obs) and not any(o[1] == "violated" for o in cx.obs):
                # what the loop summaries leave open is looked at once more with the loops peeled: only violations count
                for k in (1, 3):
                    c2 = Cx(prop, P, tier, seed)
                    c2.peel = k
                    res["peel"] = c2
                    rules(prop, c2)
                    bad = [o for o in c2.obs if o[1] == "violated"]
                    cx.count("peeled_obligations", len(c2.obs))
                    if bad:
                        cx.obs += [(o[0], o[1], o[2], "(loops peeled %d times) " % k + o[3]) for o in bad]
                        break
        except BaseException:
            res["err"] = traceback.format_exc()

    th = threading.Thread(target=run, daemon=True)
    th.start()
    limit = float(os.environ.get("HUSKLINT_LIMIT", "780" if tier == "quick" else "3000"))
    th.join(max(30.0, limit - (time.time() - t0)))
    timed_out = th.is_alive()
    cx = res.get("cx")
    if cx is None:
        sys.stderr.write(res.get("err", "husklint: no result\n"))
        os._exit(2)
    if "err" in res:
        sys.stderr.write(res["err"])
        os._exit(2)
    if timed_out:
        if res.get("peel") is not None:
            cx.obs += [(o[0], o[1], o[2], "(loops peeled) " + o[3]) for o in list(res["peel"].obs) if o[1] == "violated"]
        cx.und("analysis finished in time", "", "stopped after %.0f s" % (time.time() - t0))
    import table
    known = known_findings()
    viol, knownhit = [], []
    for name, st, where, detail in list(cx.obs):
        if st != "violated":
            continue
        ident = "%s %s" % (prop, name)
        k = [x for x in known if x == ident]
        (knownhit if k else viol).append((name, where, detail))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cnt = {"discharged": 0, "violated": 0, "undecided": 0}
    for o in cx.obs:
        cnt[o[1]] += 1
    spec = table.RULES[prop]
    cov = {
        "explanation": spec["how"],
        "obligations": len(cx.obs),
        "discharged": cnt["discharged"],
        "violated": cnt["violated"],
        "undecided": cnt["undecided"],
        "checker_cmd": "./check.sh %s" % prop,
        "trusted_base": ["rustc nightly front end and MIR construction", "driver/ (MIR to JSON)",
                         "husklint abstract interpreter, its value-numbering identities and its models of std, byteorder, num and rand",
                         "reference terms in husklint/rules"],
        "functions_analysed": sorted(x.split(" as ")[0][:120] for x in cx.analysed)[:400],
        "functions_analysed_count": len(cx.analysed),
        "paths": cx.npaths,
        "loops_summarised": cx.loops,
        "index_accesses_checked": cx.accesses,
        "results": [{"obligation": o[0], "status": o[1], "at": o[2], "detail": o[3]} for o in cx.obs][:600],
    }
    cov.update(cx.covered)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumes", []) + cx.notes, "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    evf = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(ev, open(evf, "w"), indent=1)
    for name, where, detail in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (prop, name))
    told = {}
    for name, where, detail in viol:
        told[name] = told.get(name, 0) + 1
        if told[name] == 1 and len(told) <= 12:
            print("  violated: %s\n    at %s\n    %s" % (name, where, detail))
    print("%s: %d obligations, %d discharged, %d violated, %d undecided; %d functions, %d paths, %.1f s" % (
        prop, len(cx.obs), cnt["discharged"], cnt["violated"], cnt["undecided"], len(cx.analysed), cx.npaths, time.time() - t0))
    told = {}
    for o in cx.obs:
        if o[1] == "undecided":
            told[o[0]] = told.get(o[0], 0) + 1
            if told[o[0]] == 1 and len(told) <= 12:
                print("  undecided: %s at %s (%s)" % (o[0], o[2], o[3][:200]))
    if viol:
        print("VIOLATION property=%s replay=evidence/%s.json" % (prop, prop))
    sys.stdout.flush()
    os._exit(1 if viol else 0)


main()
