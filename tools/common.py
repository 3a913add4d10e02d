"""Skeleton shared by all checks: generate with the specification, run the code, validate the
recorded traces against the specification, confirm rejections, report."""
import os, sys, json, time, random, tempfile, shutil, traceback, threading, re
import concurrent.futures as cf
import vbuild, vega, tlc
VERIF = vbuild.VERIF

class Case:
    """One behaviour: 'events' (spec actions: what was fed to the code) and observe(bins) -> obs events."""
    def __init__(self, name, events, run, deck=None, sig="", head=None):
        self.name = name; self.events = events; self.run = run; self.deck = deck; self.sig = sig; self.obs = None; self.raw = None; self.head = head or {}

def fmt(x):
    """Nastran spelling of an abstract value: int stays int, ('r', num, scale) / float becomes a real."""
    if x is None: return ""
    if isinstance(x, bool): raise ValueError
    if isinstance(x, int): return str(x)
    if isinstance(x, float):
        if x == int(x) and abs(x) < 1e6: return "%d." % int(x)
        for p in range(7, 0, -1):
            s = "%.*g" % (p, x)
            if "e" in s:
                m, e = s.split("e"); s = (m if "." in m else m + ".") + "%+d" % int(e)
            elif "." not in s: s += "."
            if s.startswith("0.") and len(s) > 8: s = s[1:]
            if s.startswith("-0.") and len(s) > 8: s = "-" + s[2:]
            if len(s) <= 8: return s
        return s
    return str(x)

LAYOUT = None     # set while a deck is written in other layouts (tools/layout.py)
def card(kw, *fields):
    """Short fixed format with blank continuations."""
    fs = [fmt(f) for f in fields]
    while fs and fs[-1] == "": fs.pop()
    if LAYOUT: return LAYOUT(kw, fs)
    lines = []; first = True
    while True:
        chunk, fs = fs[:8], fs[8:]
        for c in chunk: assert len(c) <= 8, c
        lines.append((("%-8s" % kw) if first else " " * 8) + "".join("%-8s" % c for c in chunk)); first = False
        if not fs: break
    return "\n".join(l.rstrip() for l in lines) + "\n"

class Check:
    def __init__(self, pid, argv=None):
        self.pid = pid
        a = (argv if argv is not None else sys.argv[1:])
        self.tier = "thorough" if "thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.t0 = time.time(); self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": 0}
        self.models = []; self.notes = []; self.bins = None; self.assumptions = []
        self.bg = cf.ThreadPoolExecutor(6); self.futs = []
    # -- concurrent pieces
    def start_build(self, want=("vegapp", "meddump")):
        def f():
            self.bins = vbuild.build(want)
            self.notes.append("build %.0fs" % (time.time() - self.t0))
        self.fbuild = self.bg.submit(f)
    def wait_build(self):
        self.fbuild.result(); return self.bins
    def mc(self, module, cfg=None, must=(), **kw):
        """Exhaustive exploration of a specification; every action in 'must' has to be exercised."""
        def f():
            r = tlc.check(module, cfg=cfg, **dict(dict(workers=2, args=("-coverage", "1")), **kw))
            for a in must:
                if r["actions"].get(a, (0, 0))[1] == 0: raise tlc.TLCError("vacuous: action %s of %s never taken" % (a, module))
            self.cov["states"] += r.get("distinct", 0); self.cov["transitions"] += r.get("states", 0)
            self.models.append({"model": cfg or module, "distinct": r.get("distinct"), "generated": r.get("states"), "depth": r["depth"], "actions": {k: v[1] for k, v in r["actions"].items()}})
            return r
        fu = self.bg.submit(f); self.futs.append(fu); return fu
    def mc_bad(self, module, cfg, **kw):
        """A deliberately wrong variant of the specification: the invariants have to catch it."""
        def f():
            r = tlc.run(module, cfg=cfg, **dict(dict(workers=2), **kw))
            if not re.search(r"Invariant \w+ is violated|Evaluating invariant \w+ failed|Action property \w+ is violated|Temporal properties were violated", r["out"]):
                raise tlc.TLCError("the wrong variant %s was not rejected\n%s" % (cfg, r["out"][-2000:]))
            self.models.append({"model": cfg + " (wrong variant, rejected as it has to be)", "generated": r.get("states")})
        fu = self.bg.submit(f); self.futs.append(fu); return fu
    def gen(self, module, cfg=None, num=100, depth=40, **kw):
        """Random behaviours of the specification (TLC simulation); returns the JSON lines it printed."""
        def f():
            r = tlc.run(module, cfg=cfg, args=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)), **kw)
            # a behaviour whose numbers leave TLC's integers ends the simulation: go on with another seed
            for again in range(1, 9):
                if "Overflow when computing" not in r["out"] or len(r["at"]) >= num: break
                q = tlc.run(module, cfg=cfg, args=("-simulate", "num=%d" % (num - len(r["at"])), "-depth", str(depth), "-seed", str(self.seed + 1000 * again)), **kw)
                r = dict(q, at=r["at"] + q["at"], states=(r.get("states") or 0) + (q.get("states") or 0))
            if not r["at"] or (re.search(r"^Error:", r["out"], re.M) and "Overflow when computing" not in r["out"]):
                raise tlc.TLCError("generation failed on %s\n%s" % (module, r["out"][-3000:]))
            self.models.append({"model": (cfg or module) + " (simulation)", "behaviours": len(r["at"]), "generated": r.get("states")})
            self.cov["transitions"] += r.get("states", 0) or 0
            return r["at"]
        fu = self.bg.submit(f); self.futs.append(fu); return fu
    # -- conformance
    def observe(self, cases, n=8):
        def one(c):
            try: c.obs = c.run(self.bins)
            except Exception as x: c.obs = [{"ev": "obs", "o": "problem", "what": "unreadable output: %s %s" % (type(x).__name__, traceback.format_exc()[-300:])}]
            return c
        vega.pmap(one, cases, n)
    def write_trace(self, cases, path):
        n = 0
        with open(path, "w") as f:
            for i, c in enumerate(cases):
                for e in [dict(c.head, ev="case", name=c.name)] + c.events + c.obs:
                    f.write(json.dumps(e) + "\n"); n += 1
        return n
    def validate(self, module, cases, cfg=None, timeout=800, shards=1):
        """Trace validation. Returns {case name: [reject dict]}."""
        if shards > 1 and len(cases) > shards:
            parts = [cases[i::shards] for i in range(shards)]
            with cf.ThreadPoolExecutor(shards) as ex:
                rs = list(ex.map(lambda p: self.validate(module, p, cfg, timeout), parts))
            out = {}
            for r in rs: out.update(r)
            return out
        d = tempfile.mkdtemp(prefix="trace_")
        try:
            p = os.path.join(d, "t.ndjson"); n = self.write_trace(cases, p)
            try: r = tlc.check(module, cfg=cfg, env={"TRACE": p}, workers=1, timeout=timeout)
            except tlc.TLCError as x:
                # a value no operator of the specification is defined on (overflow, wrong type): find the case
                if not re.search(r"Overflow|overflow|Attempted to|attempted to|error occurred when TLC was evaluating", str(x)): raise
                if len(cases) == 1:
                    if cases[0].run is None: return {cases[0].name: [{"case": cases[0].name, "field": "undefined"}]}
                    self.undefined = getattr(self, "undefined", 0) + 1
                    if self.undefined > 40: raise
                    return {cases[0].name: [{"case": cases[0].name, "field": "undefined", "expected": "values the specification is defined on: " + str(x)[-1500:]}]}
                h = len(cases) // 2
                a = self.validate(module, cases[:h], cfg, timeout); a.update(self.validate(module, cases[h:], cfg, timeout))
                return a
            self.cov["transitions"] += n
            self.cov["states"] += r.get("distinct") or 0
            rej = {}
            for x in r["at"]: rej.setdefault(x["case"], []).append(x)
            return rej
        finally: shutil.rmtree(d, ignore_errors=True)
    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p): return []
        return [k for k in json.load(open(p))["findings"] if k["property"] == self.pid]
    def conformance(self, module, cases, corrupt=None, cfg=None, shards=4, workers=8):
        """Run the cases, validate, confirm, and demonstrate that the binding is not vacuous.
        corrupt(obs events) -> modified obs events or None."""
        self.wait_build()
        names = [c.name for c in cases]; assert len(set(names)) == len(names), "duplicate case names"
        t = time.time()
        self.observe(cases, workers)
        self.notes.append("observe %d cases %.0fs" % (len(cases), time.time() - t)); t = time.time()
        muts = []
        if corrupt:
            pick = self.rng.sample(cases, len(cases))
            for c in pick:
                if len(muts) >= 12: break
                o = corrupt(json.loads(json.dumps(c.obs)))
                if o is not None and o != c.obs:
                    m = Case("mut:" + c.name, c.events, None, head=c.head); m.obs = o; muts.append(m)
        rej = self.validate(module, cases + muts, cfg, shards=shards)
        self.notes.append("validate %.0fs" % (time.time() - t))
        bad = [c for c in cases if c.name in rej]
        self.cov["traces_validated_against_impl"] += len(cases)
        self.cov["samples"] += len(cases)
        self.cov["corrupted_traces_rejected"] = self.cov.get("corrupted_traces_rejected", 0) + sum(1 for m in muts if m.name in rej)
        missed = [m.name for m in muts if m.name not in rej and m.name[4:] not in rej]
        if corrupt and not bad and (missed or not muts):
            raise tlc.TLCError("binding is vacuous: corrupted traces accepted: %s" % missed[:3])
        viol = []
        if bad:
            # a rejection counts only if a fresh run of the code is rejected again
            self.observe(bad, workers)
            rej2 = self.validate(module, bad, cfg, shards=1)
            for c in bad:
                if c.name in rej2: viol.append((c, rej2[c.name]))
                else: self.notes.append("unstable rejection ignored: " + c.name)
        self.viol = getattr(self, "viol", []) + viol
        return viol
    # -- reporting
    def finish(self, level="model_checking"):
        for f in self.futs: f.result()
        known = self.known(); hits = {}
        new = []
        for c, rs in getattr(self, "viol", []):
            left = []
            for r in rs:
                k = next((k for k in known if matches(k, c, r)), None)
                if k: hits.setdefault(k["id"], k)
                else: left.append(r)
            if left: new.append((c, left))
        for k in hits.values(): print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        self.cov["models"] = self.models
        self.cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        rc = 0
        if new:
            rd = os.path.join(VERIF, "build", "replays"); os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, "%s_%s.txt" % (self.pid, self.tier))
            with open(p, "w") as f:
                for c, rs in new[:20]:
                    f.write("==== case %s\n" % c.name)
                    if c.deck: f.write("---- input\n%s\n" % c.deck)
                    f.write("---- rejected by the specification\n%s\n" % "\n".join(json.dumps(r) for r in rs[:10]))
                    f.write("---- observation\n%s\n" % "\n".join(json.dumps(o)[:3000] for o in c.obs))
            for c, rs in new[:5]: print("  rejected: %s %s" % (c.name, json.dumps(rs[0])[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p)); rc = 1
        print("%s %s: %s in %.0fs (%d traces, %d states) %s" % (self.pid, self.tier, "violated" if rc else "ok", time.time() - self.t0, self.cov["traces_validated_against_impl"], self.cov["states"], "; ".join(self.notes)))
        sys.stdout.flush()
        os._exit(rc)

def matches(k, c, r):
    """A known finding names a field of the observation and a pattern on the case signature."""
    return (("field" not in k) or k["field"] == r.get("field")) and re.search(k["case"], c.sig or c.name) is not None

def main(f, pid):
    try: f(Check(pid))
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.stdout.flush(); sys.stderr.flush()
        os._exit(2)
