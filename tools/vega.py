"""Running vegapp on generated decks and reading back what it wrote.

Nothing here judges anything: it turns the output files into plain data
(an 'observation') that the TLA+ specifications then accept or reject.
"""
import os, re, json, subprocess, tempfile, shutil, math, concurrent.futures as cf
from fractions import Fraction
import vbuild

class Concept:
    def __init__(self, cmd, kw): self.cmd = cmd; self.kw = kw; self.name = None; self.mark = None
    def __repr__(self): return "<%s %s>" % (self.cmd, self.name)
    def LIST_VARI_ACCES(self): return {"FREQ": Part(self, "FREQ")}
    def EXTR_TABLE(self): return _Table(self)

def _tup(x):
    if x is None: return []
    if isinstance(x, (list, tuple)): return list(x)
    return [x]

class Part(float):
    """what python code in the command file takes out of a concept"""
    def __new__(cls, of, what): x = float.__new__(cls, 0.); x.of = of; x.what = what; return x
class _Table:
    def __init__(self, of): self.of = of
    def values(self): return {"TOUTRESU": Part(self.of, "TOUTRESU")}
class _Name:
    """A name nothing was given to: a command of Code_Aster, or a concept that is not there."""
    def __init__(self, ns, k): self.ns = ns; self.k = k
    def __call__(self, *a, **kw):
        c = Concept(self.k, kw); c.mark = dict(self.ns.pending)
        if self.k == "CO": c.name = a[0]; self.ns[a[0]] = c; return c
        self.ns.uses(kw, self.k)
        self.ns.log.append(c); return c
    def LIST_VARI_ACCES(self): self.ns.undefined.append(self.k); return {"FREQ": None}
class _NS(dict):
    def __init__(self): super().__init__(); self.log = []; self.pending = {}; self.undefined = []; self.gone = []; self.dead = set()
    def __missing__(self, k):
        if k == "_F": return lambda **kw: kw
        if k == "__builtins__": raise KeyError(k)
        return _Name(self, k)
    def uses(self, x, cmd):
        """names without a concept and concepts already destroyed among the arguments of a command"""
        if isinstance(x, dict):
            for v in x.values(): self.uses(v, cmd)
        elif isinstance(x, (list, tuple)):
            for v in x: self.uses(v, cmd)
        elif isinstance(x, _Name): self.undefined.append(x.k)
        elif isinstance(x, Concept):
            if id(x) in self.dead: self.gone.append(x.name)
            if cmd == "DETRUIRE": self.dead.add(id(x))
    def __setitem__(self, k, v):
        if isinstance(v, Concept) and v.name is None: v.name = k
        super().__setitem__(k, v)

class Study:
    """A Code_Aster study: command file executed with recording stubs plus the MED mesh."""
    def __init__(self, comm, med):
        self.error = None; self.nodes = []; self.cells = {}; self.groups = {}; self.nodegroups = {}
        self.concepts = []
        self.text = comm
        src = []
        for line in comm.split("\n"):
            m = re.match(r"\s*# Analysis original id : (-?\d+)", line)
            if m: line = "_MARK('analysis',%s)" % m.group(1)
            m = re.match(r"\s*# Material original id (-?\d+)", line)
            if m: line = "_MARK('material',%s)" % m.group(1)
            src.append(line)
        ns = _NS()
        dict.__setitem__(ns, "_MARK", lambda k, v: ns.pending.__setitem__(k, v))
        dict.__setitem__(ns, "__builtins__", {})
        try:
            exec(compile("\n".join(src), "comm", "exec"), ns)
        except SyntaxError as e:
            self.error = "comm: %s line %s: %s" % (e.msg, e.lineno, (e.text or "").strip()[:120])
        except Exception as e:
            self.error = "comm: %s" % e
        self.concepts = ns.log; self.undefined = ns.undefined; self.gone = ns.gone
        self.med = med
        if med is None or "error" in med:
            self.error = self.error or "med: %s" % med
            return
        self.nodes = [tuple(n[:3]) for n in med["nodes"]]
        fams = {int(k): v for k, v in med["families"].items()}
        for i, n in enumerate(med["nodes"]):
            for g in fams.get(n[3], []): self.nodegroups.setdefault(g, set()).add(i)
        for t, num, fam, con in med["cells"]:
            self.cells[num] = (t, tuple(c - 1 for c in con))
            for g in fams.get(fam, []): self.groups.setdefault(g, set()).add(num)

    def of(self, *cmds): return [c for c in self.concepts if c.cmd in cmds]
    def nodepos(self, kw):
        """0-based node positions of an occurrence with NOEUD / GROUP_NO (list keeps order for NOEUD)."""
        r = [int(x[1:]) - 1 for x in _tup(kw.get("NOEUD"))]
        for g in _tup(kw.get("GROUP_NO")):
            if g not in self.nodegroups: raise ValueError("missing node group " + g)
            r += sorted(self.nodegroups[g])
        return r
    def cellnums(self, kw):
        if kw.get("TOUT") == "OUI": return sorted(self.cells)
        r = []
        for x in _tup(kw.get("MAILLE")): r.append(int(x[1:]))
        for g in _tup(kw.get("GROUP_MA")):
            if g not in self.groups: raise ValueError("missing cell group " + g)
            r += sorted(self.groups[g])
        return r

def run(cmd, cwd, timeout=60, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", env=env, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def translate(bins, deck, target="ASTER", opts=(), name="deck", extra=None, keep=None):
    """Translates one deck; returns dict(rc, log, files...)"""
    d = tempfile.mkdtemp(prefix="vega_")
    try:
        with open(os.path.join(d, name + ".nas"), "w") as f: f.write(deck)
        for fn, s in (extra or {}).items():
            with open(os.path.join(d, fn), "w") as f: f.write(s)
        out = os.path.join(d, "out")
        rc, log = run([bins["vegapp"], name + ".nas", "NASTRAN", target, "-o", out] + list(opts), d)
        r = {"rc": rc, "log": log, "dir": sorted(os.listdir(out)) if os.path.isdir(out) else []}
        def rdf(p):
            try:
                with open(p, errors="replace") as f: return f.read()
            except OSError: return None
        if target == "ASTER":
            r["comm"] = rdf(os.path.join(out, name + ".comm"))
            med = os.path.join(out, name + ".med")
            if os.path.exists(med):
                rc2, o = run([bins["meddump"], med], d)
                try: r["med"] = json.loads(o.strip().split("\n")[-1])
                except Exception: r["med"] = {"error": "dump"}
            else: r["med"] = None
        elif target == "SYSTUS":
            r["files"] = {fn: rdf(os.path.join(out, fn)) for fn in r["dir"]}
        else:
            r["files"] = {fn: rdf(os.path.join(out, fn)) for fn in r["dir"]}
            r["nas"] = rdf(os.path.join(out, name + "_vg.nas"))
        if keep: shutil.copytree(d, keep, dirs_exist_ok=True)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

def pmap(f, xs, n=8):
    with cf.ThreadPoolExecutor(n) as ex: return list(ex.map(f, xs))

NOTINT = 999999001   # marks a value that is not representable on the integer grid of the spec
def toint(x, scale=1):
    """Real number -> integer multiple of 1/scale, or NOTINT (never accepted by a spec)."""
    try: v = float(x) * scale
    except Exception: return NOTINT
    if not math.isfinite(v) or abs(v) > 1e9: return NOTINT
    r = round(v)
    return r if abs(v - r) <= 1e-6 * max(1.0, abs(v)) else NOTINT
