"""C17: sessions of calls of the translator with stand-in solvers that record how they are started (spec/Runner.tla)."""
import os, re, sys, json, shutil, subprocess, tempfile, hashlib, stat
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vega
from common import Case
DECK = """SOL 101
CEND
SPC = 1
LOAD = 3
BEGIN BULK
GRID,1,,0.,0.,0.
GRID,2,,1.,0.,0.
GRID,3,,1.,1.,0.
CTRIA3,1,1,1,2,3
PSHELL,1,1,1.,1
MAT1,1,1.,,.3
SPC1,1,123456,1
FORCE,3,3,,1.,1.
%sENDDATA
"""
FAKE = r'''#!/usr/bin/python3 -S
import os, sys, hashlib, signal
log, how, n, res, nook, err = sys.argv[0] + ".log", %(how)r, %(n)d, %(res)r, %(nook)r, %(err)r
files = {f: hashlib.sha1(open(f, "rb").read()).hexdigest() for f in sorted(os.listdir(".")) if os.path.isfile(f)}
arg = sys.argv[-1]
with open(log, "a") as l: l.write(repr((os.path.basename(sys.argv[0]), os.getcwd(), sys.argv[1:], files, os.path.isfile(arg))) + "\n")
stem = os.path.splitext(os.path.basename(arg))[0]
if res: open(%(name)s, "w").write((" OK   DX 1\nNOOK  DY 2\n OK   DZ 3\n" if %(pat)d else " OK   DX 1\n     NOOK DY 2\n") if nook else " OK   DX 1\n OK   DY 2\n")
if res and %(target)r == "SYSTUS": open(stem.replace("_ALL", "") + "_1.TIT", "w").write("x\n")
print("ERROR 12" if err else "NO ERROR"); sys.stdout.flush()
if how == "signal":
    import resource; resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); signal.signal(n, signal.SIG_DFL) if n not in (9,) else None; os.kill(os.getpid(), n)
os._exit(n)
'''
RESULTS = {"ASTER": (".mess", ".resu", ".rmed"), "NASTRAN": (".f06", ".f04", ".log", ".DBALL", ".MASTER", ".IFPDAT"), "SYSTUS": (".TIT", ".fdb", ".RESU")}
ALL = sum(RESULTS.values(), ())
NAME = {"ASTER": 'stem + ".resu"', "NASTRAN": 'stem + ".f06"', "SYSTUS": 'stem.replace("_ALL", "") + "_1.RESU"'}
CLI = dict(rbe2="systus.RBE2TranslationMode", method="systus.DynamicMethod", analysis="systus.OptionAnalysis", product="systus.OutputProduct", matrix="systus.OutputMatrix",
           size="systus.SizeMatrix", dialect="nastran.OutputDialect", command="solver-command", version="solver-version")
SHOWN = dict(rbe2="Systus RBE2 Translation Mode", method="Systus Dynamic method", analysis="Systus OPTION analysis", product="Systus Output product", matrix="Systus Output Matrix",
             size="Systus Size Matrix", dialect="Nastran Output Dialect", version="Systus Version")
def tree(root, skip):
    out = {}
    for d, ds, fs in os.walk(root):
        if os.path.realpath(d) == skip: ds[:] = []; continue
        ds[:] = [x for x in ds if os.path.realpath(os.path.join(d, x)) != skip]
        for x in ds: out[os.path.join(d, x) + "/"] = ""
        for f in fs:
            p = os.path.join(d, f); out[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out
def call(bins, c, W):
    work, home, bin_ = (os.path.join(W, x) for x in ("work", "home", "bin"))
    deck = os.path.join(work, c["name"] + ".nas")
    if c["deck"] == "missing":
        if os.path.exists(deck): os.remove(deck)
    else: open(deck, "w").write(DECK % ("" if c["deck"] == "good" else "XYZZY,1,2\n"))
    out = c["out"]
    if out == "/abs": out = os.path.join(W, "abs dir", "o")
    if c["dir"] == "refused": open(os.path.join(work, "plain"), "w").write("a file"); out = "plain/out"
    there = os.path.realpath(os.path.join(work, out))
    stem = {"ASTER": c["name"], "NASTRAN": c["name"] + "_vg", "SYSTUS": c["name"]}[c["target"]]
    if c["left"] and os.path.isdir(there):   # results of an earlier run
        for n in {"ASTER": [stem + ".resu", stem + ".mess"], "NASTRAN": [stem + ".f06"], "SYSTUS": [stem + "_1.RESU", stem + "_1.TIT"]}[c["target"]]:
            open(os.path.join(there, n), "w").write("NOOK\n" if c["left"][0] == "nook" else "OK\n")
    for f in os.listdir(bin_): os.remove(os.path.join(bin_, f))
    s = c["solver"]
    if s["found"]:
        for p in ("as_run", "mysolver", "other", "nastran", "systus"):
            f = os.path.join(bin_, p); open(f, "w").write(FAKE % dict(s, pat=len(c["opts"]["size"]["cfg"] + c["opts"]["rbe2"]["cmd"] + c["out"]) % 2, name=NAME[c["target"]], target=c["target"])); os.chmod(f, 0o755)
    cfg = "".join("%s = %s\n" % (CLI[n], v["cfg"]) for n, v in sorted(c["opts"].items()) if v["cfg"])
    args = [bins["vegapp"], os.path.join("..", "work", c["name"] + ".nas") if c["out"] == "new/er" else c["name"] + ".nas", "NASTRAN", c["target"], "-l", "-o", out]
    hc = os.path.join(home, "vegamain.cfg"); wc = os.path.join(home, "mine.cfg")
    for f in (hc, wc):
        if os.path.exists(f): os.remove(f)
    open(hc if c["home"] else wc, "w").write(cfg)
    if not c["home"]: args += ["-c", wc]
    for n, v in sorted(c["opts"].items()):
        if v["cmd"]: args.append("--%s=%s" % (CLI[n], v["cmd"]))
    if c["run"]: args.append("-R")
    if c["strict"]: args.append("-s")
    if c["test"] == "missing": args += ["-t", "nothing.f06"]
    before = tree(W, there)
    env = {"HOME": home, "PATH": bin_, "LC_ALL": "C"}
    r = subprocess.run(args, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, stdin=subprocess.DEVNULL)
    log = r.stdout.decode("latin1")
    starts = []
    for f in sorted(os.listdir(bin_)):
        if f.endswith(".log"): starts += [eval(x) for x in open(os.path.join(bin_, f))]
    after = tree(W, there)
    # directories above the output directory are made with it
    bad = sorted(os.path.relpath(p, W) for p in set(before) | set(after) if before.get(p) != after.get(p) and not p.startswith(bin_) and not (p.endswith("/") and (there + "/").startswith(p)))
    own = {}
    if os.path.isdir(there):
        for f in os.listdir(there):
            p = os.path.join(there, f)
            if os.path.isfile(p): own[f] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    main = {"ASTER": c["name"] + ".export", "NASTRAN": stem + ".nas", "SYSTUS": c["name"] + "_SC1.DAT"}[c["target"]]
    def made(f): return f.startswith(c["name"]) and not f.endswith((".stdout", ".stderr") + ALL)
    def mine(f): return f.startswith(stem) and f.endswith(RESULTS[c["target"]])
    st = [{"prog": p, "there": cwd == there, "input": ok, "missing": sorted(f for f in own if made(f) and files.get(f) != own[f]),
           "stale": sorted(f for f in files if mine(f))} for p, cwd, a, files, ok in starts]
    shown = dict(re.findall(r"^\t (.*?): (.*?)\s*$", log, re.M))
    opts = {n: shown[t] for n, t in SHOWN.items() if t in shown}
    return {"ev": "obs", "o": "end", "code": r.returncode, "starts": st, "outside": bad, "output": main in own and own[main] != hashlib.sha1(b"").hexdigest(), "opts": opts, "log": log[-300:]}
def observe(bins, h):
    W = os.path.realpath(tempfile.mkdtemp(prefix="vega-run-"))
    try:
        for d in ("work", "home", "bin"): os.mkdir(os.path.join(W, d))
        o = []
        for c in h: o += [c, call(bins, c, W)]
        return o
    finally: shutil.rmtree(W)
def mk(name, h):
    return Case(name, [], lambda bins: observe(bins, h), json.dumps(h), " ".join(sorted({"%s %s" % (c["target"], c["deck"]) for c in h})))
def corrupt(o):
    for x in o:
        if x.get("o") == "end": x["code"] += 1; return o
def run(c):
    c.start_build()
    g = c.gen("G_Runner", num=(500, 6000)[c.thorough], depth=40, timeout=400)
    c.mc("MC_Runner", cfg="MC_Runner_deep" if c.thorough else "MC_Runner", must=("Ask", "Options", "Files", "Translate", "Clean", "Solve", "Report", "Exit"), workers=4)
    for v in ("override", "eager", "stale", "mask"): c.mc_bad("MC_Runner", "MC_Runner_" + v)
    c.conformance("T_Runner", [mk("r%05d" % i, h) for i, h in enumerate(g.result())], corrupt, shards=6)
    c.assumptions += ["solvers are stand-ins on the PATH that record how they are started", "the shell reports a command ended by a signal with the status 128 + signal"]
