"""C10: Faults.tla: decks with faulty cards, translated in every mode; Cli.tla: outcomes of the command line."""
import json, os, shutil, tempfile
from common import Case, card
import common, deck, vega

def fault(e):
    f = list(e["f"])
    while len(f) > 1 and f[-1] == "": f.pop()
    ls = []
    for i in range(0, len(f), 8):
        c = f[i:i + 8]
        if e["lay"] == "free": ls.append((e["kw"] if i == 0 else "") + "," + ",".join(c))
        else: ls.append(((e["kw"] if i == 0 else "").ljust(8) + "".join(x.ljust(8) for x in c)).rstrip() if any(c) else (e["kw"] if i == 0 else "+"))
    return "\n".join(ls) + "\n"
_cardtext = deck.cardtext
def cardtext(e):
    if e["k"] == "FAULT": return fault(e)
    s = _cardtext(e)
    if e.get("excess"): assert len(s) < 66; s = s.rstrip("\n").ljust(64) + "99\n"
    return s
deck.cardtext = cardtext
MODE = {"best": ("--best-effort",), "mesh": ("--mesh-at-least",), "strict": ("--strict",), "default": ()}
WANT = ("ids", "mesh", "spc", "loads", "rel", "rbe3")
def observe(bins, ev, dk, mode):
    o = []
    r = vega.translate(bins, dk, "ASTER", MODE[mode])
    wr = r["comm"] is not None and r["med"] is not None
    o.append({"ev": "obs", "o": "code", "rc": r["rc"] if r["rc"] is not None else -1, "written": wr})
    if wr: o += deck.observe(bins, ev, dk, WANT, MODE[mode])
    return o
def mk(name, x):
    h = x["hist"]; dk = deck.render(h)
    sig = x["mode"] + " " + " ".join("%s:%s:%s" % (e["kw"], e["kind"], "/".join(e["f"])) if e["k"] == "FAULT" else "excess:" + e["k"] for e in h if e["k"] == "FAULT" or e.get("excess"))
    return Case(name, h, lambda bins: observe(bins, h, dk, x["mode"]), dk, sig, head={"mode": x["mode"]})
def corrupt(o):
    for x in o:
        if x.get("o") == "code": x["rc"] = 6 - x["rc"] if x["rc"] in (0, 6) else 0; return o
FOCI = ("cases", "spc", "loads", "rel")

GOOD = "SOL 101\nCEND\nSPC = 1\nLOAD = 2\nBEGIN BULK\n" + "".join(card("GRID", i, "", float(i == 2), float(i == 3), 0.) for i in (1, 2, 3)) + \
    card("CTRIA3", 1, 1, 1, 2, 3) + card("PSHELL", 1, 1, 1., 1) + card("MAT1", 1, 1., "", .3, 1.) + card("SPC1", 1, 123456, 1) + card("FORCE", 2, 3, "", 1., "", "", 2.) + "ENDDATA\n"
BADCARD = card("MAT1", 2, 1., "", "x1")
VALUE = {"nastran.OutputDialect": ("modern", "zz"), "systus.DynamicMethod": ("direct", "Direct"), "systus.RBE2TranslationMode": ("lagrangian", "none"),
         "systus.OptionAnalysis": ("3D", "2D"), "systus.OutputProduct": ("topaze", "aster"), "systus.OutputMatrix": ("file", "tables"),
         "systus.Subcase": ("1,2", "1,a"), "systus.SizeMatrix": ("4", "1"), "tolerance": ("0.5",), "verbosity": ("WARN",)}
def ask(bins, q):
    d = tempfile.mkdtemp(prefix="vega_")
    try:
        deck_ = GOOD.replace("ENDDATA", BADCARD + "ENDDATA") if q["input"] == "faulty" else GOOD
        if q["input"] != "missing":
            with open(d + "/a.nas", "w") as f: f.write(deck_)
        with open(d + "/plain", "w") as f: f.write("x\n")
        os.mkdir(d + "/there")
        out = {"there": "there", "new": "fresh", "newslash": "fresh/", "deep": "fresh/er/est", "uncreatable": "plain/out"}[q["out"]]
        a = []
        if q["input"] != "none":
            a.append("a.nas")
            if q["from"]:
                a.append(q["from"])
                if q["to"]: a.append(q["to"])
        a += ["-o", out] + ["-" + m for m in q["modes"]]
        x = q["extra"]
        if ":" in x:
            k, o = x.split(":"); a.append("--%s=%s" % (o, VALUE[o][k == "bad"]))
        else: a += {"": [], "unknown": ["--bogus"], "badvalue": ["-x", "abc"], "toomany": ["more"], "testmissing": ["-t", "no.csv"], "help": ["-h"], "version": ["--version"], "config": ["-c", "no.cfg"]}[x]
        before = set(os.listdir(d))
        rc, log = vega.run([bins["vegapp"]] + a, d)
        files = [f for p, _, fs in os.walk(d) for f in fs if f not in ("a.nas", "plain")]
        return [{"ev": "obs", "o": "outcome", "rc": rc, "written": bool(files)}]
    finally: shutil.rmtree(d, ignore_errors=True)
def mkask(name, q):
    return Case(name, [dict(q, ev="ask")], lambda bins: ask(bins, q), json.dumps(q), " ".join(str(q[k]) for k in ("input", "modes", "extra", "out", "from", "to")))
def corruptask(o):
    for x in o:
        if x["o"] == "outcome": x["rc"] = 1 if x["rc"] == 0 else 0; return o

def run(c):
    c.start_build()
    c.mc("MC_Faults", cfg="MC_Faults_deep" if c.thorough else "MC_Faults", must=("ReadCard", "CheckLine", "Apply", "Error", "End"))
    c.mc_bad("MC_Faults", "MC_Faults_early"); c.mc_bad("MC_Faults", "MC_Faults_eat")
    c.mc("MC_Cli", must=("Inform", "Look", "Stop", "Write", "Leave")); c.mc_bad("MC_Cli", "MC_Cli_late")
    gs = [c.gen("G_Faults", cfg="G_Faults_" + f, num=3000 if c.thorough else 300, depth=250, timeout=400) for f in FOCI]
    gc = c.gen("G_Cli", num=6000 if c.thorough else 800, depth=5)
    cases = [mk("%s%04d" % (f, i), h) for f, g in zip(FOCI, gs) for i, h in enumerate(g.result())]
    c.conformance("T_Faults", cases, corrupt, shards=6)
    seen = {}
    for q in gc.result(): seen.setdefault(json.dumps(q, sort_keys=True), q)
    c.conformance("T_Cli", [mkask("ask%04d" % i, q) for i, q in enumerate(seen.values())], corruptask)
