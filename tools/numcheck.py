"""C02: Numbers.tla against the tokenizer and against translated decks."""
import json, subprocess, random
from decimal import Decimal
from common import Check, Case, card
import common, layout, vega, aster
from vega import Study

def dec(x):
    """double -> the decimal it prints as: sign, digits without trailing zeros, exponent."""
    d = Decimal(repr(float(x)))
    if d == 0: return {"s": 1, "m": [], "e": 0}
    s, m, e = d.as_tuple(); m = list(m)
    while m[-1] == 0: m.pop(); e += 1
    return {"s": -1 if s else 1, "m": m, "e": e}
def texts(h):
    reals = ["".join(e["chars"]) for e in h if e["ev"] == "real"]
    toks = [{"thru": "THRU", "by": "BY"}.get(t["k"]) or str(t["v"]) for e in h if e["ev"] == "ints" for t in e["toks"]]
    return reals, toks
def lay(kw, fs, rng):
    long = any(len(f) > 8 for f in fs)
    return layout.write(kw, fs, rng, ("long", "free") if long else ("short", "long", "free", "mixed"))
def mkapi(name, h, rng):
    reals, toks = texts(h)
    txt = lay("REALS", reals, rng) + lay("INTS", toks, rng)
    nb = len(reals)
    def run(bins):
        p = subprocess.run([bins["h_numbers"]], input=txt, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        ls = [l.split() for l in p.stdout.split("\n") if l.strip()]
        if p.returncode or not ls or ls[-1] != ["END"]: return [{"ev": "obs", "o": "problem", "what": p.stdout[-300:] + p.stderr[-200:]}]
        v = [dec(x) for x in ls[0][1:]]
        # fields after the last written one are blank
        while len(v) > nb and v[-1]["m"] == []: v.pop()
        while len(v) < nb: v.append(dec(0))
        return [{"ev": "obs", "o": "reals", "list": v}, {"ev": "obs", "o": "ints", "list": [int(x) for x in ls[1][1:]]}]
    return Case(name, h, run, txt)
def mkdeck(name, h, rng):
    """reals as GRID coordinates (x = number of the node), the list on an SPC1 card."""
    reals, toks = texts(h)
    b = ""
    common.LAYOUT = lambda kw, fs: lay(kw, fs, rng)
    try:
        for i in range(80):
            y, z = (reals[2 * i] if 2 * i < len(reals) else ""), (reals[2 * i + 1] if 2 * i + 1 < len(reals) else "")
            b += card("GRID", i + 1, None, float(i + 1), y, z)
        # bars give every node six degrees of freedom
        for i in range(0, 80, 2): b += card("CBAR", i + 1, 1, i + 1, i + 2, 0., 1., .3)
        b += card("PBAR", 1, 1, 2., 3., 4., 5.) + card("MAT1", 1, 2.e5, None, .3)
        b += card("SPC1", 7, 123, *toks)
    finally: common.LAYOUT = None
    dk = "SOL 101\nCEND\nSPC = 7\nBEGIN BULK\n" + b + "ENDDATA\n"
    def run(bins):
        r = vega.translate(bins, dk, "ASTER", ())
        if r["rc"] or r["comm"] is None: return [{"ev": "obs", "o": "problem", "what": "translation failed %s %s" % (r["rc"], r["log"][-300:])}]
        st = Study(r["comm"], r["med"])
        if st.error: return [{"ev": "obs", "o": "problem", "what": st.error}]
        by = {round(n[0]): n for n in st.nodes}
        v = []
        for i in range((len(reals) + 1) // 2): v += [dec(by[i + 1][1]), dec(by[i + 1][2])]
        an = aster.analyses(st); C = aster.Charges(st, an[0][2])
        ids = {i: round(n[0]) for i, n in enumerate(st.nodes)}
        return [{"ev": "obs", "o": "reals", "list": v[:len(reals)]}, {"ev": "obs", "o": "ints", "list": sorted({ids[n] for n, q, x in C.spc})}]
    return Case(name, h, run, dk)
def corrupt(o):
    for x in o:
        if x.get("o") == "reals" and x["list"]: x["list"][-1]["e"] += 1; x["list"][-1]["m"] = x["list"][-1]["m"] or [1]; return o
    return None
def run(c):
    c.start_build(("vegapp", "meddump", "h_numbers"))
    c.mc("MC_Numbers", cfg="MC_Numbers_deep" if c.thorough else "MC_Numbers", must=("ReadChar", "ReadTok"))
    c.mc_bad("MC_Numbers", "MC_Numbers_bare")
    g = c.gen("G_Numbers", num=(2500, 30000)[c.thorough], depth=5)
    rng = random.Random(c.seed); cases = []
    for i, h in enumerate(g.result()):
        if any(len(e.get("chars", ())) > 15 for e in h): continue
        cases.append((mkdeck if i % 5 == 0 else mkapi)("n%05d" % i, h, rng))
    c.conformance("T_Numbers", cases, corrupt, shards=4)
    c.assumptions += ["reals have at most 10 significant digits and a decimal exponent below 110, so the nearest double prints as the spelled decimal",
                      "ranges are written upwards with a positive step"]
