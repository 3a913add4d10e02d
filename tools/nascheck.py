"""C15: the deck that the translation to Nastran writes, read again, denotes the model of the deck it was made from."""
import json
from common import Case
import deck, deckcheck, framecheck, meshio, numcheck, propcheck, vega

DIALECTS = ("cosmic95", "modern")
def back(bins, dk, dia):
    """The deck written for dk, or what went wrong."""
    r = vega.translate(bins, dk, "NASTRAN", ["--nastran.OutputDialect", dia])
    d2 = r.get("nas")
    if r["rc"] != 0 or not d2: return None, [{"ev": "obs", "o": "problem", "what": "no deck rc=%s %s" % (r["rc"], r["log"][-300:])}]
    return d2, None
def norot(h):
    """Angular velocities are not written (no claim about them)."""
    r = []
    for e in h:
        if e.get("k") == "RFORCE": continue
        r.append(dict(e, load=11) if e.get("k") in ("GLOB", "SUB") and e["load"] == 14 else e)
    return r
def one_case(h, o):
    """A deck without subcases comes back with a subcase 1."""
    if not any(e["k"] == "SUB" for e in h):
        for x in o:
            if x.get("o") == "ids" and x["list"] == [1]: x["list"] = [-1]
    return o
def mkdeck(name, h, focus, dia):
    h = norot(h); dk = deck.render(h)
    def run(bins):
        d2, bad = back(bins, dk, dia)
        return bad or one_case(h, deck.observe(bins, h, d2, deckcheck.WANT[focus] + ("ids",) * (focus != "cases")))
    return Case(name, h, run, dk, deckcheck.sigof(h))
SOLID = ("CTETRA", "CPYRAM", "CPENTA", "CHEXA")
def solids(h): return any(e["k"] == "EL" and e["t"] in SOLID for e in h)
def supported(h, dia):
    """The properties that have a card in the output: the others are taken out, with their elements."""
    out = []; gone = set()
    for e in h:
        k = e["k"]
        if k in ("PBARL", "PBEAML", "PCOMP") or k in ("PROD", "PBAR", "PBEAM", "PSHELL") and e.get("nsm"): gone.add(e["pid"])
        if k == ("PBAR", "PBEAM")[dia == "cosmic95"]: gone.add(e["pid"])   # another beam model
        if k == "PBAR" and (e["k1"] or e["k2"]): gone.add(e["pid"])
        if k == "PSHELL" and any(m["k"] == "MAT8" and m["mid"] == e["mid"] for m in h): gone.add(e["pid"])
    for e in h:
        k = e["k"]
        if k == "WTMASS" or k == "MAT8" or k.startswith("P") and e["pid"] in gone: continue
        if k == "EL" and (e.get("pid") in gone or e["t"] == "CONROD" and e["nsm"]): continue
        if k == "MAT1" and e["g"]: e = dict(e, g=[], e=e["e"] or [2500, 1], nu=e["nu"] or [1, 4])   # the third one is derived, with rounding
        out.append(e)
    return out
def conrods(h, d2, o):
    """The property made for a CONROD has a free number: named by the elements that use it."""
    own = {e["pid"] or e["id"] for e in h if e["k"] == "EL" and e["t"] != "CONROD"}; by = {}
    for l in d2.split("\n"):
        if l.startswith("CROD "): by.setdefault(int(l[16:24]), []).append(int(l[8:16]))
    for x in o:
        if x.get("o") == "cells":
            for c in x["list"]: c["grp"] = ["CONROD_%s" % "_".join(map(str, by.get(int(g[5:]), []))) if g.startswith("PROP_") and int(g[5:]) not in own else g for g in c["grp"]]
    return o
def mkmesh(name, h, dia):
    if solids(h): dia = "modern"
    dk = meshio.render(h)
    def run(bins):
        d2, bad = back(bins, dk, dia)
        return bad or conrods(h, d2, meshio.observe(bins, d2))
    return Case(name, h, run, dk, " ".join(sorted({e.get("t", e["k"]) if e["k"] == "EL" else e["k"] for e in h})))
def mkprops(name, h, dia):
    if solids(h): dia = "modern"
    h = supported(h, dia)
    dk = propcheck.render(h); at = {tuple(e["x"]): e["id"] for e in h if e["k"] == "GRID"}
    def run(bins):
        d2, bad = back(bins, dk, dia)
        return bad or propcheck.observe(bins, d2, at)
    return Case(name, h, run, dk, " ".join(sorted({e.get("t", "") if e["k"] == "EL" else e["k"] for e in h})))
def mkframe(name, h, dia):
    dk = framecheck.render(h)
    def run(bins):
        d2, bad = back(bins, dk, dia)
        return bad or framecheck.observe(bins, d2)
    return Case(name, h, run, dk, " ".join(sorted({e["k"] for e in h})))
def spelled(e):
    """The number of a generated value, with its digits."""
    return "%s%d.%sE%d" % ("-" if e["s"] < 0 else "", e["m"][0], "".join(map(str, e["m"][1:])), e["e"] + len(e["m"]) - 1)
def mkfield(name, h, dia):
    """Values as coordinates (x = number of the grid point)."""
    b = "".join("GRID,%d,,%d.,%s,%s\n" % (i + 1, i + 1, spelled(h[2 * i]), spelled(h[2 * i + 1])) for i in range(len(h) // 2))
    b += "".join("CBAR,%d,1,%d,%d,0.,1.,.3\n" % (i, i, i + 1) for i in range(1, len(h) // 2))
    dk = "SOL 101\nCEND\nSPC = 7\nBEGIN BULK\n" + b + "PBAR,1,1,2.,3.,3.,5.\nMAT1,1,2.5+5,,.25\nSPC1,7,123456,1\nENDDATA\n"
    def run(bins):
        d2, bad = back(bins, dk, dia)
        if bad: return bad
        r = vega.translate(bins, d2, "ASTER", ())
        if r["rc"] or r["comm"] is None: return [{"ev": "obs", "o": "problem", "what": "not read again %s %s" % (r["rc"], r["log"][-300:])}]
        by = {round(n[0]): n for n in vega.Study(r["comm"], r["med"]).nodes}
        return [{"ev": "obs", "o": "reals", "list": [numcheck.dec(v) for i in range(len(h) // 2) if i + 1 in by for v in by[i + 1][1:3]]}]
    return Case(name, h, run, dk, "digits")
def corrupt_field(o):
    for x in o:
        if x.get("o") == "reals":
            v = x["list"][3]; v["m"] = [v["m"][0] % 9 + 1] + v["m"][1:]; return o
NUM = {"spc": (300, 2500), "rel": (400, 3000), "cases": (250, 2500), "loads": (500, 4000)}
def run(c):
    propcheck.SNAP[:] = [30, 5e-4]
    c.start_build()
    gd = {f: c.gen("G_Deck", cfg="G_Deck_" + f, num=NUM[f][c.thorough], depth=200, timeout=300) for f in NUM}
    gm = c.gen("G_MeshIO", num=(500, 2500)[c.thorough], depth=400, timeout=400)
    gp = c.gen("G_Props", num=(600, 3000)[c.thorough], depth=120, timeout=400)
    gf = c.gen("G_LocalFrames", num=(400, 2500)[c.thorough], depth=300, timeout=400)
    gn = c.gen("G_NasField", num=(400, 3000)[c.thorough], depth=5, timeout=300)
    c.mc("MC_NasField", cfg="MC_NasField_deep" if c.thorough else "MC_NasField", must=("Round", "Trim", "Emit"), workers=4)
    for v in ("sign", "expo", "trim"): c.mc_bad("MC_NasField", "MC_NasField_" + v)
    c.mc("MC_NasOut", cfg="MC_NasOut_deep" if c.thorough else "MC_NasOut", must=("AddSet", "AddPerm", "AddAn", "WriteSet", "WritePerm", "WriteCase", "Done"), workers=4)
    for v in ("internal", "lost", "once", "unselected"): c.mc_bad("MC_NasOut", "MC_NasOut_" + v)
    cases = [mkdeck("%s%05d" % (f, i), h, f, DIALECTS[i % 2]) for f in gd for i, h in enumerate(gd[f].result())]
    c.conformance("T_Deck", cases, deckcheck.corrupt, shards=6)
    c.conformance("T_MeshIO", [mkmesh("mesh%05d" % i, h, DIALECTS[i % 2]) for i, h in enumerate(gm.result())], meshio.corrupt, shards=6)
    c.conformance("T_Props", [x for x in (mkprops("prop%05d" % i, h, DIALECTS[i % 2]) for i, h in enumerate(gp.result())) if any(e["k"] == "EL" for e in x.events)], propcheck.corrupt, shards=6)
    c.conformance("T_LocalFrames", [mkframe("frame%05d" % i, h, DIALECTS[i % 2]) for i, h in enumerate(gf.result())], framecheck.corrupt, shards=6)
    c.conformance("T_NasField", [mkfield("num%05d" % i, h, DIALECTS[i % 2]) for i, h in enumerate(gn.result())], corrupt_field, shards=6)
    c.assumptions += ["the output deck is read by vega's own parser and judged in the Code_Aster study made from it, so that C01-C08 and C16 vouch for the reading",
                      "angular velocities, sections by dimensions, composites, shear factors and non structural masses have no card in the output and are kept out of the decks; solids with the modern dialect, PBAR and PBEAM each with the dialect that keeps the beam model"]
