"""C08: Props.tla: decks of properties, materials and elements; what the study says about every cell."""
from fractions import Fraction
from math import gcd
from common import Case, card, fmt
from vega import Study, _tup
import vega
def V(q): return None if not q else q[0] / q[1]
def S(x): return x or None
def freecard(kw, *fields):
    """Free format; the blank fields at the end are omitted."""
    fs = [fmt(f) for f in fields]
    while fs and fs[-1] == "": fs.pop()
    return "\n".join((kw if i == 0 else "") + "," + ",".join(fs[i:i + 8]) for i in range(0, len(fs), 8)) + "\n"
def cardtext(e):
    k = e["k"]
    if k == "GRID": return card(k, e["id"], None, *[float(v) for v in e["x"]])
    if k == "WTMASS": return card("PARAM", "WTMASS", V(e["v"]))
    if k == "MAT1": return card(k, e["mid"], V(e["e"]), V(e["g"]), V(e["nu"]), V(e["rho"]), None, None, V(e["ge"]))
    if k == "MAT8": return card(k, e["mid"], *[V(e[f]) for f in ("e1", "e2", "nu12", "g12", "g1z", "g2z", "rho", "a1", "a2")], None, *[V(e[f]) for f in ("xt", "xc", "yt", "yc", "s")])
    if k == "PROD": return card(k, e["pid"], e["mid"], V(e["a"]), V(e["j"]), None, V(e["nsm"]))
    if k == "PBAR":
        r = [1., 2., -1., 2., 1., -2., 3., -2.] if e["rec"] else [0.] + [None] * 7
        return card(k, e["pid"], e["mid"], V(e["a"]), V(e["i1"]), V(e["i2"]), V(e["j"]), V(e["nsm"]), None, *r, V(e["k1"]), V(e["k2"]))
    if k == "PBEAM": return card(k, e["pid"], e["mid"], V(e["a"]), V(e["i1"]), V(e["i2"]), None, V(e["j"]), V(e["nsm"]))
    if k in ("PBARL", "PBEAML"): return card(k, e["pid"], e["mid"], None, e["t"], None, None, None, None, *[V(d) for d in e["d"]], V(e["nsm"]))
    if k == "PSHELL": return card(k, e["pid"], e["mid"], V(e["t"]), *([e["mid"], None, e["mid"]] if e["b"] else [None] * 3), None, V(e["nsm"]))
    if k == "PSOLID": return card(k, e["pid"], e["mid"], None, S(e["in"]), None, S(e["isop"]))
    if k == "PCOMP": return (freecard if e["pid"] % 2 else card)(k, e["pid"], V(e["z0"]), None, None, S(e["ft"]), None, None, S(e["lam"]), *[x for p in e["plies"] for x in (S(p["mid"]), V(p["t"]), V(p["th"]), p["so"])])
    if k == "EL":
        t = e["t"]; i = e["id"]; n = e["n"]; z = V(e["off"])
        if t == "CONROD": return card(t, i, *n, e["mid"], V(e["a"]), None, None, V(e["nsm"]))
        if t in ("CBAR", "CBEAM"): return card(t, i, e["pid"], *n, *([e["g0"]] if e["g0"] else [float(x) for x in e["v"]]))
        if t in ("CTRIA3", "CTRIAR", "CQUAD4", "CTRIA6"): return card(t, i, e["pid"], *n, None, z or None)
        if t == "CQUAD8": return card(t, i, e["pid"], *n, None, None, None, None, None, z or None)
        return card(t, i, e["pid"], *n)
    raise ValueError(k)
def render(ev): return "SOL 101\nCEND\nBEGIN BULK\n" + "".join(map(cardtext, ev)) + "ENDDATA\n"
BAD = [999999001, 1]
def rat(x):
    x = float(x)
    if abs(x) <= 1e-15: return [0, 1]
    f = Fraction(x).limit_denominator(100000)
    if abs(float(f) - x) > 1e-9 * abs(x) or abs(f.numerator) > 2**31 - 1: return BAD
    return [f.numerator, f.denominator]
def opt(x): return [] if x is None else rat(x)
SNAP = [1000, 1e-9]   # C15 widens it: fields of eight characters hold four to five digits
def prim(v):
    m = max(abs(float(x)) for x in v)
    r = [Fraction(float(x) / m).limit_denominator(SNAP[0]) for x in v]
    if any(abs(float(a) - x / m) > SNAP[1] for a, x in zip(r, v)): return [999, 999, 999]
    d = 1
    for a in r: d = d * a.denominator // gcd(d, a.denominator)
    w = [int(a * d) for a in r]; g = gcd(gcd(abs(w[0]), abs(w[1])), abs(w[2]))
    return [x // g for x in w]
def one(kw): return [_tup(o)[0] if False else o for o in _tup(kw)]
def material(c):
    r = []
    for k, v in c.kw.items():
        for o in _tup(v):
            if k == "ELAS": r.append({"f": "ELAS", "v": [rat(o["E"]), rat(o["NU"]), rat(o["RHO"]), opt(o.get("AMOR_HYST"))]}); u = set(o) - {"E", "NU", "RHO", "AMOR_HYST"}
            elif k == "ELAS_ORTH":
                ks = ("E_L", "E_T", "NU_LT", "G_LT", "G_TN", "G_LN", "RHO", "XT", "XC", "YT", "YC", "S_LT", "ALPHA_L", "ALPHA_T")
                r.append({"f": "ORTH", "v": [opt(o.get(x)) for x in ks]}); u = set(o) - set(ks)
            else: r.append({"f": k}); u = ()
            if u: r.append({"f": "unknown " + " ".join(sorted(u))})
    return r
def laminate(c):
    p = []
    for o in _tup(c.kw["COUCHE"]):
        m = material(o["MATER"]) if o["MATER"].cmd == "DEFI_MATERIAU" else [{"f": o["MATER"].cmd}]
        p.append({"t": rat(o["EPAIS"]), "th": rat(o["ORIENTATION"]), "m": m[0] if len(m) == 1 else {"f": "several"}})
    return [{"f": "COMP", "plies": p}]
def observe(bins, dk, at):
    r = vega.translate(bins, dk)
    if r["rc"] or not r["med"]: return [{"ev": "obs", "o": "problem", "what": "translation failed rc=%s %s" % (r["rc"], r["log"][-300:])}]
    st = Study(r["comm"], r["med"])
    if st.error: return [{"ev": "obs", "o": "problem", "what": st.error}]
    pos = [at.get(tuple(round(v) for v in n), 0) for n in st.nodes]
    cs = {num: {"n": sorted(pos[i] for i in con), "mod": [], "beam": [], "coque": [], "ori": [], "mat": []} for num, (t, con) in st.cells.items()}
    bad = []
    def each(o):
        for n in st.cellnums(o): yield cs[n]
    for c in st.concepts:
        if c.cmd == "AFFE_MODELE":
            for o in _tup(c.kw["AFFE"]):
                for x in each(o): x["mod"].append(list(_tup(o["MODELISATION"])))
        elif c.cmd == "AFFE_MATERIAU":
            for o in _tup(c.kw["AFFE"]):
                for m in _tup(o["MATER"]):
                    for x in each(o): x["mat"] += laminate(m) if m.cmd == "DEFI_COMPOSITE" else material(m)
        elif c.cmd == "AFFE_CARA_ELEM":
            for kw in c.kw:
                if kw == "MODELE": continue
                for o in _tup(c.kw[kw]):
                    for x in each(o):
                        if kw in ("POUTRE", "BARRE"): x["beam"].append({"kw": kw, "sec": o["SECTION"], "cara": list(_tup(o["CARA"])), "v": [rat(v) for v in _tup(o["VALE"])]})
                        elif kw == "COQUE": x["coque"].append({"ep": rat(o["EPAIS"]), "exc": rat(o.get("EXCENTREMENT", 0)), "n": int(o.get("COQUE_NCOU", 0))})
                        elif kw == "ORIENTATION":
                            if o["CARA"] != "VECT_Y": bad.append("ORIENTATION " + o["CARA"])
                            x["ori"].append(prim([float(v) for v in o["VALE"]]))
                        elif kw == "MASSIF":
                            if any(float(a) for a in o["ANGL_REP"]): bad.append("ANGL_REP")
                        else: bad.append(kw)
    return [{"ev": "obs", "o": "cells", "list": list(cs.values())}] + [{"ev": "obs", "o": "problem", "what": b} for b in bad]
def mk(name, h):
    dk = render(h); at = {tuple(e["x"]): e["id"] for e in h if e["k"] == "GRID"}
    return Case(name, h, lambda bins: observe(bins, dk, at), dk, " ".join(sorted({e.get("t", "") if e["k"] == "EL" else e["k"] for e in h})))
def corrupt(o):
    l = o[0].get("list")
    if not l: return None
    c = l[-1]
    if c["beam"]: c["beam"][0]["v"][0] = [c["beam"][0]["v"][0][0] + 1, 1]
    elif c["coque"]: c["coque"][0]["ep"] = [c["coque"][0]["ep"][0] + 1, 1]
    else: c["mat"] = []
    return o
def run(c):
    c.start_build()
    g = c.gen("G_Props", num=(900, 8000)[c.thorough], depth=120, timeout=400)
    c.mc("MC_Props", cfg="MC_Props_deep" if c.thorough else "MC_Props", must=("Read", "Split", "Ortho", "Write"), workers=4)
    for v in ("merge", "inplace"): c.mc_bad("MC_Props", "MC_Props_" + v)
    c.conformance("T_Props", [mk("p%05d" % i, h) for i, h in enumerate(g.result())], corrupt, shards=6)
    c.assumptions += ["I sections with equal flanges; PSOLID and the beams and rods refer to MAT1 materials, shells and plies to MAT1 or MAT8", "property identifiers unique over all property cards"]
