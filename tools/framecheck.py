"""C16: LocalFrames.tla: loads and constraints in local systems, read back from the study."""
from fractions import Fraction
from math import gcd
from common import Case, card
from vega import Study, toint
import vega, aster, meshio
F = float
def cardtext(e):
    k = e["k"]
    if k == "GRDSET": return card(k, None, e["cp"] or None, None, None, None, e["cd"] or None)
    if k == "GRID":
        s = lambda c: c if c > 0 else (0 if c == 0 else None)
        return card(k, e["id"], s(e["cp"]), *[F(v) for v in e["x"]], s(e["cd"]), "".join(map(str, e["ps"])) or None)
    if k in ("CS", "CS1"): return meshio.cardtext(e)
    if k in ("FORCE", "MOMENT"): return card(k, e["sid"], e["g"], e["cid"] or None, F(e["f"]), *[F(x) for x in e["n"]])
    if k == "SPC": return card(k, e["sid"], e["g"], "".join(map(str, e["c"])), F(e["v"]))
    if k == "SPC1": return card(k, e["sid"], "".join(map(str, e["c"])), *e["gs"])
    if k == "MPC":
        f = []
        for i, (g, c, a) in enumerate(e["t"]):
            if i and i % 2 == 0: f += [None, None]
            f += [g, c, F(a)]
        return card(k, e["sid"], *f)
    raise ValueError(k)
def render(ev):
    ids = sorted(e["id"] for e in ev if e["k"] == "GRID")
    bars = "".join(card("CBAR", 9000 + i, 9, a, b, 101., 103., 107.) for i, (a, b) in enumerate(zip(ids, ids[1:])))
    has = lambda s, *k: any(e["k"] in k and e["sid"] == s for e in ev)
    cc = "".join(x for x, y in (("SPC = 1\n", has(1, "SPC", "SPC1")), ("MPC = 2\n", has(2, "MPC")), ("LOAD = 3\n", has(3, "FORCE", "MOMENT"))) if y)
    return "SOL 101\nCEND\n" + cc + "BEGIN BULK\n" + "".join(map(cardtext, ev)) + bars + card("PBAR", 9, 9, 2., 3., 4., 5.) + card("MAT1", 9, 2.e5, None, .3, 8.) + "ENDDATA\n"
def primitive(terms, rhs):
    """the same row with whole coefficients without common divisor; the right hand side in thousandths"""
    d = {}
    for n, c, a in terms: d[(n, c)] = d.get((n, c), 0.0) + a
    d = {k: a for k, a in d.items() if abs(a) > 1e-9}
    if not d: return {"t": [], "r": toint(rhs, 1000)}
    k0 = max(d, key=lambda k: abs(d[k])); a0 = d[k0]
    fr = {k: Fraction(a / a0).limit_denominator(5000) for k, a in d.items()}
    if any(abs(float(fr[k]) - d[k] / a0) > 1e-7 for k in d): raise ValueError("coefficients %r" % terms)
    m = 1
    for x in fr.values(): m = m * x.denominator // gcd(m, x.denominator)
    q = {k: int(x * m) for k, x in fr.items()}; g = 0
    for x in q.values(): g = gcd(g, x)
    q = {k: x // g for k, x in q.items()}
    return {"t": [[n + 1, c, x] for (n, c), x in sorted(q.items())], "r": toint(rhs * q[k0] / a0, 1000)}
def observe(bins, dk):
    r = vega.translate(bins, dk)
    if r["rc"] or not r["med"]: return [{"ev": "obs", "o": "problem", "what": "translation failed rc=%s %s" % (r["rc"], r["log"][-300:])}]
    st = Study(r["comm"], r["med"])
    if st.error: return [{"ev": "obs", "o": "problem", "what": st.error}]
    an = aster.analyses(st)
    if len(an) != 1: return [{"ev": "obs", "o": "problem", "what": "%d analyses" % len(an)}]
    ch = aster.Charges(st, an[0][2])
    if ch.problems or ch.imp or ch.solid or ch.rbe3: return [{"ev": "obs", "o": "problem", "what": str(ch.problems or "unexpected charges")}]
    rows = [primitive([(n, c, 1.0)], v) for n, c, v in ch.spc] + [primitive(t, v) for t, v in ch.rel]
    v = {"FORCE": {}, "MOMENT": {}}
    for (n, c), x in ch.forces.items(): v["FORCE" if c <= 3 else "MOMENT"].setdefault(n + 1, [0.0] * 3)[(c - 1) % 3] += x
    load = {k: [[n, [toint(x, 1000) for x in w]] for n, w in sorted(q.items()) if any(abs(x) > 1e-9 for x in w)] for k, q in v.items()}
    return [{"ev": "obs", "o": "nodes", "list": [[toint(x, 1000) for x in n] for n in st.nodes]}, {"ev": "obs", "o": "rows", "list": rows}, dict(ev="obs", o="loads", **load)]
def mk(name, h):
    dk = render(h)
    return Case(name, h, lambda bins: observe(bins, dk), dk, " ".join(sorted({e["k"] for e in h})))
def corrupt(o):
    for x in o:
        if x.get("o") == "rows" and x["list"]: x["list"][0]["t"][0][1] = x["list"][0]["t"][0][1] % 6 + 1; return o
def run(c):
    c.start_build()
    g = c.gen("G_LocalFrames", num=(900, 9000)[c.thorough], depth=300, timeout=400)
    c.mc("MC_LocalFrames", cfg="MC_LocalFrames", must=("Define", "Push", "Block", "Move"), workers=4)
    for v in ("transpose", "parent"): c.mc_bad("MC_LocalFrames", "MC_LocalFrames_" + v)
    c.conformance("T_LocalFrames", [mk("f%05d" % i, h) for i, h in enumerate(g.result())], corrupt, shards=6)
    c.assumptions += ["axes in directions of length 1, 5 or 25; systems nested in rectangular ones", "every grid point has six degrees of freedom (bars)"]
