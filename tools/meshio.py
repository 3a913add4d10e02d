"""C07: MeshIO.tla / Frames.tla: decks rendered from card events, the mesh read back from the MED file."""
from common import Case, card
from vega import Study, toint
import vega
F = float
PROP = {"CTETRA": "PSOLID", "CPYRAM": "PSOLID", "CPENTA": "PSOLID", "CHEXA": "PSOLID", "CROD": "PROD", "CBAR": "PBAR", "CBEAM": "PBEAM"}
def cardtext(e):
    k = e["k"]
    if k == "GRDSET": return card(k, None, e["cp"] or None, None, None, None, e["cd"] or None)
    if k == "GRID":
        cp = e["cp"] if e["cp"] > 0 else (0 if e["cp"] == 0 else None)
        x = [F(v) if v or (e["id"] + i) % 2 else None for i, v in enumerate(e["x"])]   # a blank coordinate is zero
        return card(k, e["id"], cp, *x, e.get("cd"))
    if k == "CS": return card("CORD2" + e["t"], e["id"], e["rid"], *[F(v) for p in (e["a"], e["b"], e["c"]) for v in p])
    if k == "CS1": return card("CORD1R", e["id"], *e["g"])
    if k == "EL":
        t = e["t"]; p = e["pid"] or None
        if t in ("CBAR", "CBEAM"): return card(t, e["id"], p, *e["n"], 101., 103., 107.)
        if t == "CONROD": return card(t, e["id"], *e["n"], 1, 2., 3.)
        return card(t, e["id"], p, *e["n"])
    raise ValueError(k)
def proptext(t, p):
    k = PROP.get(t, "PSHELL")
    if k == "PSOLID": return card(k, p, 1)
    if k == "PROD": return card(k, p, 1, 2., 3.)
    if k == "PSHELL": return card(k, p, 1, 0.5)
    return card(k, p, 1, 2., 3., 4., None, 5.) if k == "PBEAM" else card(k, p, 1, 2., 3., 4., 5.)
def render(ev):
    props = {(e["pid"] or e["id"]): e["t"] for e in ev if e["k"] == "EL" and e["t"] != "CONROD"}
    return "SOL 101\nCEND\nBEGIN BULK\n" + "".join(map(cardtext, ev)) + "".join(proptext(t, p) for p, t in sorted(props.items())) + card("MAT1", 1, 2.e5, None, .3, 8.) + "ENDDATA\n"
TYPES = {"T": "TETRA", "P": "PYRA"}
NAME = {1: "POINT", 2: "SEG", 3: "SEG"}
def medname(t):
    n = t // 100
    return {0: "POINT", 1: "SEG", 2: "TRIA" if t % 100 in (3, 6, 7) else "QUAD", 3: {4: "TETRA", 10: "TETRA", 5: "PYRA", 13: "PYRA", 6: "PENTA", 15: "PENTA", 8: "HEXA", 20: "HEXA", 27: "HEXA"}.get(t % 100, "?")}[n]
def observe(bins, dk):
    r = vega.translate(bins, dk)
    if r["rc"] or not r["med"]: return [{"ev": "obs", "o": "problem", "what": "translation failed rc=%s %s" % (r["rc"], r["log"][-300:])}]
    st = Study(r["comm"], r["med"])
    if st.error: return [{"ev": "obs", "o": "problem", "what": st.error}]
    of = {}
    for g, cs in st.groups.items():
        for c in cs: of.setdefault(c, []).append(g)
    return [{"ev": "obs", "o": "nodes", "list": [[toint(v, 1000) for v in n] for n in st.nodes]},
            {"ev": "obs", "o": "cells", "list": [{"t": medname(t), "n": [i + 1 for i in con], "grp": sorted(g for g in of.get(num, []) if g.startswith(("PROP_", "CONROD_")))} for num, (t, con) in sorted(st.cells.items())]}]
def mk(name, h):
    dk = render(h)
    return Case(name, h, lambda bins: observe(bins, dk), dk, " ".join(sorted({e.get("t", e["k"]) if e["k"] == "EL" else e["k"] for e in h})))
def corrupt(o):
    if len(o) < 2: return None
    c = o[1]["list"]
    if c and len(c[-1]["n"]) > 1: c[-1]["n"][0], c[-1]["n"][1] = c[-1]["n"][1], c[-1]["n"][0]; return o
    o[0]["list"][0][1] += 1000; return o
def run(c):
    c.start_build()
    g = c.gen("G_MeshIO", num=(900, 9000)[c.thorough], depth=400, timeout=400)
    c.mc("MC_Frames", cfg="MC_Frames_deep" if c.thorough else "MC_Frames", must=("Define", "Place"), workers=4)
    for v in ("left", "chain"): c.mc_bad("MC_Frames", "MC_Frames_" + v)
    c.conformance("T_MeshIO", [mk("m%05d" % i, h) for i, h in enumerate(g.result())], corrupt, shards=6)
    c.assumptions += ["coordinate systems nested in rectangular ones, axes in directions of length 1, 5 or 25, angles multiple of 90 degrees", "full node lists; every element has a property; GRDSET before the other cards"]
