"""C09: Discrete.tla: stiffness, damping and mass of the discrete elements, read back from the study."""
import math, re
from common import Case, card
from vega import Study, NOTINT
import vega, aster
F = float
PER = {"PELAS": 2, "PDAMP": 4}  # properties on a card
def cardtext(e, D):
    k = e["k"]; z = lambda g: g or None
    if k == "GRID": return card(k, e["id"], None, F(e["id"]), 0., 0.)
    if k in ("CELAS1", "CDAMP1"): return card(k, e["id"], e["pid"], e["g1"], e["c1"], z(e["g2"]), e["c2"] if e["g2"] else None)
    if k == "CELAS2" and not e["g2"]: return card(k, e["id"], F(e["v"]), e["g1"], e["c1"])
    if k in ("CELAS2", "CMASS2"): return card(k, e["id"], F(e["v"]), e["g1"], e["c1"], z(e["g2"]), e["c2"] if e["g2"] else None)
    if k == "CBUSH": return card(k, e["id"], e["pid"], e["g1"], z(e["g2"]), None, None, None, 0)
    if k == "PBUSH":
        row = lambda n, q: [n] + [F(x) if x else None for x in q]
        f = [e["id"]] + row("K", e["kk"])
        return card(k, *f, *([None] + row("B", e["bb"]) if any(e["bb"]) else []))
    if k == "CONM1": return card(k, e["id"], e["g1"], None, *[F(x) if x else None for x in e["t"]])
    if k == "CONM2": return card(k, e["id"], e["g1"], None, F(e["v"]), *[F(x) if x else None for x in e["x"]], None, *[F(x) if x else None for x in e["i"]])
    if k == "DMIG":
        f = [{"K": "KMAT", "B": "BMAT", "M": "MMAT"}[e["m"]], e["g1"], e["c1"], None]
        for g, c, v in e["rows"]: f += [g, c, F(v), None]
        return card(k, *f)
    if k == "CBAR": return card(k, e["id"], 901, e["g1"], e["g2"], 0., 1., 0.)
    if k == "CROD": return card(k, e["id"], 902, e["g1"], e["g2"])
    if k == "SPC1": return card(k, 1, "".join(map(str, e["c"])), *e["gs"])
    raise ValueError(k)
def render(ev):
    out = []; done = set()
    for i, e in enumerate(ev):
        if i in done: continue
        if e["k"] in PER:
            # several properties share a card when the seed of the deck says so
            n = 1 + (e["id"] * 7 + len(ev)) % PER[e["k"]]
            js = [j for j in range(i, len(ev)) if ev[j]["k"] == e["k"] and j not in done][:n]; done |= set(js); f = []
            for j in js: f += [ev[j]["id"], F(ev[j]["v"])] + ([None, None] if e["k"] == "PELAS" else [])
            out.append(card(e["k"], *f))
        else: out.append(cardtext(e, ev))
    cc = ""
    for m, kw, n in (("K", "K2GG", "KMAT"), ("B", "B2GG", "BMAT"), ("M", "M2GG", "MMAT")):
        if any(e["k"] == "DMIG" and e["m"] == m for e in ev):
            cc += "%s = %s\n" % (kw, n)
            out.insert(0, card("DMIG", n, 0, 6, 1, 0))
    if any(e["k"] == "SPC1" for e in ev): cc += "SPC = 1\n"
    return "SOL 101\nCEND\n" + cc + "BEGIN BULK\n" + "".join(out) + card("PBAR", 901, 903, 2., 3., 4., 5.) + card("PROD", 902, 903, 2.) + card("MAT1", 903, 2.e5, None, .3, 8.) + "ENDDATA\n"
def whole(x):
    r = round(x) if math.isfinite(x) and abs(x) < 1e9 else NOTINT
    return r if abs(x - r) < 1e-3 else NOTINT
class Bad(Exception): pass
def matrix(cara, vale, nodes, nonsym):
    """{(node, dof, node, dof): value} of a discrete on these nodes, both triangles"""
    m = re.fullmatch(r"([KAM])_T(R?)_(D_)?([NL])", cara)
    if not m: raise Bad("CARA " + cara)
    let, rot, diag, nl = m.groups(); n = 6 if rot else 3
    if len(nodes) != (1 if nl == "N" else 2): raise Bad("%s on %d nodes" % (cara, len(nodes)))
    dofs = [(x, d) for x in nodes for d in range(1, n + 1)]; N = len(dofs); M = [[0.] * N for _ in range(N)]
    v = [float(x) for x in vale]
    if diag and let == "M":
        if nl == "L": raise Bad("mass " + cara)
        if len(v) != (10 if rot else 1): raise Bad("%d values for %s" % (len(v), cara))
        for d in range(3): M[d][d] = v[0]
        if rot:
            q, ix, iy, iz, ixy, iyz, ixz, x, y, z = v
            J = [[ix + q * (y * y + z * z), ixy - q * x * y, ixz - q * x * z], [0, iy + q * (x * x + z * z), iyz - q * y * z], [0, 0, iz + q * (x * x + y * y)]]
            for a in range(3):
                for b in range(3): M[3 + a][3 + b] = J[min(a, b)][max(a, b)]
            for a, b, w in ((0, 4, q * z), (0, 5, -q * y), (1, 3, -q * z), (1, 5, q * x), (2, 3, q * y), (2, 4, -q * x)): M[a][b] = M[b][a] = w
    elif diag:
        if len(v) != n: raise Bad("%d values for %s" % (len(v), cara))
        for d in range(n):
            M[d][d] = v[d]
            if nl == "L": M[n + d][n + d] = v[d]; M[d][n + d] = M[n + d][d] = -v[d]
    elif nonsym:
        if len(v) != N * N: raise Bad("%d values for %s" % (len(v), cara))
        for c in range(N):
            for r in range(N): M[r][c] = v[c * N + r]
    else:
        if len(v) != N * (N + 1) // 2: raise Bad("%d values for %s" % (len(v), cara))
        i = 0
        for c in range(N):
            for r in range(c + 1): M[r][c] = M[c][r] = v[i]; i += 1
    out = {}
    for r in range(N):
        for c in range(N):
            if M[r][c]: k = dofs[r] + dofs[c]; out[k] = out.get(k, 0.) + M[r][c]
    return let, out
def prob(s): return [{"ev": "obs", "o": "problem", "what": str(s)}]
def observe(bins, dk):
    r = vega.translate(bins, dk)
    if r["rc"] or not r["med"]: return prob("translation failed rc=%s %s" % (r["rc"], r["log"][-300:]))
    st = Study(r["comm"], r["med"])
    if st.error: return prob(st.error)
    model = {}
    for c in st.of("AFFE_MODELE"):
        for o in vega._tup(c.kw.get("AFFE")):
            for n in st.cellnums(o): model[n] = o["MODELISATION"] if isinstance(o["MODELISATION"], str) else o["MODELISATION"][0]
    given = {}
    try:
        for c in st.of("AFFE_CARA_ELEM"):
            for o in vega._tup(c.kw.get("DISCRET")):
                cara = o["CARA"]; vale = o["VALE"] if isinstance(o["VALE"], (tuple, list)) else (o["VALE"],)
                for n in st.cellnums(o):
                    if model.get(n) != ("DIS_TR" if "_TR" in cara else "DIS_T"): raise Bad("%s on %s" % (cara, model.get(n)))
                    if o.get("REPERE", "GLOBAL") != "GLOBAL": raise Bad("REPERE")
                    let, m = matrix(cara, vale, st.cells[n][1], o.get("SYME") == "NON")
                    given[(n, let)] = m   # a later occurrence replaces an earlier one
    except Bad as e: return prob(e)
    tot = {}
    for (n, let), m in given.items():
        for k, v in m.items(): tot.setdefault({"K": "K", "A": "B", "M": "M"}[let], {}).setdefault(k, 0.); tot[{"K": "K", "A": "B", "M": "M"}[let]][k] += v
    ents = []
    for L, q in sorted(tot.items()):
        for (n1, d1, n2, d2), v in sorted(q.items()):
            if abs(v) < 1e-9: continue
            if abs(q.get((n2, d2, n1, d1), 0.) - v) > 1e-6 * max(1, abs(v)): return prob("matrix %s not symmetric" % L)
            if (n1, d1) <= (n2, d2): ents.append([L, [n1 + 1, d1], [n2 + 1, d2], whole(v)])
    an = aster.analyses(st)
    if len(an) != 1: return prob("%d analyses" % len(an))
    ch = aster.Charges(st, an[0][2])
    if ch.problems: return prob(ch.problems)
    return [{"ev": "obs", "o": "nodes", "list": [whole(n[0]) if not (n[1] or n[2]) else -1 for n in st.nodes]},
            {"ev": "obs", "o": "matrices", "list": ents, "blocked": sorted({(n + 1, c) for n, c, v in ch.spc if v == 0})}]
def mk(name, h):
    dk = render(h)
    return Case(name, h, lambda bins: observe(bins, dk), dk, " ".join(sorted({e["k"] for e in h})))
def corrupt(o):
    at = next((x["list"] for x in o if x.get("o") == "nodes"), [])
    for x in o:
        for e in x["list"] if x.get("o") == "matrices" else ():
            if all(0 < p[0] <= len(at) and at[p[0] - 1] > 0 for p in e[1:3]): e[3] += 1; return o
def run(c):
    c.start_build()
    g = c.gen("G_Discrete", num=(1000, 9000)[c.thorough], depth=300, timeout=400)
    c.mc("MC_Discrete", cfg="MC_Discrete_deep" if c.thorough else "MC_Discrete", must=("AddSpring", "AddShared", "AddBush", "AddMass", "AddDirect", "Move"), workers=6)
    for v in ("twice", "arm", "ground"): c.mc_bad("MC_Discrete", "MC_Discrete_" + v)
    c.conformance("T_Discrete", [mk("d%05d" % i, h) for i, h in enumerate(g.result())], corrupt, shards=6)
    c.assumptions += ["coordinate system 0; bushes between distant grid points have no stiffness across", "no structural damping, no scalar points, WTMASS 1",
                      "DISCRET of Code_Aster: CARA K_, A_, M_ of U2.01/U4.42.01 expanded to full matrices"]
