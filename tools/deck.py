"""Rendering of Deck.tla behaviours (lists of card events) as Nastran decks, and projection of the
translated study onto the observations T_Deck.tla judges."""
from common import card, fmt
from vega import Study, toint, NOTINT
import aster, vega, math

def F(x): return float(x)
def dofcode(l): return int("".join(str(x) for x in sorted(l)))

def render(events, sol="101", title=None, extra_cc="", extra_bulk="", perm=None, opts=None):
    cc, bulk = "", []
    props = {}
    for e in events:
        k = e.get("k")
        if e["ev"] != "card": continue
        if k == "SUBCOM":
            eq, sep = ((" = ", ", "), ("=", ","), (" ", ","))[e["style"] - 1]
            cc += "SUBCOM %d\n  SUBSEQ%s%s\n" % (e["id"], eq, sep.join(str(c / 2) for c in e["co"])); continue
        if k in ("GLOB", "SUB"):
            s = "" if k == "GLOB" else "SUBCASE %d\n" % e["id"]
            ind = "" if k == "GLOB" else "  "
            for key in e.get("order", ("spc", "mpc", "load")):
                if e[key]: s += "%s%s = %d\n" % (ind, key.upper(), e[key])
            if e.get("nl"): s += "%sNLPARM = %d\n" % (ind, e["nl"])
            cc += s; continue
        b = cardtext(e)
        bulk.append(b)
        if k == "EL": props[e["t"]] = e.get("pid") or PID[e["t"]]
    for p, t in sorted({p: t for t, p in props.items()}.items()): bulk.append(proptext(t, p))
    if props: bulk.append(card("MAT1", 1, 2.e5, None, 0.3, 8.0))
    if perm: bulk = perm(bulk)
    return "SOL %s\nCEND\n%s%sBEGIN BULK\n%s%sENDDATA\n" % (sol, extra_cc, cc, "".join(bulk), extra_bulk)

PID = {"CBAR": 1, "CBEAM": 1, "CROD": 2, "CQUAD4": 3, "CTRIA3": 3, "CHEXA": 4, "CTETRA": 4, "CPENTA": 4}
def proptext(t, p):
    if t in ("CBAR",): return card("PBAR", p, 1, 2., 3., 4., 5.)
    if t == "CROD": return card("PROD", p, 1, 2., 3.)
    if t in ("CQUAD4", "CTRIA3"): return card("PSHELL", p, 1, 0.5)
    return card("PSOLID", p, 1)

def cardtext(e):
    k = e["k"]
    if k == "GRID": return card("GRID", e["id"], None, *[F(x) for x in e["x"]], None, dofcode(e["ps"]) if e["ps"] else None)
    if k == "EL":
        t = e["t"]; p = e.get("pid") or PID[t]
        if t == "CBAR": return card(t, e["id"], p, *e["n"], *[F(x) for x in e.get("v", (0, 0, 1))])
        return card(t, e["id"], p, *e["n"])
    if k == "SPC1":
        if e.get("thru"): return card("SPC1", e["sid"], dofcode(e["dofs"]), min(e["nodes"]), "THRU", max(e["nodes"]))
        return card("SPC1", e["sid"], dofcode(e["dofs"]), *e["nodes"])
    if k in ("SPC", "SPCD"):
        f = [e["sid"]]
        for g, c, v in e["items"]: f += [g, None if (e.get("blankc") and sorted(c) == [1, 2, 3, 4, 5, 6]) else dofcode(c), F(v)]
        return card(k, *f)
    if k == "SPCADD": return card(k, e["sid"], *e["sids"])
    if k in ("FORCE", "MOMENT"): return card(k, e["sid"], e["g"], None, F(e["f"]), *[None if x == 0 and e["f"] % 2 else F(x) for x in e["v"]])
    if k == "FORCE1": return card(k, e["sid"], e["g"], F(e["f"]), e["g1"], e["g2"])
    if k == "FORCE2": return card(k, e["sid"], e["g"], F(e["f"]), e["g1"], e["g2"], e["g3"], e["g4"])
    if k == "GRAV": return card(k, e["sid"], None, F(e["a"]), *[F(x) for x in e["v"]])
    if k == "RFORCE": return card(k, e["sid"], e["g"], None, F(e["a"]), *[F(x) for x in e["v"]])
    if k == "PLOAD2": return card(k, e["sid"], F(e["p"]), *e["els"])
    if k == "PLOAD4":
        if e["e2"] > e["e1"]: return card(k, e["sid"], e["e1"], F(e["p"]), None, None, None, "THRU", e["e2"])
        return card(k, e["sid"], e["e1"], F(e["p"]))
    if k == "PFACE": return card("PLOAD4", e["sid"], e["e"], F(e["p"]), None, None, None, e["g1"], e["g34"] or None)
    if k == "PFACEV": return card("PLOAD4", e["sid"], e["e"], F(e["p"]), None, None, None, e["g1"], e["g34"], None, *[F(x) for x in e["v"]])
    if k == "PLOAD": return card(k, e["sid"], F(e["p"]), *e["g"])
    if k == "NLPARM": return card(k, e["sid"], e["ninc"] if e["ninc"] != 10 else None)
    if k == "LOAD":
        f = [e["sid"], e["s2"] / 2.0]
        for s, l in e["terms"]: f += [s / 2.0, l]
        return card(k, *f)
    if k == "MPC":
        f = [e["sid"]]
        for i, (g, q, c) in enumerate(e["terms"]):
            f += [g, q, F(c)]
            if i % 2 == 1 and i + 1 < len(e["terms"]): f += [None, None]
        return card(k, *f)
    if k == "RBE2": return card(k, e["id"], e["m"], dofcode(e["dofs"]), *e["slaves"])
    if k == "CRIGD1": return card(k, e["id"], None, e["m"], *e["slaves"])
    if k == "RBAR":
        # the six independent components stand at either end
        if e.get("end", 1) == 2: return card(k, e["id"], e["s"], e["m"], None, 123456)
        return card(k, e["id"], e["m"], e["s"], 123456)
    if k == "RBAR1": return card(k, e["id"], e["m"], e["s"], None if e["blank"] else dofcode(e["dofs"]))
    if k == "RBE3":
        f = [e["id"], None, e["m"], dofcode(e["dofs"])]
        for w, c, gs in e["groups"]: f += [F(w / 4), dofcode(c)] + list(gs)   # weights in quarters
        return card(k, *f)
    raise ValueError(k)

def nodemap(events, st):
    """position in the mesh -> identifier in the deck, by coordinates (unique in generated decks)."""
    ids = {tuple(float(v) for v in e["x"]): e["id"] for e in events if e["ev"] == "card" and e["k"] == "GRID"}
    return {i: ids.get(tuple(round(v, 6) + 0.0 for v in n), -1000 - i) for i, n in enumerate(st.nodes)}

def observe(bins, events, deck, want, opts=(), extra=None):
    """want: subset of {'spc','loads','rel','rbe3','count','outcome'}"""
    r = vega.translate(bins, deck, "ASTER", opts, extra=extra)
    ok = r["rc"] == 0 and r["comm"] is not None and r["med"] is not None
    o = []
    if "outcome" in want: o.append({"ev": "obs", "o": "outcome", "ok": ok})
    if not ok:
        if "outcome" not in want: o.append({"ev": "obs", "o": "problem", "what": "translation failed rc=%s %s" % (r["rc"], r["log"][-300:])})
        return o
    st = Study(r["comm"], r["med"])
    if st.error: return o + [{"ev": "obs", "o": "problem", "what": st.error}]
    nm = nodemap(events, st)
    an = aster.analyses(st)
    if "mesh" in want:
        els = []; dis = 0
        for c in st.concepts:
            if c.cmd != "AFFE_MODELE": continue
            for x in vega._tup(c.kw["AFFE"]):
                for cn in st.cellnums(x):
                    if any("DIS_" in m for m in vega._tup(x["MODELISATION"])): dis += 1
                    else: els.append(sorted(nm[i] for i in st.cells[cn][1]))
        o.append({"ev": "obs", "o": "mesh", "nodes": sorted(nm.values()), "els": els, "dis": dis})
    if "coms" in want: o.append({"ev": "obs", "o": "coms", "list": combinations(st, an)})
    if "ids" in want: o.append({"ev": "obs", "o": "ids", "list": [-1 if a[0] is None else a[0] for a in an]})
    for i, (aid, cmd, ch, c) in enumerate(an):
        C = aster.Charges(st, ch)
        base = {"ev": "obs", "an": i + 1}
        for p in C.problems: o.append({"ev": "obs", "o": "problem", "what": p})
        if "spc" in want:
            o.append(dict(base, o="spc", set=[[nm[n], q, toint(v, 4)] for n, q, v in C.spc] + [[nm[n], q, toint(v, 4)] for n, q, v in C.imp]))
        if "loads" in want:
            g = {}
            for v in C.gravity:
                for k in range(3): g[k + 1] = g.get(k + 1, 0) + v[k]
            o.append(dict(base, o="loads", force=[[nm[n], c, toint(v, 4)] for (n, c), v in sorted(C.forces.items()) if v != 0],
                imp=[[nm[n], q, toint(v, 4)] for n, q, v in C.imp], grav=[[k, toint(v, 4)] for k, v in sorted(g.items()) if abs(v) > 1e-12],
                pres=pressures(st, C, nm, events), rot=[[[toint(w / (2 * math.pi) * x / math.sqrt(dot(ax, ax)), 4) for x in ax], [toint(x) for x in ce]] for w, ax, ce in C.rotation]))
        if "rel" in want:
            o.append(dict(base, o="rel", rels=[[[nm[n], q, toint(c)] for n, q, c in t] + ([[0, 0, toint(rhs)]] if rhs else []) for t, rhs in C.rel],
                          solid=[[nm[n] for n in s] for s in C.solid]))
        if "rbe3" in want:
            o.append(dict(base, o="rbe3", list=[{"m": nm[x["master"]], "dofs": x["mdof"], "sl": [[nm[n], q, toint(w, 4)] for n, q, w in x["slaves"]]} for x in C.rbe3]))
    return o

def combinations(st, an):
    """Results made out of the displacements of analyses: [{id, of: [[analysis, 2 * coefficient]]}]."""
    r = []
    def src(c):
        while "reuse" in c.kw: c = c.kw["reuse"]
        return next((i + 1 for i, a in enumerate(an) if a[3] is c), 0)
    for c in st.concepts:
        if c.cmd != "CREA_RESU": continue
        of = []
        for f in vega._tup(c.kw["AFFE"]):
            for t in vega._tup(f["CHAM_GD"].kw["ASSE"]):
                x = t["CHAM_GD"].kw
                good = x["OPERATION"] == "EXTR" and x["NOM_CHAM"] == "DEPL" and t.get("CUMUL") == "OUI" and t.get("TOUT") == "OUI"
                of.append([src(x["RESULTAT"]) if good else 0, toint(t.get("COEF_R", 1), 2)])
        r.append({"id": c.mark.get("analysis"), "of": of})
    return r
def sub3(a, b): return [x - y for x, y in zip(a, b)]
def crs(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def pressures(st, C, nm, events):
    """Pressures per shell (positive along the normal given by the deck's grid sequence) and per solid face (positive inward)."""
    byset = {}; solids = []
    for e in events:
        if e["ev"] == "card" and e["k"] == "EL":
            byset[frozenset(e["n"])] = e
            if e["t"] in ("CHEXA", "CTETRA", "CPENTA"): solids.append(e)
    X = {nm[i]: n for i, n in enumerate(st.nodes)}
    tot = {}
    def add(k, v): tot[k] = tot.get(k, 0) + v
    def normal(ids): p = [X[i] for i in ids]; return crs(sub3(p[1], p[0]), sub3(p[2], p[0]))
    for kind, lst in (("coque", C.coque), ("rep", C.pres)):
        for p, cells in lst:
            for cn in cells:
                t, con = st.cells[cn]; ids = [nm[i] for i in con]; fs = frozenset(ids)
                if fs in byset and byset[fs]["t"] in ("CQUAD4", "CTRIA3"):
                    e = byset[fs]; s = 1 if dot(normal(ids), normal(e["n"])) > 0 else -1
                    add(("shell", e["id"]), -p * s)   # Aster: positive pressure acts against the normal
                else:
                    so = [e for e in solids if fs <= set(e["n"])]
                    if len(so) != 1: add(("face", tuple(sorted(ids))), NOTINT); continue
                    cen = [sum(X[i][k] for i in so[0]["n"]) / len(so[0]["n"]) for k in range(3)]
                    out = dot(normal(ids), sub3(X[ids[0]], cen)) > 0
                    add(("face", tuple(sorted(ids))), p if out else -p)   # outward normal: positive pressure acts inward
    for f, cells in C.face:
        for cn in cells:
            ids = [nm[i] for i in st.cells[cn][1]]
            so = [e for e in solids if set(ids) <= set(e["n"])]
            for q in range(3):
                if f[q]: add(("trac", (so[0]["id"] if len(so) == 1 else -1, tuple(sorted(ids)), q + 1)), f[q])
            if any(f[3:]): add(("trac", (-1, tuple(ids), 4)), 1)
    return [[k[0], k[1] if k[0] == "shell" else [k[1][0], list(k[1][1]), k[1][2]] if k[0] == "trac" else list(k[1]), toint(v, 4)] for k, v in sorted(tot.items(), key=str) if abs(v) > 1e-12]
