"""C18: Dynamics.tla: the cards of modal and frequency response analyses against the analyses found in the study."""
from common import Case, card
from vega import Study
import vega
from aster import Charges, DDL
F = float
SOL = {"modal": 103, "response": 111, "direct": 108}
def free(text):
    out = []
    for line in text.split("\n"):
        if line[:1].strip() or line[:8] == " " * 8:
            f = [line[i:i + 8].strip() for i in range(0, len(line), 8)]
            line = ",".join(f) if line.strip() else line
        out.append(line)
    return "\n".join(out)
def skipped(q):   # either field of the pair
    return ["SKIP", F(q["y"]) / 4] if q["x"] % 2 else [q["x"] / 10., "SKIP"]
def bulk(e, areas):
    k = e["k"]
    if k == "table":
        p = []
        for q in e["pts"]: p += skipped(q) if q["skip"] else [F(q["x"]) / 10, F(q["y"])]
        return card("TABLED1", e["id"], "LOG" if e["xlog"] else None, "LOG" if e["ylog"] else None, *[None] * 5, *p, "ENDT")
    if k == "area":
        v = F(e["a"])
        if e["by"] == "DAREA": return card("DAREA", e["id"], e["g"], e["c"], v)
        d = [0., 0., 0.]; d[(e["c"] - 1) % 3] = v
        return card("FORCE" if e["c"] < 4 else "MOMENT", e["id"], e["g"], 0, 1., *d)
    if k == "rload":
        a = [x for x in areas if x["id"] == e["area"]]; ph = F(e["phase"]); extra = ""
        if e["named"] and len(a) == 1:
            extra = card("DPHASE", 80 + e["id"], a[0]["g"], a[0]["c"], ph); ph = 80 + e["id"]
        elif ph == 0: ph = None
        if e["how"] == 1: return extra + card("RLOAD1", e["id"], e["area"], None, ph, e["table"], None, e["type"] or None)
        return extra + card("RLOAD2", e["id"], e["area"], None, ph, e["table"], None, e["type"] or None)
    if k == "dload":
        t = []
        for x in e["terms"]: t += [x["s"] / 2., x["id"]]
        return card("DLOAD", e["id"], e["s"] / 2., *t)
    if k == "search":
        v = [None if x < 0 else x / 10. for x in (e["lo"], e["hi"])]; n = None if e["n"] < 0 else e["n"]
        if e["card"] == "EIGRL": return card("EIGRL", e["id"], *v, n, None, None, None, "MAX" if e["norm"] == "MAX" else "MASS" if e["norm"] == "MASS" else None)
        pt = (2, 3) if e["norm"] == "POINT" else (None, None)
        return card("EIGR", e["id"], "LAN", *v, None, n, None, None, e["norm"] or None, *pt)
    if k == "freq":
        if e["how"] == "list": return card("FREQ", e["id"], *[x / 10. for x in e["v"]])
        if e["how"] == "step": return card("FREQ1", e["id"], e["start"] / 10., e["step"] / 10., e["n"])
        return card("FREQ4", e["id"], e["start"] / 10., e["end"] / 10., e["spread"] / 100., e["n"])
    if k == "damp":
        p = []
        for q in e["pts"]: p += skipped(q) if q["skip"] else [q["x"] / 10., q["y"] / 1000.]
        return card("TABDMP1", e["id"], e["type"] or None, *[None] * 6, *p, "ENDT")
    if k == "spc": return card("SPC1", e["id"], e["c"], e["g"])
def deck(h):
    d = h[0]; cards = [e for e in h if e["ev"] == "card"]; k = d["kind"]
    out = "SOL %d\nCEND\n" % SOL[k]
    for s in h:
        if s["ev"] != "sub": continue
        out += "SUBCASE %d\n  SPC = %d\n" % (s["id"], s["spc"])
        if k != "direct": out += "  METHOD = %d\n" % s["method"]
        if k != "modal": out += "  FREQUENCY = %d\n  DLOAD = %d\n" % (s["freq"], s["dload"])
        if k == "response" and s["damp"]: out += "  SDAMPING = %d\n" % s["damp"]
        if k == "response" and s["residual"]: out += "  RESVEC = YES\n"
    out += "BEGIN BULK\n"; b = ""
    if d["cut"]["lo"] > 0: b += card("PARAM", "LFREQ", d["cut"]["lo"] / 10.)
    if d["cut"]["hi"] >= 0: b += card("PARAM", "HFREQ", d["cut"]["hi"] / 10.)
    for g in range(1, 5): b += card("GRID", g, None, F(g), 0., 0.)
    for g in range(1, 4): b += card("CBAR", 60 + g, 5, g, g + 1, 0., 1., 0.)
    b += card("PBAR", 5, 3, 2., 3., 4., 5.) + card("MAT1", 3, 2.e5, None, .3, 8.)
    areas = [e for e in cards if e["k"] == "area"]
    i = 0
    while i < len(cards):
        e = cards[i]; i += 1
        if e["k"] == "area" and e["by"] == "DAREA" and i < len(cards) and all(cards[i][x] == e[x] for x in ("ev", "k") ) and cards[i]["by"] == "DAREA" and cards[i]["id"] == e["id"]:
            n = cards[i]; i += 1   # two components on one card
            b += card("DAREA", e["id"], e["g"], e["c"], F(e["a"]), n["g"], n["c"], F(n["a"]))
        else: b += bulk(e, areas)
    return out + (free(b) if d["free"] else b) + "ENDDATA\n"
def ti(x, s=1): return vega.toint(x, s)
def prob(s): return [{"ev": "obs", "o": "problem", "what": str(s)}]
def function(c, sx):
    """pairs, log of x, log of y of a DEFI_FONCTION"""
    if c is None or c.cmd != "DEFI_FONCTION": raise ValueError("not a function: %s" % c)
    v = vega._tup(c.kw["VALE"]); i = [x.strip() for x in c.kw["INTERPOL"]]
    if len(v) % 2: raise ValueError("odd function")
    if c.kw.get("NOM_PARA") != "FREQ": raise ValueError("function of %s" % c.kw.get("NOM_PARA"))
    if any(x not in ("LIN", "LOG") for x in i): raise ValueError("interpolation %s" % i)
    return [[ti(v[j], sx), F(v[j + 1])] for j in range(0, len(v), 2)], i[0] == "LOG", i[1] == "LOG", c.kw.get("PROL_GAUCHE"), c.kw.get("PROL_DROITE")
def modesof(st, c):
    """n, lo, hi, norm of the modes a concept holds"""
    if c.cmd != "EXTR_MODE": raise ValueError("modes from %s" % c.cmd)
    f = c.kw["FILTRE_MODE"]; u = f["MODE"]
    if u.cmd != "CALC_MODES": raise ValueError("modes from %s" % u.cmd)
    lo = F(f["FREQ_MIN"]); hi = F(f["FREQ_MAX"]); q = u.kw["CALC_FREQ"]; o = u.kw["OPTION"]; n = 0
    if o == "PLUS_PETITE": n = int(q["NMAX_FREQ"])
    elif o == "BANDE":
        a, b = vega._tup(q["FREQ"]); lo = max(lo, F(a)); hi = min(hi, F(b))
    else: raise ValueError("option " + o)
    norm = {"MASS_GENE": "MASS", "TRAN_ROTA": "MAX"}.get(u.kw["NORM_MODE"]["NORME"], "?")
    return {"n": n, "lo": ti(lo, 10), "hi": -1 if hi >= 1e29 else ti(hi, 10), "norm": norm}, u
def matrices(m, k):
    """the NUME_DDL and the charges of assembled matrices"""
    nd = {id(x.kw["NUME_DDL"]): x.kw["NUME_DDL"] for x in (m, k)}
    if len(nd) != 1: raise ValueError("matrices on two numberings")
    for x, opt in ((m, "MASS_MECA"), (k, "RIGI_MECA")):
        if x.kw["MATR_ELEM"].kw["OPTION"] != opt: raise ValueError("%s where %s is meant" % (x.kw["MATR_ELEM"].kw["OPTION"], opt))
    nd = list(nd.values())[0]; ch = vega._tup(nd.kw.get("CHARGE"))
    for x in (m, k):
        if vega._tup(x.kw["MATR_ELEM"].kw.get("CHARGE")) != ch: raise ValueError("matrices on other charges than the numbering")
    return nd, ch
def analysis(st, i, kind, at):
    mine = [c for c in st.concepts if c.mark.get("analysis") == i]
    def only(*cmd):
        q = [c for c in mine if c.cmd in cmd]
        if len(q) != 1: raise ValueError("%d %s in analysis %s" % (len(q), "/".join(cmd), i))
        return q[0]
    o = {"ev": "obs", "o": "analysis", "id": i, "modes": {"n": 0, "lo": 0, "hi": 0, "norm": ""}, "freq": [], "spread": [], "exc": [], "damp": [], "residual": []}
    if kind == "modal":
        q = [p for c in mine if c.cmd == "IMPR_RESU" for p in vega._tup(c.kw.get("RESU")) if c.kw.get("FORMAT") == "MED"]
        m = {id(p["RESULTAT"]): p["RESULTAT"] for p in q}
        if len(m) != 1: raise ValueError("%d results written for analysis %s" % (len(m), i))
        o["modes"], u = modesof(st, list(m.values())[0]); nd, ch = matrices(u.kw["MATR_MASS"], u.kw["MATR_RIGI"])
    else:
        if kind == "direct": dyn = only("DYNA_VIBRA"); M = dyn.kw["MATR_MASS"]; K = dyn.kw["MATR_RIGI"]; base = None
        else:
            res = only("REST_GENE_PHYS"); dyn = res.kw["RESU_GENE"]
            if dyn.cmd != "DYNA_VIBRA" or dyn not in mine: raise ValueError("result from %s" % dyn)
            pb = only("PROJ_BASE"); proj = {id(p["MATRICE"]): p["MATR_ASSE"] for p in pb.kw["MATR_ASSE_GENE"]}
            M = proj.get(id(dyn.kw["MATR_MASS"])); K = proj.get(id(dyn.kw["MATR_RIGI"]))
            if M is None or K is None: raise ValueError("matrices not projected")
            vects = {id(p["VECTEUR"]): p for p in vega._tup(pb.kw["VECT_ASSE_GENE"])}
            base = pb.kw["BASE"]; modes = base
            if base.cmd == "DEFI_BASE_MODALE":
                r = vega._tup(base.kw["RITZ"])
                modes = [p["MODE_MECA"] for p in r if "MODE_MECA" in p]; sta = [p["MODE_INTF"] for p in r if "MODE_INTF" in p]
                if len(modes) != 1 or len(sta) != 1: raise ValueError("modal base of %d and %d" % (len(modes), len(sta)))
                modes = modes[0]; sta = sta[0]
                if sta.cmd != "MODE_STATIQUE" or sta.kw["MATR_RIGI"] is not K or sta.kw["MATR_MASS"] is not M: raise ValueError("static modes on other matrices")
                for p in vega._tup(sta.kw["FORCE_NODALE"]):
                    for n in st.nodepos(p):
                        for x in vega._tup(p.get("AVEC_CMP")): o["residual"].append([at[n], DDL[x]])
            o["modes"], u = modesof(st, modes)
            if u.kw["MATR_MASS"] is not M or u.kw["MATR_RIGI"] is not K: raise ValueError("response on other matrices than the modes")
            a = dyn.kw.get("AMOR_MODAL")
            if a is not None:
                t = a["AMOR_REDUIT"]
                if not isinstance(t, vega.Part) or t.of.cmd != "CREA_TABLE": raise ValueError("damping of %s" % t)
                f = t.of.kw["FONCTION"]["FONCTION"]; co = 1.
                if f.cmd == "CALC_FONCTION": co = F(f.kw["COMB"]["COEF"]); f = f.kw["COMB"]["FONCTION"]
                if f.cmd != "CALC_FONC_INTERP": raise ValueError("damping from %s" % f.cmd)
                v = f.kw["VALE_PARA"]
                if not isinstance(v, vega.Part) or v.of is not modes: raise ValueError("damping at the frequencies of other modes")
                o["damp"] = [[x, ti(y, 2000 * co)] for x, y in function(f.kw["FONCTION"], 10)[0]]
                if "MATR_AMOR" in dyn.kw: raise ValueError("modal damping beside a damping matrix")
        nd, ch = matrices(M, K)
        l = dyn.kw["LIST_FREQ"]
        if l.cmd == "DEFI_LIST_FREQ":
            q = l.kw["INTERVALLE"]; r = l.kw["RAFFINEMENT"]
            if not isinstance(r["LIST_RAFFINE"], vega.Part) or r["LIST_RAFFINE"].of is not modes: raise ValueError("frequencies around other modes")
            o["spread"] = [ti(l.kw["DEBUT"], 10), ti(q["JUSQU_A"], 10), ti(r["DISPERSION"], 100)]
        elif "VALE" in l.kw: o["freq"] = [ti(x, 10) for x in vega._tup(l.kw["VALE"])]
        else:
            a = F(l.kw["DEBUT"])
            o["freq"] = [ti(a, 10)]
            for q in vega._tup(l.kw["INTERVALLE"]):
                b = F(q["JUSQU_A"]); n = int(q["NOMBRE"]); o["freq"] += [ti(a + (b - a) * j / n, 10) for j in range(1, n + 1)]; a = b
        if dyn.kw["TYPE_CALCUL"] != "HARM" or dyn.kw["BASE_CALCUL"] != ("PHYS" if kind == "direct" else "GENE"): raise ValueError("kind of response")
        for e in vega._tup(dyn.kw["EXCIT"]):
            if kind == "direct": v = e["VECT_ASSE"]
            else:
                p = vects.get(id(e["VECT_ASSE_GENE"]))
                if p is None: raise ValueError("excitation not projected")
                if p.get("TYPE_VECT") != "FORC": raise ValueError("vector of type %s" % p.get("TYPE_VECT"))
                v = p["VECT_ASSE"]
            if v.kw["NUME_DDL"] is not nd: raise ValueError("excitation on another numbering")
            c = Charges(st, vega._tup(v.kw["VECT_ELEM"].kw["CHARGE"]))
            if c.problems or c.spc or c.imp or c.rel: raise ValueError("excitation %s" % (c.problems or "holds constraints"))
            pairs, xl, yl, l, r = function(e["FONC_MULT"], 10)
            if (l, r) != ("LINEAIRE", "LINEAIRE"): raise ValueError("prolongation %s" % ((l, r),))
            for (n, k), f in sorted(c.forces.items()): 
                o["exc"].append([at[n], k, [[x, ti(y * f, 4)] for x, y in pairs], xl, yl, ti(e["PHAS_DEG"])])
    c = Charges(st, ch)
    if c.problems or c.imp or c.rel or c.forces: raise ValueError("supports: %s" % c.problems)
    if any(v for n, k, v in c.spc): raise ValueError("supports moved")
    o["spc"] = sorted({(at[n], k) for n, k, v in c.spc})
    return o
def observe(bins, d, dk):
    r = vega.translate(bins, dk)
    if r["rc"] or not r["med"]: return prob("translation failed rc=%s %s" % (r["rc"], r["log"][-300:]))
    st = Study(r["comm"], r["med"])
    if st.error: return prob(st.error)
    if st.undefined or st.gone: return prob('undefined concepts %s, destroyed ones used %s' % (sorted(set(st.undefined)), sorted(set(st.gone))))
    at = {i: round(x[0]) for i, x in enumerate(st.nodes)}
    ids = []
    for c in st.concepts:
        a = c.mark.get("analysis")
        if a is not None and a not in ids: ids.append(a)
    try: return [{"ev": "obs", "o": "analyses", "ids": ids}] + [analysis(st, i, d["kind"], at) for i in ids]
    except (ValueError, KeyError, TypeError, AttributeError, IndexError) as e: return prob("%s: %s" % (type(e).__name__, e))
def mk(name, h):
    d = h[0]; dk = deck(h)
    return Case(name, h, lambda bins: observe(bins, d, dk), dk, d["kind"] + " " + " ".join(sorted({e["k"] + e.get("how", "") if e["k"] == "freq" else e["k"] for e in h if e["ev"] == "card"})))
def corrupt(o):
    for x in o:
        if x.get("o") == "analysis":
            if x["exc"]: x["exc"][-1][2][-1][1] += 1; return o
            if x["modes"]["norm"]: x["modes"]["lo"] += 1; return o
def run(c):
    c.start_build()
    g = c.gen("G_Dynamics", num=(700, 6000)[c.thorough], depth=80, timeout=400)
    c.mc("MC_Dynamics", cfg="MC_Dynamics_deep" if c.thorough else "MC_Dynamics", must=("Read", "Combine"), workers=6)
    for v in ("shared", "order", "first", "twice"): c.mc_bad("MC_Dynamics", "MC_Dynamics_" + v)
    c.conformance("T_Dynamics", [mk("y%05d" % i, h) for i, h in enumerate(g.result())], corrupt, shards=6)
    c.assumptions += ["an excitation is named once by a DLOAD card, and a set of loads is either DAREA cards or static loads"]
