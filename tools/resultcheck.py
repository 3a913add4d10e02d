"""C14: Results.tla: the reference result file read line by line, against the checks found in the study."""
from common import Case, card
from vega import Study
import vega, aster
F = float
def deck(d):
    s = d["subs"]; k = d["kind"]; sol = {"static": 101, "nonlinear": 106, "modal": 103, "frequency": 111, "buckling": 105}[k]
    sel = {"static": "LOAD = 1\n", "nonlinear": "LOAD = 1\nNLPARM = 6\n", "modal": "METHOD = 7\n", "frequency": "METHOD = 7\nFREQ = 8\nDLOAD = 9\n"}
    out = "SOL %d\nCEND\nSPC = 2\n" % sol
    if k == "buckling": out += "".join("SUBCASE %d\n%s" % (n, t) for n, t in zip(s, ("LOAD = 1\n", "METHOD = 7\n")))
    elif s: out += "".join("SUBCASE %d\n%s" % (n, sel[k]) for n in s)
    else: out += sel[k]
    out += "BEGIN BULK\n"
    if d["low"]: out += card("PARAM", "LFREQ", d["low"] / 1000.)
    for n, sys in ((1, (1., 0., 0., 0., 1., 0.)), (2, (0., 0., 1., -1., 0., 0.)), (3, (0., 0., 1., 1., 0., 0.))):
        out += card("CORD2C" if n == 3 else "CORD2R", n, None, 0., 0., 0., *sys)
    b = [g for g in d["grids"] if g["d"] == 6]; so = [g for g in d["grids"] if g["d"] == 3]
    for g in d["grids"]: out += card("GRID", g["id"], None, 0., F(g["y"]), 0., g["cd"] or None)
    if so: out = out.replace(card("GRID", so[-1]["id"], None, 0., F(so[-1]["y"]), 0., so[-1]["cd"] or None), card("GRID", so[-1]["id"], None, 9., F(so[0]["y"]), 0.)); out = out.replace(card("GRID", so[-2]["id"], None, 0., F(so[-2]["y"]), 0., so[-2]["cd"] or None), card("GRID", so[-2]["id"], None, 0., F(so[0]["y"]), 9.))
    for i in range(len(b) - 1): out += card("CBAR", 60 + i, 5, b[i]["id"], b[i + 1]["id"], 1., 0., 0.)
    if so: out += card("CTETRA", d["solid"], 4, *[g["id"] for g in so]) + card("PSOLID", 4, 3)
    out += card("PBAR", 5, 3, 2., 3., 4., 5.) + card("MAT1", 3, 2.e5, None, .3, 8.) + card("SPC1", 2, 123456, b[0]["id"]) + card("FORCE", 1, b[1]["id"], 0, 1., 1., 0., 0.)
    if k == "nonlinear": out += card("NLPARM", 6, 2)
    if k in ("modal", "frequency", "buckling"): out += card("EIGRL", 7, None, None, 5)
    if k == "frequency": out += card("FREQ", 8, 2., 5.8, 96.) + card("RLOAD2", 9, 1, None, None, 10) + card("TABLED1", 10) + "        0.      1.      100.    1.      ENDT\n"
    return out + "ENDDATA\n"
WORDS = "BEAM BOX STATIC REVIEW OF NOVEMBER 19 2026 MSC.NASTRAN PAGE".split()
LABELS = ["", "BOX", "LOAD OF SUBCASE A", "SUBCASE 9 OF LAST YEAR", "A LABEL OF EXACTLY SEVEN WORDS NOW", "0.5 KN 1 G 2 3 4 5"]
TITLES = {"displacement": " " * 45 + "D I S P L A C E M E N T   V E C T O R", "complex": " " * 39 + "C O M P L E X   D I S P L A C E M E N T   V E C T O R",
          "other": " " * 34 + "F O R C E S   O F   S I N G L E - P O I N T   C O N S T R A I N T",
          "stress": " " * 20 + "S T R E S S E S   I N   T E T R A H E D R O N   S O L I D   E L E M E N T S   ( C T E T R A )"}
POINTS = "      POINT ID.   TYPE          T1             T2             T3             R1             R2             R3"
def num(v, e=-3):
    return "0.0         " if v == 0 else "%.6E" % (v * 10. ** e)
def lines(d, ev):
    head = ""; sec = None
    for e in ev:
        l = e["l"]
        if l == "heading":
            sub = "SUBCASE %d" % e["sc"] if e["sc"] else ""; lab = LABELS[e["label"] - 1]
            if not e["sc"] and "SUBCASE" in lab: lab = "BOX"
            head = "0    %-98s  %s" % (lab, sub)
            page = "1    %s     PAGE   %3d" % (" ".join(WORDS[:e["words"]]), 12)
            if e["page"]: yield page
            if e["page"]: yield " "
            yield head
        elif l == "step": yield "      LOAD STEP =  %.5E" % (e["t"] / 10.)
        elif l == "freq": yield "      FREQUENCY =  %.6E" % (e["t"] / 10.)
        elif l == "blank": yield ""
        elif l == "text": yield "     MAXIMUM  APPLIED  LOADS"
        elif l == "title":
            sec = e["sec"]
            if sec in TITLES: yield TITLES[sec]
            else: yield " " * 46 + "R E A L   E I G E N V A L U E S"
            if sec == "residual": yield " " * 41 + "(AFTER AUGMENTATION OF RESIDUAL VECTORS)"
            elif sec == "actual": yield " " * 41 + "ACTUAL MODES USED IN THE DYNAMIC ANALYSIS"
            elif sec == "eigenvalues" and d["format"] == 2: yield " " * 41 + "(BEFORE AUGMENTATION OF RESIDUAL VECTORS)"
            if sec == "complex": yield " " * 58 + "(REAL/IMAGINARY)"; yield " "
            if sec in ("displacement", "other", "complex"): 
                if sec != "complex" and d["format"] == 2: yield " "
                yield POINTS
            elif sec == "stress":
                yield "0                CORNER        ------CENTER AND CORNER POINT STRESSES---------       DIR.  COSINES       MEAN                   "
                yield "  ELEMENT-ID    GRID-ID        NORMAL              SHEAR             PRINCIPAL       -A-  -B-  -C-     PRESSURE       VON MISES "
            else:
                yield "   MODE    EXTRACTION      EIGENVALUE            RADIANS             CYCLES            GENERALIZED         GENERALIZED"
                yield "    NO.       ORDER                                                                       MASS              STIFFNESS"
        elif l == "row":
            n = e["n"]
            f = lambda v: "".join("%15s" % num(x) for x in v[:n])
            if sec == "complex": yield "0%13d      %s%s" % (e["g"], e["t"], f(e["v"])); yield " " * 21 + f(e["w"])
            else: yield "%14d      %s%s" % (e["g"], e["t"], f(e["v"]))
        elif l == "mode":
            yield "%9d%10d%20.6E%20.6E%20.6E%20.6E%20.6E" % (e["n"], e["n"], e["eig"] * 1e-3, 1., e["cyc"] * 1e-3, e["mass"] * 1e-3, e["stiff"] * 1e-3)
        elif l == "stress":
            yield "0%10d           0GRID CS  4 GP" % e["e"]
            for i, (g, v) in enumerate([("CENTER", 77777)] + list(zip(e["gs"], e["v"]))):
                if i and i == e["split"]:   # the table goes on on the next page
                    yield "1    %s PAGE    13" % " ".join(WORDS[:i]); yield head; yield " "; yield TITLES["stress"]
                    yield "0                CORNER        ------CENTER AND CORNER POINT STRESSES---------       DIR.  COSINES       MEAN                   "
                    yield "  ELEMENT-ID    GRID-ID        NORMAL              SHEAR             PRINCIPAL       -A-  -B-  -C-     PRESSURE       VON MISES "
                yield "0%22s  X   1.332268E-15  XY  -4.440892E-16   A   1.776357E-15  LX 0.0  0.00 0.0    8.800000E+00 %15s" % (g, num(v))
                yield "                         Y   8.881784E-16  YZ   8.881784E-16   B  -2.640000E+01  LY 0.0  0.00 0.0"
                yield "                         Z  -2.640000E+01  ZX   0.0            C   1.776357E-15  LZ 0.0  1.00 0.0"
COMP = {n: i + 1 for i, n in enumerate("DX DY DZ DRX DRY DRZ".split())}
PARA = {"FREQ": "frequency", "MASS_GENE": "mass", "RIGI_GENE": "stiffness", "CHAR_CRIT": "buckling"}
def ti(x, s=1000): return vega.toint(x, s)
def prob(s): return [{"ev": "obs", "o": "problem", "what": str(s)}]
def observe(bins, d, dk, f06):
    ref = "ref.csv" if d["csv"] else "ref.f06"
    r = vega.translate(bins, dk, opts=["-t", ref, "-x", repr(d["tol"] / 1e5)] + (["--strict"] if d["strict"] else []), extra={ref: f06})
    if r["rc"] or not r["med"]: return prob("translation failed rc=%s %s" % (r["rc"], r["log"][-300:]))
    st = Study(r["comm"], r["med"])
    if st.error: return prob(st.error)
    if st.undefined or st.gone: return prob('undefined concepts %s, destroyed ones used %s' % (sorted(set(st.undefined)), sorted(set(st.gone))))
    b = [g for g in d["grids"]]; at = {}
    for g in d["grids"]: at[g["id"]] = g
    pos = {}
    so = [g["id"] for g in d["grids"] if g["d"] == 3]; y0 = {g["id"]: g["y"] for g in d["grids"]}
    for i, (x, y, z) in enumerate(st.nodes):
        if x > 1: pos[i] = so[-1]
        elif z > 1: pos[i] = so[-2]
        else: pos[i] = next((g for g, yy in y0.items() if abs(yy - y) < 1e-6 and g not in so[2:]), -1)
    out = []; tol = []
    for c in st.of("TEST_RESU"):
        an = (c.mark or {}).get("analysis", 0)
        for o in vega._tup(c.kw.get("RESU")):
            res = o["RESULTAT"]; ra = (res.mark or {}).get("analysis", 0)
            tm = vega._tup(o.get("TOLE_MACHINE"))[0]
            if o["CRITERE"] == "RELATIF": tol.append(ti(tm, 1e5))
            if "PARA" in o:
                if o["PARA"] not in PARA: return prob("PARA " + o["PARA"])
                if res.cmd not in ("CALC_MODES", "MODE_ITER_SIMULT", "EXTR_MODE", "NORM_MODE"): return prob("%s checked on a result of %s" % (o["PARA"], res.cmd))
                out.append([an, PARA[o["PARA"]], 0, o["NUME_MODE"], 0, ti(o["VALE_CALC"]), 0]); continue
            if ra != an: return prob("check of analysis %s on the result of %s" % (an, ra))
            n = st.nodepos(o)
            if len(n) != 1: return prob("%d grid points for a check" % len(n))
            g = pos.get(n[0], -1)
            if o["NOM_CHAM"] == "SIEQ_ELNO":
                cs = st.cellnums(o)
                if len(cs) != 1 or st.cells[cs[0]][0] != 304: return prob("stress check on the cells %s" % cs)
                out.append([an, "mises", g, d["solid"], 0, ti(o["VALE_CALC"]), 0]); continue
            if o["NOM_CHAM"] != "DEPL": return prob("NOM_CHAM " + o["NOM_CHAM"])
            if "FREQ" in o:
                v = complex(o["VALE_CALC_C"]); out.append([an, "complex", g, COMP[o["NOM_CMP"]], ti(o["FREQ"], 10), ti(v.real), ti(v.imag)])
            else:
                w = -1 if o.get("NUME_ORDRE") == 1 else ti(o["INST"], 10)
                v = ti(o["VALE_REFE"])
                if v and ti(o["VALE_CALC"]) != v: return prob("VALE_CALC")
                out.append([an, "displacement", g, COMP[o["NOM_CMP"]], w, v, 0])
    an = []
    for c in st.concepts:
        a = (c.mark or {}).get("analysis", 0)
        if c.cmd in ("NUME_DDL", "MECA_STATIQUE", "STAT_NON_LINE", "CALC_MODES", "MODE_ITER_SIMULT", "DYNA_VIBRA", "REST_GENE_PHYS") and a not in an: an.append(a)
    return [{"ev": "obs", "o": "study", "analyses": an, "nodes": len(st.nodes)}, {"ev": "obs", "o": "checks", "list": out, "tol": sorted(set(tol))}]
HEAD = {i: n for n, i in COMP.items()}
def table(d, ev):
    """a table as IMPR_TABLE writes it"""
    yield "#"; yield "#" + "-" * 80; yield "#ASTER 11.04.00 CONCEPT DETB1 CALCULE LE 14/01/2015"
    names = ["RESULTAT", "NOM_CHAM"] + (["INST"] if d["inst"] else []) + ["NUME_ORDRE", "NOEUD", "COOR_X"] + [HEAD[i] for i in d["cols"]]
    if d["format"] == 2: names = names[1:3] + names[:1] + names[3:]
    yield " " + "".join(",%-13s" % n for n in names)
    for k, e in enumerate(ev):
        val = {"RESULTAT": "RESU%d" % e["r"], "NOM_CHAM": "DEPL", "INST": " %.5E" % (e["t"] / 10.), "NUME_ORDRE": "%12d" % (k + 1), "NOEUD": "N%d" % e["g"], "COOR_X": " 1.00000E+00"}
        yield " " + "".join(",%-13s" % (val[n] if n in val else "%12s" % ("%.5E" % (e["v"][COMP[n] - 1] * 1e-3))) for n in names)
def mk(name, h):
    d = h[0]; dk = deck(d); nl = "\r\n" if d["crlf"] else "\n"
    f06 = nl.join((table if d["csv"] else lines)(d, h[1:])) + nl
    return Case(name, h, lambda bins: observe(bins, d, dk, f06), dk + "------ result file\n" + f06, " ".join(sorted({e["l"] for e in h[1:]})) + " " + d["kind"])
def corrupt(o):
    for x in o:
        if x.get("o") == "checks" and x["list"]:
            x["list"][len(x["list"]) // 2][5] += 1; return o
def run(c):
    c.start_build()
    g = c.gen("G_Results", num=(800, 7000)[c.thorough], depth=30, timeout=400)
    c.mc("MC_Results", cfg="MC_Results_deep" if c.thorough else "MC_Results", must=("Add",), workers=6)
    for v in ("lost", "step", "first", "stop"): c.mc_bad("MC_Results", "MC_Results_" + v)
    c.conformance("T_Results", [mk("r%05d" % i, h) for i, h in enumerate(g.result())], corrupt, shards=6)
    c.assumptions += ["each title of a table stands on a page whose heading names its subcase, or no heading of the file names one"]
