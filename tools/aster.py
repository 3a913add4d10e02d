"""Projections of a Code_Aster study (vega.Study) onto the abstract state of the specifications.
Every projection is total: whatever it cannot interpret is reported in 'problems'."""
from vega import Study, _tup, toint, NOTINT

DDL = {"DX": 1, "DY": 2, "DZ": 3, "DRX": 4, "DRY": 5, "DRZ": 6}
FORCE = {"FX": 1, "FY": 2, "FZ": 3, "MX": 4, "MY": 5, "MZ": 6}
SOLVE = ("MECA_STATIQUE", "STAT_NON_LINE")

def analyses(st):
    """[(id, command, [charge concepts], concept)] in order of appearance, for static analyses."""
    r = []
    for c in st.concepts:
        if c.cmd in SOLVE:
            ch = []
            for e in _tup(c.kw.get("EXCIT")):
                ch.append(e.get("CHARGE"))
            r.append((c.mark.get("analysis"), c.cmd, ch, c))
    return r

class Charges:
    """Accumulates what a list of charges imposes. Node names are positions (0-based)."""
    def __init__(self, st, charges, scale=1, name=None):
        self.st = st; self.s = scale; self.problems = []
        self.spc = []      # (node, ddl, value) from constraint sets (BL*)
        self.imp = []      # (node, ddl, value) from load sets
        self.rel = []      # (terms [(node, ddl, coef)], rhs)
        self.solid = []    # LIAISON_SOLIDE node lists
        self.rbe3 = []
        self.forces = {}   # (node, comp) -> value
        self.gravity = []; self.rotation = []; self.pres = []; self.coque = []; self.face = []; self.poutre = []
        self.charges = charges
        seen = []
        for c in charges:
            if not hasattr(c, "kw"): self.problems.append("charge is not a concept"); continue
            if c in seen: self.problems.append("charge used twice: %s" % c.name)
            seen.append(c)
            if c.cmd not in ("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F"): self.problems.append("charge command " + c.cmd); continue
            try: self.add(c)
            except Exception as e: self.problems.append("charge %s: %s" % (c.name, e))
    def add(self, c):
        st = self.st; isload = c.name.startswith("CHM")
        for k, v in c.kw.items():
            if k in ("MODELE", "VERI_NORM"): continue
            if k == "DDL_IMPO":
                for o in _tup(v):
                    for n in st.nodepos(o):
                        for d in DDL:
                            if d in o: (self.imp if isload else self.spc).append((n, DDL[d], float(o[d])))
            elif k == "LIAISON_DDL":
                for o in _tup(v):
                    nn = st.nodepos(o); dd = _tup(o["DDL"]); cc = _tup(o["COEF_MULT"])
                    if not (len(nn) == len(dd) == len(cc)): self.problems.append("LIAISON_DDL lengths"); continue
                    self.rel.append(([(n, DDL[d], float(x)) for n, d, x in zip(nn, dd, cc)], float(o["COEF_IMPO"])))
            elif k == "LIAISON_SOLIDE":
                for o in _tup(v): self.solid.append(st.nodepos(o))
            elif k == "LIAISON_RBE3":
                for o in _tup(v):
                    self.rbe3.append(dict(master=int(o["NOEUD_MAIT"][1:]) - 1, mdof=sorted(DDL[d] for d in _tup(o["DDL_MAIT"])),
                        slaves=[(int(n[1:]) - 1, sorted(DDL[x] for x in d.split("-") if x), float(w)) for n, d, w in
                                zip(_tup(o["NOEUD_ESCL"]), _tup(o["DDL_ESCL"]), _tup(o["COEF_ESCL"]))],
                        n=(len(_tup(o["NOEUD_ESCL"])), len(_tup(o["DDL_ESCL"])), len(_tup(o["COEF_ESCL"])))))
            elif k == "FORCE_NODALE":
                for o in _tup(v):
                    for n in st.nodepos(o):
                        for d in FORCE:
                            if d in o: self.forces[(n, FORCE[d])] = self.forces.get((n, FORCE[d]), 0.0) + float(o[d])
            elif k == "PESANTEUR":
                for o in _tup(v): self.gravity.append(tuple(float(o["GRAVITE"]) * float(x) for x in o["DIRECTION"]))
            elif k == "ROTATION":
                for o in _tup(v): self.rotation.append((float(o["VITESSE"]), tuple(map(float, o["AXE"])), tuple(map(float, o["CENTRE"]))))
            elif k == "PRES_REP":
                for o in _tup(v): self.pres.append((float(o["PRES"]), tuple(st.cellnums(o))))
            elif k == "FORCE_COQUE":
                for o in _tup(v): self.coque.append((float(o["PRES"]), tuple(st.cellnums(o))))
            elif k == "FORCE_FACE":
                for o in _tup(v): self.face.append((tuple(float(o.get(d, 0)) for d in FORCE), tuple(st.cellnums(o))))
            elif k == "FORCE_POUTRE":
                for o in _tup(v): self.poutre.append(({d: o[d] for d in FORCE if d in o}, tuple(st.cellnums(o))))
            else: self.problems.append("keyword " + k)

def canon_relations(rels, scale=1):
    """Relations as sets of (node, dof, coef) in reduced row echelon form over the rationals
    (so that two systems spanning the same relations compare equal).  rels: [(terms, rhs)]."""
    from fractions import Fraction
    rows = []
    for terms, rhs in rels:
        d = {}
        for n, k, c in terms: d[(n, k)] = d.get((n, k), 0) + Fraction(c).limit_denominator(10**6)
        d[("~rhs", 0)] = Fraction(rhs).limit_denominator(10**6)
        rows.append({k: v for k, v in d.items() if v != 0})
    piv = []
    cols = sorted({k for r in rows for k in r if k[0] != "~rhs"}, key=lambda k: (str(k[0]), k[1]))
    rows = [r for r in rows if r]
    res = []
    for c in cols:
        p = next((r for r in rows if c in r), None)
        if p is None: continue
        rows.remove(p); f = p[c]; p = {k: v / f for k, v in p.items()}
        def red(r):
            if c not in r: return r
            m = r[c]; o = dict(r)
            for k, v in p.items():
                o[k] = o.get(k, 0) - m * v
                if o[k] == 0: del o[k]
            return o
        rows = [x for x in (red(r) for r in rows) if x]
        res = [red(r) for r in res] + [p]
    res += rows   # inconsistent rows (only rhs)
    return res
