"""A study as a set of statements that do not depend on numbering, naming or order of writing: nodes are
known by their coordinates, cells by their type and nodes, groups and concepts by what they contain."""
from vega import Study, _tup, Concept
SKIP = {"DEBUT", "FIN", "LIRE_MAILLAGE", "POST_RELEVE_T", "POST_ELEM", "IMPR_TABLE", "IMPR_RESU", "DEFI_FICHIER", "DETRUIRE", "CALC_CHAMP", "CREA_TABLE", "MODI_MAILLAGE", "DEFI_MATERIAU", "DEFI_COMPOSITE", "DEFI_FONCTION", "DEFI_LIST_REEL"}
IGNORED = {"INTITULE", "UNITE", "TITRE"}
def num(x):
    if isinstance(x, bool): return str(x)
    x = float(x)
    return "0" if abs(x) < 1e-13 else "%.9g" % x
class Canon:
    def __init__(self, st):
        self.st = st; self.memo = {}; self.items = []
        self.nn = ["(%s %s %s)" % tuple(num(c) for c in x) for x in st.nodes]
        self.cc = {k: "%s[%s]" % (t, " ".join(self.nn[i] for i in con)) for k, (t, con) in st.cells.items()}
    def value(self, v):
        if v is None: return "None"
        if isinstance(v, Concept): return self.concept(v)
        if isinstance(v, (int, float)): return num(v)
        if isinstance(v, str): return v
        if isinstance(v, (list, tuple)): return "<" + ", ".join(self.value(x) for x in v) + ">"
        if isinstance(v, dict): return "{" + " & ".join(sorted(self.occ(v))) + "}"
        return repr(v)
    def where(self, o):
        """('n' | 'c' | '', names of the nodes or cells the occurrence is about)"""
        if o.get("TOUT") == "OUI": return "all", ["*"]
        n = [self.nn[i] for i in self.st.nodepos(o)]
        c = [self.cc[i] for i in self.st.cellnums(o)] if "MAILLE" in o or "GROUP_MA" in o else []
        return "", n + c
    def occ(self, o):
        """statements of one occurrence _F(...)"""
        if "COEF_MULT" in o and "DDL" in o:
            t = sorted((float(c), self.nn[n], d) for n, d, c in zip(self.st.nodepos(o), _tup(o["DDL"]), _tup(o["COEF_MULT"])))
            t = sorted((n, d, c) for c, n, d in t); k = t[0][2] if t and t[0][2] else 1.0
            return ["relation " + " ".join("%s %s*%s" % (n, num(c / k), d) for n, d, c in t) + " = " + (num(float(o["COEF_IMPO"]) / k) if not isinstance(o["COEF_IMPO"], Concept) else self.value(o["COEF_IMPO"]))]
        if "NOEUD_MAIT" in o:
            node = lambda x: self.nn[int(x[1:]) - 1]
            return ["rbe3 %s %s: %s" % (node(_tup(o["NOEUD_MAIT"])[0]), "-".join(sorted(_tup(o["DDL_MAIT"]))),
                "; ".join(sorted("%s %s %s" % (node(n), d, num(w)) for n, d, w in zip(_tup(o["NOEUD_ESCL"]), _tup(o["DDL_ESCL"]), _tup(o["COEF_ESCL"])))))]
        loc = {"NOEUD", "GROUP_NO", "MAILLE", "GROUP_MA", "TOUT"}
        rest = {k: v for k, v in o.items() if k not in loc and k not in IGNORED}
        if not loc & set(o): return [" ".join("%s=%s" % (k, self.value(rest[k])) for k in sorted(rest))]
        w = self.where(o)[1]
        parts = [rest]
        comp = {"DX", "DY", "DZ", "DRX", "DRY", "DRZ", "FX", "FY", "FZ", "MX", "MY", "MZ"}
        if set(rest) and set(rest) <= comp: parts = [{k: v} for k, v in rest.items()]
        return ["%s: %s" % (x, " ".join("%s=%s" % (k, self.value(p[k])) for k in sorted(p))) for x in w for p in parts]
    def kw(self, c):
        r = ["at " + x for x in self.where(c.kw)[1]] if c.cmd == "POST_CHAMP" else []
        for k, v in c.kw.items():
            if c.cmd == "POST_CHAMP" and k in ("MAILLE", "GROUP_MA"): continue
            if isinstance(v, dict) or (isinstance(v, (list, tuple)) and v and all(isinstance(x, dict) for x in v)):
                s = {}; out = []
                for o in _tup(v):
                    if k == "FORCE_NODALE":     # several occurrences add up
                        for n in self.where(o)[1]:
                            for q, x in o.items():
                                if q not in ("NOEUD", "GROUP_NO"): s.setdefault((n, q), []).append(x)
                    elif k == "EXCIT" and isinstance(o.get("CHARGE"), Concept):     # one statement per thing imposed
                        f = " ".join("%s=%s" % (q, self.value(x)) for q, x in sorted(o.items()) if q != "CHARGE")
                        out += [(f + " " + y).strip() for y in self.kw(o["CHARGE"]) if not y.startswith("MODELE=")]
                    else: out += self.occ(o)
                for (n, q), xs in s.items():
                    if all(isinstance(x, (int, float)) for x in xs): out.append("%s: %s=%s" % (n, q, num(sum(xs))))
                    else: out.append("%s: %s=%s" % (n, q, " + ".join(sorted(map(self.value, xs)))))
                r += ["%s %s" % (k, x) for x in out]
            else: r.append("%s=%s" % (k, self.value(v)))
        return r
    def concept(self, c):
        if id(c) not in self.memo:
            self.memo[id(c)] = "?"
            if c.cmd == "LIRE_MAILLAGE": self.memo[id(c)] = "mesh"
            elif c.cmd in ("AFFE_MODELE", "AFFE_MATERIAU", "AFFE_CARA_ELEM"): self.memo[id(c)] = c.cmd
            else: self.memo[id(c)] = c.cmd + "(" + " | ".join(sorted(self.kw(c))) + ")"
        return self.memo[id(c)]
import re
def gname(g): return not re.fullmatch(r"(C|M|CGVEGA_|PROP_|CONROD_|VAM_|SPC_?|SPC1_|MPC_?|CS_\w+?_)\d+", g)   # names given by the translator
def items(st):
    if st.error: raise ValueError(st.error)
    c = Canon(st); r = []
    r += ["node " + x for x in c.nn]
    seen = {}
    for x in c.cc.values():
        seen[x] = seen.get(x, 0) + 1; r.append("cell %s%s" % (x, " #%d" % seen[x] if seen[x] > 1 else ""))
    for g, s in st.nodegroups.items():
        if gname(g): r += ["group %s has %s" % (g, c.nn[i]) for i in s]
    for g, s in st.groups.items():
        if gname(g): r += ["group %s has %s" % (g, c.cc[i]) for i in s]
    k = 0
    for x in st.concepts:
        if x.cmd in SKIP: continue
        pre = x.cmd
        if x.name and x.name.startswith("RESU"):
            k += 1; pre = "%s %s" % (x.name, x.cmd)
            if x.mark.get("analysis") is not None: pre += " of %s" % x.mark["analysis"]
        elif x.cmd in ("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F", "AFFE_CHAR_CINE"): continue   # said where they are used
        if x.cmd in ("AFFE_MODELE", "AFFE_MATERIAU", "AFFE_CARA_ELEM"): r += [pre + " " + y for y in c.kw(x)]
        else:
            for y in c.kw(x):
                r.append(pre + " " + y)
    return sorted(r)
