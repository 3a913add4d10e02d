"""C21: the load history of nonlinear statics (NonLin.tla) in STAT_NON_LINE studies."""
import json
from common import Check, Case
import deck, deckcheck, aster, vega
from vega import Study, toint, _tup

def value(fn, t):
    """A table of pairs at instant t, linear in between."""
    v = list(fn.kw["VALE"]); xs = [float(x) for x in v[::2]]; ys = [float(y) for y in v[1::2]]
    if fn.kw.get("NOM_PARA") != "INST" or len(xs) != len(ys) or xs != sorted(xs) or len(set(xs)) != len(xs): raise ValueError("table %s" % fn.name)
    for a, b, p, q in zip(xs, xs[1:], ys, ys[1:]):
        if a <= t <= b: return p + (q - p) * (t - a) / (b - a)
    raise ValueError("table %s has no value at %g" % (fn.name, t))
def instants(c):
    """(first, last, number of steps, archived list is the same) of a STAT_NON_LINE."""
    l = c.kw["INCREMENT"]["LIST_INST"]
    if l.cmd == "DEFI_LIST_INST": l = l.kw["DEFI_LIST"]["LIST_INST"]
    if l.cmd != "DEFI_LIST_REEL": raise ValueError("instants are a " + l.cmd)
    steps = _tup(l.kw["INTERVALLE"])
    return float(l.kw["DEBUT"]), float(steps[-1]["JUSQU_A"]), sum(int(s["NOMBRE"]) for s in steps) if len(steps) == 1 else -1
def observe(bins, events, dk):
    r = vega.translate(bins, dk, "ASTER")
    ok = r["rc"] == 0 and r["comm"] is not None and r["med"] is not None
    o = [{"ev": "obs", "o": "outcome", "ok": ok}]
    if not ok: return o
    bad = lambda w: {"ev": "obs", "o": "problem", "what": w}
    st = Study(r["comm"], r["med"])
    if st.error: return o + [bad(st.error)]
    nm = deck.nodemap(events, st)
    an = [a for a in aster.analyses(st)]
    o.append({"ev": "obs", "o": "ids", "list": [-1 if a[0] is None else a[0] for a in an]})
    done = []
    for i, (aid, cmd, ch, c) in enumerate(an):
        try:
            if cmd != "STAT_NON_LINE": raise ValueError("analysis by " + cmd)
            sup = aster.Charges(st, [x for x in ch if x.name.startswith("BL")])
            for p in sup.problems: raise ValueError(p)
            o.append({"ev": "obs", "an": i + 1, "o": "spc", "set": [[nm[n], q, toint(v, 4)] for n, q, v in sup.spc]})
            t0, t1, n = instants(c)
            ini = c.kw.get("ETAT_INIT"); frm = 0
            if ini is not None:
                src = ini["EVOL_NOLI"]
                while "reuse" in src.kw: src = src.kw["reuse"]      # results completed in place
                frm = next((k + 1 for k, x in enumerate(done) if x is src), -1)
            at = []
            for tau in (0, 1, 2, 4):
                t = t0 + (t1 - t0) * tau / 4; F = {}; G = {}
                for e in _tup(c.kw["EXCIT"]):
                    if e["CHARGE"].name.startswith("BL"):
                        if "FONC_MULT" in e: raise ValueError("supports multiplied by a function")
                        continue
                    f = value(e["FONC_MULT"], t) if "FONC_MULT" in e else 1.
                    C = aster.Charges(st, [e["CHARGE"]])
                    for p in C.problems: raise ValueError(p)
                    if C.imp or C.spc or C.rel or C.pres: raise ValueError("loads nobody asked for")
                    for k, v in C.forces.items(): F[k] = F.get(k, 0) + f * v
                    for v in C.gravity:
                        for k in range(3): G[k + 1] = G.get(k + 1, 0) + f * v[k]
                at.append({"tau": tau, "force": [[nm[a], b, toint(v, 16)] for (a, b), v in sorted(F.items()) if abs(v) > 1e-9],
                           "grav": [[k, toint(v, 16)] for k, v in sorted(G.items()) if abs(v) > 1e-9]})
            o.append({"ev": "obs", "an": i + 1, "o": "history", "from": frm, "t": [toint(t0), toint(t1)], "n": n, "at": at})
            done.append(c)
        except Exception as e: o.append(bad("analysis %d: %s %s" % (i + 1, type(e).__name__, e)))
    return o
def corrupt(o):
    h = [x for x in o if x.get("o") == "history"]
    if not h: return None
    x = h[len(h) // 2]; k = len(o) % 3
    if k == 0: x["n"] += 1
    elif k == 1: x["from"] += 1
    else: x["at"][1]["force"].append([1, 1, 3])
    return o
SOLS = ("106", "NLSTATIC")
def run(c):
    c.start_build()
    g = c.gen("G_Deck", cfg="G_Deck_nonlin", num=(700, 8000)[c.thorough], depth=200, timeout=300)
    c.mc("MC_NonLin", cfg="MC_NonLin_deep" if c.thorough else "MC_NonLin", must=("Open", "Step"))
    for w in ("drop", "all", "restart", "rest"): c.mc_bad("MC_NonLin", "MC_NonLin_" + w)
    seen = set(); cases = []
    for i, h in enumerate(g.result()):
        k = json.dumps(h)
        if k in seen: continue
        seen.add(k)
        dk = deck.render(h, sol=SOLS[i % 3 == 1])
        cases.append(Case("n%04d" % i, h, lambda bins, h=h, dk=dk: observe(bins, h, dk), dk, deckcheck.sigof(h)))
    c.conformance("T_Deck", cases, corrupt, shards=6)
    c.assumptions += ["STAT_NON_LINE adds up its excitations, each multiplied by its function of the instant (1 when it has none)",
                      "decks are generated over the card alphabet of G_Deck.tla (focus nonlin) with amounts and factors on a small integer grid"]
