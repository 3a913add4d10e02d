"""The four checks decided by Deck.tla (C03 cases, C04 constraints, C05 loads, C06 relations)."""
import json
from common import Check, Case
import deck

WANT = {"cases": ("ids", "coms", "spc", "loads", "rel", "outcome"), "spc": ("spc", "outcome"), "loads": ("loads", "spc", "outcome"), "rel": ("rel", "rbe3", "spc", "outcome")}

def mkcase(name, ev, want, sig="", **kw):
    dk = deck.render(ev, **kw)
    return Case(name, ev, lambda bins: deck.observe(bins, ev, dk, want), dk, sig or sigof(ev))
def sigof(ev):
    return " ".join(sorted({e["k"] for e in ev if e["ev"] == "card"}))

def corrupt(o):
    """One field of one observation changed; the specification has to notice."""
    for x in o:
        if x.get("o") == "coms" and x["list"]:
            x["list"][-1]["of"][-1][1] += 1; return o
        if x.get("o") == "spc" and x["set"]:
            x["set"][len(x["set"]) // 2][2] += 4; return o
        if x.get("o") == "loads" and x["force"]:
            x["force"].pop(); return o
        if x.get("o") == "loads" and x["pres"]:
            x["pres"][0][2] *= -1; return o
        if x.get("o") == "rel" and x["rels"]:
            x["rels"][0][0][2] += 7; return o
        if x.get("o") == "rbe3" and x["list"]:
            x["list"][0]["sl"][0][2] += 1; return o
    return None


def models(c, focus):
    deep = "_deep" if c.thorough else ""
    if focus in ("spc", "loads"):
        c.mc("MC_Pipeline", cfg="MC_Pipeline" + deep, must=("ReadSub", "ReadCard", "Build", "Combine", "Combined", "Redundant", "Done"), workers=4)
        c.mc_bad("MC_Pipeline", "MC_Pipeline_scale" if focus == "loads" else "MC_Pipeline_spc")
    elif focus == "cases":
        c.mc("MC_CaseControl", cfg="MC_CaseControl" + deep, must=("Set", "Title", "Subcase", "Begin"))
        c.mc_bad("MC_CaseControl", "MC_CaseControl_leak")
    else:
        c.mc("MC_Rel", cfg="MC_Rel" + deep, must=("Add", "Mix"), workers=4)
        c.mc_bad("MC_Rel", "MC_Rel_arm")

NUM = {"cases": (1000, 8000), "spc": (1200, 12000), "loads": (1500, 12000), "rel": (1000, 6000)}
def run(c, focus, extra=()):
    c.start_build()
    g = c.gen("G_Deck", cfg="G_Deck_" + focus, num=NUM[focus][c.thorough], depth=200, timeout=300)
    models(c, focus)
    seen = set(); cases = []
    for i, h in enumerate(g.result()):
        k = json.dumps(h)
        if k in seen: continue
        seen.add(k)
        cases.append(mkcase("g%04d" % i, h, WANT[focus]))
    cases += list(extra)
    c.conformance("T_Deck", cases, corrupt, shards=6 if len(cases) > 150 else 4)
    c.assumptions += ["decks are generated over the card alphabet of G_Deck.tla with coordinates, amounts and factors on a small integer grid",
                      "vegapp is built from /repo's working tree; the projection reads the .comm as Python calls and the MED file through the MED library"]
