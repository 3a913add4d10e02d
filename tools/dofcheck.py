"""C11: Dofs.tla against DOFS, DOFMatrix and DOFCoefs (operations executed by harness/h_dofs.cpp)."""
import subprocess
from common import Check, Case
def mk(name, h):
    txt = "\n".join("%s %s" % (e["o"], " ".join(map(str, e["a"]))) for e in h) + "\n"
    def run(bins):
        p = subprocess.run([bins["h_dofs"]], input=txt, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        ls = p.stdout.split("\n")[:-1]
        o = [dict(e, res=[int(x) for x in l.split()]) for e, l in zip(h, ls)]
        if p.returncode or len(ls) != len(h): o.append({"ev": "obs", "o": "problem", "what": "stopped after %d operations, rc %d" % (len(ls), p.returncode)})
        return o
    return Case(name, [], run, txt)
def corrupt(o):
    for e in reversed(o):
        if e.get("o") == "mq": e["res"][7] += 1; return o
    return None
def run(c):
    c.start_build(("h_dofs",))
    c.mc("MC_Dofs", cfg="MC_Dofs_deep" if c.thorough else "MC_Dofs", must=("SetD", "Swap", "Sub", "Join", "Add", "Transpose"), workers=4)
    c.mc_bad("MC_Dofs", "MC_Dofs_norm"); c.mc_bad("MC_Dofs", "MC_Dofs_xor")
    g = c.gen("G_Dofs", num=(3000, 30000)[c.thorough], depth=40)
    cases = [mk("all", [{"ev": "op", "o": "pairs", "a": []}, {"ev": "op", "o": "singles", "a": []}])]
    cases += [mk("d%05d" % i, h) for i, h in enumerate(g.result())]
    c.conformance("T_Dofs", cases, corrupt, shards=6)
    c.assumptions += ["matrix values are small integers", "the driver calls the public members of DOFS, DOFMatrix and DOFCoefs"]
