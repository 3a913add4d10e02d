"""C12: MeshStore.tla against Mesh, its groups and NodeContainer (harness/h_mesh.cpp)."""
import subprocess
from common import Check, Case
def mk(name, h, exe="h_mesh"):
    txt = "\n".join("%s %s" % (e["o"], " ".join(map(str, e["a"]))) for e in h) + "\n"
    def run(bins):
        p = subprocess.run([bins[exe]], input=txt, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        ls = [l for l in p.stdout.split("\n") if l == "R" or l.startswith("R ")]
        o = [dict(e, res=[int(x) for x in l.split()[1:]]) for e, l in zip(h, ls)]
        if p.returncode or len(ls) != len(h): o.append({"ev": "obs", "o": "problem", "what": "stopped after %d operations, rc %d" % (len(ls), p.returncode)})
        return o
    return Case(name, [], run, txt)
def corrupt(o):
    for e in reversed(o):
        if e.get("o") in ("nodes", "k") and len(e["res"]) > 7: e["res"][5] += 1; return o
    return None
def run(c):
    c.start_build(("h_mesh",))
    c.mc("MC_MeshStore", cfg="MC_MeshStore_deep" if c.thorough else "MC_MeshStore", must=("Node", "Auto", "Res", "Cell", "Upd", "Group", "Drop", "Ren", "PutN", "PutC", "Take"), workers=4)
    for v in ("redefine", "auto", "update"): c.mc_bad("MC_MeshStore", "MC_MeshStore_" + v)
    g = c.gen("G_MeshStore", num=(1500, 15000)[c.thorough], depth=120)
    c.conformance("T_MeshStore", [mk("m%05d" % i, h) for i, h in enumerate(g.result())], corrupt, shards=6)
    c.assumptions += ["an explicit identifier is not used again for another cell", "groups that a container names are not removed or renamed", "a driver calls the public members of Mesh, NodeGroup, CellGroup and NodeContainer"]
