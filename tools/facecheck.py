"""C20: Faces.tla against Cell's face tables (harness/h_faces.cpp)."""
import subprocess
from common import Case
def mk(name, h):
    n = h[0]["n"]; asks = [e for e in h if e["ev"] == "ask"]
    txt = "elem %s %s\n" % (h[0]["shape"], " ".join(map(str, n))) + "".join("ask %d %d\n" % (n[e["a"] - 1], n[e["b"] - 1] if e["b"] else 0) for e in asks)
    def run(bins):
        p = subprocess.run([bins["h_faces"]], input=txt, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        ls = [l.split() for l in p.stdout.split("\n") if l.startswith("R ")]
        L = lambda k: [[int(x) for x in l[2:]] for l in ls if l[1] == k]
        o = [{"ev": "obs", "o": "faces", "list": L("f")}] + [{"ev": "obs", "o": "corners", "list": x} for x in L("c")]
        o += [{"ev": "obs", "o": "face", "a": e["a"], "b": e["b"], "list": x} for e, x in zip(asks, L("a"))]
        if p.returncode or len(L("a")) != len(asks): o.append({"ev": "obs", "o": "problem", "what": "stopped, rc %d %s" % (p.returncode, p.stderr[-200:])})
        return o
    return Case(name, h[:1], run, txt, sig=h[0]["shape"])
def corrupt(o):
    f = o[0]["list"]
    if f: f[0] = f[0][::-1]; return o
def run(c):
    c.start_build(("h_faces",))
    c.mc("MC_Faces", cfg="MC_Faces_deep" if c.thorough else "MC_Faces", must=("Add", "Convert", "Ask"), workers=4)
    for v in ("mid", "order"): c.mc_bad("MC_Faces", "MC_Faces_" + v)
    g = c.gen("G_Faces", num=(600, 6000)[c.thorough], depth=30)
    c.conformance("T_Faces", [mk("f%05d" % i, h) for i, h in enumerate(g.result())], corrupt, shards=4)
    c.assumptions += ["faces of tetrahedra, pyramids, pentahedra and hexahedra with and without mid side nodes; faces are asked for by corners"]
