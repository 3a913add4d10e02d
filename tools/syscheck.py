"""C19: SysOut.tla: what the Systus model files hold, judged like the Code_Aster study of the same deck."""
import json, re
from common import Case
from vega import toint, NOTINT
import deck, deckcheck, framecheck, meshio, vega

class Asc:
    """One _SCn_DATA1.ASC file."""
    def __init__(self, text):
        self.error = None; sec = {}; cur = None; self.head = {}
        for line in text.split("\n"):
            if line.startswith("BEGIN_"): w = line.split(); cur = w[0][6:]; sec[cur] = []; self.head[cur] = w[1:]; continue
            if line.startswith("END_"): cur = None; continue
            if cur: sec[cur].append(line)
        T = lambda k: [l.split() for l in sec.get(k, [])]
        I = lambda xs: [int(x) for x in xs]
        self.text1 = text.split("\n")[2].split()
        self.nodes = {}; self.dupnodes = 0
        for w in T("NODES"):
            self.dupnodes += int(w[0]) in self.nodes
            self.nodes[int(w[0])] = {"const": int(w[1]), "angl": int(w[3]), "sol": int(w[4]), "disp": int(w[5]), "x": [float(v) for v in w[6:9]]}
        self.els = []
        for w in T("ELEMENTS"):
            i = 5 if w[4] == "0" else None   # without orientation: identifier, type, material, list, 0, nodes
            self.els.append((int(w[0]), w[1], int(w[2]), int(w[3]), w[4:]))
        self.lists = {int(w[0]): [(int(w[i]), int(w[i + 1])) for i in range(1, len(w) - 1, 2)] for w in T("LISTS")}
        self.vectors = {int(w[0]): [float(x) for x in w[1:]] for w in T("VECTORS")}
        self.loads = {}
        for l in sec.get("LOADS", []):
            m = re.match(r'(\d+) "(.*)" (.*)$', l)
            self.loads[int(m.group(1))] = (m.group(2), I(m.group(3).split()[1:2])[0])
        self.groups = []
        for l in sec.get("GROUPS", []):
            m = re.match(r'\d+ (\S+) (\d) 0 "[^"]*"\s+"[^"]*"\s+"[^"]*"(.*)$', l)
            self.groups.append((m.group(1), int(m.group(2)), I(m.group(3).split())))
        self.counts = {k: (int(self.head[k][0]), len(sec[k])) for k in ("NODES", "ELEMENTS", "GROUPS", "LOADS", "LISTS", "VECTORS")}
    def elnodes(self, e):
        """the node identifiers end the line"""
        return [int(x) for x in e[4][-int(e[1][-2:]):]]

def files(r, name="deck"):
    out = []
    for k in sorted((f for f in r["files"] if re.match(r".*_SC\d+_DATA1\.ASC$", f)), key=lambda f: int(re.search(r"_SC(\d+)_", f).group(1))):
        out.append(Asc(r["files"][k]))
    return out
def problem(what): return [{"ev": "obs", "o": "problem", "what": what}]
def counts(a, o):
    for k, (said, have) in a.counts.items():
        if said != have: o += problem("%s: %d announced, %d written" % (k, said, have))
def observe_mesh(bins, dk):
    r = vega.translate(bins, dk, "SYSTUS")
    fs = files(r) if r["rc"] == 0 else []
    if not fs: return problem("translation failed rc=%s %s" % (r["rc"], r["log"][-300:]))
    a = fs[0]; of = {}; o = []
    for n, kind, ids in a.groups:
        if kind == 2:
            for i in ids: of.setdefault(i, []).append(n)
    counts(a, o)
    return o + [{"ev": "obs", "o": "sysnodes", "list": [[i] + [toint(v, 1000) for v in n["x"]] for i, n in a.nodes.items()], "dup": a.dupnodes},
                {"ev": "obs", "o": "syscells", "list": [{"id": e[0], "t": int(e[1]), "n": a.elnodes(e), "grp": sorted(g for g in of.get(e[0], []) if g.startswith(("PROP_", "CONROD_")))} for e in a.els]}]
def observe(bins, events, dk, opts=()):
    r = vega.translate(bins, dk, "SYSTUS", opts)
    fs = files(r) if r["rc"] == 0 else []
    if not fs: return [{"ev": "obs", "o": "outcome", "ok": False}]
    o = [{"ev": "obs", "o": "outcome", "ok": True}]
    subs = [e["id"] for e in events if e["k"] == "SUB"]; seen = {}
    for a in fs:
        counts(a, o)
        by = {}
        for k, (label, grav) in a.loads.items():
            m = re.match(r"(.*)_LOAD\d+$", label); by.setdefault(m.group(1) if m else label, []).append((k, grav))
        for label, ks in by.items():
            m = re.match(r"Analysis_(\d+)$", label)
            i = int(m.group(1)) if m else 0
            seen[i] = seen.get(i, 0) + 1
            ls = {k for k, g in ks}; force = {}; imp = {}; grav = {}; blocked = []
            for nid, n in a.nodes.items():
                blocked += [(nid, q) for q in range(1, 7) if n["const"] >> (q - 1) & 1]
                for l, v in a.lists.get(n["sol"], []):
                    if l in ls:
                        for q, x in enumerate(a.vectors[v][6:]): force[nid, q + 1] = force.get((nid, q + 1), 0) + x
                for l, v in a.lists.get(n["disp"], []):
                    if l in ls:
                        for q, x in enumerate(a.vectors[v][6:]):
                            if x: imp.setdefault((nid, q + 1), set()).add(x)
            for k, g in ks:
                if g:
                    for q in range(3): x = a.vectors[g][6 + 2 * q]; grav[q + 1] = grav.get(q + 1, 0) + x
            base = {"ev": "obs", "label": i}
            o.append(dict(base, o="sysspc", blocked=sorted(blocked)))
            o.append(dict(base, o="sysimp", list=[[n, q, toint(x, 4)] for (n, q), xs in sorted(imp.items()) for x in sorted(xs)]))
            o.append(dict(base, o="sysload", force=[[n, q, toint(x, 4)] for (n, q), x in sorted(force.items()) if abs(x) > 1e-12], grav=[[q, toint(x, 4)] for q, x in sorted(grav.items()) if abs(x) > 1e-12]))
    o.append({"ev": "obs", "o": "syscases", "list": sorted(seen), "once": all(v == 1 for v in seen.values())})
    return o
def mkdeck(name, ev, grouping=0, **kw):
    dk = deck.render(ev, **kw)
    ids = [e["id"] for e in ev if e["k"] == "SUB"]
    # the grouping of analyses in files: chosen by vegapp, one file each, or listed by the user
    opts = [] if grouping == 0 else ["--systus.Subcase", "single"] if grouping == 1 or not ids else [x for i in reversed(ids) for x in ("--systus.Subcase", str(i))]
    return Case(name, ev, lambda bins: observe(bins, ev, dk, opts), dk, " ".join([deckcheck.sigof(ev)] + opts[:2]))
def mkmesh(name, h):
    dk = meshio.render(h)
    return Case(name, h, lambda bins: observe_mesh(bins, dk), dk, " ".join(sorted({e.get("t", e["k"]) if e["k"] == "EL" else e["k"] for e in h})))
def corrupt(o):
    for x in o:
        if x.get("o") == "sysspc" and x["blocked"]: x["blocked"] = x["blocked"][1:]; return o
        if x.get("o") == "sysload" and x["force"]: x["force"].pop(); return o
        if x.get("o") == "sysnodes": x["list"][0][2] += 1000; return o
        if x.get("o") == "rows" and x["list"]: x["list"][0]["t"][0][1] = x["list"][0]["t"][0][1] % 6 + 1; return o
    return None
# ---- local systems (LocalFrames.tla): the rows that the masks, angles and vectors of a file mean
def axes(an):
    """the axes of a nodal system given by three angles: turned about z, then the new y, then the new x"""
    from math import sin, cos
    (ps, th, ph) = an
    cp, sp, ct, st, cf, sf = cos(ps), sin(ps), cos(th), sin(th), cos(ph), sin(ph)
    return [[cp * ct, sp * ct, -st], [cp * st * sf - sp * cf, sp * st * sf + cp * cf, ct * sf], [cp * st * cf + sp * sf, sp * st * cf - cp * sf, ct * cf]]
def observe_frames(bins, dk):
    r = vega.translate(bins, dk, "SYSTUS")
    fs = files(r) if r["rc"] == 0 else []
    if len(fs) != 1: return problem("translation failed rc=%s %s" % (r["rc"], r["log"][-300:]))
    a = fs[0]; o = []; rows = []; load = {"FORCE": [], "MOMENT": []}
    counts(a, o)
    for i, (nid, n) in enumerate(a.nodes.items()):
        ax = axes(a.vectors[n["angl"]][6:9]) if n["angl"] else [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
        val = [0.0] * 6
        for l, v in a.lists.get(n["disp"], []):
            for q, x in enumerate(a.vectors[v][6:]): val[q] += x
        for q in range(6):
            if n["const"] >> q & 1: rows.append(framecheck.primitive([(i, k + 1 + 3 * (q // 3), x) for k, x in enumerate(ax[q % 3])], val[q]))
        f = [0.0] * 6
        for l, v in a.lists.get(n["sol"], []):
            for q, x in enumerate(a.vectors[v][6:]): f[q] += x
        for k, w in (("FORCE", f[:3]), ("MOMENT", f[3:])):
            if any(abs(x) > 1e-9 for x in w): load[k].append([i + 1, [toint(x, 1000) for x in w]])
    return o + [{"ev": "obs", "o": "nodes", "list": [[toint(v, 1000) for v in n["x"]] for n in a.nodes.values()]}, {"ev": "obs", "o": "rows", "list": rows}, dict(ev="obs", o="loads", **load)]
def mkframe(name, h):
    h = [e for e in h if e["k"] != "MPC"]     # relations are elements of Systus
    dk = framecheck.render(h)
    return Case(name, h, lambda bins: observe_frames(bins, dk), dk, " ".join(sorted({e["k"] for e in h})))
def run(c):
    c.start_build()
    g = c.gen("G_Deck", cfg="G_Deck_systus", num=(1400, 7000)[c.thorough], depth=200, timeout=300)
    m = c.gen("G_MeshIO", num=(900, 5000)[c.thorough], depth=400, timeout=400)
    f = c.gen("G_LocalFrames", num=(700, 4000)[c.thorough], depth=300, timeout=400)
    c.mc("MC_SysOut", cfg="MC_SysOut_deep" if c.thorough else "MC_SysOut", must=("Group", "Begin", "Fill", "Write", "Done"))
    for v in ("count", "loads", "stale", "restart"): c.mc_bad("MC_SysOut", "MC_SysOut_" + v)
    seen = set(); cases = []
    for i, h in enumerate(g.result()):
        k = json.dumps(h)
        if k not in seen: seen.add(k); cases.append(mkdeck("s%04d" % i, h, (0, 0, 1, 0, 2)[i % 5]))
    c.conformance("T_SysOut", cases, corrupt, shards=6)
    # elements that Systus does not have are outside the property
    ms = [h for h in m.result() if not any(e["k"] == "EL" and e["t"] == "CPYRAM" and len(e["n"]) == 13 for e in h)]
    c.conformance("T_SysMesh", [mkmesh("m%05d" % i, h) for i, h in enumerate(ms)], corrupt, shards=6)
    c.conformance("T_LocalFrames", [mkframe("f%05d" % i, h) for i, h in enumerate(f.result())], corrupt, shards=6)
    c.assumptions += ["decks and meshes as in C04, C05 and C07; the Systus files are read as the Systus ASCII format"]
