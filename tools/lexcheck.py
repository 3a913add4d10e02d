"""C01: Layout.tla against the tokenizer (all layouts of token decks) and against whole translations."""
import json, subprocess, random
from common import Check, Case
import common, layout, deck, deckcheck

def tokens(bins, txt):
    p = subprocess.run([bins["h_tokens"]], input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    try: o = json.loads(p.stdout)
    except ValueError: return [{"ev": "obs", "o": "problem", "what": "no answer, rc %d %s" % (p.returncode, p.stderr[-200:].decode("latin1"))}]
    if isinstance(o, dict): return [{"ev": "obs", "o": "problem", "what": o["error"]}]
    return [{"ev": "obs", "o": "cards", "list": [{"kw": c[0], "f": layout.parse(c[1:])} for c in o if any(c)]}]
def mk(name, h, sig=""):
    txt = layout.text(h)
    return Case(name, h, lambda bins: tokens(bins, txt), txt, sig or name)
def corrupt(o):
    if o[0].get("o") == "cards" and any(c["f"] for c in o[0]["list"]):
        c = next(c for c in o[0]["list"] if c["f"]); c["f"][len(c["f"]) // 2] += 1; return o
def fixed(name, h, txt, sig):
    return Case(name, h, lambda bins: tokens(bins, txt), txt, sig)
def includes(bulk, rng, files):
    """Moves runs of cards to files that INCLUDE lines read where the cards stood, one of them from another one."""
    def cut(b, depth):
        for _ in range(rng.randrange(1, 4)):
            if len(b) < 2: break
            i = rng.randrange(len(b)); j = rng.randrange(i, len(b)) + 1
            part = b[i:j]
            if depth == 0 and rng.random() < .4: part = cut(part, 1)
            name = "%s%d.%s" % (rng.choice(["part", "Part_", "MESH-", "a.b"]), len(files), rng.choice(["inc", "INC", "bdf"]))
            txt = "".join(part)
            if rng.random() < .3: txt = txt.rstrip("\n")
            files[name] = txt
            q = rng.choice(["%s", "'%s'"])
            b = b[:i] + [rng.choice(["INCLUDE ", "include ", "Include  "]) + q % name + rng.choice(["", "  ", " $ parts"]) + "\n"] + b[j:]
        return b
    return cut(bulk, 0)
L = lambda head, fmt, cells, kw="AAA", mark=False: dict(ev="line", k="text", kw=kw, head=head, fmt=fmt, cells=cells, mark=mark)
def known():
    """Layouts on record: a '+' continuation after a line that stops early."""
    h = [L("kw", "short", [1, 2]), L("plus", "short", [3, 4])]
    return [fixed("known:plus-after-short", h, "AAA     1       -12\n+       +3.5    2.5-3\n", "plus-after-short")]

def run(c):
    c.start_build(("vegapp", "meddump", "h_tokens"))
    c.mc("MC_Layout", cfg="MC_Layout_deep" if c.thorough else "MC_Layout", must=("Lay", "Read"))
    c.mc_bad("MC_Layout", "MC_Layout_pad")
    g = c.gen("G_Lexer", num=(3000, 30000)[c.thorough], depth=120)
    g2 = c.gen("G_Deck", cfg="G_Deck_loads", num=(150, 1500)[c.thorough], depth=200)
    g3 = c.gen("G_Deck", cfg="G_Deck_rel", num=(150, 1500)[c.thorough], depth=200)
    seen = set(); cases = []
    for i, h in enumerate(g.result()):
        k = json.dumps(h)
        if k in seen: continue
        seen.add(k); cases.append(mk("t%05d" % i, h))
    c.conformance("T_Lexer", cases + known(), corrupt, shards=4)
    rng = random.Random(c.seed)
    dcases = []
    for focus, gg in (("loads", g2), ("rel", g3)):
        for i, h in enumerate(gg.result()):
            common.LAYOUT = lambda kw, fs: layout.write(kw, fs, rng)
            files = {}
            try: dk = deck.render(h, perm=(lambda b: includes(b, rng, files)) if rng.random() < .4 else None)
            finally: common.LAYOUT = None
            if rng.random() < .1: dk = dk.replace("\n", "\r\n")
            shown = dk + "".join("\n--- %s\n%s" % f for f in files.items())
            dcases.append(Case("%s%04d" % (focus, i), h, lambda bins, h=h, dk=dk, focus=focus, files=files: deck.observe(bins, h, dk, deckcheck.WANT[focus], extra=files), shown))
    c.conformance("T_Deck", dcases, deckcheck.corrupt, shards=4)
    c.assumptions += ["a fixed format line that announces or precedes a '+' continuation is written in full (72 columns)",
                      "long format lines are continued by '*' lines", "token texts are unique, so equality of tokens is equality of fields"]
