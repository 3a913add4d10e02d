"""C13: Order.tla: the same cards in different orders, and the same deck twice."""
import re, json, random, hashlib
from common import Case
import vega, canon, deck, propcheck, meshio, framecheck, discretecheck
from vega import Study
def split(text):
    """(head, cards, tail) of a deck"""
    i = text.index("BEGIN BULK\n") + len("BEGIN BULK\n"); j = text.rindex("ENDDATA")
    cards = []
    for line in text[i:j].split("\n"):
        if not line.strip(): continue
        if cards and (line[:1] in (" ", "+", "*", ",")): cards[-1] += line + "\n"
        else: cards.append(line + "\n")
    return text[:i], cards, text[j:]
DEFS = ("GRID", "CORD", "GRDSET", "MAT", "PARAM")
def orders(cards, rng, n):
    """permutations of 1..len(cards): reversed, definitions last, by keyword, and random ones"""
    idx = list(range(len(cards))); out = []
    isdef = lambda i: cards[i].startswith(DEFS)
    kinds = [idx[::-1], [i for i in idx if not isdef(i)] + [i for i in idx if isdef(i)], sorted(idx, key=lambda i: cards[i][:8]), sorted(idx, key=lambda i: cards[i][:8], reverse=True)]
    for k in range(n):
        p = list(kinds[rng.randrange(len(kinds))]) if rng.random() < .35 else None
        if p is None:
            p = list(idx); rng.shuffle(p)
        out.append(p)
    return out
def dated(s):
    """without the day the file was written"""
    return re.sub(r"\b20\d\d-\d\d-\d\d\b", "DAY", s)
def translation(bins, text, perm, cards):
    r = vega.translate(bins, text, "ASTER"); it = []
    if r["comm"] is not None: it = canon.items(Study(r["comm"], r["med"]))
    return {"ev": "obs", "o": "translation", "rc": r["rc"], "order": [i + 1 for i in perm], "items": it}
def files(bins, text, target):
    r = vega.translate(bins, text, target)
    if target == "ASTER": t = [r["comm"] or "", json.dumps(r["med"])]
    else: t = [f + "\n" + (r["files"][f] or "") for f in sorted(r["files"])]
    return "%d %s" % (r["rc"], hashlib.sha1("\n".join(map(dated, t)).encode()).hexdigest())
def observe(bins, head, cards, tail, perms, repeat, differed):
    """differed: what was seen once is kept, two files for one deck need no second demonstration"""
    o = []
    for p in [list(range(len(cards)))] + perms: o.append(translation(bins, head + "".join(cards[i] for i in p) + tail, p, cards))
    for t in repeat:
        x = head + "".join(cards) + tail
        a, b = differed.get(t) or (files(bins, x, t), files(bins, x, t))
        if a != b: differed[t] = a, b
        o.append({"ev": "obs", "o": "repeat", "target": t, "first": a, "second": b})
    return o
def mk(c, name, text, n, repeat=()):
    head, cards, tail = split(text)
    perms = orders(cards, random.Random("%s %d" % (name, c.seed)), n)
    differed = {}
    case = Case(name, [{"ev": "bag", "n": len(cards)}], lambda bins: observe(bins, head, cards, tail, perms, repeat, differed), text, " ".join(sorted({k.split()[0].split(",")[0].strip("*") for k in cards})))
    return case
def corrupt(o):
    t = [x for x in o if x.get("o") == "translation"]
    if t and len(t[-1]["items"]) > 3:
        x = t[-1]["items"][3]; t[-1]["items"] = [y for y in t[-1]["items"] if y != x]; return o
FOCI = ("cases", "spc", "loads", "rel")
def springs(h):
    """direct matrices are cut into segments named and directed by the order of the cards (C09 says what their sum is)"""
    return discretecheck.render([e for e in h if e["k"] not in ("DMIG", "CMASS2")])
def run(c):
    c.start_build()
    k = 10 if c.thorough else 1
    gs = [(f, c.gen("G_Deck", cfg="G_Deck_" + f, num=60 * k, depth=250, timeout=400), deck.render) for f in FOCI]
    gs += [("props", c.gen("G_Props", num=90 * k, depth=120, timeout=400), propcheck.render), ("mesh", c.gen("G_MeshIO", num=90 * k, depth=400, timeout=400), meshio.render)]
    gs += [("discrete", c.gen("G_Discrete", num=90 * k, depth=300, timeout=400), springs)]
    gs += [("frames", c.gen("G_LocalFrames", num=90 * k, depth=300, timeout=400), framecheck.render)]
    c.mc("MC_Order", cfg="MC_Order_deep" if c.thorough else "MC_Order", must=("ReadCard", "Resolve"), workers=4)
    for v in ("eager", "twice", "default"): c.mc_bad("MC_Order", "MC_Order_" + v)
    cases = []
    for f, g, render in gs:
        for i, h in enumerate(g.result()):
            text = render(h["hist"] if isinstance(h, dict) else h)
            if not re.search(r"^C(?!END|ORD)[A-Z]", text.partition("BEGIN BULK")[2], re.M): continue   # nothing to analyse
            cases.append(mk(c, "%s%04d" % (f, i), text, 3, ("ASTER", "NASTRAN", "SYSTUS")[i % 3:i % 3 + 1]))
    c.conformance("T_Order", cases, corrupt, shards=6)
