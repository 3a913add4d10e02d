"""Spelling of the physical lines of Layout.tla, and random layouts for whole decks."""
import random
TOKENS = [None, "1", "-12", "+3.5", "2.5-3", "THRU", "ABC", "1.E+5", "12345678", "-1.5D-3", "X-Y", ".5", "+ALL", "0", "-.25+07",
          "123456789.12345", "-1.234567890E-10", "A23456789012345", "-1234567890.5D+3"]
W = {"short": 8, "long": 16, "free": 0}
N = {"short": 8, "long": 4, "free": 8}

def place(s, w, align, keep1=False):
    if align == "r" and not keep1: return s.rjust(w)
    if align == "c" and not keep1: return s.center(w)
    return s.ljust(w)

def line(l, tok):
    """One physical line; tok maps a cell to its text ("" = blank)."""
    if l["k"] == "comment": return ["$", "$ a comment, with commas = and * signs", "$HMNAME COMP   1\"PART\"", "$$$ + continuation?"][l.get("v", 0) % 4]
    if l["k"] == "blank": return ["", "   ", "\t"][l.get("v", 0) % 3]
    if l["k"] == "lateral": return "   $ a comment further right"
    kw = l["kw"].lower() if l["lower"] else l["kw"]
    cells = [tok(c) for c in l["cells"]]
    fmt = l["fmt"]
    if fmt == "free":
        head = {"kw": kw, "auto": "", "plus": "+" if not l.get("v", 0) % 2 else "+A1"}[l["head"]]
        pad = (lambda s: {"l": s, "r": " " + s, "c": " " + s + " "}[l["align"]])
        out = ",".join([head] + [pad(c) for c in cells])
        if not cells: out = head + ","
        if l.get("comma") and not l["mark"] and len(cells) == 8: out += ","
        if l["mark"]: out += "," + ("+" if not l.get("v", 0) % 2 else "+A1")
    else:
        star = "*" if fmt == "long" else ""
        head = {"kw": kw + star, "auto": star, "plus": (star or "+") + ("" if not l.get("v", 0) % 2 else "A1")}[l["head"]]
        w = W[fmt]
        full = l["mark"] or l.get("full")
        if l["tabs"]:
            out = head + ("\t" if len(head) < 8 else "")
            for i, c in enumerate(cells):
                out += c if len(c) == w else c + "\t"
        else:
            out = head.ljust(8) + "".join(place(c, w, l["align"]) for c in cells)
        if l["mark"]: out += ("+A1" if fmt == "short" else "*A1")
        elif not full and not l["trail"] and not l["tabs"]:
            out = out[:8] + out[8:].rstrip()
            if l["head"] == "kw": out = out.rstrip()
        elif not full and l["trail"] and len(cells) == N[fmt]: pass
    if l["trail"] and not l["mark"] and fmt == "free" and cells: out += " "
    if l["dollar"]: out += "$ remark, 1"
    return out
def text(lines, tok=lambda c: TOKENS[c] if c else ""):
    """Physical lines -> text. A fixed format line followed by a '+' line is written in full."""
    ls = [l for l in lines]
    for i, l in enumerate(ls):
        l["v"] = (i * 7 + len(l["cells"])) % 12
    prev = None
    for l in ls:
        if l["k"] != "text": continue
        if l["head"] == "plus" and l["fmt"] == "short" and prev is not None and not prev["mark"]: prev["full"] = True
        prev = l
    eol = "\r\n" if ls and ls[0].get("crlf") else "\n"
    return eol.join(line(l, tok) for l in ls) + eol
def parse(tokens):
    """Strings handed out by the tokenizer -> cells."""
    inv = {t.upper(): i for i, t in enumerate(TOKENS) if t}
    return [0 if t == "" else inv.get(t, -1) for t in tokens]

# -- whole decks in random layouts (fields are already spelled)
def write(kw, fields, rng, fmts=("short", "long", "free", "mixed", "mixed2")):
    f = list(fields)
    while f and f[-1] == "": f.pop()
    fmt = rng.choice(fmts)
    cont = rng.choice(["auto", "mark"] if fmt == "long" else ["auto"] if fmt.startswith("mixed") else ["auto", "plus", "mark"])
    omit = cont == "auto" or (fmt == "free" and cont == "plus")
    inner = rng.random() < .2
    lines = []; i = 0
    while True:
        lf = {"mixed": ("short", "long"), "mixed2": ("long", "short")}.get(fmt, (fmt, fmt))[i % 2]
        x, f = f[:N[lf]], f[N[lf]:]
        if omit and (i == 0 or any(x)):
            while x and x[-1] == "": x.pop()
        else: x = x + [""] * (N[lf] - len(x))
        if i and inner: lines.append({"k": "comment", "cells": [], "v": rng.randrange(12)})
        lines.append(dict(k="text", kw=kw, head="kw" if i == 0 else ("auto" if cont == "auto" else "plus"), fmt=lf, cells=x, mark=cont == "mark" and bool(f),
                          align=rng.choice("lrc"), tabs=rng.random() < .15, dollar=rng.random() < .15, lower=rng.random() < .3, trail=rng.random() < .15, comma=rng.random() < .3))
        i += 1
        if not f: break
    r = rng.random()
    if r < .1: lines.append({"k": rng.choice(["comment", "blank", "lateral"]), "cells": []})
    return text(lines, lambda c: c)
