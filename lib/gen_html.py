"""Histories of operations of the HTML writer."""
import itertools
STY = ["pre", "in_line", "flat", "block"]
def b(t): return [x & 255 for x in (t.encode("latin-1") if isinstance(t, str) else t)]
IDS = ["b", "p", "div", "h1", "c-kw", "_x", "A9", "ul-li"]
BADIDS = ["", "1a", "a b", "a>", "é"]
TEXTS = ["", "a", "a b", "<b>", "a & b", "\"q\"", "x\ny", "\n", "x\n", "\n\nx", "a\n b\n\nc", "&lt;", "tab\there", "\r", "<", ">", "&", "a<b>c&d", "é\x80\xff", " "]
VALS = ["", "v", "a b", "\"", "&", "a/b", "/", "'", "`", "=", "<", ">", "a\nb", "\t", "\r", "x&quot;y", "-1", "\"&\"", "#f", "é"]
COMM = ["", "c", " a < b ", "a-->b", "--", "x\ny", "- >", "&"]
def bad_comment(t):      # HTML reads these differently; see DESIGN.md
    return t.startswith(">") or t.startswith("->") or "--!>" in t or t.endswith("-") or t == "--"

def span(r, lo):
    l = lo["l"] + r.choice([0, 0, 0, 1, 2])
    same = l == lo["l"]
    d = r.choice([0, 0, 1, 3])
    c = lo["c"] + lo["n"] + d if same else r.choice([0, 0, 2, 5])
    return {"b": lo["b"] + lo["n"] + (d if same else 1 + c), "n": r.choice([0, 1, 3]), "l": l, "c": c}

def op(r, k, stk):
    st = r.choice(STY)
    if k == "preamble" or k in ("endattr", "endempty", "drop"): return {"o": k}
    if k in ("empty", "begin", "beginattr"):
        return {"o": k, "id": b(r.choice(IDS if r.random() < .93 else BADIDS)), "st": st}
    if k == "comment":
        t = r.choice(COMM)
        return {"o": k, "t": b(t if not bad_comment(t) else "c"), "st": st}
    if k == "attr": return {"o": k, "id": b(r.choice(IDS if r.random() < .93 else BADIDS)), "t": b(r.choice(VALS))}
    if k == "text": return {"o": k, "t": b(r.choice(TEXTS)), "st": st}
    if k == "white": return {"o": k, "c": r.choice([32, 32, 10, 9, 13, 97, 0]), "n": r.randrange(4)}
    if k == "gap":
        f = {"b": r.randrange(9), "n": r.randrange(4), "l": r.randrange(3), "c": r.randrange(9)}
        g = span(r, f)
        if r.random() < .1: f, g = dict(g, l=g["l"] + 1), f
        return {"o": k, "f": f, "g": g, "st": st}
    if k == "end": return dict(stk[-1], o="end") if stk else {"o": "end", "id": b("b"), "st": "pre"}

def history(r, n, wrong):
    """Mostly permitted operations; `wrong` is the chance of one that does not fit."""
    ops, mode, stk, cur = [], "initial", [], None
    for _ in range(n):
        fits = {"initial": ["preamble"], "attributes": ["attr", "attr", "endattr", "endattr", "endempty"],
                "content": ["begin", "begin", "beginattr", "end", "end", "text", "text", "text", "empty", "comment", "white", "gap"]}[mode]
        allk = ["preamble", "empty", "comment", "begin", "beginattr", "attr", "endattr", "endempty", "end", "text", "white", "gap"]
        k = r.choice(allk) if r.random() < wrong else r.choice(fits)
        if k == "end" and not stk and mode == "content" and r.random() < .8: k = "begin"
        o = op(r, k, stk)
        ops.append(o)
        okid = "id" not in o or (o["id"] and bytes(o["id"]).decode("latin-1") not in BADIDS)
        if k == "preamble" and mode == "initial": mode = "content"
        elif mode == "content" and okid:
            if k == "begin": stk.append({"id": o["id"], "st": o["st"]})
            elif k == "beginattr": mode, cur = "attributes", {"id": o["id"], "st": o["st"]}
            elif k == "end" and stk: stk.pop()
        elif mode == "attributes":
            if k == "endattr": mode = "content"; stk.append(cur)
            elif k == "endempty": mode = "content"
    if r.random() < .7:
        if mode == "attributes": ops.append({"o": "endattr"}); stk.append(cur); mode = "content"
        while stk and mode == "content": ops.append(dict(stk.pop(), o="end"))
    ops.append({"o": "drop"})
    return ops

SMALL = ([{"o": "empty", "id": b("br"), "st": "in_line"}, {"o": "empty", "id": b("hr"), "st": "block"},
          {"o": "begin", "id": b("b"), "st": "pre"}, {"o": "begin", "id": b("b"), "st": "in_line"},
          {"o": "begin", "id": b("p"), "st": "flat"}, {"o": "begin", "id": b("p"), "st": "block"},
          {"o": "beginattr", "id": b("a"), "st": "in_line"}, {"o": "beginattr", "id": b("d"), "st": "block"},
          {"o": "attr", "id": b("k"), "t": b("")}, {"o": "attr", "id": b("k"), "t": b("v")}, {"o": "attr", "id": b("k"), "t": b("a\"b")},
          {"o": "endattr"}, {"o": "endempty"}, {"o": "end"}, {"o": "preamble"}, {"o": "comment", "t": b("c"), "st": "block"},
          {"o": "text", "t": b("a<"), "st": "pre"}, {"o": "text", "t": b("a\nb&"), "st": "in_line"}, {"o": "text", "t": b("x"), "st": "block"},
          {"o": "text", "t": b(""), "st": "block"}, {"o": "white", "c": 10, "n": 1}])
def small(n):
    """all histories of n operations behind the preamble, closing tags made to fit"""
    for ops in itertools.product(SMALL, repeat=n):
        stk, cur, out = [], None, [{"o": "preamble"}]
        for o in ops:
            if o["o"] == "end": o = dict(stk[-1], o="end") if stk else {"o": "end", "id": b("b"), "st": "pre"}
            out.append(o)
            if cur is None:
                if o["o"] == "begin": stk = stk + [{"id": o["id"], "st": o["st"]}]
                elif o["o"] == "beginattr": cur = {"id": o["id"], "st": o["st"]}
                elif o["o"] == "end" and stk: stk = stk[:-1]
            elif o["o"] == "endattr": stk, cur = stk + [cur], None
            elif o["o"] == "endempty": cur = None
        yield out
