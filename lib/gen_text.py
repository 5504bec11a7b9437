"""Random scripts that follow the grammar (as token lists), layouts, and mutations of both."""
import itertools
KW = ["as", "if", "else", "let", "const", "Int", "Uint", "Bool", "Void", "while", "break", "continue", "return",
      "function", "true", "false", "requires", "static_assert"]
SYM = ["(", ")", "{", "}", "=", "==", "=>", "+", "-", "->", "*", "/", "%", "<", "<<", "<=", ">", ">>", ">=", "&",
       "&&", "|", "||", "^", "~", "!", "!=", ":", ";", ".", ",", "@"]
LIT = ["0", "7", "10", "0b1", "0b10", "017", "00", "0x1F", "0xab", "123", "true", "false"]
IDS = ["a", "b", "x", "foo", "_y", "Int1", "as_", "iff", "N"]
STR = ['"s"', '""', '"a b"', '"q\\"r"', '"//"', '"\\\\"']
BINS = ["&&", "||", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]
ARITHS = ["+", "-", "*", "/", "%"]
CMPS = ["==", "!=", "<", ">", "<=", ">="]

class Gram:
    """Derives random sentences of src/bms/parsing/grammar.ebnf."""
    def __init__(self, r, depth=4):
        self.r, self.d = r, depth
    def ch(self, *xs): return self.r.choice(xs)
    def p(self, x): return self.r.random() < x
    def id(self): return self.r.choice(IDS)
    def expr(self, d):
        k = self.r.random()
        if d <= 0: return self.prefix(0)
        if k < .25: return self.prefix(d) + ["as"] + self.type(d - 1)
        return self.if_expr(d)
    def if_expr(self, d):
        if d > 0 and self.p(.25):
            return self.binary(d - 1) + ["if"] + self.binary(d - 1) + ["else"] + self.if_expr(d - 1)
        return self.binary(d)
    def binary(self, d):
        if d <= 0 or self.p(.4): return self.prefix(d)
        op = self.ch(*BINS)
        if op in CMPS: return self.arith(d - 1) + [op] + self.arith(d - 1)
        return self.prefix(d - 1) + [op] + self.prefix(d - 1)
    def arith(self, d):
        if d > 0 and self.p(.4): return self.prefix(d - 1) + [self.ch(*ARITHS)] + self.prefix(d - 1)
        return self.prefix(d)
    def prefix(self, d):
        return ([self.ch("+", "-", "~", "!")] if self.p(.2) else []) + self.postfix(d)
    def postfix(self, d):
        if d > 0 and self.p(.2): return self.call(d - 1) + (self.anns(d) if self.p(.1) else [])
        return self.primary(d)
    def call(self, d):
        n = self.r.randrange(4)
        out = [self.id(), "("]
        for i in range(n):
            out += ([","] if i else []) + self.expr(d - 1)
        return out + [")"]
    def primary(self, d):
        k = self.r.random()
        if d > 0 and k < .25: return ["("] + self.expr(d - 1) + [")"]
        return [self.ch(*LIT)] if k < .6 else [self.id()]
    def type(self, d):
        k = self.r.randrange(5)
        return [["Void"], ["Bool"], ["Int"]][k] if k < 3 else ["Uint", "("] + self.expr(d - 1) + [")"]
    def anns(self, d):
        out = []
        for _ in range(self.r.randrange(1, 3)):
            out += ["@", self.id()]
            n = self.r.randrange(-1, 3)
            if n >= 0:
                out.append("(")
                for i in range(n):
                    out += ([","] if i else []) + ([self.id(), "="] if self.p(.4) else []) + [self.ch(*(LIT + STR))]
                out.append(")")
        return out
    def oann(self, d): return self.anns(d) if self.p(.15) else []
    def const(self, d): return ["const", self.id()] + ([":"] + self.type(d) if self.p(.4) else []) + ["="] + self.expr(d) + [";"]
    def let(self, d):
        k = self.r.randrange(3)
        return ["let", self.id()] + ([":"] + self.type(d) if k else []) + (["="] + self.expr(d) if k < 2 else []) + [";"]
    def sassert(self, d): return ["static_assert", "("] + self.expr(d) + [")", ";"]
    def block(self, d):
        out = ["{"]
        for _ in range(self.r.randrange(0, 4)): out += self.stmt(d - 1)
        return out + ["}"]
    def ifst(self, d):
        out = ["if"] + self.expr(d - 1) + self.block(d - 1)
        if self.p(.5): out += ["else"] + (self.oann(d) + self.ifst(d - 1) if d > 0 and self.p(.5) else self.block(d - 1))
        return out
    def stmt(self, d):
        k = self.r.randrange(11) if d > 0 else self.r.randrange(8)
        if k == 0: return self.oann(d) + self.let(d)
        if k == 1: return self.oann(d) + self.const(d)
        if k == 2: return self.sassert(d)
        if k == 3: return self.oann(d) + [self.id(), "="] + self.expr(d) + [";"]
        if k == 4: return [self.ch("break", "continue"), ";"]
        if k == 5: return ["return"] + (self.expr(d) if self.p(.7) else []) + [";"]
        if k == 6: return self.call(d) + (self.anns(d) if self.p(.1) else []) + [";"]
        if k == 7: return self.block(0)
        if k == 8: return self.block(d - 1)
        if k == 9: return self.oann(d) + self.ifst(d)
        return self.oann(d) + ["while"] + self.expr(d - 1) + self.block(d - 1)
    def function(self, d):
        out = ["function", self.id(), "("]
        for i in range(self.r.randrange(0, 4)):
            out += ([","] if i else []) + [self.id(), ":"] + self.type(d - 1)
        return out + [")", "->"] + self.type(d) + (["requires"] + self.expr(d - 1) if self.p(.3) else []) + self.block(d)
    def decl(self, d):
        k = self.r.randrange(4)
        if k == 0: return self.sassert(d)
        if k == 1: return self.oann(d) + self.const(d)
        return self.oann(d) + self.function(d)
    def program(self, n=2):
        out = []
        for _ in range(self.r.randrange(1, n + 1)): out += self.decl(self.d)
        return out

def needs_space(a, b):
    """Would the two tokens run together?"""
    if (a[-1].isalnum() or a[-1] == "_") and (b[0].isalnum() or b[0] == "_"): return True
    return (a + b[0]) in ("==", "=>", "->", "<<", "<=", ">>", ">=", "&&", "||", "!=", "//", "/*") or \
           (a == "/" and b[0] in "/*")

def layout(r, toks, style=None):
    """Text of the tokens with random whitespace and comments."""
    style = r.choice(["tight", "line", "wild", "wild", "token"]) if style is None else style
    out, prev = "", None
    for t in toks:
        gap = ""
        if style == "tight":
            gap = " " if prev and needs_space(prev, t) else ""
        elif style == "line":
            gap = "" if not prev else "\n" if prev in (";", "{", "}") else " "
        elif style == "token":
            gap = r.choice(["\n", "\n\n", "\n  "]) if prev else ""
        else:
            k = r.random()
            gap = (" " if k < .5 else "\n" if k < .65 else "\t" if k < .7 else "\r\n" if k < .75 else
                   " /* c\n* */ " if k < .8 else "// x \" y\n" if k < .85 else "\n\n   " if k < .9 else
                   ("" if prev and not needs_space(prev, t) else " "))
            if gap.startswith("/") and prev and prev.endswith("/"):
                gap = " " + gap
            if not gap and prev and needs_space(prev, t): gap = " "
        out += gap + t
        prev = t
    return out + r.choice(["", "", "\n", " ", "// end", "/* end */", "//\n"])

def mutate_tokens(r, toks):
    toks = list(toks)
    for _ in range(r.choice([1, 1, 1, 2])):
        if not toks: break
        i = r.randrange(len(toks))
        k = r.randrange(7)
        tok = r.choice(r.choice([KW, SYM, LIT, IDS, STR]))
        if k == 0: del toks[i]
        elif k == 1: toks.insert(i, tok)
        elif k == 2: toks[i] = tok
        elif k == 3 and i + 1 < len(toks): toks[i], toks[i + 1] = toks[i + 1], toks[i]
        elif k == 4: toks = toks[:i]
        elif k == 5: toks.insert(i, toks[i])
        else: toks[i] = r.choice(toks)
    return toks

CHARS = [c for c in "ab_xf019+-*/%<>=!&|^~:;.,@(){}\"\\ \t\r\n$#?`'[]"] + ["0b", "0x", "//", "/*", "*/", "\x00", "\x7f", "\xe4", "\xff"]
def mutate_chars(r, s):
    for _ in range(r.choice([1, 1, 2, 4])):
        i = r.randrange(len(s) + 1)
        k = r.randrange(4)
        if k == 0: s = s[:i] + s[i + 1:]
        elif k == 1: s = s[:i] + r.choice(CHARS) + s[i:]
        elif k == 2: s = s[:i] + r.choice(CHARS) + s[i + 1:]
        else: s = s[:i]
    return s

def token_soup(r, n):
    out = ""
    for _ in range(r.randrange(1, n + 1)):
        out += r.choice(r.choice([KW, SYM, SYM, LIT, IDS, STR, ["0b", "0x", "12a", "0b12", "08", "0xfg", "09", "//c", "/*d*/", "/**/", "//"]]))
        out += r.choice(["", "", " ", "\n", "\t", "\r\n"])
    return out

def char_soup(r, n):
    return "".join(r.choice(CHARS) for _ in range(r.randrange(0, n + 1)))
def short_strings(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)
def byt(s): return list(s.encode("latin-1"))
