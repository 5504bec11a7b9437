"""Markup documents: generated from their syntax, damaged ones, and snippets of code."""
import gen_text
SPAN = ["b", "del", "i", "kbd", "q", "s", "sub", "sup", "tt", "u"]
HEAD = ["h1", "h2", "h3", "h4", "h5", "h6"]
ALL = SPAN + HEAD + ["br", "hr", "c", "codeblock", "instruction", "ol", "ul", "note", "meta", "item", "title", "bmsfun", "cequiv"]
WORDS = ["a", "word", "x<y", "&amp;", "\"q\"", "1+1", "\\{", "\\}", "\\\\", "[x=1]", "http:/x", "/", "é", "a\\\\b", "]", "=", "//" [:1], "\\{\\}", "don't", ">", "-->", "\tt"]
COMMENTS = ["/* c */", "/**/", "/* { */", "/* \\b */", "/***/", "// x\n", "// }\n", "//\n", "/* a\n\n b */"]
CODE = ["x", "a + b", "let x: Uint(8) = 1;", "function f() { }", "if x { y = 1; }", "a=>b", "true", "\"s\"", "/* c */ a", "a // z\n", "", " a ", "0x1F", "@inline", "x\n  y", "\n\tlet a = 1;\n"]
BADCODE = ["#", "\\{", "0b", "1a", "\"", "/", "$"]
ATTR = ["class=x", "id=_1", "n=0", "n=017", "n=0x1F", "n=0b101", "n=12345678901234567890", "n=9223372036854775807", "n=9223372036854775808",
        "a=b, c=d", "a = b ,c= 1", "a=b,a=c", "a=", "a", "=b", "a=b,", "", "1=2", "n=08", "n=1x", "n=0b", "a=b c=d", "/*c*/a=b", "a\n\n=b", "a=\nb", "lang=c", "arch=x86", "_=_", "A=0"]
LANG = ["lang=bms", "lang=c", "lang=cpp", "lang=cxx", "lang=plain", "lang=text", "lang=raw", "lang=plaintext", "lang=rust", "lang=bmd", "lang=java", "lang=1", "x=y", "lang=bms, a=1"]
ARCH = ["arch=x86", "arch=x86_64", "arch=arm", "arch=risc_v", "arch=power", "arch=power_pc", "arch=sparc", "arch=mips", "arch=ibm_z", "arch=z80", "arch=3",
        "ext=BMI", "ext=1", "ext=SSE2, arch=x86", "arch=arm, ext=NEON", "ext=a,arch=b"]

class Doc:
    def __init__(self, r, wild=0.0):
        self.r, self.wild = r, wild
    def p(self, x): return self.r.random() < x
    def ch(self, xs): return self.r.choice(xs)
    def odd(self): return self.p(self.wild)
    def blank(self):
        r, k = self.r, self.r.random()
        if k < .5: return " "
        if k < .7: return self.ch(["\n", "  ", "\n  ", "\t", "\r\n", " \n"])
        if k < .85: return self.ch(["", " "]) + self.ch(COMMENTS) + self.ch(["", " "])
        if self.odd(): return "\n\n"
        return ""
    def edge(self): return "" if self.p(.6) else self.ch([" ", "\n", "\n  ", "/* c */", " /*c*/ "])
    def brk(self): return self.ch(["\n\n", "\n \n", "\n\n\n", "\n/* c */\n\n", "// c\n\n", " \n\t\n "])
    def args(self, pool=None):
        if self.p(.7): return ""
        return "[" + self.ch(["", "", " ", "\n"]) + self.ch(pool if pool and not self.odd() else ATTR if self.p(.4) else ["class=x", "a=1", "id=a,k=0x1f", "x = y"]) + self.ch(["", "", " "]) + "]"
    def text(self): return self.blank0().join(self.ch(WORDS) for _ in range(self.r.choice([1, 1, 2, 3])))
    def blank0(self): return self.ch([" ", " ", "\n", "  ", "\n "])
    def raw(self):
        c = self.ch(BADCODE) if self.p(.08) else self.ch(CODE)
        return c + (self.blank0() + self.ch(CODE) if self.p(.3) else "")
    def block(self, kind, d):
        if self.p(.08): return ""
        if self.odd() : kind = self.ch(["span", "text", "block", "list", "meta", "raw", "nothing"])
        if kind == "nothing": return self.ch(["", "", "{}", "{ }", "{/* c */}", "{\n\n}"]) if not self.odd() else "{x}"
        body = {"raw": self.raw, "text": lambda: self.edge() + (self.text() if self.p(.9) else "") + (self.blank() + self.text() if self.p(.2) else "") + self.edge(),
                "span": lambda: self.edge() + self.span(d - 1) + self.edge(),
                "block": lambda: self.edge() + self.content(d - 1) + self.edge(),
                "list": lambda: self.edge() + self.blank_().join("\\item" + self.args() + self.block("span", d - 1) for _ in range(self.r.randrange(4))) + self.edge(),
                "meta": lambda: self.edge() + self.blank_().join("\\" + self.ch(["title", "bmsfun", "cequiv"]) + self.args() + self.block("text", 0) for _ in range(self.r.randrange(3))) + self.edge()}[kind]()
        return "{" + body + ("}" if not (self.odd() and self.p(.1)) else "")
    def blank_(self): return self.ch(["", " ", "\n", "\n\n", " /*c*/ "])
    def directive(self, ids, d):
        n = self.ch(ids)
        if self.odd(): n = self.ch(ALL + ["x", "bb", "h7", "B", "", "0", "zzz", "itemm"])
        kind = {"c": "raw", "codeblock": "raw", "instruction": "text", "br": "nothing", "hr": "nothing", "ol": "list", "ul": "list",
                "note": "block", "meta": "meta", "title": "text", "bmsfun": "text", "cequiv": "text"}.get(n, "span")
        pool = LANG if kind == "raw" else ARCH if n == "instruction" else None
        return "\\" + n + self.args(pool) + self.block(kind, d)
    def element(self, d):
        if d <= 0 or self.p(.55): return self.text()
        return self.directive(SPAN + ["br", "c", "c", "instruction"], d)
    def span(self, d):
        return "".join(self.element(d) + self.blank() for _ in range(self.r.randrange(4)))
    def content(self, d):
        out = []
        for _ in range(self.r.randrange(1, 4)):
            k = self.r.random()
            if d > 0 and k < .4: out.append(self.directive(HEAD + ["hr", "codeblock", "ol", "ul", "note"], d))
            else: out.append(self.span(d) + self.element(d))
            out.append(self.brk() if self.p(.6) else self.blank())
        return "".join(out[:-1])
    def document(self, d=3):
        s = self.edge() if self.p(.8) else self.brk()
        if self.p(.25): s += "\\meta" + self.block("meta", 1) + self.blank_()
        s += self.content(d) + self.edge()
        if self.p(.05): s += self.ch(["// end", "/*", "\\", "{", "}"])
        return s

def damage(r, s):
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(s) + 1)
        k = r.random()
        if k < .3: s = s[:i] + s[i + r.randrange(1, 4):]
        elif k < .8: s = s[:i] + r.choice(["\\", "{", "}", "[", "]", "=", ",", "\n", "\n\n", " ", "/", "//", "/*", "*/", "\\b", "\\item", "\\h1", "0", "x", "\\{", "\x80", "\0"]) + s[i:]
        else: j = r.randrange(len(s) + 1); i, j = min(i, j), max(i, j); s = s[:j] + s[i:j][:20] + s[j:]
    return s

TINY = ["\\", "{", "}", "b", "[", "]", "=", " ", "\n", "/", "*", "x", "\\b", "\\hr", "\\ul{", "\\c{", "\\br", "\\h1{", "\\note{", "\\title", "\\item{", ",", "1", "\\meta{"]
def tiny(r, n): return "".join(r.choice(TINY) for _ in range(n))
