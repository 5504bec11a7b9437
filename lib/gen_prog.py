"""Random scripts that are mostly well typed, as lists of tokens; every loop they contain ends."""
from gen_text import layout, byt
WIDTHS = [1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128]
ARI = ["+", "-", "*", "/", "%"]
BIT = ["&", "|", "^", "<<", ">>"]
CMP = ["==", "!=", "<", ">", "<=", ">="]
BOOL, INT, VOID = "Bool", "Int", "Void"
def U(w): return ("U", w)
def isu(t): return isinstance(t, tuple)
def ty(t):
    return "Uint ( %s )" % t[1] if isu(t) else t

def lit(r, v):
    """Some notation of a natural number."""
    k = r.random()
    if k < .6 or v == 0 and k < .9: return str(v)
    if k < .75: return hex(v) if r.random() < .5 else "0x" + hex(v)[2:].upper()
    if k < .9: return bin(v)
    return "0" + oct(v)[2:]

class Fn:
    def __init__(self, name, params, ret, gen=()):
        self.name, self.params, self.ret, self.gen = name, params, ret, gen

class Prog:
    """bad: how often a subexpression of the wrong type or a rule violation is put in."""
    def __init__(self, r, bad=0.0, depth=3, widths=None, generic=.3, wild=0.0, annotate=0.0):
        self.r, self.bad, self.depth, self.generic, self.wild, self.ann = r, bad, depth, generic, wild, annotate
        self.ws = widths or r.sample(WIDTHS, 3)
        self.n, self.fns, self.consts, self.out = 0, [], [], []
    def p(self, x): return self.r.random() < x
    def name(self, k="v"):
        self.n += 1
        return k + str(self.n)
    def type(self):
        k = self.r.random()
        return BOOL if k < .2 else INT if k < .45 else U(self.r.choice(self.ws))
    # ---- expressions.  env: list of (name, type); const: only constants
    def vars(self, t, env): return [n for n, u in env if u == t]
    def number(self, t):
        r = self.r
        if t == INT or not isu(t): return lit(r, r.choice([0, 1, 2, 3, 5, 7, 10, 100, r.randrange(1 << r.choice([4, 8, 20, 40]))]))
        w = t[1] if isinstance(t[1], int) else 1
        return lit(r, r.choice([0, 1, 2 ** w - 1, 2 ** (w - 1), r.randrange(2 ** w), r.randrange(2 ** w)]))
    def leaf(self, t, env):
        r = self.r
        vs = self.vars(t, env)
        if t == VOID: return "assert ( true )"
        if vs and self.p(.75): return r.choice(vs)
        if t == BOOL: return r.choice(["true", "false"])
        if t == INT: return self.number(t) if self.p(.85) else "( - %s )" % self.number(t)
        return "( %s as %s )" % (self.number(t), ty(t))
    def expr(self, t, env, d=None):
        r = self.r
        d = self.depth if d is None else d
        if self.bad and self.p(self.bad): t = self.type() if self.p(.9) else VOID
        if d <= 0 or t == VOID: return self.leaf(t, env)
        k = r.random()
        if k < .15: return self.leaf(t, env)
        if k < .25:
            return "( %s if %s else %s )" % (self.expr(t, env, d - 1), self.expr(BOOL, env, d - 1),
                                             self.expr(INT if isu(t) and self.p(.1) else t, env, d - 1))
        if k < .45:
            fs = [f for f in self.fns if f.ret == t or f.gen and isu(t) and f.ret == U(f.gen[0])]
            if fs: return self.call(r.choice(fs), env, d - 1, t)
        if t == BOOL:
            if k < .6: return "( ! %s )" % self.expr(BOOL, env, d - 1)
            if k < .8: return "( %s %s %s )" % (self.expr(BOOL, env, d - 1), r.choice(["&&", "||", "==", "!="]), self.expr(BOOL, env, d - 1))
            u = r.choice([INT] + [U(w) for w in self.ws] + [x for _, x in env if isu(x)] * 2)
            return "( %s %s %s )" % (self.expr(u, env, d - 1), r.choice(CMP), self.operand(u, env, d - 1))
        if t == INT:
            if k < .52: return "( %s %s )" % (r.choice("+-"), self.expr(INT, env, d - 1))
            op = r.choice(ARI)
            if op in "/%" and self.p(.9): return "( %s %s %s )" % (self.expr(INT, env, d - 1), op, lit(r, r.choice([1, 2, 3, 7])))
            if op == "*" and self.p(.7): return "( %s * %s )" % (self.expr(INT, env, d - 1), lit(r, r.choice([0, 1, 2, 3])))
            return "( %s %s %s )" % (self.expr(INT, env, d - 1), op, self.expr(INT, env, d - 1))
        if k < .55: return "( %s %s )" % (r.choice("+-~"), self.expr(t, env, d - 1))
        op = r.choice(ARI + BIT)
        if op in ("<<", ">>") and self.p(.9):
            w = t[1] if isinstance(t[1], int) else 1
            return "( %s %s %d )" % (self.expr(t, env, d - 1), op, r.choice([0, min(1, w - 1), w - 1, r.randrange(w)]))
        if op in "/%" and self.p(.9): return "( %s %s 1 )" % (self.expr(t, env, d - 1), op) if self.p(.2) else \
            "( %s %s ( %s | 1 ) )" % (self.expr(t, env, d - 1), op, self.expr(t, env, d - 1))
        return "( %s %s %s )" % (self.expr(t, env, d - 1), op, self.operand(t, env, d - 1))
    def operand(self, t, env, d):
        """An operand next to one of type t: an Int literal will do for a Uint."""
        if isu(t) and self.p(.3): return self.number(t)
        return self.expr(t, env, d)
    def call(self, f, env, d, t=None):
        w = {}
        if f.gen:
            for g in f.gen: w[g] = self.r.choice(self.ws)
            if t and isu(t) and isu(f.ret) and f.ret[1] == f.gen[0] and t[1] is not None: w[f.gen[0]] = t[1]
        args = []
        for n, u in f.params:
            u2 = U(w.get(u[1], u[1])) if isu(u) else u
            args.append(self.number(u2) if isu(u2) and u2[1] not in w.values() and self.p(.2) else self.expr(u2, env, d))
        if self.bad and self.p(self.bad): args = args[:-1] if args and self.p(.5) else args + ["1"]
        return "%s ( %s )" % (f.name, " , ".join(args)) + (" @ inline" if self.p(self.ann) else "")
    # ---- statements
    def block(self, env, d, ret, loop, n=None):
        env = list(env)
        out = []
        for _ in range(n or self.r.choice([1, 2, 2, 3, 4])):
            out += self.stmt(env, d, ret, loop)
        return ["{"] + out + ["}"]
    def lets(self, env): return [(n, t) for n, t in env if n[0] == "v"]
    def stmt(self, env, d, ret, loop):
        r = self.r
        k = r.random()
        a = lambda *x: ("@ " + r.choice(x)).split() if self.p(self.ann) else []
        if k < .22 or not self.lets(env):
            t, n = self.type(), self.name()
            if self.p(.25):
                s = "let %s : %s ;" % (n, ty(t))
                env.append((n, t))
                if not self.p(.2): s += " %s = %s ;" % (n, self.expr(t, env[:-1]))
            else:
                s = "let %s%s = %s ;" % (n, " : " + ty(t) if self.p(.5) else "", self.expr(t, env))
                env.append((n, t))
            return a("immutable", "loop_variable", "inline") + s.split()
        if k < .28:
            t, n = self.type(), self.name("c")
            s = "const %s%s = %s ;" % (n, " : " + ty(t) if self.p(.5) else "", self.expr(t, [e for e in env if e[0][0] in "cW"], 2))
            env.append((n, t))
            return s.split()
        if k < .5:
            n, t = r.choice(self.lets(env))
            return a("loop_step") + ("%s = %s ;" % (n, self.operand(t, env, self.depth))).split()
        if k < .55:
            fs = [f for f in self.fns]
            if fs: return (self.call(r.choice(fs), env, 1) + " ;").split()
        if k < .58: return ("assert ( %s ) ;" % self.truth(env)).split()
        if k < .60: return ("static_assert ( %s ) ;" % self.truth([e for e in env if e[0][0] in "cW"])).split()
        if k < .65 and loop: return [r.choice(["break", "continue"]), ";"] if self.p(.3) else \
            ("if %s { %s ; }" % (self.cond(env), r.choice(["break", "continue"]))).split()
        if k < .68: return self.ret(env, ret) if self.p(.3) else ("if %s" % self.cond(env)).split() + ["{"] + self.ret(env, ret) + ["}"]
        if d <= 0: return []
        if k < .84:
            s = a("false_if_unknown") + ("if " + self.cond(env)).split() + self.block(env, d - 1, ret, loop)
            while self.p(.25): s += ["else"] + ("if " + self.cond(env)).split() + self.block(env, d - 1, ret, loop)
            return s + (["else"] + self.block(env, d - 1, ret, loop) if self.p(.5) else [])
        if k < .96:
            i = self.name("i")
            lim = r.choice([0, 1, 2, 3, 3, 4])
            w = r.choice(["Int", "Uint ( 8 )"])
            inner = env + [(i, INT if w == "Int" else U(8))]
            c = "%s < %d" % (i, lim) if self.p(.6) else "( %s ) && ( %s < %d )" % (self.cond(env), i, lim) if self.p(.5) else "true"
            stop = ("if %s >= %d { break ; }" % (i, lim)).split() if c == "true" else []
            body = self.block(inner, d - 1, ret, True)
            return (("let %s : %s = 0 ;" % (i, w)).split() + a("unroll ( 3 )", "unroll ( limit = 0x7f )") + ("while " + c).split() +
                    ["{"] + stop + ("%s = %s + 1 ;" % (i, i)).split() + body[1:])
        return self.block(env, d - 1, ret, loop)
    def cond(self, env):
        e = self.expr(BOOL, env, 2)
        return e
    def truth(self, env):
        """A condition that often holds."""
        k = self.r.random()
        t = self.type()
        e = self.expr(t, env, 2)
        if k < .7: return "%s == %s" % (e, e)
        if k < .85: return "( %s || true )" % self.expr(BOOL, env, 1)
        return self.expr(BOOL, env, 2)
    def ret(self, env, t):
        if t == VOID: return ["return", ";"]
        return ("return %s ;" % self.operand(t, env, 2)).split()
    # ---- declarations
    def function(self, ret=None):
        r = self.r
        f = self.name("f")
        gen, params, env = [], [], []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            n = self.name("p")
            if self.p(self.generic):
                if gen and self.p(.4): t = U(r.choice(gen))
                else:
                    gen.append(self.name("W"))
                    t = U(gen[-1])
            else: t = self.type()
            params.append((n, t))
        ret = ret or (U(r.choice(gen)) if gen and self.p(.6) else VOID if self.p(.1) else self.type())
        env = params + [(g, INT) for g in gen] + self.consts
        req = ("requires " + ("%s > 0" % gen[0] if gen and self.p(.6) else
                              self.truth([e for e in env if e[0][0] in "cW"]))).split() if self.p(.15) else []
        body = self.block(env, 2, ret, False, r.choice([1, 2, 3, 5]))[:-1]
        body += self.ret(env, ret) if self.p(.97) else []
        self.fns.append(Fn(f, params, ret, gen))
        a = ("@ " + r.choice(["remove_if_unused", 'c_equivalent ( "f" )', 'java_equivalent ( method = "m" )', "instantiate ( 8 )",
                             'c_equivalent ( "f" , since = 99 , include = "x" )'])).split() if self.p(self.ann) else []
        return a + ("function %s ( %s ) -> %s" % (f, " , ".join("%s : %s" % (n, ty(t)) for n, t in params), ty(ret))).split() + req + body + ["}"]
    def const(self, e=None, t=None):
        n = self.name("c")
        t = t or self.type()
        s = ("const %s%s = %s ;" % (n, " : " + ty(t) if t and self.p(.3) else "", e or self.expr(t, self.consts))).split()
        self.consts.append((n, t))
        return s
    def use(self):
        """A constant that calls a function."""
        f = self.r.choice(self.fns)
        t = f.ret if not isu(f.ret) or isinstance(f.ret[1], int) else None
        n = self.name("c")
        s = ("const %s = %s ;" % (n, self.call(f, self.consts, 1))).split()
        if t and t != VOID: self.consts.append((n, t))
        return s
    def program(self, fns=2, uses=3):
        parts = []
        for _ in range(self.r.randrange(3)): parts.append(self.const())
        for _ in range(self.r.randint(1, fns)): parts.append(self.function())
        for _ in range(uses): parts.append(self.use())
        if self.p(.3): parts.append(("static_assert ( %s ) ;" % self.truth(self.consts)).split())
        return parts

def flat(parts): return [t for p in parts for t in p]
