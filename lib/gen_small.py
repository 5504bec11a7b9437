"""Small scripts aimed at one rule each."""
import itertools
from gen_values import rint, rnat, rwidth
OPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "==", "!=", "<", ">", "<=", ">="]
UNS = ["+", "-", "~", "!"]

def spell(v):
    """An expression with the Int value v (|v| < 2^127 or v = -2^127)."""
    if v == -(1 << 127): return "( ( - %d ) - 1 )" % ((1 << 127) - 1)
    return str(v) if v >= 0 else "( - %d )" % -v
def typ(t): return "Uint ( %d )" % t[1] if t[0] == "Uint" else t[0]
def lit_of(t, v):
    if t[0] == "Bool": return "true" if v else "false"
    if t[0] == "Int": return spell(v)
    n = t[1]
    if v >> 127:                                  # literals stay below 2^127
        return "( ( %d as %s ) | ( ( 1 as %s ) << 127 ) )" % (v & ((1 << 127) - 1), typ(t), typ(t))
    return "( %d as %s )" % (v, typ(t))

# ---- V01: one operation along a route through constants or executed code
def rtyped(r, t):
    return r.randrange(2) if t[0] == "Bool" else rint(r) if t[0] == "Int" else rnat(r, t[1])
def operation(r):
    k = r.random()
    t = ["Bool"] if k < .12 else ["Int"] if k < .35 else ["Uint", rwidth(r)]
    op = r.choice(["&&", "||", "==", "!="] if t[0] == "Bool" else [o for o in OPS if o not in ("&&", "||", "&", "|", "^", "<<", ">>")]
                  if t[0] == "Int" else [o for o in OPS if o not in ("&&", "||")])
    u = t if r.random() < .75 or t[0] == "Bool" else ["Int"] if t[0] == "Uint" else ["Uint", rwidth(r)]
    x, y = rtyped(r, t), rtyped(r, u)
    if t[0] == u[0] == "Int" and op == "*": x, y = rint(r, 62), rint(r, 62)
    if op in ("<<", ">>") and t[0] == "Uint": y = r.choice([0, 1, t[1] - 1, t[1], r.randrange(t[1] + 1)]) & ((1 << t[1]) - 1)
    if u[0] == "Int" != t[0] and r.random() < .8: y = abs(y) & ((1 << t[1]) - 1)
    X, Y = lit_of(t, x), lit_of(u, y)
    k = r.randrange(9)
    if k == 0: return "const r = %s %s %s ;" % (X, op, Y)
    if k == 1: return "const x = %s ; const y = %s ; const r = x %s y ; const q = y %s x ;" % (X, Y, op, op)
    if k == 2: return "function f ( a : %s , b : %s ) -> Bool { return ( a %s b ) == ( a %s b ) ; } const r = f ( %s , %s ) ;" % (typ(t), typ(u), op, op, X, Y)
    R = ["Bool"] if op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||") else t if t[0] == "Uint" else u
    if k in (3, 4): return "function f ( a : %s , b : %s ) -> %s { return a %s b ; } const r = f ( %s , %s ) ;" % (typ(t), typ(u), typ(R), op, X, Y)
    if k == 5: return "function f ( a : %s ) -> %s { return a %s %s ; } const r = f ( %s ) ;" % (typ(t), typ(R), op, Y, X)
    if k == 6: return "function f ( b : %s ) -> %s { return %s %s b ; } const r = f ( %s ) ;" % (typ(u), typ(R), X, op, Y)
    if k == 7: return "function f ( ) -> %s { let a = %s ; let b = %s ; a = a %s b ; return a ; } const r = f ( ) ;" % (typ(R), X, Y, op)
    un = r.choice(["!"] if t[0] == "Bool" else ["+", "-"] if t[0] == "Int" else ["+", "-", "~"])
    return "function f ( a : %s ) -> %s { return %s a ; } const r = f ( %s ) ; const q = %s %s ;" % (typ(t), typ(t), un, X, un, X)

# ---- V02: literals and conversions
def notation(r, v):
    k = r.randrange(8)
    if k < 2: return str(v)
    if k == 2: return "0x" + format(v, "x").rjust(r.choice([0, 0, 4, 40]), "0")
    if k == 3: return "0x" + format(v, "X")
    if k == 4: return "0x" + "".join(r.choice([d, d.upper()]) for d in format(v, "x"))
    if k == 5: return "0b" + format(v, "b").rjust(r.choice([0, 0, 3, 140]), "0")
    return "0" + format(v, "o").rjust(r.choice([1, 1, 3, 50]), "0")
def literal_value(r):
    k = r.random()
    n = r.randint(0, 126)
    if k < .3: return max(0, (1 << n) + r.choice([-1, 0, 1]))
    if k < .4: return r.choice([(1 << 128) - 1, 1 << 128, (1 << 128) + 1, 1 << 129, 1 << 192, 1 << 256, (1 << 256) - 1, 10 ** 39, 10 ** 60])
    if k < .5: return r.choice([(1 << 127) - 1, (1 << 127) - 2, 10 ** 38, 10 ** 37, 8 ** 42, 16 ** 31])
    if k < .56: return sum(r.randrange(1, 10) * 10 ** r.randrange(38) for _ in range(r.choice([1, 2, 3]))) - r.randrange(2)
    if k < .6: return r.randrange(1000)
    return r.getrandbits(r.randint(1, 127))
def literal(r):
    v = literal_value(r)
    s = notation(r, v)
    k = r.random()
    if k < .5: return "const r = %s ;" % s
    if k < .7: return "function f ( ) -> Int { return %s ; } const r = f ( ) ;" % s
    return "const r = %s as Uint ( %d ) ;" % (s, min(128, max(1, v.bit_length() + r.choice([-1, 0, 0, 1, 5]))))
CONV = ["const r = %(x)s as %(t)s ;", "const r : %(t)s = %(x)s ;",
        "function f ( a : %(u)s ) -> %(t)s { return a as %(t)s ; } const r = f ( %(x)s ) ;",
        "function f ( a : %(u)s ) -> %(t)s { return a ; } const r = f ( %(x)s ) ;",
        "function f ( a : %(t)s ) -> %(t)s { return a ; } const r = f ( %(x)s ) ;",
        "function f ( a : %(u)s ) -> %(t)s { let b : %(t)s = a ; return b ; } const r = f ( %(x)s ) ;",
        "function f ( a : %(u)s ) -> %(t)s { let b : %(t)s ; b = a ; return b ; } const r = f ( %(x)s ) ;",
        "function f ( a : %(u)s ) -> %(t)s { let b : %(t)s = %(x)s ; return b ; } const r = f ( %(x)s ) ;",
        "function f ( a : %(u)s ) -> %(t)s { return g ( a ) ; } function g ( b : %(t)s ) -> %(t)s { return b ; } const r = f ( %(x)s ) ;",
        "function f ( a : %(u)s ) -> %(t)s { const c : %(t)s = %(x)s ; return c ; } const r = f ( %(x)s ) ;",
        "function f ( a : %(u)s , b : %(t)s ) -> %(t)s { return a if true else b ; } const r = f ( %(x)s , %(y)s ) ;",
        "function f ( a : %(t)s , b : %(t)s ) -> Bool { return a == b ; } const r = f ( %(x)s , %(y)s ) ;",
        "function f ( a : %(t)s ) -> Bool { return a == %(x)s ; } const r = f ( %(y)s ) ;",
        "const r = ( %(y)s if true else %(x)s ) ;", "const r = ( %(x)s if false else %(y)s ) ;", "const r = %(y)s == %(x)s ;",
        "const r = ( %(x)s if true else %(y)s ) ;", "const w = %(x)s ; const r : %(t)s = w ; const q = w as %(t)s ;"]
def conversion(r):
    k = r.random()
    if k < .8:
        n = rwidth(r)
        u = ["Int"]
        x = r.choice([0, 1, (1 << n) - 1, 1 << n, (1 << n) + 1, (1 << n) - 2, -1, -(1 << n) + 1, -(1 << (n - 1)), r.getrandbits(n), 1 << min(126, n + 7), (1 << n) + (1 << min(126, n + 1))])
        if x >= 1 << 127: x &= (1 << 127) - 1
        t = ["Uint", n]
    else:
        u = r.choice([["Bool"], ["Int"], ["Uint", rwidth(r)]])
        t = r.choice([["Bool"], ["Int"], u, u, ["Uint", rwidth(r)]])
        x = rtyped(r, u)
    y = rtyped(r, t)
    return r.choice(CONV) % {"x": lit_of(u, x), "y": lit_of(t, y), "t": typ(t), "u": typ(u)}

# ---- T01: every rule with every combination of types
TY = [["Void"], ["Bool"], ["Int"], ["Uint", 4], ["Uint", 8]]
EX = {"Void": "assert ( true )", "Bool": "true", "Int": "1", "Uint": None}
def ex(t): return "( 1 as %s )" % typ(t) if t[0] == "Uint" else EX[t[0]]
def in_function(body, ret="Void"):
    return ("function v ( ) -> Void { } function f ( b : Bool , i : Int , u : Uint ( 4 ) , w : Uint ( 8 ) ) -> %s { %s }" % (ret, body))
VAR = {"Void": "v ( )", "Bool": "b", "Int": "i"}
def var(t): return VAR.get(t[0]) or ("u" if t[1] == 4 else "w")
def typing():
    out = []
    K = "const r = %s ;"
    def both(f, *ts):
        out.append(K % f(*[ex(t) for t in ts]))
        out.append(in_function("let r = %s ;" % f(*[var(t) for t in ts])))
        out.append(in_function("const r = %s ;" % f(*[ex(t) for t in ts])))
    for t in TY:
        for o in UNS: both(lambda x: "%s %s" % (o, x), t)
        for u in TY:
            for o in OPS:
                both(lambda x, y: "%s %s %s" % (x, o, y), t, u)
                out.append(in_function("let r = %s %s %s ;" % (var(t), o, ex(u))))
                out.append(in_function("let r = %s %s %s ;" % (ex(t), o, var(u))))
            for c in TY:
                if c[0] == "Bool" or t == u: both(lambda x, y, z: "%s if %s else %s" % (x, y, z), t, c, u)
            out.append(K % ("%s if false else %s" % (ex(t), ex(u))))
            both(lambda x: "%s as %s" % (x, typ(u)), t)
            out.append("const r : %s = %s ;" % (typ(u), ex(t)))
            for e in (ex(t), var(t)):
                out += [in_function("let r : %s = %s ;" % (typ(u), e)), in_function("return %s ;" % e, typ(u)),
                        in_function("let r : %s ; r = %s ;" % (typ(u), e)), in_function("const r : %s = %s ;" % (typ(u), e)),
                        in_function("g ( %s ) ;" % e) + "function g ( x : %s ) -> Void { }" % typ(u),
                        in_function("let r = g ( %s ) ;" % e) + "function g ( x : %s ) -> %s { return x ; }" % (typ(u), typ(u))]
            out.append("function g ( x : %s ) -> %s { return x ; } const r = g ( %s ) ;" % (typ(u), typ(u), ex(t)))
            out.append("function g ( x : %s ) -> %s { %s } const r = g ( %s ) ;" % (typ(u), typ(u), "" if u[0] == "Void" else "return x ;", ex(t)))
        for e in (ex(t), var(t)):
            out += [in_function("if %s { }" % e), in_function("if b { } else if %s { }" % e), in_function("while %s { }" % e), in_function("assert ( %s ) ;" % e),
                    in_function("let r : Uint ( %s ) ;" % e), in_function("static_assert ( %s ) ;" % e), in_function("const r : Uint ( %s ) = 0 ;" % e)]
        out += ["static_assert ( %s ) ;" % ex(t), "const r : Uint ( %s ) = 1 ;" % ex(t), "const r = assert ( %s ) ;" % ex(t),
                "function f ( x : Uint ( %s ) ) -> Void { }" % ex(t), "function f ( ) -> Uint ( %s ) { return 0 ; }" % ex(t),
                "function f ( ) -> Void requires %s { }" % ex(t), "const r = 0 as Uint ( %s ) ;" % ex(t),
                "function f ( ) -> Void requires %s { } const r = f ( ) ;" % ex(t),
                in_function("let r : %s ; let q = r ;" % typ(t)), in_function("return ;", typ(t)),
                "function f ( x : %s ) -> %s { return x ; }" % (typ(t), typ(t)), "const r : %s = %s ; const q = r ;" % (typ(t), ex(t))]
    for w in ["0", "1", "2", "127", "128", "129", "( - 1 )", "( 0 as Uint ( 8 ) )", "( 200 as Uint ( 8 ) )", "1000000", "( 1 << 1 )", "( 3 + 4 )", "( 0xffffffffffffffff )", "( 18446744073709551617 )",
              "( 1 if true else 2 )", "( 4294967297 )", "( 4294967304 )", "( - 8 )"]:
        out += ["const r : Uint ( %s ) = 1 ;" % w, "const r = 1 as Uint ( %s ) ;" % w, in_function("let r : Uint ( %s ) = 1 ;" % w), in_function("let r = i as Uint ( %s ) ;" % w),
                "function f ( x : Uint ( %s ) ) -> Uint ( %s ) { return x ; } const r = f ( 1 ) ;" % (w, w)]
    return [s.split() for s in out]

# ---- X01: nested operands that must or must not be evaluated
def lazy(r, route=None):
    ps = ["p%d" % i for i in range(4)]
    route = r.randrange(4) if route is None else route
    fn = route >= 2
    def trap(t):
        if t == "Bool": return r.choice(["( 1 / 0 == 1 )", "( ( ( 1 as Uint ( 4 ) ) << 4 ) == 0 )", "tb ( )", "bad ( %s )" % r.choice(["true", "false"]), "( ( 0 - 1 ) == ( 0 as Uint ( 8 ) ) )", "( ( 300 as Uint ( 8 ) ) == 0 )"])
        return r.choice(["( 1 / 0 )", "( 5 % 0 )", "ti ( )", "( 1 if tb ( ) else 2 )"])
    def atom(t):
        k = r.random()
        if k < .25: return trap(t)
        if fn and k < .6: return r.choice(ps[:2] if t == "Bool" else ps[2:])
        return r.choice(["true", "false"]) if t == "Bool" else str(r.randrange(4))
    def e(t, d):
        if d == 0: return atom(t)
        k = r.random()
        if k < .12: return atom(t)
        if k < .37: return "( %s if %s else %s )" % (e(t, d - 1), e("Bool", d - 1), e(t, d - 1))
        if t == "Bool":
            if k < .8: return "( %s %s %s )" % (e("Bool", d - 1), r.choice(["&&", "||"]), e("Bool", d - 1))
            if k < .85: return "( ! %s )" % e("Bool", d - 1)
            if k < .9: return "( %s == %s )" % (e("Int", d - 1), e("Int", d - 1))
            return "id ( %s )" % e("Bool", d - 1)
        return "( %s %s %s )" % (e("Int", d - 1), r.choice("+-"), e("Int", d - 1)) if k < .7 else "ii ( %s )" % e("Int", d - 1)
    t = r.choice(["Bool", "Bool", "Int"])
    x = e(t, r.choice([2, 3, 3, 4]))
    pre = ("function tb ( ) -> Bool { let x = 1 ; return x / 0 == 1 ; } function ti ( ) -> Int { let x = 1 ; return x %% ( x - 1 ) ; } "
           "function bad ( a : Bool ) -> Bool { assert ( false ) ; return a ; } function id ( a : Bool ) -> Bool { return a ; } function ii ( a : Int ) -> Int { return a ; } ") % ()
    if route == 0: return pre + "const r = %s ;" % x
    if route == 1: return pre + "static_assert ( %s ) ;" % (x if t == "Bool" else x + " < 2")
    vals = [r.choice(["true", "false"]) for _ in "ab"] + [str(r.randrange(3)) for _ in "ab"]
    call = "const r = f ( %s ) ;" % " , ".join(vals)
    head = "function f ( p0 : Bool , p1 : Bool , p2 : Int , p3 : Int ) -> %s { " % t
    body = r.choice(["return %s ; }", "let y = %s ; return y ; }", "let y : %s ; y = %%s ; return y ; }" % t]) % x if r.random() < .7 else \
        ("if %s { return %s ; } return %s ; }" % (x, atom(t), atom(t)) if t == "Bool" else "while ( %s ) > 100 { } return p2 ; }" % x)
    return pre + head + body + call
def lazy_typed(r):
    """Operands that are not evaluated but wrong."""
    wrong = r.choice(["1", "( 1 as Uint ( 8 ) )", "( true + 1 )", "( 1 && true )", "( ~ 1 )", "nope", "( 1 as Bool )", "f", "assert ( true )", "( ( 1 as Uint ( 4 ) ) + ( 1 as Uint ( 8 ) ) )", "g ( 1 , 2 )", "( 1 as Uint ( 0 ) )"])
    x = r.choice(["false && %s", "true || %s", "true if true else %s", "%s if false else true", "false && ( true || %s )", "( true || %s ) && false", "true && %s", "false || %s",
                  "( 1 == 1 ) || ( %s == 1 )", "false && ( %s if true else true )"]) % wrong
    k = r.randrange(4)
    pre = "function g ( a : Int ) -> Bool { return a == 1 ; } "
    if k == 0: return pre + "const f = 1 ; const r = %s ;" % x
    if k == 1: return pre + "const f = 1 ; static_assert ( %s ) ;" % x
    if k == 2: return pre + "function f ( ) -> Bool { return %s ; }" % x
    return pre + "function f ( ) -> Bool { return %s ; } const r = f ( ) ;" % x

# ---- N01, N02: few names for everything
class Names:
    def __init__(self, r, bad=.25, kinds=.25):
        self.r, self.bad, self.kinds = r, bad, kinds
    def p(self, x): return self.r.random() < x
    POOL = ["a", "b", "c", "d", "e", "f", "g", "h", "assert"]
    def fresh(self, env):
        """a name to declare: mostly unused"""
        un = [n for n in self.POOL if n not in env and n != "assert"]
        if self.p(self.bad) or not un: return self.r.choice(self.POOL)
        return self.r.choice(un)
    def pick(self, env, kinds):
        ns = [n for n, k in env.items() if k in kinds]
        if self.p(self.bad) : return self.r.choice(self.POOL)
        if self.p(self.kinds): return self.r.choice(list(env) or self.POOL)
        return self.r.choice(ns) if ns else None
    def expr(self, env, const, d=2):
        k = self.r.random()
        if k < .3 or d == 0: return str(self.r.randrange(5))
        if k < .7:
            n = self.pick(env, ["const"] if const else ["const", "param", "let"])
            return n or "7"
        if k < .8: return "( %s + %s )" % (self.expr(env, const, d - 1), self.expr(env, const, d - 1))
        if k < .85: return "( %s if %s == %s else %s )" % tuple(self.expr(env, const, d - 1) for _ in "1234")
        f = self.pick(env, ["fn0", "fn1"])
        return "%s ( %s )" % (f, self.expr(env, const, d - 1) if env.get(f) != "fn0" else "") if f else "3"
    def block(self, env, d, loop, top=False):
        env = dict(env)
        out = []
        for _ in range(self.r.choice([0, 1, 2, 3, 4] if d else [0, 1, 2])): out.append(self.stmt(env, d, loop))
        return "{ " + " ".join(out) + (" return %s ;" % self.expr(env, False) if top else "") + " }"
    def stmt(self, env, d, loop):
        r, k = self.r, self.r.random()
        if k < .25:
            n = self.fresh(env)
            inner = dict(env)
            if self.p(.1): inner[n] = "let"
            s = r.choice(["let %s = %s ;" % (n, self.expr(inner, False)), "let %s : Int = %s ;" % (n, self.expr(inner, False)), "let %s : Int ;" % n,
                          "let %s : Uint ( %s ) ;" % (n, self.expr(inner, True, 1))] if self.p(.3) else ["let %s = %s ;" % (n, self.expr(inner, False))])
            env[n] = "let"
            return s
        if k < .4:
            n = self.fresh(env)
            s = "const %s = %s ;" % (n, self.expr(dict(env, **({n: "const"} if self.p(.1) else {})), True))
            env[n] = "const"
            return s
        if k < .6:
            n = self.pick(env, ["let"])
            return "%s = %s ;" % (n, self.expr(env, False)) if n else ""
        if k < .65:
            f = self.pick(env, ["fn0", "fn1"])
            return "%s ( %s ) ;" % (f, self.expr(env, False) if env.get(f) != "fn0" else "") if f else ""
        if k < .7: return "static_assert ( ( %s == %s ) || true ) ;" % (self.expr(env, True), self.expr(env, True))
        if k < .75 and (loop or self.p(self.kinds)): return r.choice(["break ;", "continue ;"])
        if k < .78: return "return %s ;" % self.expr(env, False)
        if k < .79 and self.p(self.kinds): return "return ;"
        if d == 0: return ""
        if k < .9:
            return "if %s < %s %s" % (self.expr(env, False), self.expr(env, False), self.block(env, d - 1, loop)) + \
                (" else " + self.block(env, d - 1, loop) if self.p(.5) else "")
        if k < .96: return "while %s > %d %s" % (self.expr(env, False), r.choice([0, 3]), self.block(env, d - 1, True))
        return self.block(env, d - 1, loop)
    def program(self):
        """Most names are global; functions may be used before they are declared."""
        r = self.r
        env, decls = {}, []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            n = self.fresh(env)
            k = r.choice(["const", "fn0", "fn1", "fn1", "fng"])
            decls.append((n, k))
            env[n] = {"fng": "fn1"}.get(k, k)
        out, seen = [], {}
        for n, k in decls:
            vis = env if self.p(.3) else dict(seen, **{m: q for m, q in env.items() if q != "const"})
            if k == "const":
                out.append("const %s = %s ;" % (n, self.expr(vis if not self.p(.1) else env, True)))
            elif k == "fn0": out.append("function %s ( ) -> Int %s" % (n, self.block(vis, 2, False, True)))
            else:
                p = self.fresh(env)
                w = self.fresh(dict(env, **{p: 1})) if k == "fng" else None
                t = "Uint ( %s )" % w if w else "Int"
                vis2 = dict(vis, **{p: "param"})
                if w: vis2.setdefault(w, "const")
                vis2.pop("", None)
                req = " requires %s == %s" % (self.expr(vis2, True, 1), self.expr(vis2, True, 1)) if self.p(.1) else ""
                out.append("function %s ( %s : %s ) -> %s%s %s" % (n, p, t, "Int" if not w else r.choice(["Int", "Int", "Uint ( %s )" % w]), req, self.block(vis2, 2, False, not self.p(.1))))
            seen[n] = env[n]
            if self.p(.15): out.append("static_assert ( %s >= 0 ) ;" % self.expr(vis, True))
        if self.p(.3): r.shuffle(out)
        if self.p(.4): out.append("const z = %s ;" % self.expr(env, True))
        return " ".join(out)

# ---- X03: calls in every arrangement
def calls(r):
    n = r.randint(2, 4)
    sig = [r.choice([[], ["Int"], ["Int", "Int"], ["Uint ( 8 )", "Int"], ["Bool", "Int", "Uint ( 8 )"], ["Int", "Uint ( 4 )", "Int"]]) for _ in range(n)]
    ret = [r.choice(["Int", "Int", "Uint ( 8 )", "Void"]) for _ in range(n)]
    cyc = r.random() < .25
    wrong = r.random() < .15
    def arg(t, i, env, d):
        if t == "Bool": return r.choice(["true", "false", "( %s < %s )" % (e(i, env, d - 1), e(i, env, d - 1))])
        if t == "Int": return e(i, env, d)
        m = 15 if "4" in t else 255
        vs = [v for v, u in env if u == t]
        return r.choice(vs) if vs and r.random() < .6 else str(r.randrange(m + (2 if wrong else 1)))
    def call(j, i, env, d):
        k = len(sig[j]) + (r.choice([-1, 1]) if wrong and r.random() < .3 else 0)
        ts = (sig[j] + ["Int"])[:max(0, k)]
        return "f%d ( %s )" % (j, " , ".join(arg(t, i, env, d - 1) for t in ts))
    def callable_(i): return [j for j in range(n) if (j < i or (cyc and r.random() < .3)) and ret[j] == "Int"]
    def e(i, env, d):
        k = r.random()
        vs = [v for v, u in env if u == "Int"]
        js = callable_(i)
        if d > 0 and js and k < .5: return call(r.choice(js), i, env, d)
        if d > 0 and k < .75: return "( %s %s %s )" % (e(i, env, d - 1), r.choice(["+", "-", "-"]), e(i, env, d - 1))
        return r.choice(vs) if vs and k < .95 else str(r.randrange(10))
    out = []
    for i in range(n):
        env = [("p%d" % k if r.random() < .5 else "q%d_%d" % (i, k), t) for k, t in enumerate(sig[i])]
        ps = " , ".join("%s : %s" % x for x in env)
        body = []
        for v in range(r.randrange(3)):
            body.append("let x%d = %s ;" % (v, e(i, env, 2)))
            env.append(("x%d" % v, "Int"))
            if r.random() < .5: body.append("x%d = x%d + %s ;" % (v, r.randrange(v + 1), e(i, env, 2)))
        void = [j for j in range(n) if j < i]
        if void and r.random() < .4: body.append(call(r.choice(void), i, env, 2) + " ;")
        if r.random() < .2: body.append("if %s < %s { return %s ; }" % (e(i, env, 1), e(i, env, 1), {"Void": "", "Int": e(i, env, 1)}.get(ret[i], "%d" % r.randrange(256))))
        body.append({"Void": "", "Int": "return %s ;" % e(i, env, 3)}.get(ret[i], "return %s ;" % (r.choice([v for v, u in env if u == ret[i]] or ["9"]))))
        out.append("function f%d ( %s ) -> %s { %s }" % (i, ps, ret[i], " ".join(body)))
    if r.random() < .5: r.shuffle(out)
    uses = []
    for k in range(r.randint(1, 4)):
        j = r.randrange(n)
        c = call(j, n, [], 2)
        uses.append("const c%d = %s ;" % (k, c))
        if r.random() < .4: uses.append("const d%d = %s ;" % (k, c))
    if r.random() < .08: uses.append(r.choice(["const z = c0 ( ) ;", "const z = nope ( 1 ) ;", "const z = f0 ;", "function h ( p : Int ) -> Int { return p ( 1 ) ; }", "function h ( ) -> Int { let p = 1 ; p ( ) ; return p ; }",
                                             "const z = assert ( ) ;", "const z = assert ( true , true ) ;", "const z = assert ( 1 ) ;"]))
    if r.random() < .2: uses, out = out, uses
    return " ".join(out + uses)

# ---- X04: assertions
def assertions(r):
    def num(const, t):
        v = r.randrange(4)
        if not const and r.random() < .6: return {"Int": "i", "U": "u"}[t]
        return str(v) if t == "Int" else "( %d as Uint ( 8 ) )" % v
    def cond(const, d=1):
        k = r.random()
        if k < .55:
            t = r.choice(["Int", "U"])
            x, y = num(const, t), num(const, t)
            if t == "U" and r.random() < .3: y = str(r.randrange(4))
            if r.random() < .2: x = "( %s + %s )" % (x, num(const, t))
            return "%s %s %s" % (x, r.choice(["==", "!=", "<", ">", "<=", ">="]), y)
        if k < .65: return r.choice(["true", "false"]) if const or r.random() < .5 else "b"
        if k < .7: return "true == false" if r.random() < .5 else "%s != true" % (r.choice(["true", "false"] if const else ["b"]))
        if k < .8: return "( %s )" % cond(const, d)
        if k < .9 and d: return "( %s ) %s ( %s )" % (cond(const, 0), r.choice(["&&", "||"]), cond(const, 0))
        if k < .93: return "! ( %s )" % cond(const, 0)
        if k < .96: return "chk ( %s )" % num(const, "Int")
        return r.choice(["1", "( 1 as Uint ( 8 ) )", "1 / 0 == 1", "true if %s else false" % cond(const, 0)])
    pre = "function chk ( i : Int ) -> Bool { assert ( i < 3 ) ; return i > 0 ; } " if r.random() < .5 else "function chk ( i : Int ) -> Bool { return i > 0 ; } "
    k = r.randrange(6)
    if k == 0: return pre + "static_assert ( %s ) ; static_assert ( %s ) ;" % (cond(True), cond(True))
    if k == 1: return pre + "const x = assert ( %s ) ;" % cond(True)
    stm = []
    for _ in range(r.randint(1, 3)):
        stm.append(r.choice(["assert ( %s ) ;" % cond(False), "assert ( %s ) ;" % cond(False), "static_assert ( %s ) ;" % cond(True), "if %s { assert ( %s ) ; }" % (cond(False), cond(False)),
                             "let x%d = assert ( %s ) ;" % (len(stm), cond(False)) if r.random() < .2 else "i2 = i2 + 1 ;", "if %s { static_assert ( %s ) ; }" % (cond(False), cond(True)),
                             "while i2 < 3 { i2 = i2 + 1 ; assert ( i2 < %d ) ; }" % r.randrange(2, 6)]))
    req = " requires " + cond(True) if r.random() < .3 else ""
    f = "function f ( b : Bool , i : Int , u : Uint ( 8 ) ) -> Int%s { let i2 = i ; %s return i ; } " % (req, " ".join(stm))
    if r.random() < .15: f = f.replace("u : Uint ( 8 )", "u : Uint ( W )")
    uses = "".join("const r%d = f ( %s , %d , %d as Uint ( 8 ) ) ; " % (n, r.choice(["true", "false"]), r.randrange(4), r.randrange(4)) for n in range(r.randrange(3)))
    if r.random() < .2: f, uses = uses, f
    return pre + f + uses

# ---- G01: generic functions next to their hand-written instances
def generic(r):
    W = r.choice([1, 3, 8, 17, 64, 128])
    two = r.random() < .4
    ops = ["( A + B )", "( A * B )", "( ~ A )", "( A ^ B )", "( A - 1 )", "( A << ( B & 0 ) )", "( A / ( B | 1 ) )", "( A if A < B else B )", "( A >> 1 )", "( - B )", "( ( W as Uint ( W ) ) + A )", "( A + W )", "h ( A )"]
    body = r.choice(ops)
    for _ in range(r.randrange(3)): body = body.replace(r.choice("AB"), r.choice(ops))
    body = body.replace("A", "a").replace("B", "b")
    extra = r.choice(["", "", "static_assert ( W > 0 ) ; ", "static_assert ( W < 9 ) ; ", "let x : Uint ( W ) = 1 ; ", "const k = W + 1 ; let y : Uint ( k ) = 0 ; ", "if W > 8 { return a ; } ", "let z = g2 ( a ) ; ", "let z : Uint ( 8 ) = a ; ", "while false { static_assert ( W != 17 ) ; } ", "const k : Uint ( W ) = W ; "])
    req = r.choice(["", "", "", " requires W > 2", " requires ( W == 8 ) || ( W == 3 )", " requires W"])
    h = "function h ( x : Uint ( N ) ) -> Uint ( N ) { return x %s ; } " % r.choice(["+ 1", "^ x", "| ( x - x )", "if N > 3 else ( ~ x )"])
    h += "function g2 ( x : Uint ( W ) ) -> Int { return W ; } "
    f = "function f ( a : Uint ( W ) , b : Uint ( %s ) ) -> Uint ( W )%s { %sreturn %s ; } " % ("V" if two else "W", req, extra, body)
    if r.random() < .3: f = "function f ( a : Uint ( W ) , b : Uint ( V ) ) -> Int requires V >= W { return ( W * 1000 ) + V ; } "
    uses = []
    ws = [r.choice([1, 3, 8, 17, 64, 128]) for _ in range(3)]
    for i in range(r.randint(1, 5)):
        w, v = r.choice(ws), r.choice(ws)
        if not two or r.random() < .5: v = w
        x, y = lit_of(["Uint", w], rnat(r, w)), lit_of(["Uint", v], rnat(r, v))
        if r.random() < .06: x = r.choice(["1", "true"])
        if r.random() < .06: y = r.choice(["1", "true"])
        k = r.random()
        uses.append("const r%d = f ( %s , %s ) ; " % (i, x, y) if k < .6 else
                    "function k%d ( a : Uint ( %d ) , b : Uint ( %d ) ) -> Void { let q = f ( a , b ) ; } " % (i, w, v) if k < .7 else
                    "function k%d ( a : Uint ( M ) , b : Uint ( %d ) ) -> Uint ( M ) { let q = f ( b , b ) ; return h ( a ) ; } const r%d = k%d ( %s , %s ) ; " % (i, v, i, i, x, y) if k < .85 else
                    "const r%d = h ( %s ) ; static_assert ( h ( %s ) == %s ) ; " % (i, x, x, x) if r.random() < .3 else "const r%d = h ( %s ) ; " % (i, x))
    parts = [h, f] + uses
    if r.random() < .4: r.shuffle(parts)
    return "".join(parts)

# ---- A01: annotations
ANN = ["immutable", "inline", "loop_variable", "loop_step", "unroll", "c_equivalent", "java_equivalent", "instantiate", "false_if_unknown", "remove_if_unused"]
def annotation(r, name=None):
    n = name or (r.choice(ANN) if r.random() < .93 else r.choice(["nope", "Inline", "unrol", "since", "x"]))
    k = r.random()
    num = lambda: r.choice(["1", "2", "0x10", "0b1", "00", "0", "128", "129", "127", "99", "89", "90", "11", "17", "23", "29", "0143", "340282366920938463463374607431768211456", "340282366920938463463374607431768211455"])
    s = lambda: r.choice(['"f"', '"stdlib.h"', '""', '"a b"', '"q\\"t"'])
    good = {"unroll": ["( %s )" % num(), "( limit = %s )" % num()], "instantiate": ["( %s )" % num(), "( n = %s )" % num()],
            "java_equivalent": ["( %s )" % s(), "( method = %s )" % s()],
            "c_equivalent": ["( %s )" % s(), "( %s , %s )" % (s(), s()), "( %s , %s , %s )" % (s(), s(), num()), "( since = %s , %s )" % (num(), s()),
                             "( since = %s , %s , include = %s )" % (num(), s(), s()), "( include = %s , %s )" % (s(), s()), "( %s , since = %s )" % (s(), num())]}.get(n, ["", "", "( )"])
    if k < .6: return "@ %s %s" % (n, r.choice(good))
    args = []
    for _ in range(r.randrange(4)):
        key = r.choice(["", "", "limit", "n", "include", "since", "method", "nope"])
        args.append((key + " = " if key else "") + r.choice([num(), s(), "true", "false"]))
    return "@ %s %s" % (n, "( %s )" % " , ".join(args) if args or r.random() < .5 else "")
KINDS = {"immutable": "let", "inline": "let call", "loop_variable": "let", "loop_step": "assign", "unroll": "while", "c_equivalent": "function", "java_equivalent": "function",
         "instantiate": "function", "false_if_unknown": "if", "remove_if_unused": "function"}
def annotated(r):
    site = r.choice(["let", "call", "callst", "assign", "while", "function", "if", "const", "gconst", "elseif"])
    fit = [a for a in ANN if {"callst": "call", "elseif": "if", "gconst": "const"}.get(site, site) in KINDS[a].split()]
    def anns():
        return " ".join(annotation(r, r.choice(fit) if fit and r.random() < .75 else None) for _ in range(r.choice([1, 1, 1, 2])))
    a = {site: anns()}
    if r.random() < .15: a[r.choice(["let", "call", "assign", "while", "function", "if"])] = anns()
    g = lambda k: a.get(k, "")
    return ("function h ( x : Int ) -> Int { return x ; } %s const c = 2 ; %s function f ( p : Int ) -> Int { %s let i = 0 ; %s const k = 1 ; %s while i < p { %s i = i + h ( 1 ) %s ; } "
            "%s if i > 3 { h ( i ) %s ; } else %s if i > 1 { i = i + c ; } return i + h ( k ) ; } const r = f ( 3 ) ;"
            % (g("gconst"), g("function"), g("let"), g("const"), g("while"), g("assign"), g("call"), g("if"), g("callst"), g("elseif")))

# ---- X02: control flow with few variables; the result tells the path taken
def flow(r):
    cnt = [0]
    def lab():
        cnt[0] += 1
        return cnt[0]
    def cond(loop):
        return r.choice(["s < %d" % r.choice([5, 20, 60]), "n == %d" % r.randrange(4), "n > %d" % r.randrange(4), "( s % 3 ) == 1", "( s % 2 ) == 0", "true", "false", "p == %d" % r.randrange(3), "p < n"])
    def mark(): return "s = ( s * 3 ) + %d ; " % lab()
    def block(d, loop):
        return "{ " + "".join(stmt(d, loop) for _ in range(r.choice([0, 1, 1, 2, 3]))) + "} "
    def stmt(d, loop):
        k = r.random()
        if k < .35 or d == 0: 
            if loop and k < .12: return "break ; " if k < .06 else "continue ; "
            if k < .15: return r.choice(["return s ; ", "return s + %d ; " % lab()])
            return mark()
        if k < .65:
            s = "if %s %s" % (cond(loop), block(d - 1, loop))
            while r.random() < .3: s += "else if %s %s" % (cond(loop), block(d - 1, loop))
            return s + ("else " + block(d - 1, loop) if r.random() < .6 else "")
        if k < .9:
            cnt[0] += 1
            i = "i%d" % cnt[0]
            lim = r.choice([0, 1, 2, 3])
            inc = "%s = %s + 1 ; " % (i, i)
            c = r.choice(["%s < %d" % (i, lim), "( %s < %d ) && ( %s )" % (i, lim, cond(True)), "! ( %s >= %d )" % (i, lim)])
            b = block(d - 1, True)
            if r.random() < .25: return "let %s = 0 ; while true { %sif %s > %d { break ; } %s " % (i, inc, i, lim, b[1:])
            return "let %s = 0 ; while %s { %s%s " % (i, c, inc, b[1:])
        if k < .95: return block(d - 1, loop)
        return "let u%d : Int ; %s" % (lab(), ("if %s { u%d = s ; } s = s + u%d ; " % (cond(loop), cnt[0], cnt[0])))
    body = "".join(stmt(3, False) for _ in range(r.choice([1, 2, 3])))
    ret = "return s ; " if r.random() < .93 else ""
    uses = "".join("const r%d = f ( %d , %d ) ; " % (i, r.randrange(4), r.randrange(4)) for i in range(r.randint(1, 4)))
    return "function f ( n : Int , p : Int ) -> Int { let s = 0 ; %s%s} %s" % (body, ret, uses)
