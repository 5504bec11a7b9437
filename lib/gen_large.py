"""Scripts that are large in one respect: operands, bodies, nesting, numbers of declarations, calls, names."""
from gen_small import lit_of, typ
from gen_values import rwidth

def size(r, lo=2, hi=160):
    """mostly around powers of two"""
    n = r.choice([8, 16, 32, 64, 128, 256]) + r.choice([-2, -1, 0, 1, 2]) if r.random() < .5 else r.randint(lo, hi)
    return max(lo, min(hi, n))
def tree(r, n, leaf, ops):
    """a tree of n leaves; balanced or leaning"""
    if n == 1: return leaf()
    k = r.choice([1, n - 1, n // 2, n // 2, r.randrange(1, n)]) if n < 40 else r.choice([n // 2, n // 3 + 1])
    return "( %s %s %s )" % (tree(r, k, leaf, ops), r.choice(ops), tree(r, n - k, leaf, ops))
def chain(r, n, leaf, op):
    s = leaf()
    for _ in range(n - 1): s = "( %s %s %s )" % ((s, op, leaf()) if r.random() < .8 else (leaf(), op, s))
    return s

def operands(r):
    """operands of lazy operators that compile to many instructions"""
    n = size(r)
    ints = lambda: r.choice(["x", "x", "y", "1", "2"])
    big = lambda: "( %s == %s )" % (tree(r, max(1, n + r.randrange(-2, 3)), ints, ["+", "-"]), r.choice(["0", "x", "y", "7"]))
    bools = lambda: r.choice(["a", "b", "( x < y )", "true", "false"])
    B = lambda: big() if r.random() < .7 else tree(r, n, bools, ["&&", "||", "==", "!="])
    e = r.choice([lambda: "a || %s" % B(), lambda: "a && %s" % B(), lambda: "%s && b" % B(), lambda: "%s || b" % B(), lambda: "( a || %s ) && ( b || %s )" % (B(), B()),
                  lambda: "%s if a else %s" % (B(), B()), lambda: "b if a else %s" % B(), lambda: "%s if a else b" % B(), lambda: "a if %s else b" % B(),
                  lambda: "a || ( b && %s )" % B(), lambda: "( a && %s ) || b" % B()])()
    st = r.choice(["return %s ; ", "let r = %s ; return r ; ", "if %s { return true ; } return false ; ", "if %s { x = x + 1 ; } else { y = y + 1 ; } return x < y ; ",
                   "while ( %s ) && ( i < 3 ) { i = i + 1 ; } return i > 1 ; "]) % ("( " + e + " )" if r.random() < .5 else e).replace("%", "%%")
    return ("function f ( a : Bool , b : Bool , x0 : Int , y : Int ) -> Bool { let x = x0 ; let i = 0 ; %s} " % st.replace("y = y + 1", "x = x - 1")
            + "".join("const r%d = f ( %s , %s , %d , %d ) ; " % (i, a, b, r.randrange(3), r.randrange(3))
                      for i, (a, b) in enumerate((a, b) for a in ("true", "false") for b in ("true", "false"))))

def bodies(r):
    """branches and loops around many statements"""
    n = size(r, 2, 140)
    cnt = [0]
    def mark():
        cnt[0] += 1
        return r.choice(["s = ( s * 3 ) + %d ; ", "s = s + %d ; ", "t = s - %d ; ", "if s == %d { t = t + 1 ; } ", "g ( %d ) ; "]) % cnt[0]
    def many(k): return "".join(mark() + ("s = s % 100003 ; " if r.random() < .5 else "") for _ in range(k))
    k = r.randrange(7)
    brk = r.choice(["break ; ", "continue ; ", "return s ; ", ""])
    cond = r.choice(["i == 2", "p > 1", "p == 0", "( s % 2 ) == 0"])
    if k == 0: b = "if p > 1 { %s} else { %s} " % (many(n), many(r.choice([0, 1, n])))
    elif k == 1: b = "while i < p { i = i + 1 ; %sif %s { %s} %s} " % (many(n), cond, brk, many(r.choice([0, 1, n // 2])))
    elif k == 2: b = "".join("%s p == %d { %s} " % ("if" if i == 0 else "else if", (i * 7) % 11, mark()) for i in range(min(n, 60))) + "else { %s} " % mark()
    elif k == 3:
        d = min(n, 40)
        b = "".join("if p > %d { %s" % (i % 3 - 2, mark()) for i in range(d)) + "".join("%s} %s" % (mark(), "else { %s} " % mark() if r.random() < .3 else "") for i in range(d))
    elif k == 4:
        d = min(n, 12)
        b = "".join("let i%d = 0 ; while i%d < %d { i%d = i%d + 1 ; %s" % (i, i, 2 if i % 4 == 0 else 1, i, i, mark()) for i in range(d)) + "".join("%s%s} " % (mark(), "break ; " if r.random() < .2 else "") for i in range(d))
    elif k == 5:
        d = min(n, 60)
        b = "".join("{ let v = s + %d ; %s" % (i, "} { " if r.random() < .3 else "s = v ; } ") + ("} " if False else "") for i in range(0)) + \
            "".join("{ let v = s + %d ; s = v %% 1009 ; { const v2 = %d ; s = s + v2 ; } } " % (i, i) for i in range(d))
    else: b = "while true { %sif i > p { break ; } i = i + 1 ; %sif %s { %s} } " % (many(n // 2), many(n // 2), cond, r.choice(["break ; ", "i = i + 1 ; continue ; ", "i = i + 2 ; "]))
    tail = " s = s % 100003 ; return s + t ; "
    return ("function g ( x : Int ) -> Void { } function f ( p : Int ) -> Int { let s = 1 ; let t = 0 ; let i = 0 ; %s%s} " % (b, tail)
            + "".join("const r%d = f ( %d ) ; " % (i, i) for i in range(4)))

def many_calls(r):
    """many functions, parameters, locals, nested and repeated calls"""
    k = r.randrange(6)
    n = size(r, 2, 60)
    if k == 0:                                   # a chain of functions
        order = list(range(n))
        fs = ["function f%d ( x : Int ) -> Int { let a = x + %d ; let b = %s ; return ( a * 2 ) - b ; } " % (i, i, "f%d ( a ) %% 1000" % (i - 1) if i else "a") for i in order]
        if r.random() < .6: r.shuffle(fs)
        return "".join(fs) + "const r = f%d ( 3 ) ; const q = f%d ( r %% 10 ) ;" % (n - 1, r.randrange(n))
    if k == 1:                                   # many parameters
        n = min(n, 40)
        ps = ["p%d" % i for i in range(n)]
        ts = [r.choice([["Int"], ["Bool"], ["Uint", rwidth(r)]]) for _ in ps]
        e = " ".join("if p%d %s { s = ( ( s * 2 ) + %d ) %% 1000003 ; }" % (i, "" if t[0] == "Bool" else "> %d" % r.randrange(1, 2 if t[0] == "Uint" else 4) if t[0] == "Int" or t[1] > 1 else "== 1", i) for i, t in enumerate(ts)).replace(" }", " ; }").replace("; ; }", "; }")
        vals = [lit_of(t, r.randrange(2)) for t in ts]
        if r.random() < .2: vals = vals[:-1] if r.random() < .5 else vals + ["1"]
        return "function f ( %s ) -> Int { let s = 1 ; %s return s ; } const r = f ( %s ) ;" % (" , ".join("%s : %s" % (p, typ(t)) for p, t in zip(ps, ts)), e, " , ".join(vals))
    if k == 2:                                   # many locals, of caller and callee
        vs = "".join("let v%d = %s + %d ; " % (i, "v%d" % r.randrange(i) if i else "x", i) for i in range(n))
        us = "".join("v%d = g ( v%d ) ; " % (r.randrange(n), r.randrange(n)) for _ in range(6))
        ws = "".join("let v%d = %s - %d ; " % (i, "v%d" % (i - 1) if i else "x", i) for i in range(min(n, 20)))
        return "function g ( x : Int ) -> Int { %sreturn v%d ; } function f ( x : Int ) -> Int { %s%sreturn %s ; } const r = f ( 1 ) ; const q = f ( 2 ) ;" % (ws, min(n, 20) - 1, vs, us, chain(r, n, lambda: "v%d" % r.randrange(n), "+"))
    if k == 3:                                   # nested calls
        e = "x"
        for _ in range(n): e = r.choice(["f ( %s )", "g ( %s , y )", "g ( y , %s )", "g ( f ( y ) , %s )", "( %s - f ( x ) )"]) % e
        return ("function f ( a : Int ) -> Int { return a + 1 ; } function g ( a : Int , b : Int ) -> Int { let c = a - b ; return c - f ( b ) ; } "
                "function h ( x : Int , y : Int ) -> Int { return %s ; } const r = h ( 1 , 2 ) ; const q = h ( r , 0 - r ) ; const z = %s ;" % (e, e.replace("x", "3").replace("y", "4")))
    if k == 4:                                   # arguments that are large expressions, pending operands
        a = tree(r, min(n, 40), lambda: r.choice(["x", "1", "f ( x )", "f ( 2 )"]), ["+", "-"])
        return "function f ( a : Int ) -> Int { let b = a ; while b > 3 { b = b - 2 ; } return b ; } function h ( x : Int ) -> Int { return %s ; } const r = h ( 5 ) ; const q = %s ;" % (a, a.replace("x", "5"))
    cs = "".join("const c%d = %s ; " % (i, "c%d + f ( c%d %% 7 )" % (i - 1, r.randrange(i)) if i else "1") for i in range(n))   # many constants
    return "function f ( x : Int ) -> Int { return ( x + %s ) + 1 ; } " % (r.choice(["0", "1"])) + cs + "static_assert ( c%d > 0 ) ;" % (n - 1)

def instances(r):
    """one generic function at many widths, in any order, some of them again"""
    n = size(r, 2, 40)
    ws = [r.randint(1, 128) for _ in range(n)]
    ws += [r.choice(ws) for _ in range(n // 4)]
    body = r.choice(["return x + W ;", "let y : Uint ( W ) = 1 ; return ( ~ x ) - y ;", "static_assert ( W > 0 ) ; return h ( x ) ;", "return x if W > 60 else ( ~ x ) ;", "return g ( x , x ) ;"])
    pre = ("function h ( x : Uint ( N ) ) -> Uint ( N ) { return x ^ ( x >> ( 0 as Uint ( N ) ) ) ; } function g ( x : Uint ( A ) , y : Uint ( B ) ) -> Uint ( A ) { let z = h ( y ) ; return x - 1 ; } "
           "function f ( x : Uint ( W ) ) -> Uint ( W ) { %s } " % body)
    pre = pre.replace("return x + W", "return ( x * 2 ) + ( W % 2 )" if r.random() < .5 else "return x")
    return pre + "".join("const r%d = f ( %s ) ; " % (i, lit_of(["Uint", w], r.getrandbits(w))) for i, w in enumerate(ws)) + \
        ("function k ( %s ) -> Void { %s} " % (" , ".join("a%d : Uint ( %d )" % (i, w) for i, w in enumerate(ws[:6])), "".join("f ( a%d ) ; " % i for i in range(len(ws[:6])))) if r.random() < .5 else "")

def names(r):
    """long names, names that begin alike, many scopes"""
    n = size(r, 2, 50)
    base = r.choice(["a", "_", "x" * r.choice([15, 16, 31, 32, 63, 64, 127, 255, 256, 300]), "Uint", "let", "iff", "trueish", "a" * 20 + "_"])
    ns = [base + s for s in ["1", "2", "_", "x", "X", "11", "12", "10", "__", "B"]] + ["%s%d" % (base, i) for i in range(20, 20 + n)]
    r.shuffle(ns)
    ds, used = [], []
    for i, x in enumerate(ns):
        v = "%s + %d" % (r.choice(used), i) if used and r.random() < .7 else str(i)
        if r.random() < .03: v = r.choice(ns)
        if r.random() < .02 and used: x = r.choice(used)
        ds.append("const %s = %s ; " % (x, v)); used.append(x)
    if r.random() < .3: return "".join(ds)
    body, live, depth = [], [[]], 0
    for i in range(n):
        k = r.random()
        if k < .25: body.append("{ "); live.append([])
        elif k < .5 and len(live) > 1: body.append("} "); live.pop()
        else:
            known = [x for l in live for x in l]
            free = [x for x in ns if x not in known]
            if k < .75 and free:
                x = r.choice(free) if r.random() < .98 else r.choice(ns)
                body.append("let %s = %s ; " % (x, r.choice(known) if known else str(i))); live[-1].append(x)
            elif known: body.append("%s = %s + %s ; s = %s ; " % (r.choice(known), r.choice(known), r.choice(known) if r.random() < .97 else r.choice(ns), r.choice(known)))
    body += ["} "] * (len(live) - 1)
    f = "function ff ( ) -> Int { let s = 0 ; %sreturn s ; } const rr = ff ( ) ; " % "".join(body)
    return f if r.random() < .7 else "".join(d.replace(base, "G" + base) for d in ds) + f

def nesting(r, deepest=300):
    """one construct inside itself, sometimes cut off"""
    n = size(r, 2, deepest)
    pre, post, mid, a, b = r.choice([
        ("const r = ", " ;", "1", "( ", " )"), ("const r = ", " ;", "1", "( - ", " )"), ("const r = ", " ;", "1", "( 1 + ", " )"), ("const r = ", " ;", "1", "( ", " - 1 )"),
        ("const r = ", " ;", "1", "2 if true else ( ", " )"), ("const r = ", " ;", "1", "( ", " ) if true else 3"), ("const r = ", " ;", "1", "3 if false else ", ""),
        ("function f ( ) -> Void { ", "}", "", "{ ", "} "), ("function f ( x : Int ) -> Void { ", "}", "", "if x > 0 { ", "} "), ("function f ( x : Int ) -> Void { ", "}", "", "while x > 0 { ", "} "),
        ("function f ( x : Int ) -> Void { if x == 0 { } ", "}", "", "else if x == 1 { } ", ""), ("function f ( x : Int ) -> Int { return ", " ; } const r = f ( 1 ) ;", "x", "f2 ( ", " )"),
        ("function f ( x : Int ) -> Int { return ", " ; } const r = g ( 2 ) ; function g ( x : Int ) -> Int { return x + 1 ; }", "x", "g ( ", " )"),
        ("const r : Uint ( 8 ) = ", " ;", "1", "( ", " as Uint ( 8 ) )"), ("const r = ", " ;", "true", "( ! ", " )"), ("const r = ", " ;", "true", "( true && ", " )"),
        ("const r = 1 as Uint ", " ;", "( 3 )", "( 1 as Uint ", " )")])
    k = n if r.random() < .8 else r.randrange(n)
    return pre + a * n + mid + b * k + post
