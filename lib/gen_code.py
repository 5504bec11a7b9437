"""Programs for the code generators: every construct inside every other one, and random programs."""
from gen_prog import Prog, flat
# operands of the kinds Bool, Int, Uint(8), Uint(32)
VARS = {"B": ["p", "q", "true"], "I": ["i", "j", "7", "NEG", "POS"], "U": ["u", "v", "K"], "W": ["w", "w", "L"]}
TY = {"B": "Bool", "I": "Int", "U": "Uint ( 8 )", "W": "Uint ( 32 )"}
HEAD = ("const NEG = - 5 ; const POS = 12 ; const K = 200 as Uint ( 8 ) ; const L : Uint ( 32 ) = 0xff ; const YES = true ; "
        "function fb ( x : Bool , y : Int ) -> Bool { return x ; } function fi ( x : Int ) -> Int { return x ; } "
        "function fu ( ) -> Uint ( 8 ) { return 1 ; } function fw ( a : Uint ( 32 ) , b : Uint ( 32 ) , c : Bool ) -> Uint ( 32 ) { return a ; } "
        "function gen ( x : Uint ( N ) ) -> Uint ( N ) { return x ; } ").split()
PARAMS = "p : Bool , q : Bool , i : Int , j : Int , u : Uint ( 8 ) , v : Uint ( 8 ) , w : Uint ( 32 )"
# forms: kind -> [(kinds of the operands, template)]; a template is filled with parenthesised operands
ARI = ["+", "-", "*", "/", "%%"]
FORMS = {
    "B": [("BB", "%s && %s"), ("BB", "%s || %s"), ("BB", "%s == %s"), ("BB", "%s != %s"), ("B", "! %s"), ("BBB", "%s if %s else %s"), ("BI", "fb ( %s , %s )"), ("B", "%s as Bool")]
         + [("II", "%s " + o + " %s") for o in ["<", ">", "<=", ">=", "==", "!="]] + [("UU", "%s == %s"), ("WW", "%s < %s"), ("WW", "%s >= %s")],
    "I": [("II", "%s " + o + " %s") for o in ARI] + [("I", "- %s"), ("I", "+ %s"), ("IBI", "%s if %s else %s"), ("I", "fi ( %s )"), ("I", "%s as Int")],
    "U": [("UU", "%s " + o + " %s") for o in ARI + ["&", "|", "^"]] + [("UI", "%s << %s"), ("UI", "%s >> %s"), ("U", "~ %s"), ("U", "- %s"), ("U", "+ %s"),
          ("UBU", "%s if %s else %s"), ("", "fu ( )"), ("I", "%s as Uint ( 8 )"), ("U", "%s as Uint ( 8 )"), ("U", "gen ( %s )")],
    "W": [("WW", "%s " + o + " %s") for o in ["+", "-", "&"]] + [("W", "~ %s"), ("WBW", "%s if %s else %s"), ("WWB", "fw ( %s , %s , %s )"), ("W", "%s as Uint ( 32 )"), ("I", "%s as Uint ( 32 )")],
}
def leaf(r, k): return r.choice(VARS[k])
def fill(r, t, ks, subs):
    call = "( %s" in t or ", %s" in t
    s = [subs.get(n) or leaf(r, k) for n, k in enumerate(ks)]
    return t % tuple(x if call or " " not in x else "( " + x + " )" for x in s)
def deep(r, k, d):
    ks, t = r.choice(FORMS[k])
    return fill(r, t, ks, {n: deep(r, x, d - 1) for n, x in enumerate(ks) if d > 1 and r.random() < .7})
def pairs(r):
    """Every form as every operand of every form."""
    out = []
    for k in FORMS:
        for ks, t in FORMS[k]:
            for n, x in enumerate(ks):
                for ks2, t2 in FORMS[x]:
                    out.append((k, fill(r, t, ks, {n: fill(r, t2, ks2, {})})))
    return out
POSITIONS = {"B": ["return %s ;", "let x = %s ;", "let x : Bool = %s ;", "if %s { }", "while %s { break ; }", "assert ( %s ) ;", "if p { } else if %s { }",
                   "static_assert ( ( %s ) || true ) ;"],
             "I": ["return %s ;", "let x = %s ;", "let x : Int ; x = %s ;", "let x : Int ; fi ( %s ) ;"],
             "U": ["return %s ;", "let x : Uint ( 8 ) = %s ;", "let x = gen ( %s ) ;"], "W": ["return %s ;", "let x = %s ;", "fw ( w , %s , p ) ;"]}
def programs(r, exprs, per=12):
    r.shuffle(exprs)
    for a in range(0, len(exprs), per):
        out = list(HEAD)
        for n, (k, e) in enumerate(exprs[a:a + per]):
            pos = r.choice([p for p in POSITIONS[k] if not p.startswith("static")])
            out += ("function f%d ( %s ) -> %s { %s" % (n, PARAMS, TY[k], pos % e)).split()
            if not pos.startswith("return"): out += ("return %s ;" % leaf(r, k)).split()
            out += ["}"]
        yield out
def block(r, d, loop):
    out = []
    for _ in range(r.randrange(4)):
        out += statement(r, d, loop)
    return ["{"] + out + ["}"]
COUNT = [0]
def statement(r, d, loop):
    k = r.randrange(13 if d > 0 else 8)
    e = lambda t: deep(r, t, r.choice([1, 1, 2]))
    COUNT[0] += 1
    n = "x%d" % COUNT[0]
    if k == 0: return ("let %s%s = %s ;" % (n, r.choice(["", " : Bool"]), e("B"))).split()
    if k == 1: return ("let %s%s = %s ;" % (n, r.choice(["", " : Int"]), e("I"))).split()
    if k == 2: t = r.choice("BIUW"); return ("let %s : %s ; %s = %s ;" % (n, TY[t], n, e(t))).split()
    if k == 3: return ("const %s = %s ;" % (n, r.choice(["1", "- 1", "true", "NEG - POS", "7 as Uint ( 8 )", "fi ( NEG )", "K"]))).split() + ("let y%s = %s ;" % (n, n)).split()
    if k == 4: return r.choice(["fi ( %s ) ;" % e("I"), "fu ( ) ;", "assert ( %s ) ;" % e("B"), "fb ( %s , %s ) ;" % (e("B"), e("I"))]).split()
    if k == 5: return [r.choice(["break", "continue"]), ";"] if loop else "static_assert ( 1 < POS ) ;".split()
    if k == 6: return ("return %s ;" % e("I")).split()
    if k == 7: return ("let %s : Uint ( 32 ) = %s ;" % (n, e("W"))).split()
    if k == 8: return block(r, d - 1, loop)
    if k == 9: return ("while " + e("B")).split() + block(r, d - 1, True)
    s = ("if " + e("B")).split() + block(r, d - 1, loop)
    while r.random() < .4: s += ["else"] + ("if " + e("B")).split() + block(r, d - 1, loop)
    return s + (["else"] + block(r, d - 1, loop) if r.random() < .6 else [])
def statements(r):
    out = list(HEAD)
    for n in range(r.randint(1, 4)):
        out += ("function f%d ( %s ) -> Int" % (n, PARAMS)).split()
        if r.random() < .1: out += "requires POS > NEG".split()
        b = block(r, 3, False)
        out += b[:-1] + "return i ; }".split()
    if r.random() < .2: out += "function nothing ( ) -> Void { } function gen2 ( x : Uint ( N ) , y : Uint ( M ) ) -> Bool requires N > M { return true ; }".split()
    return out
WIDTHS = [1, 7, 8, 9, 16, 24, 32, 33, 64, 65, 100, 128]
def widths(r):
    """Types of some width in one place each."""
    w = r.choice(WIDTHS)
    t = "Uint ( %s )" % r.choice(["%d" % w, "%d - 1" % (w + 1), "hex"])
    pre = "const hex = 0x%x ;" % w if "hex" in t else ""
    s = r.choice(["function f ( x : {t} ) -> Int { return 1 ; }", "function f ( b : Bool , y : Int , x : {t} ) -> Bool { return true ; }",
                  "function f ( ) -> {t} { return 1 ; }", "function f ( x : Int ) -> Int { let y = x as {t} ; return 1 ; }",
                  "function f ( x : Int ) -> Bool { let y : {t} ; return true ; }", "function f ( x : Int ) -> Bool { return ( x as {t} ) == 1 ; }",
                  "const c : {t} = 1 ; function f ( ) -> Int { return 1 ; }", "const c = 1 as {t} ; function f ( ) -> Bool { return c == 1 ; }",
                  "function f ( ) -> Int { const c : {t} = 1 ; return 2 ; }", "const c : {t} = 1 ; function f ( ) -> Bool { return c == 1 ; }",
                  "function g ( x : Uint ( N ) ) -> Uint ( N ) { let y : {t} = 0 ; return x ; } function f ( ) -> Int { let z = g ( 1 as {t} ) ; return 0 ; }",
                  "function g ( x : Uint ( N ) ) -> Uint ( N ) { let y : {t} = 0 ; return x ; } function f ( ) -> Int { return 0 ; }",
                  "function f ( ) -> Int { return 1 ; } static_assert ( ( 1 as {t} ) == 1 ) ;"])
    return (pre + " " + s.replace("{t}", t)).split()
def random_program(r): return flat(Prog(r, depth=r.choice([2, 3, 4]), widths=r.choice([[8, 16, 32], [64, 8], None])).program(2, 1))
