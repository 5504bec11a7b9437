"""Types, values and operands for generated cases."""
BOOL, INT, VOID = ["Bool"], ["Int"], ["Void"]
def U(n): return ["Uint", n]
ARITH = ["binary_plus", "binary_minus", "multiplication", "division", "remainder"]
SHIFT = ["shift_left", "shift_right"]
BITW = ["bitwise_and", "bitwise_or", "bitwise_xor"] + SHIFT
LOGIC = ["logical_and", "logical_or"]
EQ = ["equals", "not_equals"]
REL = ["less_than", "greater_than", "less_or_equal", "greater_or_equal"]
BIN = ARITH + BITW + LOGIC + EQ + REL
UN = ["unary_plus", "unary_minus", "logical_not", "bitwise_not"]
WIDTHS = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 127, 128]

def big(v):
    n, u, m = v < 0, abs(v), []
    while u:
        m.append(u & 0xfff)
        u >>= 12
    return {"n": n, "m": m}
def unbig(j):
    u = 0
    for x in reversed(j["m"]):
        u = u << 12 | x
    return -u if j["n"] else u
def val(t, v): return {"t": t, "v": big(v)}
def unk(t): return {"t": t}

def rwidth(r): return r.choice(WIDTHS) if r.random() < .75 else r.randint(1, 128)
def rtype(r):
    k = r.random()
    return VOID if k < .03 else BOOL if k < .2 else INT if k < .45 else U(rwidth(r))
def rnat(r, bits):
    """A natural below 2^bits, biased to boundaries and sparse or dense patterns."""
    top = (1 << bits) - 1
    k = r.random()
    if k < .15: v = r.choice([0, 1, 2, 3, top, top - 1, top >> 1, (top >> 1) + 1])
    elif k < .3: v = 1 << r.randrange(bits)
    elif k < .4: v = (1 << r.randrange(bits)) - 1
    elif k < .46: v = sum(r.randrange(1, 10) * 10 ** r.randrange(39) for _ in range(r.choice([1, 2, 3]))) - r.randrange(2)   # long runs of a decimal digit
    elif k < .5: v = top ^ (1 << r.randrange(bits))
    elif k < .65: v = r.randrange(0, 20)
    elif k < .8: v = r.getrandbits(r.randint(1, bits))
    else: v = r.getrandbits(bits)
    return v & top
def rint(r, bits=127):
    v = rnat(r, r.choice([4, 8, 16, 32, 33, 63, 64, 65, bits]) if r.random() < .7 else bits)
    return -v if r.random() < .4 else v
def rval(r, t):
    if t == VOID: return val(t, 0)
    if t == BOOL: return val(t, r.randrange(2))
    if t == INT: return val(t, rint(r))
    return val(t, rnat(r, t[1]))
def rshift(r, t):
    n = t[1]
    return val(t, r.choice([0, 1, n - 1, n, n + 1, r.randrange(0, n + 2)]) & ((1 << n) - 1))
