"""Instruction sequences: soups that mostly fit the operand stack, and structured ones with loops and calls."""
from gen_values import *
class Asm:
    def __init__(self, r):
        self.r, self.ids = r, 0
        self.ws = r.sample(WIDTHS, 2)
    def ins(self, i, **kw):
        self.ids += 1
        return dict(kw, i=i, id=self.ids)
    def type(self):
        return self.r.choice([BOOL, INT, INT, U(self.ws[0]), U(self.ws[0]), U(self.ws[1])])
    def value(self, t=None):
        t = t or self.type()
        if t == INT: return val(t, self.r.choice([0, 1, 2, 3, 5, -1, -7, self.r.getrandbits(20)]))
        if isinstance(t, list) and t[0] == "Uint" and self.r.random() < .5: return val(t, self.r.randrange(4) & ((1 << t[1]) - 1))
        return rval(self.r, t)
    def push(self, t=None): return self.ins("push", v=self.value(t))
    def pick(self, ts):
        """an instruction for operand types ts (known from the straight line), and the types behind it"""
        r = self.r
        k = r.random()
        if k < .25 or not ts:
            t = self.type()
            return self.push(t), ts + [t]
        top = ts[-1]
        if k < .5 and len(ts) >= 2:
            a, b = ts[-2], ts[-1]
            if a == BOOL: ops = LOGIC + EQ
            elif a == INT: ops = ARITH + EQ + REL
            elif a and a[0] == "Uint": ops = ARITH + BITW + EQ + REL
            else: ops = BIN
            op = r.choice(ops if r.random() < .93 else BIN)
            t = BOOL if op in LOGIC + EQ + REL else (b if a == INT else a)
            return self.ins("binary", op=op), ts[:-2] + [t]
        if k < .6: return self.ins("store", key=r.randrange(3)), ts[:-1]
        if k < .7: return self.ins("load", key=r.randrange(3)), ts + [None]
        if k < .75: return self.ins("unary", op=r.choice(["unary_plus", "unary_minus"] if top == INT else ["logical_not"] if top == BOOL else UN)), ts
        if k < .8:
            t = self.type() if top == INT or r.random() < .1 else top
            return (self.ins("convert", t=t), ts[:-1] + [t]) if t else (self.ins("pop"), ts[:-1])
        if k < .83: return self.ins("pop"), ts[:-1]
        if k < .86 and top == BOOL: return self.ins("assert"), ts[:-1] + [VOID]
        if k < .93 and (top == BOOL or r.random() < .2): return self.ins("jump_if", o=r.choice([0, 1, 1, 2, 3, -2, -3, -5, 7]), x=r.random() < .5), ts[:-1]
        if k < .97: return self.ins("jump", o=r.choice([0, 0, 1, 1, 2, 3, 4, -1, -2, -4, -9, 30])), ts
        if k < .98: return self.ins(r.choice(["break", "continue"])), ts
        return self.push(BOOL), ts + [BOOL]
    def line(self, n, ts=()):
        out, ts = [], list(ts)
        for _ in range(n):
            i, ts = self.pick(ts)
            out.append(i)
        return out, ts
    def soup(self):
        r = self.r
        out, ts = self.line(r.randint(1, 14))
        for _ in range(r.choice([0, 0, 1, 2])):
            k = r.randrange(4)
            i = self.ins("call", a=r.randrange(len(out) + 2)) if k else self.ins("return")
            out.insert(r.randrange(len(out) + 1), i)
        return out
    def loop(self):
        """v0 counts down; a body runs that many times"""
        n = self.r.choice([0, 1, 2, 3])
        body = [i for i in self.line(self.r.randrange(5))[0] if i["i"] not in ("jump", "jump_if", "break", "continue")]
        for i in body:
            if i["i"] == "store" and i["key"] == 0: i["key"] = 3
        head = [self.ins("push", v=val(INT, n)), self.ins("store", key=0)]
        cond = [self.ins("load", key=0), self.ins("push", v=val(INT, 0)), self.ins("binary", op="less_or_equal"), None]
        step = [self.ins("load", key=0), self.ins("push", v=val(INT, 1)), self.ins("binary", op="binary_minus"), self.ins("store", key=0)]
        cond[3] = self.ins("jump_if", o=len(body) + len(step) + 1, x=True)
        return head + cond + body + step + [self.ins("jump", o=-(len(cond) + len(body) + len(step)) - 1)]
    def calls(self):
        """functions that store their parameters and call the later ones; the first one is entered by a call"""
        r = self.r
        n = r.randint(1, 4)
        ar = [r.randrange(3) for _ in range(n)]
        fs = []
        for f in range(n):
            b = [self.ins("store", key=k) for k in reversed(range(ar[f]))]
            b += [i for i in self.line(r.randrange(4))[0] if i["i"] in ("push", "store", "binary", "unary")]
            for g in range(f + 1, n):
                if r.random() < .6:
                    b += [self.push(INT) if r.random() < .5 or not ar[f] else self.ins("load", key=r.randrange(ar[f])) for _ in range(ar[g])]
                    b.append(self.ins("call", a=-1 - g))
                    if r.random() < .5: b.append(self.ins("store", key=r.randrange(4)))
            if r.random() < .2 and ar[f]:
                b.append(self.ins("push", v=val(BOOL, r.randrange(2))))
                b.append(self.ins("jump_if", o=2, x=True))
            b += [self.ins("load", key=r.randrange(4)) if r.random() < .4 else self.push(INT)]
            if r.random() < .9: b.append(self.ins("return"))
            fs.append(b)
        main = [self.push(INT) for _ in range(ar[0])] + [self.ins("call", a=-1), self.ins("store", key=0), self.ins("load", key=0)]
        if r.random() < .5: main += [self.ins("jump", o=0)]
        out = list(main)
        at = []
        if r.random() < .5: fs_order = range(n)
        else: fs_order = r.sample(range(n), n)
        pos = {}
        for f in fs_order:
            pos[f] = len(out)
            out += fs[f]
        for i in out:
            if i["i"] == "call" and i["a"] < 0: i["a"] = pos[-1 - i["a"]]
        return out
    def trace(self, cycles):
        """what is done with one machine"""
        r = self.r
        acts, n = [], 0
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if n and k < .3: acts.append({"do": "clear"}); n = 0
            elif n: acts.append({"do": "reset"})
            if n == 0 or r.random() < .3:
                k = r.random()
                p = self.soup() if k < .5 else self.loop() if k < .7 else self.calls() if n == 0 else self.soup()
                if r.random() < .2: p += self.line(3)[0]
                h = r.randrange(len(p) + 1) if r.random() < .2 else len(p)
                for part in (p[:h], p[h:]):
                    if part: acts.append({"do": "add", "is": part}); n += len(part)
            for _ in range(r.choice([0, 0, 1, 2, 3])): acts.append({"do": "push", "v": self.value()})
            if r.random() < .25: acts.append({"do": "jump", "a": r.randrange(n)})
            for _ in range(r.choice([3, 10, cycles])):
                acts.append({"do": "cycle"})
                if r.random() < .02: acts.append({"do": "push", "v": self.value()})
        return acts
