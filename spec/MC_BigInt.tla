----------------------------- MODULE MC_BigInt -----------------------------
(* Self-check of the arithmetic library: with limbs of 2 bits every carry and  *)
(* borrow path is reached by small numbers, whose results are compared with    *)
(* the checker's own integers.                                                 *)
EXTENDS BigInt, TLC
LOCAL INSTANCE Bitwise
CONSTANTS Max, Shift
VARIABLES a, b, k
vars == <<a, b, k>>
Init == a \in -Max..Max /\ b \in -Max..Max /\ k = 0
Next == k < Shift /\ k' = k + 1 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Abs(x) == IF x < 0 THEN -x ELSE x
Canon(x) == x.m = Norm(x.m) /\ (x.m = <<>> => ~x.n) /\ \A i \in 1..Len(x.m) : x.m[i] \in 0..(Base-1)
TDiv(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
Is(x, v) == Canon(x) /\ ITo(x) = v
A == IFrom(a)
B == IFrom(b)
Arithmetic ==
  /\ Is(A, a) /\ Is(IAdd(A, B), a + b) /\ Is(ISub(A, B), a - b) /\ Is(IMul(A, B), a * b)
  /\ (b # 0 => Is(IDiv(A, B), TDiv(a, b)) /\ Is(IRem(A, B), a - TDiv(a, b) * b))
  /\ ICmp(A, B) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
LongDivision ==        \* the bitwise algorithm, even where the shortcut would apply
  (a >= 0 /\ b > 0) => LET d == NDivAux(A.m, B.m, NBits(A.m) - 1, <<0>>, <<>>)
                       IN NToNat(d.q) = a \div b /\ NToNat(d.r) = a % b /\ d.q = Norm(d.q) /\ d.r = Norm(d.r)
BitOps ==
  (a >= 0 /\ b >= 0) => /\ NToNat(NAnd(A.m, B.m)) = (a & b) /\ NToNat(NOr(A.m, B.m)) = (a | b)
                        /\ NToNat(NXor(A.m, B.m)) = (a ^^ b)
Powers ==
  /\ NToNat(NPow2(k)) = 2^k /\ NToNat(NOnes(k)) = 2^k - 1
  /\ Is(INat(IMod2(A, k)), a % 2^k)
  /\ (a >= 0 => /\ Is(INat(NShl(A.m, k)), a * 2^k) /\ Is(INat(NShr(A.m, k)), a \div 2^k)
                /\ Is(INat(NLow(A.m, k)), a % 2^k) /\ NBit(A.m, k) = (a \div 2^k) % 2)
  /\ IFitsU(A, k) = (a >= 0 /\ a < 2^k)
============================================================================
