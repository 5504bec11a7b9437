------------------------------- MODULE BigInt -------------------------------
(* Unbounded integers for a checker whose own integers are 32 bits wide.       *)
(* A natural is a little-endian sequence of limbs in 0..Base-1 without leading *)
(* (most significant) zero limbs; <<>> is zero.  An integer is a record        *)
(* [n |-> negative?, m |-> magnitude]; zero is never negative.                 *)
EXTENDS Integers, Sequences
LOCAL INSTANCE Bitwise
LOCAL INSTANCE SequencesExt

CONSTANT LimbBits                  \* 12 everywhere except in the self-check
Base == 2^LimbBits

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxLen(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE Norm(_)
Norm(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a)-1)) ELSE a

RECURSIVE NFromNat(_)              \* from a checker natural
NFromNat(k) == IF k = 0 THEN <<>> ELSE <<k % Base>> \o NFromNat(k \div Base)
RECURSIVE NToNatAux(_, _)
NToNatAux(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + Base * NToNatAux(a, i+1)
NToNat(a) == NToNatAux(a, 1)       \* only for small values
NSmall(a) == Len(a) * LimbBits <= 24

NZero == <<>>
NOne == <<1>>

RECURSIVE NCmpAux(_, _, _)
NCmpAux(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE NCmpAux(a, b, i-1)
NCmp(a, b) == IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
              ELSE NCmpAux(a, b, Len(a))

RECURSIVE NAddAux(_, _, _, _)
NAddAux(a, b, i, c) ==
  IF i > MaxLen(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Limb(a, i) + Limb(b, i) + c
       IN <<s % Base>> \o NAddAux(a, b, i+1, s \div Base)
NAdd(a, b) == NAddAux(a, b, 1, 0)

RECURSIVE NSubAux(_, _, _, _)      \* requires a >= b
NSubAux(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Limb(b, i) - c
       IN IF s < 0 THEN <<s + Base>> \o NSubAux(a, b, i+1, 1)
          ELSE <<s>> \o NSubAux(a, b, i+1, 0)
NSub(a, b) == Norm(NSubAux(a, b, 1, 0))

RECURSIVE Carry(_, _, _)
Carry(s, i, c) == IF i > Len(s) THEN (IF c = 0 THEN <<>> ELSE <<c % Base>> \o Carry(s, i+1, c \div Base))
                  ELSE LET t == s[i] + c IN <<t % Base>> \o Carry(s, i+1, t \div Base)
RECURSIVE Conv(_, _, _, _, _)
Conv(a, b, k, i, hi) == IF i > hi THEN 0 ELSE a[i] * b[k - i + 1] + Conv(a, b, k, i+1, hi)
NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Norm(Carry([k \in 1..(Len(a) + Len(b) - 1) |->
         LET lo == IF k > Len(b) THEN k - Len(b) + 1 ELSE 1
             hi == IF k > Len(a) THEN Len(a) ELSE k
         IN Conv(a, b, k, lo, hi)], 1, 0))

\* bit i (0-based) of a natural
NBit(a, i) == (Limb(a, (i \div LimbBits) + 1) \div 2^(i % LimbBits)) % 2
NBits(a) == Len(a) * LimbBits      \* an upper bound on the number of significant bits

NDouble(a, bit) == Carry([i \in 1..Len(a) |-> 2 * a[i]], 1, bit)
RECURSIVE NDivAux(_, _, _, _, _)
NDivAux(a, b, i, q, r) ==          \* q, r: quotient and remainder of the bits above i
  IF i < 0 THEN [q |-> Norm(q), r |-> r]
  ELSE LET r2 == Norm(IF r = <<>> THEN <<NBit(a, i)>> ELSE
                   LET d == Carry([j \in 1..Len(r) |-> 2*r[j] + (IF j = 1 THEN NBit(a, i) ELSE 0)], 1, 0) IN d)
       IN IF NCmp(r2, b) >= 0
          THEN NDivAux(a, b, i-1, Carry([j \in 1..Len(q) |-> 2*q[j] + (IF j = 1 THEN 1 ELSE 0)], 1, 0), NSub(r2, b))
          ELSE NDivAux(a, b, i-1, Carry([j \in 1..Len(q) |-> 2*q[j]], 1, 0), r2)
NDivMod(a, b) ==                   \* requires b # 0
  IF NCmp(a, b) < 0 THEN [q |-> NZero, r |-> a]
  ELSE IF NSmall(a) /\ NSmall(b)
       THEN [q |-> NFromNat(NToNat(a) \div NToNat(b)), r |-> NFromNat(NToNat(a) % NToNat(b))]
       ELSE NDivAux(a, b, NBits(a) - 1, <<0>>, NZero)

NPow2(k) == [i \in 1..((k \div LimbBits) + 1) |-> IF i = (k \div LimbBits) + 1 THEN 2^(k % LimbBits) ELSE 0]
\* the k low bits of a
NLow(a, k) ==
  LET full == k \div LimbBits
      rest == k % LimbBits
  IN IF Len(a) <= full THEN a
     ELSE Norm([i \in 1..(full + 1) |-> IF i <= full THEN a[i] ELSE a[i] % 2^rest])
NShl(a, k) ==
  IF a = <<>> THEN a
  ELSE LET z == k \div LimbBits
           s == k % LimbBits
       IN [i \in 1..z |-> 0] \o Carry([i \in 1..Len(a) |-> a[i] * 2^s], 1, 0)
NShr(a, k) ==
  LET z == k \div LimbBits
      s == k % LimbBits
  IN IF Len(a) <= z THEN <<>>
     ELSE Norm([i \in 1..(Len(a) - z) |-> (a[i+z] \div 2^s) + (Limb(a, i+z+1) % 2^s) * 2^(LimbBits - s)])
NAnd(a, b) == Norm([i \in 1..MaxLen(a, b) |-> Limb(a, i) & Limb(b, i)])
NOr(a, b) == Norm([i \in 1..MaxLen(a, b) |-> Limb(a, i) | Limb(b, i)])
NXor(a, b) == Norm([i \in 1..MaxLen(a, b) |-> Limb(a, i) ^^ Limb(b, i)])
NOnes(k) == NSub(NPow2(k), NOne)

------------------------------------------------------------------------------
Int_(n, m) == [n |-> n /\ m # <<>>, m |-> m]
IFrom(k) == IF k < 0 THEN Int_(TRUE, NFromNat(-k)) ELSE Int_(FALSE, NFromNat(k))
IZero == Int_(FALSE, <<>>)
IOne == Int_(FALSE, <<1>>)
INat(m) == Int_(FALSE, m)
ITo(a) == IF a.n THEN -NToNat(a.m) ELSE NToNat(a.m)     \* only for small values
INeg(a) == Int_(~a.n, a.m)
IAdd(a, b) ==
  IF a.n = b.n THEN Int_(a.n, NAdd(a.m, b.m))
  ELSE IF NCmp(a.m, b.m) >= 0 THEN Int_(a.n, NSub(a.m, b.m)) ELSE Int_(b.n, NSub(b.m, a.m))
ISub(a, b) == IAdd(a, INeg(b))
IMul(a, b) == Int_(a.n # b.n, NMul(a.m, b.m))
\* division truncates toward zero and the remainder has the sign of the dividend
IDiv(a, b) == Int_(a.n # b.n, NDivMod(a.m, b.m).q)
IRem(a, b) == Int_(a.n, NDivMod(a.m, b.m).r)
ICmp(a, b) == IF a.n # b.n THEN (IF a.n THEN -1 ELSE 1)
              ELSE IF a.n THEN NCmp(b.m, a.m) ELSE NCmp(a.m, b.m)
ILt(a, b) == ICmp(a, b) < 0
\* a mod 2^k, as a natural (mathematical modulus)
IMod2(a, k) == LET l == NLow(a.m, k) IN IF ~a.n \/ l = <<>> THEN l ELSE NSub(NPow2(k), l)
\* is the integer in [0, 2^k)?
IFitsU(a, k) == ~a.n /\ NCmp(a.m, NPow2(k)) < 0
\* is the integer in [-2^127, 2^127)?
IFitsI128(a) == IF a.n THEN NCmp(a.m, NPow2(127)) <= 0 ELSE NCmp(a.m, NPow2(127)) < 0
\* two's-complement wrap into [-2^127, 2^127)
IWrap128(a) == LET u == IMod2(a, 128) IN IF NCmp(u, NPow2(127)) < 0 THEN INat(u)
               ELSE Int_(TRUE, NSub(NPow2(128), u))
=============================================================================
