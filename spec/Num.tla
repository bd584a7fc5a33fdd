-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact arithmetic used by every specification in this directory.         *)
(*                                                                         *)
(* A number is a dyadic Gaussian rational  <<re, im, e>> = (re+i*im)/2^e   *)
(* with e >= 0.  Systems are built only from such numbers, so the          *)
(* specification predicts trajectories, eigenvalues and mode contributions *)
(* EXACTLY; observations of the floating-point implementation are recorded *)
(* as fixed-point integers (value * SCALE, rounded) and compared with a    *)
(* small tolerance.  TLC integers are 32 bit: TLC aborts on overflow, it   *)
(* never wraps, so a too-large system is a loud error of the check.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SCALE == 10000            \* fixed point of the observations
BAD   == 2000000000       \* what the recorder writes for NaN/Inf/out of range

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

RECURSIVE GNorm(_)
GNorm(g) == IF g[3] > 0 /\ g[1] % 2 = 0 /\ g[2] % 2 = 0
            THEN GNorm(<< g[1] \div 2, g[2] \div 2, g[3] - 1 >>)
            ELSE IF g[3] < 0
                 THEN << g[1] * Pow2(-g[3]), g[2] * Pow2(-g[3]), 0 >>
                 ELSE g

GI(re, im) == << re, im, 0 >>
GZero == << 0, 0, 0 >>
GOne  == << 1, 0, 0 >>
GMul(a, b) == GNorm(<< a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1], a[3]+b[3] >>)
GConj(a) == << a[1], -a[2], a[3] >>
GScale2(a, m) == GNorm(<< a[1], a[2], a[3] - m >>)          \* a * 2^m
GNeg(a) == << -a[1], -a[2], a[3] >>
GAdd(a, b) == IF a[3] >= b[3]
              THEN GNorm(<< a[1] + b[1]*Pow2(a[3]-b[3]), a[2] + b[2]*Pow2(a[3]-b[3]), a[3] >>)
              ELSE GNorm(<< b[1] + a[1]*Pow2(b[3]-a[3]), b[2] + a[2]*Pow2(b[3]-a[3]), b[3] >>)
GSub(a, b) == GAdd(a, GNeg(b))

\* log2 of a positive power of two
RECURSIVE Lg(_)
Lg(n) == IF n = 1 THEN 0 ELSE 1 + Lg(n \div 2)

\* |a|^2 of the (re,im) numerator; every base we raise to a power has a
\* power-of-two numerator norm, so that inverses stay dyadic
N2(a) == a[1]*a[1] + a[2]*a[2]
GInv(a) == GScale2(GConj(a), 2*a[3] - Lg(N2(a)))
\* 1/((r+is)/2^e) = 2^e (r-is)/N  and GConj(a) = (r-is)/2^e

RECURSIVE GPowN(_, _)
GPowN(a, n) == IF n = 0 THEN GOne
               ELSE IF n % 2 = 0 THEN LET h == GPowN(a, n \div 2) IN GMul(h, h)
               ELSE GMul(a, GPowN(a, n - 1))
GPow(a, n) == IF n >= 0 THEN GPowN(a, n) ELSE GPowN(GInv(a), -n)

\* fixed point image of an exact number
FX1(a, e) == LET q == a \div Pow2(e)
                 r == a % Pow2(e)
             IN q * SCALE + (IF e <= 17 THEN (r * SCALE) \div Pow2(e)
                             ELSE ((r \div Pow2(e - 17)) * SCALE) \div Pow2(17))
FX(g) == IF g[3] > 30 THEN << 0, 0 >> ELSE << FX1(g[1], g[3]), FX1(g[2], g[3]) >>
FAdd(a, b) == << a[1] + b[1], a[2] + b[2] >>

RECURSIVE FSum(_)
FSum(s) == IF s = << >> THEN << 0, 0 >> ELSE FAdd(Head(s), FSum(Tail(s)))
RECURSIVE ISum(_)
ISum(s) == IF s = << >> THEN 0 ELSE Head(s) + ISum(Tail(s))

\* tolerance of a fixed point comparison: TOL units plus a relative part
TOL == 12
\* (never overflows: numbers of opposite sign are compared through their parts)
Near(exp, obs) == LET tol == TOL + (Abs(exp) \div 20000) IN
                  IF (exp >= 0) = (obs >= 0) THEN Abs(exp - obs) <= tol
                  ELSE Abs(exp) <= tol /\ Abs(obs) <= tol /\ Abs(exp) + Abs(obs) <= tol
NearC(exp, obs) == /\ Len(obs) = 2
                   /\ Near(exp[1], obs[1]) /\ Near(exp[2], obs[2])
NearSeq(exp, obs) == /\ Len(exp) = Len(obs)
                     /\ \A i \in 1..Len(exp) : NearC(exp[i], obs[i])
NearMat(exp, obs) == /\ Len(exp) = Len(obs)
                     /\ \A i \in 1..Len(exp) : NearSeq(exp[i], obs[i])
NearI(exp, obs) == /\ Len(exp) = Len(obs)
                   /\ \A i \in 1..Len(exp) : Near(exp[i], obs[i])

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
Filter(s, P(_)) == LET F[i \in 0..Len(s)] ==
                         IF i = 0 THEN << >>
                         ELSE IF P(s[i]) THEN Append(F[i-1], s[i]) ELSE F[i-1]
                   IN F[Len(s)]
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN << >>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                    IN << m >> \o SeqOfSet(S \ {m})
\* ---- rank modulo a prime: full rank mod p implies full rank
PR == 10009
INV2 == 5005
RECURSIVE PowM(_, _)
PowM(b, e) == IF e = 0 THEN 1 ELSE (b * PowM(b, e-1)) % PR
ModP(g) == ((g[1] % PR) * PowM(INV2, g[3])) % PR
RECURSIVE InvM(_, _, _)
InvM(b, e, acc) == IF e = 0 THEN acc
                   ELSE InvM((b*b) % PR, e \div 2, IF e % 2 = 1 THEN (acc*b) % PR ELSE acc)
RECURSIVE FullRank(_)
\* rows of M are linearly independent mod PR
FullRank(M) ==
  IF M = << >> THEN TRUE
  ELSE LET r == Head(M) IN
       IF \A c \in 1..Len(r) : r[c] = 0 THEN FALSE
       ELSE LET c == CHOOSE c \in 1..Len(r) : r[c] # 0
                iv == InvM(r[c], PR - 2, 1)
            IN FullRank(TLCEval([i \in 1..Len(M)-1 |->
                 LET q == (M[i+1][c] * iv) % PR IN
                 TLCEval([x \in 1..Len(r) |-> (M[i+1][x] + (PR - q) * r[x]) % PR])]))
=============================================================================
