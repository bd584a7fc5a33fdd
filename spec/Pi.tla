--------------------------------- MODULE Pi ---------------------------------
(***************************************************************************)
(* Physics-informed DMD.  A manifold of operators is given by              *)
(*   Key(i,j) : the class of an entry (entries of one class are equal), or *)
(*              << >> when the entry must vanish;                          *)
(*   sym      : none / herm (A = A^H) / skew (A = -A^H);                     *)
(*   uni      : A^H A = I.                                                   *)
(* For snapshots X, Y (Gaussian integers, rows of X independent, except on *)
(* the triangular and banded manifolds) the                                *)
(* operator must lie on the manifold and satisfy the optimality conditions *)
(* of  min |Y - A X|  on it: the gradient R = (Y - A X) X^H is orthogonal   *)
(* to the manifold (to its tangent space in the unitary case).  When the   *)
(* data come from a member of the manifold these determine that member.    *)
(***************************************************************************)
EXTENDS Num, Randomization
VARIABLES cfg, phase
\* ---- complex integers << re, im >>
Add(a, b) == << a[1] + b[1], a[2] + b[2] >>
Mul(a, b) == << a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1] >>
Conj(a) == << a[1], -a[2] >>
RECURSIVE CSum(_)
CSum(s) == IF s = << >> THEN << 0, 0 >> ELSE Add(Head(s), CSum(Tail(s)))
Ct(m) == LET a == Len(m) b == Len(m[1]) IN TLCEval([i \in 1..b |-> TLCEval([j \in 1..a |-> Conj(m[j][i])])])
Mm(p, q) == TLCEval([i \in 1..Len(p) |-> TLCEval([j \in 1..Len(q[1]) |-> CSum([k \in 1..Len(q) |-> Mul(p[i][k], q[k][j])])])])

\* ---- manifolds
Sub(c) == [b0 |-> c.b0, b1 |-> c.b1, n |-> c.n]
I0(c, i) == (i - 1) % c.b0
I1(c, i) == (i - 1) \div c.b0
Key(c, i, j) ==
  LET n == c.n m == c.man IN
  CASE m \in {"unitary", "symmetric", "skewsymmetric"} -> << i, j >>
    [] m = "uppertriangular" -> IF i <= j THEN << i, j >> ELSE << >>
    [] m = "lowertriangular" -> IF i >= j THEN << i, j >> ELSE << >>
    [] m = "diagonal" -> IF j > i - c.lo[i] /\ j < i + c.up[i] THEN << i, j >> ELSE << >>
    [] m = "symmetric_tridiagonal" -> IF Abs(i - j) <= 1 THEN << i, j >> ELSE << >>
    [] m = "toeplitz" -> << j - i >>
    [] m = "hankel" -> << i + j >>
    [] m \in {"circulant", "circulant_unitary", "circulant_symmetric", "circulant_skewsymmetric"} -> << (j - i + n) % n >>
    [] m = "BC" -> << I0(c, i), I0(c, j), (I1(c, j) - I1(c, i) + c.b1) % c.b1 >>
    [] m = "BCTB" -> IF Abs(I0(c, i) - I0(c, j)) <= 1 THEN << I0(c, i), I0(c, j), (I1(c, j) - I1(c, i) + c.b1) % c.b1 >> ELSE << >>
    [] m \in {"BCCB", "BCCBunitary", "BCCBsymmetric", "BCCBskewsymmetric"} ->
         << (I0(c, j) - I0(c, i) + c.b0) % c.b0, (I1(c, j) - I1(c, i) + c.b1) % c.b1 >>
Sym(c) == CASE c.man \in {"symmetric", "symmetric_tridiagonal", "circulant_symmetric", "BCCBsymmetric"} -> "herm"
            [] c.man \in {"skewsymmetric", "circulant_skewsymmetric", "BCCBskewsymmetric"} -> "skew"
            [] OTHER -> "none"
Uni(c) == c.man \in {"unitary", "circulant_unitary", "BCCBunitary"}
Blocks == {"BC", "BCTB", "BCCB", "BCCBunitary", "BCCBsymmetric", "BCCBskewsymmetric"}
Mans == Blocks \cup {"unitary", "uppertriangular", "lowertriangular", "diagonal", "symmetric", "skewsymmetric", "toeplitz", "hankel",
          "circulant", "circulant_unitary", "circulant_symmetric", "circulant_skewsymmetric", "symmetric_tridiagonal"}
Pos(c) == (1..c.n) \X (1..c.n)
Keys(c) == {Key(c, p[1], p[2]) : p \in Pos(c)} \ {<< >>}
PosSeq(c) == Flat([i \in 1..c.n |-> [j \in 1..c.n |-> << i, j >>]])
\* positions of a class
Of(c, k) == Filter(PosSeq(c), LAMBDA p : Key(c, p[1], p[2]) = k)
ClassSum(c, R, k) == LET s == Of(c, k) IN CSum([q \in 1..Len(s) |-> R[s[q][1]][s[q][2]]])

\* ---- the operator is on the manifold (A recorded in units of 1/AS)
AS == 100000
Eps == 40
SmallC(z, e) == Abs(z[1]) <= e /\ Abs(z[2]) <= e
Diff(a, b) == << a[1] - b[1], a[2] - b[2] >>
OnManifold(c, A) ==
  /\ \A p \in Pos(c) : Key(c, p[1], p[2]) = << >> => SmallC(A[p[1]][p[2]], Eps)
  /\ \A k \in Keys(c) : LET s == Of(c, k) IN \A q \in 2..Len(s) :
        SmallC(Diff(A[s[1][1]][s[1][2]], A[s[q][1]][s[q][2]]), Eps)
  /\ Sym(c) = "herm" => \A p \in Pos(c) : SmallC(Diff(A[p[1]][p[2]], Conj(A[p[2]][p[1]])), Eps)
  /\ Sym(c) = "skew" => \A p \in Pos(c) : SmallC(Add(A[p[1]][p[2]], Conj(A[p[2]][p[1]])), Eps)
  \* A^H A = I, computed in units of 1/1000
  /\ Uni(c) => LET B == TLCEval([i \in 1..c.n |-> TLCEval([j \in 1..c.n |-> << A[i][j][1] \div 10, A[i][j][2] \div 10 >>])]) G == Mm(Ct(B), B) IN
        \A p \in Pos(c) : SmallC(Diff(G[p[1]][p[2]], << IF p[1] = p[2] THEN 100000000 ELSE 0, 0 >>), 100000)

\* ---- optimality.  Rounding of A to 1/AS propagates into R by at most
\* (n * largest entry of G) units
MaxG(G) == LET S == {Abs(G[i][j][1]) + Abs(G[i][j][2]) : i \in 1..Len(G), j \in 1..Len(G)} IN CHOOSE x \in S : \A y \in S : y <= x
Gram(c) == Mm(c.X, Ct(c.X))
Cross(c) == Mm(c.Y, Ct(c.X))
Grad(c, A) == LET G == Gram(c) M == Cross(c) AG == Mm(A, G) IN
   TLCEval([i \in 1..c.n |-> TLCEval([j \in 1..c.n |-> << AS * M[i][j][1] - AG[i][j][1], AS * M[i][j][2] - AG[i][j][2] >>])])
\* the products must fit 32 bits
Fits(c, A) == LET G == Gram(c) g == MaxG(G) IN
   \A p \in Pos(c) : Abs(A[p[1]][p[2]][1]) < 900000000 \div (g * c.n) /\ Abs(A[p[1]][p[2]][2]) < 900000000 \div (g * c.n)
Optimal(c, A) ==
  LET R == Grad(c, A) g == MaxG(Gram(c)) e == 40 + c.n * c.n * (g + 1) IN
  \A p \in Pos(c) : LET k == Key(c, p[1], p[2]) IN k # << >> =>
     LET s == ClassSum(c, R, k) IN
     IF Sym(c) = "none" THEN SmallC(s, e)
     ELSE LET t == Conj(ClassSum(c, R, Key(c, p[2], p[1]))) IN
          IF Sym(c) = "herm" THEN IF c.man = "symmetric_tridiagonal" THEN Abs(s[1] + t[1]) <= 2*e ELSE SmallC(Add(s, t), 2*e)
          ELSE SmallC(Diff(s, t), 2*e)
\* unitary: P = A^H M has Hermitian class sums, and is positive there
UOptimal(c, A) ==
  LET M == Cross(c) P == Mm(Ct(A), M) g == MaxG(M) e == 40 + 2 * c.n * c.n * (g + 1)
      S(i, j) == ClassSum(c, P, Key(c, i, j)) IN
  /\ \A p \in Pos(c) : SmallC(Diff(S(p[1], p[2]), Conj(S(p[2], p[1]))), 2*e)
  /\ \A i \in 1..c.n : S(i, i)[1] >= -e
  /\ c.man # "unitary" => \A p \in Pos(c) : LET z == S(p[1], p[2]) IN
        Abs(z[1]) <= S(1, 1)[1] + 2*e /\ Abs(z[2]) <= S(1, 1)[1] + 2*e
  /\ c.man = "unitary" => \A p \in Pos(c) : LET z == S(p[1], p[2]) a == S(p[1], p[1])[1] \div 10000 b == S(p[2], p[2])[1] \div 10000 IN
        (z[1] \div 10000) * (z[1] \div 10000) + (z[2] \div 10000) * (z[2] \div 10000) <= (a+2) * (b+2) + 4*(a+b+2)
  \* all Fourier components, where the roots of unity are Gaussian
  /\ (c.man = "circulant_unitary" /\ c.n \in {2, 4}) =>
        LET w == IF c.n = 2 THEN << << 1, 0 >>, << -1, 0 >> >> ELSE << << 1, 0 >>, << 0, 1 >>, << -1, 0 >>, << 0, -1 >> >> IN
        \A k \in 0..c.n-1 : CSum([d \in 1..c.n |-> Mul(S(1, d), w[((k * (d-1)) % c.n) + 1])])[1] >= -e * c.n
\* manifolds given by zero patterns only: any number of snapshots is allowed
Free(m) == m \in {"uppertriangular", "lowertriangular", "diagonal"}
NeedsA(m) == m \in Blocks \cup {"uppertriangular", "lowertriangular", "toeplitz", "hankel"}
Verdict(c, o) ==
  IF o.kind = "rejected" THEN IF o.exc = "ValueError" THEN "" ELSE "invalid-accepted"
  ELSE IF o.exc # "" THEN "raises:" \o o.kind
  ELSE LET d == c.fits[o.fit] IN
  CASE o.kind \in {"A", "predict"} ->
       IF o.skip THEN ""                       \* eigenvectors too ill-conditioned to rebuild the operator
       ELSE IF ~OnManifold(d, o.A) THEN o.kind \o ":not-on-manifold"
       ELSE IF ~Fits(d, o.A) THEN IF d.exact THEN o.kind \o ":not-recovered" ELSE ""
       ELSE IF Uni(d) THEN IF UOptimal(d, o.A) THEN "" ELSE o.kind \o ":not-optimal"
       ELSE IF Optimal(d, o.A) THEN "" ELSE o.kind \o ":not-optimal"
    [] o.kind = "count" -> IF o.n = d.n THEN "" ELSE "number-of-modes"
    [] o.kind = "intact" -> IF o.x THEN "" ELSE "inputs-changed"
    [] o.kind = "frame" -> IF o.x THEN "" ELSE "other-results-changed"

\* ---- properties of the oracle: a member of the manifold from which the data
\* were generated passes its own test; perturbing one entry fails it
Scaled(A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A) |-> << AS * A[i][j][1], AS * A[i][j][2] >>])])
SelfTest == phase = 100 => \A q \in 1..Len(cfg.fits) : LET d == cfg.fits[q] A == Scaled(d.A) IN
   d.exact => OnManifold(d, A) /\ (Fits(d, A) => IF Uni(d) THEN UOptimal(d, A) ELSE Optimal(d, A))
Bump(A, i, j) == [A EXCEPT ![i] = [@ EXCEPT ![j] = << @[1] + AS \div 4, @[2] >>]]
Detects == phase = 100 => \A q \in 1..Len(cfg.fits) : LET d == cfg.fits[q] A == Scaled(d.A) B == TLCEval(Bump(A, 1, d.n)) IN
   (d.exact /\ d.T > d.n /\ Fits(d, B) /\ ~Uni(d)) => ~(OnManifold(d, B) /\ Optimal(d, B))

\* ---- generation
II == 3303
MZ(z) == ((z[1] % PR) + II * (z[2] % PR)) % PR
Indep(X) == FullRank(TLCEval([i \in 1..Len(X) |-> TLCEval([t \in 1..Len(X[i]) |-> MZ(X[i][t])])]))
Rnd(cx, m) == << RandomElement(-m..m), IF cx THEN RandomElement(-m..m) ELSE 0 >>
RMat(a, b, cx, m) == TLCEval([i \in 1..a |-> TLCEval([j \in 1..b |-> Rnd(cx, m)])])
\* a member of a linear manifold: one number per class, symmetrised
Member(d, V) ==
  LET val(i, j) == LET k == Key(d, i, j) IN IF k = << >> THEN << 0, 0 >> ELSE LET s == Of(d, k)[1] IN V[s[1]][s[2]]
      B == TLCEval([i \in 1..d.n |-> TLCEval([j \in 1..d.n |-> val(i, j)])]) H == Ct(B)
  IN CASE Sym(d) = "none" -> B
       [] Sym(d) = "herm" -> TLCEval([i \in 1..d.n |-> TLCEval([j \in 1..d.n |-> Add(B[i][j], H[i][j])])])
       [] Sym(d) = "skew" -> TLCEval([i \in 1..d.n |-> TLCEval([j \in 1..d.n |-> Diff(B[i][j], H[i][j])])])
\* a unitary member: signed permutation (cyclic where needed), entries in {1,-1,i,-i}
Units == << << 1, 0 >>, << -1, 0 >>, << 0, 1 >>, << 0, -1 >> >>
UMember(d, s, u) == TLCEval([i \in 1..d.n |-> TLCEval([j \in 1..d.n |->
    CASE d.man = "unitary" -> IF j = ((i + s) % d.n) + 1 THEN Units[((i * u) % (IF d.cx THEN 4 ELSE 2)) + 1] ELSE << 0, 0 >>
      [] d.man = "circulant_unitary" -> IF (j - i + d.n) % d.n = s % d.n THEN Units[(u % (IF d.cx THEN 4 ELSE 2)) + 1] ELSE << 0, 0 >>
      [] OTHER -> IF Key(d, i, j) = << s % d.b0, u % d.b1 >> THEN Units[((s+u) % (IF d.cx THEN 4 ELSE 2)) + 1] ELSE << 0, 0 >>])])
Blank == [man |-> "unitary", n |-> 2, T |-> 4, b0 |-> 1, b1 |-> 1, lo |-> << >>, up |-> << >>, bw |-> "none", cx |-> FALSE, exact |-> TRUE, one |-> FALSE, X |-> << >>, Y |-> << >>, A |-> << >>]
Init == phase = 0 /\ cfg = [man |-> "unitary", cx |-> FALSE, ca |-> TRUE, nf |-> 1, bw |-> "none", k1 |-> 1, k2 |-> 1, n |-> 2, b0 |-> 1, b1 |-> 1, rank |-> "all", fits |-> << >>]
Set(f, v) == cfg' = [cfg EXCEPT ![f] = v] /\ phase' = phase + 1
Band(c, n) == CASE c.man # "diagonal" -> << << >>, << >> >>
    [] c.bw = "none" -> << [i \in 1..n |-> 1], [i \in 1..n |-> 1] >>
    [] c.bw = "int" -> << [i \in 1..n |-> c.k1], [i \in 1..n |-> c.k1] >>
    [] c.bw = "pair" -> << [i \in 1..n |-> c.k1], [i \in 1..n |-> c.k2] >>
    [] c.bw = "array" -> << [i \in 1..n |-> ((i + c.k1) % 3) + 1], [i \in 1..n |-> ((i * c.k2) % 2) + 1] >>
RECURSIVE Iter(_, _, _)
Iter(A, x, T) == IF T = 0 THEN << >> ELSE << x >> \o Iter(A, TLCEval([i \in 1..Len(x) |-> CSum([j \in 1..Len(x) |-> Mul(A[i][j], x[j])])]), T - 1)
Next ==
  \/ phase = 0 /\ \E v \in Mans : Set("man", v)
  \/ phase = 1 /\ \E v \in BOOLEAN : (v => cfg.man # "symmetric_tridiagonal") /\ Set("cx", v)
  \/ phase = 2 /\ \E v \in BOOLEAN : (NeedsA(cfg.man) => v) /\ Set("ca", v)
  \/ phase = 3 /\ \E v \in 1..2 : Set("nf", v)
  \/ phase = 4 /\ \E v \in {"none", "int", "pair", "array"}, a \in 1..3, b \in 1..3 : (cfg.man # "diagonal" => v = "none" /\ a = 1 /\ b = 1)
        /\ cfg' = [cfg EXCEPT !.bw = v, !.k1 = a, !.k2 = b] /\ phase' = 5
  \/ phase = 5 /\ \E p \in {<<2,2>>, <<2,3>>, <<3,2>>, <<1,3>>, <<4,1>>, <<3,1>>, <<1,2>>, <<2,1>>, <<5,1>>} :
        /\ (cfg.man = "symmetric_tridiagonal" => p[1]*p[2] >= 3)
        /\ cfg' = [cfg EXCEPT !.b0 = p[1], !.b1 = p[2], !.n = p[1]*p[2]] /\ phase' = 6
  \/ phase = 6 /\ \E v \in {"all", "full"} : Set("rank", v)
  \* one fit: sizes, data, member or free
  \/ phase = 7 /\ \E ex \in BOOLEAN, one \in BOOLEAN, T \in -2..3 :
     /\ (T < 1 => Free(cfg.man) /\ cfg.ca /\ cfg.n + T >= 2)
     /\
       LET n == cfg.n bd == Band(cfg, n)
           d0 == [Blank EXCEPT !.man = cfg.man, !.n = n, !.T = n + T, !.b0 = cfg.b0, !.b1 = cfg.b1, !.cx = cfg.cx, !.bw = cfg.bw,
                     !.lo = bd[1], !.up = bd[2], !.exact = ex, !.one = one /\ ~ex]
       IN \E V \in {RMat(n, n, cfg.cx, 2)}, X \in {RMat(n, n + T, cfg.cx, 2)}, s \in {RandomElement(0..5)}, u \in {RandomElement(0..5)}, Y0 \in {RMat(n, n + T, cfg.cx, 3)} :
          LET A == IF ~ex THEN << >> ELSE IF Uni(d0) THEN UMember(d0, s, u) ELSE Member(d0, V)
              Y == IF ex THEN Mm(A, X)
                   ELSE IF one THEN TLCEval([i \in 1..n |-> TLCEval([t \in 1..n+T |-> IF t < n + T THEN X[i][t+1] ELSE Y0[i][1]])]) ELSE Y0
              d == [d0 EXCEPT !.X = X, !.Y = Y, !.A = A]
          IN /\ (T >= 1 => Indep(X))
             /\ cfg' = [cfg EXCEPT !.fits = Append(@, d)]
             /\ phase' = IF Len(cfg.fits) + 1 = cfg.nf THEN 8 ELSE 7
  \/ phase = 8 /\ phase' = 100 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<< cfg, phase >>
=============================================================================
