------------------------------- MODULE Lando -------------------------------
(***************************************************************************)
(* LANDO.  With a polynomial (or linear) kernel the model class is the     *)
(* space of polynomial maps over the kernel's monomials, so when the       *)
(* samples y = F(x) come from such a map and their features span the       *)
(* space, the learned model IS F - whatever the order of the samples, the  *)
(* rescaling, the solver, and whether they come in one fit, online, or in  *)
(* later updates.  Its analysis about a base point is the exact Taylor     *)
(* split F(b + x) = F(b) + J(b) x + N(x).  With the RBF kernel the model   *)
(* interpolates its samples and the linear part is its derivative.         *)
(* Results always belong to the last fit / update / analysis.              *)
(***************************************************************************)
EXTENDS Num, Randomization
VARIABLES cfg, phase
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k-1)
RECURSIVE Prod(_)
Prod(s) == IF s = << >> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE AnySeq(_)
AnySeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN << x >> \o AnySeq(S \ {x})
QSum(f) == LET q == TLCEval(f) IN ISum(q)
QProd(f) == LET q == TLCEval(f) IN Prod(q)
Poly(c) == c.kern # "rbf"
\* monomials of the kernel's feature space
MonsOf(c) == TLCEval(AnySeq({e \in [1..c.n -> 0..c.deg] : LET q == QSum([i \in 1..c.n |-> e[i]]) IN q = c.deg \/ (c.co > 0 /\ q <= c.deg)}))
Mons(c) == c.mons
MonAt(e, x) == QProd([i \in 1..Len(x) |-> Pow(x[i], e[i])])
DMonAt(e, x, j) == IF e[j] = 0 THEN 0 ELSE e[j] * QProd([i \in 1..Len(x) |-> Pow(x[i], IF i = j THEN e[i]-1 ELSE e[i])])
\* a data set: X (list of samples), C (coefficients of F)
FAt(c, C, x) == LET M == Mons(c) IN TLCEval([i \in 1..c.n |-> QSum([k \in 1..Len(M) |-> C[i][k] * MonAt(M[k], x)])])
JAt(c, C, x) == LET M == Mons(c) IN TLCEval([i \in 1..c.n |-> TLCEval([j \in 1..c.n |-> QSum([k \in 1..Len(M) |-> C[i][k] * DMonAt(M[k], x, j)])])])
NAt(c, C, b, x) == LET J == JAt(c, C, b) f0 == FAt(c, C, b) f1 == FAt(c, C, TLCEval([i \in 1..c.n |-> b[i] + x[i]])) IN
   TLCEval([i \in 1..c.n |-> f1[i] - f0[i] - QSum([j \in 1..c.n |-> J[i][j] * x[j]])])
Spans(c, X) == LET M == Mons(c) IN FullRank(TLCEval([k \in 1..Len(M) |-> TLCEval([t \in 1..Len(X) |-> MonAt(M[k], X[t]) % PR])]))
Col(M, j) == TLCEval([i \in 1..Len(M) |-> M[i][j]])
\* M: n rows of fixed point values, one column per point of P
Fixed(v) == TLCEval([i \in 1..Len(v) |-> v[i] * SCALE])
AtAll(M, P, G(_)) == /\ \A i \in 1..Len(M) : Len(M[i]) = Len(P)
                     /\ \A j \in 1..Len(P) : NearI(Fixed(G(P[j])), Col(M, j))
NearM(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearI(a[i], b[i])
Trace(J) == QSum([i \in 1..Len(J) |-> J[i][i]])
Trace2(J) == QSum([i \in 1..Len(J) |-> QSum([j \in 1..Len(J) |-> J[i][j] * J[j][i]])])
Sum1(e, k) == QSum([i \in 1..Len(e) |-> e[i][k]])
\* e: eigenvalues in units 1/1000
Small(e, m) == \A i \in 1..Len(e) : Abs(e[i][1]) <= m /\ Abs(e[i][2]) <= m
EigsOk(J, e) ==
  /\ Len(e) <= Len(J) /\ Small(e, 1000000)
  /\ \A i \in 1..Len(e)-1 : LET m(k) == (Abs(e[k][1]) \div 100) * (Abs(e[k][1]) \div 100) + (Abs(e[k][2]) \div 100) * (Abs(e[k][2]) \div 100)
                            IN m(i) >= m(i+1) - 4 - (Abs(e[i+1][1]) + Abs(e[i+1][2])) \div 20
  /\ Abs(Sum1(e, 1) - 1000 * Trace(J)) <= 20 + Abs(Trace(J)) \div 5 /\ Abs(Sum1(e, 2)) <= 20
  /\ Small(e, 30000) =>
     Abs(QSum([i \in 1..Len(e) |-> (e[i][1] * e[i][1] - e[i][2] * e[i][2]) \div 1000]) - 1000 * Trace2(J)) <= 200 + 40 * QSum([i \in 1..Len(e) |-> (Abs(e[i][1]) + Abs(e[i][2])) \div 1000])
\* a mode (units 1/1000, unit length) of the eigenvalue l (units 1/1000)
ModeOk(J, l, v) == Small(<< l >>, 1000000) /\ \A i \in 1..Len(J) :
  LET a == QSum([j \in 1..Len(J) |-> J[i][j] * v[j][1]]) b == QSum([j \in 1..Len(J) |-> J[i][j] * v[j][2]])
      w == QSum([j \in 1..Len(J) |-> Abs(J[i][j])])
  IN /\ Abs(1000 * a - (l[1]*v[i][1] - l[2]*v[i][2])) <= 3000 * w + 8 * (Abs(l[1]) + Abs(l[2])) + 6000
     /\ Abs(1000 * b - (l[1]*v[i][2] + l[2]*v[i][1])) <= 3000 * w + 8 * (Abs(l[1]) + Abs(l[2])) + 6000
\* ---- iterates of F while they stay small
RECURSIVE Iter(_, _, _, _)
Iter(c, C, x, k) == IF k = 0 \/ \E i \in 1..c.n : Abs(x[i]) > 60 THEN << >> ELSE << x >> \o Iter(c, C, FAt(c, C, x), k-1)
PredOk(c, C, o) == LET e == Iter(c, C, c.x0, c.k) IN
  /\ Len(o.y) = c.n /\ \A i \in 1..c.n : Len(o.y[i]) = c.k
  /\ \A t \in 1..Len(e) : NearI(Fixed(e[t]), Col(o.y, t))
\* x' = (c1 + a*x2, c2) (n = 2) or x' = c1 (n = 1), t = i*dt/10
Flow(c, i) == LET q == i * c.dt IN
  IF c.n = 1 THEN << c.x0[1] * SCALE + c.nil[1] * q * 1000 >>
  ELSE << c.x0[1] * SCALE + (c.nil[1] + c.nil[2] * c.x0[2]) * q * 1000 + c.nil[2] * c.nil[3] * q * q * 50, c.x0[2] * SCALE + c.nil[3] * q * 1000 >>
FlowOk(c, o) == /\ Len(o.y) = c.n /\ \A i \in 1..c.n : Len(o.y[i]) = c.k
                /\ \A t \in 1..c.k : NearI(Flow(c, t-1), Col(o.y, t))
Base(c, o) == IF o.q = 1 THEN c.b1 ELSE c.b2
Verdict(c, o) ==
  IF o.kind = "rejected" THEN IF o.exc \in {"ValueError", "TypeError"} THEN "" ELSE "invalid-accepted:" \o o.what
  ELSE IF o.exc # "" THEN "raises:" \o o.kind
  ELSE IF "i" \in DOMAIN o /\ o.i \notin 1..Len(c.ds) THEN "reference"
  ELSE IF o.skip THEN ""
  ELSE CASE o.kind \in {"fit", "update", "analyze"} -> ""
    [] o.kind = "f" -> IF AtAll(o.y, c.P, LAMBDA x : FAt(c, c.ds[o.i].C, x)) THEN "" ELSE "model"
    [] o.kind = "interp" -> IF NearM(TLCEval([i \in 1..c.n |-> TLCEval([t \in 1..Len(c.ds[o.i].X) |-> c.ds[o.i].Y[t][i] * SCALE])]), o.y) THEN "" ELSE "model"
    [] o.kind = "dict" -> IF /\ \A i \in 1..Len(o.d) : \E t \in 1..Len(c.ds[o.i].X) : NearI(Fixed(c.ds[o.i].X[t]), o.d[i])
                             /\ (Poly(c) => Len(o.d) = Len(Mons(c))) /\ (~Poly(c) => Len(o.d) = Len(c.ds[o.i].X)) THEN "" ELSE "dictionary"
    [] o.kind = "bias" -> IF AtAll(o.y, << Base(c, o) >>, LAMBDA x : FAt(c, c.ds[o.i].C, x)) THEN "" ELSE "bias"
    [] o.kind = "linear" -> IF NearM(LET J == JAt(c, c.ds[o.i].C, Base(c, o)) IN TLCEval([i \in 1..c.n |-> Fixed(J[i])]), o.y) THEN "" ELSE "linear"
    [] o.kind = "nonlinear" -> IF AtAll(o.y, c.P, LAMBDA x : NAt(c, c.ds[o.i].C, Base(c, o), x)) THEN "" ELSE "nonlinear"
    [] o.kind = "eigs" -> IF EigsOk(JAt(c, c.ds[o.i].C, Base(c, o)), o.e) THEN "" ELSE "eigenvalues"
    [] o.kind = "modes" -> IF LET J == JAt(c, c.ds[o.i].C, Base(c, o)) IN \A k \in 1..Len(o.e) : ModeOk(J, o.e[k], o.v[k]) THEN "" ELSE "modes"
    [] o.kind = "predict" -> IF PredOk(c, c.ds[o.i].C, o) THEN "" ELSE "prediction"
    [] o.kind = "flow" -> IF FlowOk(c, o) THEN "" ELSE "continuous-prediction"
    [] o.kind = "same" -> IF NearM(o.a, o.b) THEN "" ELSE "inconsistent:" \o o.what
    [] o.kind = "flag" -> IF o.x THEN "" ELSE "state:" \o o.what

\* ---- properties of the model
\* the split is exact: f(b + x) = f(b) + J x + N(x) has a remainder without
\* linear part (zero for affine maps), and linear kernels fix the origin
TaylorOk == phase = 100 => (Poly(cfg) => \A q \in 1..Len(cfg.ds) :
   /\ (cfg.deg = 1 => \A x \in {cfg.P[t] : t \in 1..Len(cfg.P)} : NAt(cfg, cfg.ds[q].C, cfg.b1, x) = [i \in 1..cfg.n |-> 0])
   /\ NAt(cfg, cfg.ds[q].C, cfg.b1, [i \in 1..cfg.n |-> 0]) = [i \in 1..cfg.n |-> 0]
   /\ (cfg.co = 0 => FAt(cfg, cfg.ds[q].C, [i \in 1..cfg.n |-> 0]) = [i \in 1..cfg.n |-> 0]))
Init == phase = 0 /\ cfg = [n |-> 1, kern |-> "linear", deg |-> 1, co |-> 0, mons |-> << >>, gam |-> 1, deflt |-> FALSE, sh |-> "flat", resc |-> "one", on |-> FALSE, perm |-> TRUE, ls |-> TRUE,
                            r |-> "all", ds |-> << >>, m1 |-> 2, P |-> << >>, b1 |-> << >>, b2 |-> << >>, a2 |-> FALSE, x0 |-> << >>, k |-> 3, dt |-> 1, nil |-> << 0, 0, 0 >>]
Set(f, v) == cfg' = [cfg EXCEPT ![f] = v] /\ phase' = phase + 1
RVec(n, S) == TLCEval([i \in 1..n |-> RandomElement(S)])
RMat(a, b, S) == TLCEval([i \in 1..a |-> TLCEval([j \in 1..b |-> RandomElement(S)])])
Rng == IF cfg.n = 1 THEN -3..3 ELSE -2..2
Distinct(X) == \A a, b \in 1..Len(X) : a # b => X[a] # X[b]
Next ==
  \/ phase = 0 /\ \E p \in { <<1, "linear", 1, 0>>, <<2, "linear", 1, 0>>, <<3, "linear", 1, 0>>, <<4, "linear", 1, 0>>,
                             <<1, "poly", 1, 1>>, <<2, "poly", 1, 2>>, <<3, "poly", 1, 1>>, <<1, "poly", 2, 1>>, <<2, "poly", 2, 1>>, <<2, "poly", 2, 0>>, <<1, "poly", 3, 1>>, <<2, "poly", 3, 0>>,
                             <<1, "custom", 1, 0>>, <<2, "custom", 2, 1>>, <<1, "custom", 3, 1>>, <<1, "rbf", 1, 1>>, <<2, "rbf", 1, 1>>, <<4, "rbf", 1, 1>> } :
        cfg' = [cfg EXCEPT !.n = p[1], !.kern = p[2], !.deg = p[3], !.co = p[4]] /\ phase' = 1
  \/ phase = 1 /\ \E g \in {1, 2, 5}, d \in BOOLEAN : /\ (d /\ cfg.kern = "poly" => cfg.deg = 3 /\ cfg.co = 1)
        /\ cfg' = [cfg EXCEPT !.gam = g, !.deflt = d, !.mons = MonsOf(cfg)] /\ phase' = 2     \* gamma = g/2; or all default
  \/ phase = 2 /\ \E s \in {"flat", "col", "row", "square", "list"} : (s = "square" => cfg.n = 4) /\ Set("sh", s)
  \/ phase = 3 /\ \E v \in {"one", "two", "half", "array"} : Set("resc", v)
  \/ phase = 4 /\ \E o, p, l \in BOOLEAN, r \in {"all", "n"} :
        cfg' = [cfg EXCEPT !.on = o, !.perm = p, !.ls = l, !.r = r] /\ phase' = 5
  \/ phase = 5 /\ \E a \in {LET M == IF Poly(cfg) THEN Len(Mons(cfg)) ELSE 3 IN M + RandomElement(0..4)}, b \in {LET M == IF Poly(cfg) THEN Len(Mons(cfg)) ELSE 3 IN M + RandomElement(0..4)} :
        \E X1 \in {RMat(Max2(a, 2), cfg.n, Rng)}, X2 \in {RMat(Max2(b, 2), cfg.n, Rng)} :
        \E C1 \in {IF Poly(cfg) THEN RMat(cfg.n, Len(Mons(cfg)), -2..2) ELSE << >>}, C2 \in {IF Poly(cfg) THEN RMat(cfg.n, Len(Mons(cfg)), -2..2) ELSE << >>} :
        \* (a zero first sample has no feature at all)
        /\ (cfg.co = 0 => \A X \in {X1, X2} : \A t \in 1..Len(X) : \E i \in 1..cfg.n : X[t][i] # 0) = TRUE
        /\ (Poly(cfg) => Spans(cfg, X1) /\ Spans(cfg, X2)) = TRUE
        /\ (~Poly(cfg) => Distinct(X1) /\ Distinct(X2)) = TRUE
        /\ LET Y(X, C) == TLCEval([t \in 1..Len(X) |-> IF Poly(cfg) THEN FAt(cfg, C, X[t]) ELSE RVec(cfg.n, -3..3)])
           IN cfg' = [cfg EXCEPT !.ds = << [X |-> X1, C |-> C1, Y |-> Y(X1, C1)], [X |-> X2, C |-> C2, Y |-> Y(X2, C2)] >>]
        /\ phase' = 6
  \/ phase = 6 /\ \E m \in {RandomElement(2..Len(cfg.ds[1].X))}, P \in {RMat(3, cfg.n, -3..3)}, b1 \in {RVec(cfg.n, -2..2)}, b2 \in {RVec(cfg.n, -2..2)}, x0 \in {RVec(cfg.n, -2..2)} :
        cfg' = [cfg EXCEPT !.m1 = m, !.P = P, !.b1 = b1, !.b2 = b2, !.x0 = x0] /\ phase' = 7
  \/ phase = 7 /\ \E a \in BOOLEAN, k \in {1, 2, 4, 6}, dt \in {1, 2, 3, 7, 10}, nl \in {RVec(3, -3..3)} :
        cfg' = [cfg EXCEPT !.a2 = a, !.k = k, !.dt = dt, !.nil = nl] /\ phase' = 8
  \/ phase = 8 /\ phase' = 100 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<< cfg, phase >>
=============================================================================
