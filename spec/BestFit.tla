------------------------------ MODULE BestFit ------------------------------
(***************************************************************************)
(* What a fit returns when the data are NOT a trajectory of a linear       *)
(* system.  X = SUM_k s_k u_k v_k^H with u_k, v_k columns of matrices whose *)
(* entries are units of the Gaussian integers and whose columns are        *)
(* orthogonal (|u_k|^2 = n, |v_k|^2 = m), so the singular values are        *)
(* s_k sqrt(nm) and every truncation is known exactly; Y is arbitrary.     *)
(*                                                                         *)
(* L = the singular directions kept (the leading ones; after a total least *)
(* squares projection, the leading ones of those that survive it).         *)
(*  - the operator maps u_l to Y v_l s_l / D_l, l in L, and vanishes on the *)
(*    other directions; D_l = nm s_l^2 (+ k sqrt(nm) |s| when regularised); *)
(*    balancing (rescale_mode) and sorting change nothing of this;         *)
(*    the projected operator is the same followed by the projection on the *)
(*    kept u's;                                                             *)
(*  - exact modes are eigenvectors of it; projected ones rebuild it;       *)
(*  - amplitudes leave a residual orthogonal to the modes: of one snapshot,*)
(*    or (opt) of the whole record; sparsity-promoting amplitudes do so for*)
(*    the modes they keep and are zero on the others.                      *)
(***************************************************************************)
EXTENDS Num, Randomization
VARIABLES cfg, phase
Add(a, b) == << a[1] + b[1], a[2] + b[2] >>
Mul(a, b) == << a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1] >>
Conj(a) == << a[1], -a[2] >>
Sc(k, a) == << k * a[1], k * a[2] >>
RECURSIVE CSum(_)
CSum(s) == IF s = << >> THEN << 0, 0 >> ELSE Add(Head(s), CSum(Tail(s)))
SmallC(z, e) == Abs(z[1]) <= e /\ Abs(z[2]) <= e
Dif(a, b) == << a[1] - b[1], a[2] - b[2] >>
Q(x, d) == IF x >= 0 THEN x \div d ELSE -((-x) \div d)
QC(z, d) == << Q(z[1], d), Q(z[2], d) >>
\* ---- orthogonal matrices of units
RECURSIVE Par(_, _)
Par(i, j) == IF i = 0 \/ j = 0 THEN 0 ELSE ((i % 2) * (j % 2) + Par(i \div 2, j \div 2)) % 2
Units == << << 1, 0 >>, << 0, 1 >>, << -1, 0 >>, << 0, -1 >> >>
\* row permutation p (of 0..n-1), row and column phases a, b (0..3)
Unit(n, dft, p, a, b) == TLCEval([x \in 1..n |-> TLCEval([k \in 1..n |->
    LET h == IF dft THEN (p[x] * (k-1)) % 4 ELSE 2 * Par(p[x], k-1)
    IN Units[((h + a[x] + b[k]) % 4) + 1]])])
Col(M, k) == TLCEval([x \in 1..Len(M) |-> M[x][k]])
Orth(M) == \A j, k \in 1..Len(M) :
   CSum([x \in 1..Len(M) |-> Mul(Conj(M[x][j]), M[x][k])]) = << IF j = k THEN Len(M) ELSE 0, 0 >>
Compose(c, U, V, s) == TLCEval([x \in 1..c.n |-> TLCEval([t \in 1..c.m |->
    CSum([k \in 1..Len(s) |-> Sc(s[k], Mul(U[x][k], Conj(V[t][k])))])])])
\* ---- kept directions
RECURSIVE SqSum(_)
SqSum(s) == IF s = << >> THEN 0 ELSE Head(s)*Head(s) + SqSum(Tail(s))
Strength(c, k) == c.s[k]*c.s[k] + c.t[k]*c.t[k]
Survive(c) == IF c.tlsq = 0 THEN 1..Len(c.s)
              ELSE {k \in 1..Len(c.s) : Cardinality({j \in 1..Len(c.s) : Strength(c, j) > Strength(c, k)}) < c.tlsq}
Kept(c) == LET S == Survive(c) IN {k \in S : Cardinality({j \in S : j < k}) < c.r}
Sq(x) == CHOOSE r \in 0..100 : r*r = x
Den(c, l) == c.n * c.m * c.s[l] * c.s[l] + (IF c.kap = 0 THEN 0 ELSE c.kap * Sq(c.n * c.m) * Sq(SqSum(c.s)))
\* Y v_l
YV(c, l) == TLCEval([x \in 1..c.n |-> CSum([t \in 1..c.m |-> Mul(c.Y[x][t], c.V[t][l])])])
Dot(u, w) == CSum([x \in 1..Len(u) |-> Mul(Conj(u[x]), w[x])])
\* ---- the projected operator, P recorded in units 1/PS
PS == 10000
ProjOk(c, P) ==
  /\ Len(P) = c.n
  /\ \A l \in 1..c.n :
     LET u == Col(c.U, l)
         Pu == TLCEval([x \in 1..c.n |-> CSum([y \in 1..c.n |-> Mul(P[x][y], u[y])])])
     IN IF l \in Kept(c)
        THEN LET yv == YV(c, l) d == Den(c, l)
                 \* P u_l = SUM_k u_k (u_k^H Y v_l) s_l / D_l
                 w(x) == CSum([k \in 1..Len(c.s) |-> IF k \in Kept(c) THEN Mul(c.U[x][k], Dot(Col(c.U, k), yv)) ELSE << 0, 0 >>])
             IN \A x \in 1..c.n : LET ex == w(x) IN
                  \* compare Pu with PS * s_l * w / d
                  SmallC(Dif(Pu[x], << Q(ex[1] * c.s[l] * 1000, d) * 10, Q(ex[2] * c.s[l] * 1000, d) * 10 >>), 20 + 4 * c.n)
        ELSE \A x \in 1..c.n : SmallC(Pu[x], 20 + 4 * c.n)
\* ---- exact modes: f (sup norm 1, units 1/MS), g eigenvalue (units 1/MS)
MS == 10000
EigOk(c, f, g) ==
  LET w == TLCEval([l \in 1..Len(c.s) |-> IF l \in Kept(c) THEN QC(Sc(500 * c.s[l], Dot(Col(c.U, l), f)), Den(c, l)) ELSE << 0, 0 >>])
      yv == TLCEval([l \in 1..Len(c.s) |-> YV(c, l)])
  IN \A x \in 1..c.n :
      LET lhs == QC(CSum([l \in 1..Len(c.s) |-> Mul(yv[l][x], w[l])]), 500)
          rhs == QC(Mul(f[x], g), MS)
      IN SmallC(Dif(lhs, rhs), 60)
\* the sum of the eigenvalues is the trace of the reduced operator
TraceOk(c, gs) ==
  LET tr == CSum([l \in 1..Len(c.s) |-> IF l \in Kept(c)
                    THEN LET z == Dot(Col(c.U, l), YV(c, l)) IN << Q(z[1] * c.s[l] * 1000, Den(c, l)) * 10, Q(z[2] * c.s[l] * 1000, Den(c, l)) * 10 >>
                    ELSE << 0, 0 >>])
  IN SmallC(Dif(CSum(gs), tr), 20 * (Len(c.s) + 2))
\* ---- the optimal low-rank operator (OptDMD): the least-squares operator
\* followed by the projection on the leading left singular vectors of its fit.
\* Known exactly without truncation, and with it when Y = SUM t_k w_k v_k^H.
OutKept(c, full) == IF full THEN Survive(c)
   ELSE {k \in Survive(c) : Cardinality({j \in Survive(c) : c.t[j] > c.t[k]}) < c.r}
\* a request beyond the rank of the stacked data projects on everything
Big(c) == c.tlsq > Len(c.s)
OptDecided(c, full) == full \/ (c.tlsq > 0 /\ ~Big(c) /\ \A j, k \in 1..Len(c.s) : j # k => c.t[j] # c.t[k])
OptOk(c, full, P) ==
  /\ Len(P) = c.n
  /\ \A l \in 1..c.n :
     LET u == Col(c.U, l)
         Pu == TLCEval([x \in 1..c.n |-> CSum([y \in 1..c.n |-> Mul(P[x][y], u[y])])])
     IN IF l \in OutKept(c, full)
        THEN LET yv == YV(c, l) IN \A x \in 1..c.n :
               SmallC(Dif(Pu[x], << Q(yv[x][1] * 1000, c.m * c.s[l]) * 10, Q(yv[x][2] * 1000, c.m * c.s[l]) * 10 >>), 20 + 4 * c.n)
        ELSE \A x \in 1..c.n : SmallC(Pu[x], 20 + 4 * c.n)
\* ---- orthogonality of a residual E to an atom W (both flattened; W has sup
\* norm 1 in units 1/3000, E in units 1/3000 of its own scale)
Ortho(E, W) ==
  LET z == CSum([i \in 1..Len(E) |-> Mul(Conj(W[i]), E[i])]) IN SmallC(z, 300000)
Verdict(c, o) ==
  \* a defective operator has no basis of modes: optimal amplitudes need one
  IF o.exc = "LinAlgError" /\ c.opt = "T" /\ o.kind = "count" THEN ""
  ELSE IF o.exc # "" THEN "raises:" \o o.kind
  ELSE CASE o.kind = "count" -> IF o.n = Cardinality(Kept(c)) THEN "" ELSE "number-of-modes"
    [] o.kind = "operator" -> IF o.skip THEN "" ELSE IF ProjOk(c, o.P) THEN "" ELSE "operator"
    [] o.kind = "optdmd" -> IF o.skip \/ ~OptDecided(c, o.full) THEN "" ELSE IF OptOk(c, o.full, o.P) THEN "" ELSE "optimal-operator"
    [] o.kind = "trace" -> IF o.skip THEN "" ELSE IF TraceOk(c, o.g) THEN "" ELSE "eigenvalues"
    [] o.kind = "mode" -> IF o.skip THEN "" ELSE IF EigOk(c, o.f, o.g) THEN "" ELSE "mode"
    [] o.kind = "ampl" -> IF o.skip THEN "" ELSE
         IF \E i \in 1..Len(o.W) : ~o.zero[i] /\ ~Ortho(o.E, o.W[i]) THEN "amplitudes" ELSE ""
    [] o.kind = "sparse" ->
         IF o.what = "none" /\ o.nz # Cardinality(Kept(c)) THEN "sparse:kept-under-huge-penalty"
         ELSE IF ~o.pattern THEN "sparse:zeros-not-zero"
         ELSE IF o.skip THEN ""
         \* without a penalty the residual is orthogonal to every mode
         ELSE IF o.what = "all" /\ \E i \in 1..Len(o.W) : ~Ortho(o.E, o.W[i]) THEN "sparse:dropped-without-penalty"
         ELSE IF \E i \in 1..Len(o.W) : ~o.zero[i] /\ ~Ortho(o.E, o.W[i]) THEN "sparse:amplitudes" ELSE ""
    [] o.kind = "intact" -> IF o.x THEN "" ELSE "inputs-changed"

\* ---- sanity of the construction
Built == phase = 100 => Orth(cfg.U) /\ Orth(cfg.V) /\ Cardinality(Kept(cfg)) >= 1
\* the oracle accepts the operator it defines and rejects a changed one
\* (one direction kept, projected operator of a rank-one X)
Self == (phase = 100 /\ Len(cfg.s) = 1 /\ cfg.kap = 0) =>
   LET u == Col(cfg.U, 1) z == Dot(u, YV(cfg, 1)) d == cfg.n * cfg.n * cfg.m * cfg.s[1]
       P == TLCEval([x \in 1..cfg.n |-> TLCEval([y \in 1..cfg.n |-> LET w == Mul(Mul(u[x], z), Conj(u[y])) IN
               << Q(w[1] * PS, d), Q(w[2] * PS, d) >>])])
   IN ProjOk(cfg, P) /\ ~ProjOk(cfg, [P EXCEPT ![1] = [@ EXCEPT ![1] = << @[1] + PS, @[2] >>]])

\* ---- generation
\* the reduced operator is invertible (certified modulo a prime, II^2 = -1)
II == 3303
MZ(z) == ((z[1] % PR) + II * (z[2] % PR)) % PR
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN << >> ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j IN << k >> \o SetSeq(S \ {k})
Invertible(c) == LET ks == SetSeq(Kept(c)) IN
  FullRank(TLCEval([a \in 1..Len(ks) |-> LET yv == YV(c, ks[a]) IN TLCEval([b \in 1..Len(ks) |-> MZ(Dot(Col(c.U, ks[b]), yv))])]))
Seqs == { << 1 >>, << 2 >>, << 2, 1 >>, << 3, 1 >>, << 4, 3 >>, << 3, 2, 1 >>, << 6, 3, 2 >>, << 5, 3, 1 >>, << 8, 4, 1 >>, << 4, 3, 2, 1 >>, << 5, 4, 2, 1 >> }
Square(s) == \E r \in 0..20 : r*r = SqSum(s)
Init == phase = 0 /\ cfg = [n |-> 4, m |-> 4, cx |-> FALSE, s |-> << 1 >>, t |-> << 1 >>, r |-> 1, tlsq |-> 0, kap |-> 0, one |-> FALSE, sort |-> "no", resc |-> "no",
                            opt |-> "F", j |-> 0, all |-> FALSE, U |-> << >>, V |-> << >>, X |-> << >>, Y |-> << >>]
Set(f, v) == cfg' = [cfg EXCEPT ![f] = v] /\ phase' = phase + 1
RSeq(n, S) == TLCEval([i \in 1..n |-> RandomElement(S)])
RECURSIVE RPerm(_)
RPerm(S) == IF S = {} THEN << >> ELSE LET x == RandomElement(S) IN LET y == TLCEval(x) IN << y >> \o RPerm(S \ {y})
RMat(a, b, cx, k) == TLCEval([i \in 1..a |-> TLCEval([j \in 1..b |-> << RandomElement(-k..k), IF cx THEN RandomElement(-k..k) ELSE 0 >>])])
Ph(cx) == IF cx THEN 0..3 ELSE {0, 2}
Next ==
  \/ phase = 0 /\ \E p \in {<<2,4>>, <<4,4>>, <<4,8>>, <<8,4>>, <<2,2>>, <<2,8>>, <<8,8>>} : cfg' = [cfg EXCEPT !.n = p[1], !.m = p[2]] /\ phase' = 1
  \/ phase = 1 /\ \E v \in {x \in Seqs : Len(x) <= Min2(cfg.n, cfg.m)} : Set("s", v)
  \/ phase = 2 /\ \E v \in BOOLEAN : Set("cx", v)
  \/ phase = 3 /\ \E v \in 1..Len(cfg.s) : Set("r", v)
  \/ phase = 4 /\ \E v \in {0, 1, 2, 3} : (v > 0 => Square(cfg.s) /\ \E z \in 1..20 : z*z = cfg.n * cfg.m) /\ Set("kap", v)
  \/ phase = 5 /\ \E v \in {0} \cup 1..Len(cfg.s) \cup {q \in {Min2(2*cfg.n, cfg.m), 2*cfg.n + 3} : q > Len(cfg.s)} : Set("tlsq", v)
  \/ phase = 6 /\ \E v \in BOOLEAN : (v => cfg.tlsq = 0 \/ Big(cfg)) /\ Set("one", v)
  \/ phase = 7 /\ \E v \in {"no", "abs", "real"}, w \in {"no", "auto", "array"} : cfg' = [cfg EXCEPT !.sort = v, !.resc = w] /\ phase' = 8
  \/ phase = 8 /\ \E v \in {"F", "T", "J"}, w \in 0..2 : cfg' = [cfg EXCEPT !.opt = v, !.j = IF v = "J" THEN IF w = 2 THEN -1 ELSE w ELSE 0] /\ phase' = 9
  \/ phase = 9 /\ \E v \in BOOLEAN : (v => cfg.r = Len(cfg.s) /\ Len(cfg.s) = Min2(cfg.n, cfg.m)) /\ Set("all", v)
  \/ phase = 10 /\ phase' = 11 /\
       \E U \in {Unit(cfg.n, cfg.cx /\ cfg.n = 4, RPerm(0..cfg.n-1), RSeq(cfg.n, Ph(cfg.cx)), RSeq(cfg.n, Ph(cfg.cx)))},
          V \in {Unit(cfg.m, cfg.cx /\ cfg.m = 4, RPerm(0..cfg.m-1), RSeq(cfg.m, Ph(cfg.cx)), RSeq(cfg.m, Ph(cfg.cx)))} :
          cfg' = [cfg EXCEPT !.U = U, !.V = V, !.X = Compose(cfg, U, V, cfg.s)]
  \/ phase = 11 /\ phase' = 12 /\
       \E Y \in {RMat(cfg.n, cfg.m, cfg.cx, 3)}, e \in {RMat(cfg.n, 1, cfg.cx, 4)},
          W \in {Unit(cfg.n, cfg.cx /\ cfg.n = 4, RPerm(0..cfg.n-1), RSeq(cfg.n, Ph(cfg.cx)), RSeq(cfg.n, Ph(cfg.cx)))}, tt \in {RSeq(Len(cfg.s), 1..6)} :
          LET Yo == TLCEval([x \in 1..cfg.n |-> TLCEval([t \in 1..cfg.m |-> IF t < cfg.m THEN cfg.X[x][t+1] ELSE e[x][1]])])
          IN IF cfg.tlsq > 0 /\ ~Big(cfg)
             THEN /\ \A a, b \in 1..Len(cfg.s) : a # b => cfg.s[a]*cfg.s[a] + tt[a]*tt[a] # cfg.s[b]*cfg.s[b] + tt[b]*tt[b]
                  /\ cfg' = [cfg EXCEPT !.t = tt, !.Y = Compose(cfg, W, cfg.V, tt)]
             ELSE cfg' = [cfg EXCEPT !.t = [i \in 1..Len(cfg.s) |-> 0], !.Y = IF cfg.one THEN Yo ELSE Y]
  \/ phase = 12 /\ (cfg.tlsq > 0 => cfg.r <= cfg.tlsq) /\ (cfg.kap > 0 => (cfg.tlsq \in {0, Len(cfg.s)} \/ Big(cfg))) /\ Invertible(cfg) /\ phase' = 100 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<< cfg, phase >>
=============================================================================
