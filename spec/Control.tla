------------------------------ MODULE Control ------------------------------
(***************************************************************************)
(* DMD with control.  The plant is                                         *)
(*        x(k+lag) = A x(k) + B u(k)                                       *)
(* with exact dyadic A and integer B, u, x(0..lag-1).  The specification   *)
(* simulates it exactly, certifies that the experiment identifies it (the  *)
(* stacked matrix [X; U] has full row rank, decided modulo a prime), and   *)
(* predicts the identified eigenvalues, the input matrix and the response  *)
(* to any other input.                                                     *)
(***************************************************************************)
EXTENDS Num
VARIABLES cfg, phase
Z(a) == GI(a, 0)
H(a) == << a, 0, 1 >>
\* [a : matrix by rows, e : eigenvalues]
Plants == <<
  [a |-> << << H(1) >> >>, e |-> << H(1) >>],
  [a |-> << << Z(-1) >> >>, e |-> << Z(-1) >>],
  [a |-> << << Z(1), Z(1) >>, << Z(0), H(1) >> >>, e |-> << Z(1), H(1) >>],
  [a |-> << << Z(0), Z(-1) >>, << Z(1), Z(0) >> >>, e |-> << GI(0,1), GI(0,-1) >>],
  [a |-> << << H(1), H(-1) >>, << H(1), H(1) >> >>, e |-> << <<1,1,1>>, <<1,-1,1>> >>],
  [a |-> << << H(3), Z(0) >>, << Z(1), Z(-1) >> >>, e |-> << H(3), Z(-1) >>],
  [a |-> << << Z(1), Z(0), Z(1) >>, << Z(0), H(1), Z(1) >>, << Z(0), Z(0), Z(-1) >> >>, e |-> << Z(1), H(1), Z(-1) >>],
  [a |-> << << Z(0), Z(-1), Z(0) >>, << Z(1), Z(0), Z(1) >>, << Z(0), Z(0), H(1) >> >>, e |-> << GI(0,1), GI(0,-1), H(1) >>],
  [a |-> << << H(-1), Z(0), Z(0) >>, << Z(1), Z(1), Z(0) >>, << Z(0), Z(1), H(1) >> >>, e |-> << H(-1), Z(1), H(1) >>] >>
A(f) == Plants[f.p].a
N(f) == Len(A(f))
Mi(f) == Len(f.B[1])
\* number of control inputs
K(f) == Len(f.u)
RECURSIVE GS(_)
GS(s) == IF s = << >> THEN GZero ELSE GAdd(Head(s), GS(Tail(s)))
Step(f, x, u) == TLCEval([i \in 1..N(f) |->
   GAdd(GS([j \in 1..N(f) |-> GMul(A(f)[i][j], x[j])]),
        GS([j \in 1..Mi(f) |-> GMul(Z(f.B[i][j]), Z(u[j]))]))])
RECURSIVE Traj(_, _, _)
\* the snapshots after k inputs of the sequence us: lag + k columns
Traj(f, us, k) == IF k = 0 THEN TLCEval([i \in 1..f.lag |-> TLCEval([j \in 1..N(f) |-> Z(f.x0[i][j])])])
                  ELSE LET P == Traj(f, us, k-1) IN Append(P, Step(f, P[k], us[k]))
Data(f) == Traj(f, f.u, K(f))
Mat(D) == [i \in 1..Len(D[1]) |-> [t \in 1..Len(D) |-> FX(D[t][i])]]
BoundedD(D) == \A t \in 1..Len(D) : \A i \in 1..Len(D[t]) : Abs(D[t][i][1]) < 30000 * Pow2(Min2(D[t][i][3], 14)) /\ D[t][i][3] <= 14

Xrows(f) == LET D == f.D IN TLCEval([i \in 1..N(f) |-> [t \in 1..K(f) |-> ModP(D[t][i])]])
Yrows(f) == LET D == f.D IN TLCEval([i \in 1..N(f) |-> [t \in 1..K(f) |-> ModP(D[t+f.lag][i])]])
Urows(f) == [j \in 1..Mi(f) |-> [t \in 1..K(f) |-> ModP(Z(f.u[t][j]))]]
\* f.D: the data, f.W: the response to the other input f.v
Identifies(f) == BoundedD(f.D) /\ BoundedD(f.W) /\ FullRank(Xrows(f) \o Urows(f)) /\ FullRank(Yrows(f))

\* ---- what a fitted estimator must report
EigsOk(f, o) == LET e == Plants[f.p].e IN
   /\ Len(o) = Len(e)
   /\ \E g \in [1..Len(e) -> 1..Len(e)] :
        /\ \A i, j \in 1..Len(e) : i # j => g[i] # g[j]
        /\ \A i \in 1..Len(e) : NearC(FX(e[i]), o[g[i]])
BMat(f) == [i \in 1..N(f) |-> [j \in 1..Mi(f) |-> FX(Z(f.B[i][j]))]]
X0(f) == [i \in 1..N(f) |-> FX(Z(f.x0[1][i]))]
AMat(f) == [i \in 1..N(f) |-> [j \in 1..N(f) |-> FX(A(f)[i][j])]]
F(c, i) == c.fits[i]
Verdict(c, o) ==
  LET f == c.fits[o.fit] IN
  IF o.kind = "bad" THEN IF o.exc \in {"RuntimeError", "ValueError"} THEN "" ELSE "wrong-length-accepted"
  ELSE IF o.exc # "" THEN "raises:" \o o.kind
  ELSE CASE o.kind = "model" ->
         IF ~EigsOk(f, o.eigs) THEN "eigs"
         ELSE IF ~NearMat(BMat(f), o.B) THEN "input-matrix"
         ELSE IF ~NearMat(AMat(f), o.A) THEN "state-matrix"
         ELSE IF ~o.basis THEN "basis"
         ELSE IF f.opt = "x0" /\ ~NearSeq(X0(f), o.x0) THEN "amplitudes"
         ELSE ""
    [] o.kind = "rec" -> IF NearMat(Mat(f.D), o.rec) THEN "" ELSE "reconstruction"
    [] o.kind = "resp" -> IF NearMat(Mat(f.W), o.rec) THEN "" ELSE "response-to-new-input"
    [] o.kind = "intact" -> IF o.x THEN "" ELSE "inputs-changed"

\* ---- properties of the plant model: superposition
Zero(us) == [k \in 1..Len(us) |-> [j \in 1..Len(us[k]) |-> 0]]
Super == phase = 100 => \A q \in 1..Len(cfg.fits) : LET f == F(cfg, q) IN
   LET Dv == f.W
       D0 == Traj(f, Zero(f.v), K(f))
       Dx == Traj([f EXCEPT !.x0 = [i \in 1..f.lag |-> [j \in 1..N(f) |-> 0]]], f.v, K(f))
   IN \A t \in 1..Len(Dv) : \A i \in 1..N(f) : Dv[t][i] = GAdd(D0[t][i], Dx[t][i])

\* ---- generation: one or two fits of the same object, each built up
Blank == [p |-> 1, lag |-> 1, B |-> << >>, x0 |-> << >>, u |-> << >>, v |-> << >>, D |-> << >>, W |-> << >>, known |-> FALSE, opt |-> "x0", rank |-> "all", form |-> "array"]
Init == phase = 0 /\ cfg = [fits |-> << >>, opt |-> "x0", lag |-> 1, rank |-> "all", n |-> 1, cur |-> Blank, m |-> 1, k |-> 5]
SetC(f, v) == cfg' = [cfg EXCEPT ![f] = v] /\ phase' = phase + 1
Vec(n, S) == [1..n -> S]
cur == cfg.cur
Next ==
  \/ phase = 0 /\ \E v \in 1..2 : SetC("n", v)
  \/ phase = 1 /\ \E v \in {"x0", "opt"} : SetC("opt", v)
  \/ phase = 2 /\ \E v \in 1..3 : SetC("lag", v)
  \/ phase = 3 /\ \E v \in {"all", "full", "energy"} : SetC("rank", v)
  \* --- one fit
  \/ phase = 4 /\ \E p \in 1..Len(Plants), m \in 1..2, k \in 5..9, kn \in BOOLEAN, fo \in {"array", "list", "flat"} :
        /\ k >= Len(Plants[p].a) + m + 1
        /\ cfg' = [cfg EXCEPT !.m = m, !.k = k,
              !.cur = [Blank EXCEPT !.p = p, !.known = kn, !.form = fo, !.opt = cfg.opt, !.lag = cfg.lag, !.rank = cfg.rank]]
        /\ phase' = 5
  \/ phase = 5 /\ Len(cur.B) < N(cur) /\ phase' = 5 /\ \E r \in Vec(cfg.m, -2..2) : cfg' = [cfg EXCEPT !.cur.B = Append(@, r)]
  \/ phase = 5 /\ Len(cur.B) = N(cur) /\ Len(cur.x0) < cur.lag /\ phase' = 5 /\ \E r \in Vec(N(cur), -2..3) : cfg' = [cfg EXCEPT !.cur.x0 = Append(@, r)]
  \/ phase = 5 /\ Len(cur.B) = N(cur) /\ Len(cur.x0) = cur.lag /\ Len(cur.u) < cfg.k /\ phase' = 5
        /\ \E r \in Vec(cfg.m, {-2, 0, 1, 2}) :
             cfg' = [cfg EXCEPT !.cur.u = Append(@, r),
                       !.cur.v = Append(@, [i \in 1..cfg.m |-> ((3*r[i] + Len(cur.u) * (i+1)) % 7) - 3])]
  \/ phase = 5 /\ Len(cur.u) = cfg.k /\ LET f == TLCEval([cur EXCEPT !.D = Data(cur), !.W = Traj(cur, cur.v, K(cur))]) IN
        /\ Identifies(f)
        /\ cfg' = [cfg EXCEPT !.fits = Append(@, f), !.cur = Blank]
        /\ phase' = IF Len(cfg.fits) + 1 = cfg.n THEN 6 ELSE 4
  \/ phase = 6 /\ phase' = 100 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<< cfg, phase >>
=============================================================================
