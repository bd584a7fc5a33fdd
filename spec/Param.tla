------------------------------- MODULE Param -------------------------------
(***************************************************************************)
(* Parametric DMD.  For every training parameter the data are the exact    *)
(* trajectory of a linear system; the spatial reduction is exact and the   *)
(* interpolator is piecewise linear (or nearest neighbour) in the          *)
(* parameter, so the prediction for ANY parameter and ANY time is the same *)
(* combination of the training trajectories, continued to that time.       *)
(*                                                                         *)
(* State: which data are fitted, the output window, the parameters asked   *)
(* for.  Actions: fit (accepted / rejected), window, params, copy, saving. *)
(***************************************************************************)
EXTENDS Systems
VARIABLES cfg, phase
n == 4
\* menu of modes; vectors chosen so that any 4 distinct entries used at one
\* parameter are independent
Mm == << one(R(<<1,0,1,2>>)), neg(R(<<0,1,1,-1>>)), half(R(<<8,4,-4,0>>)), two(R(<<0,1,0,1>>)),
         im(C(<<1,1,0,2>>,<<1,0,0,1>>)), mim(CC(<<1,1,0,2>>,<<1,0,0,1>>)),
         one(R(<<2,-1,0,1>>)), neg(R(<<1,1,-2,0>>)), half(R(<<-4,0,8,8>>)) >>
Kinds == << {1}, {2, 3}, {1, 3}, {5, 6}, {1, 5, 6}, {4, 2}, {7, 2}, {8, 7}, {9, 8}, {9, 5, 6} >>
\* dataset: [T, kind for every training parameter]
Val(d, i, x, t) == LET S == SeqOfSet(Kinds[d.ks[i]]) IN
                   GSum([k \in 1..Len(S) |-> ValAt(Mm[S[k]], x, 2*t)])
Lams(d, i) == {Mm[k].lam : k \in Kinds[d.ks[i]]}
AllLams(d) == UNION {Lams(d, i) : i \in 1..Len(d.ks)}
\* ---- interpolation: weights of the training data at parameter m (given in
\* quarters of a unit; training parameters are distinct whole numbers)
Near1(d, m) == CHOOSE i \in 1..Len(d.mu) : \A j \in 1..Len(d.mu) : Abs(4*d.mu[i] - m) <= Abs(4*d.mu[j] - m)
Below(d, m) == CHOOSE i \in 1..Len(d.mu) : 4*d.mu[i] <= m /\ \A j \in 1..Len(d.mu) : 4*d.mu[j] <= m => d.mu[j] <= d.mu[i]
Above(d, m) == CHOOSE i \in 1..Len(d.mu) : 4*d.mu[i] >= m /\ \A j \in 1..Len(d.mu) : 4*d.mu[j] >= m => d.mu[j] >= d.mu[i]
Inside(d, m) == (\E i \in 1..Len(d.mu) : 4*d.mu[i] <= m) /\ (\E i \in 1..Len(d.mu) : 4*d.mu[i] >= m)
Pred(c, d, m, x, t) ==      \* fixed point
  IF c.approx = "nearest" THEN FX(Val(d, Near1(d, m), x, t))
  ELSE LET a == Below(d, m) b == Above(d, m) IN
       IF a = b THEN FX(Val(d, a, x, t))
       ELSE LET va == FX(Val(d, a, x, t)) vb == FX(Val(d, b, x, t))
                wb == m - 4*d.mu[a] w == 4*(d.mu[b] - d.mu[a])
            IN << (va[1]*(w - wb) + vb[1]*wb) \div w, (va[2]*(w - wb) + vb[2]*wb) \div w >>
TieOk(d, m) == \A i, j \in 1..Len(d.mu) : i # j => Abs(4*d.mu[i] - m) # Abs(4*d.mu[j] - m)

\* ---- the state after the first k operations
Win0(d) == << 0, d.T - 1, 1 >>
RECURSIVE St(_, _)
St(c, k) ==
  IF k = 0 THEN [d |-> c.ds[1], win |-> Win0(c.ds[1]), par |-> << >>]
  ELSE LET s == St(c, k-1) o == c.ops[k] IN
       CASE o.op = "fit" -> [s EXCEPT !.d = c.ds[o.i], !.win = Win0(c.ds[o.i])]
         [] o.op = "badfit" -> s
         [] o.op = "win" -> [s EXCEPT !.win = o.w]
         [] o.op = "par" -> [s EXCEPT !.par = o.p]
         [] OTHER -> s
Times(w) == [i \in 1..((w[2] - w[1]) \div w[3]) + 1 |-> w[1] + (i-1)*w[3]]
RecFor(c, s) == LET ts == TLCEval(Times(s.win)) IN
   TLCEval([p \in 1..Len(s.par) |-> TLCEval([x \in 1..n |-> TLCEval([t \in 1..Len(ts) |-> Pred(c, s.d, s.par[p], x, ts[t])])])])
FcFor(s) == LET ts == TLCEval(Times(s.win)) IN
   [i \in 1..Len(s.d.mu) |-> [x \in 1..n |-> [t \in 1..Len(ts) |-> FX(Val(s.d, i, x, ts[t]))]]]
TrFor(s) == [i \in 1..Len(s.d.mu) |-> [x \in 1..n |-> [t \in 1..s.d.T |-> FX(Val(s.d, i, x, t-1))]]]
NearCube(e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : NearMat(e[i], o[i])
TS(w) == [i \in 1..Len(Times(w)) |-> Times(w)[i] * SCALE]
Verdict(c, o) ==
  LET s == TLCEval(St(c, o.k)) IN
  IF o.kind = "bad" THEN IF o.exc = "ValueError" THEN "" ELSE "invalid-accepted"
  ELSE IF o.kind = "nopar" THEN IF o.exc = "ValueError" THEN "" ELSE "no-parameters-accepted"
  ELSE IF o.kind = "light" THEN IF o.exc = "RuntimeError" THEN "" ELSE "light-instance"
  ELSE IF o.exc # "" THEN "raises:" \o o.kind
  ELSE CASE o.kind = "op" -> ""
    [] o.kind = "time" -> IF ~NearI(TS(s.win), o.ts) THEN "timesteps"
                          ELSE IF ~NearI(TS(Win0(s.d)), o.ots) THEN "original-timesteps" ELSE ""
    [] o.kind = "rec" -> IF NearCube(RecFor(c, s), o.v) THEN "" ELSE "prediction"
    [] o.kind = "interp" -> IF NearCube(RecFor(c, s), o.v) THEN "" ELSE "interpolated-coefficients"
    [] o.kind = "fc" -> IF NearCube(FcFor(s), o.v) THEN "" ELSE "forecast-coefficients"
    [] o.kind = "tr" -> IF NearCube(TrFor(s), o.v) THEN "" ELSE "training-coefficients"
    [] o.kind = "par" -> IF o.tp # s.d.mu THEN "training-parameters"
                         ELSE IF o.p # s.par THEN "parameters" ELSE ""
    [] o.kind = "intact" -> IF o.x THEN "" ELSE "inputs-changed"

\* ---- properties of the model
\* at a training parameter and inside the data the prediction is the data
Interpolates == phase = 100 => \A i \in 1..Len(cfg.ds[1].mu) : \A t \in 0..cfg.ds[1].T-1 :
   Pred(cfg, cfg.ds[1], 4*cfg.ds[1].mu[i], 1, t) = FX(Val(cfg.ds[1], i, 1, t))
\* a rejected fit changes nothing
RejectKeeps == phase = 100 => \A k \in 1..Len(cfg.ops) : cfg.ops[k].op = "badfit" => St(cfg, k) = St(cfg, k-1)

\* ---- generation
Init == phase = 0 /\ cfg = [approx |-> "linear", part |-> FALSE, ntr |-> 2, dim |-> 1, inner |-> "dmd", light |-> FALSE, pod |-> "own", ds |-> << >>, ops |-> << >>, nops |-> 3, sel |-> "", cur |-> [T |-> 8, ks |-> << >>, mu |-> << >>]]
Set(f, v) == cfg' = [cfg EXCEPT ![f] = v] /\ phase' = phase + 1
Mus == {0, 1, 2, 3, 5, 6, 8}
Good(c, d) ==
  /\ (c.part => \A i \in 1..Len(d.ks) : d.T - 1 >= Cardinality(Lams(d, i)) + 2)
  /\ (~c.part => Cardinality(AllLams(d)) <= d.T - 3)
Ops(s) ==
  {[op |-> "fit", i |-> i] : i \in 1..2} \cup
  {[op |-> "badfit", how |-> h] : h \in {"count", "dmds"}} \cup
  {[op |-> "win", w |-> << s.win[1] + q, s.win[2] + q, s.win[3] >>, how |-> h] : h \in {"item", "whole"},
      q \in {z \in {1, 2, 3, 5, -2} : s.win[2] + z <= 15 /\ s.win[1] + z >= 0}} \cup
  {[op |-> "win", w |-> w, how |-> h] : w \in {<<0, 9, 1>>, <<3, 5, 1>>, <<2, 10, 2>>, <<7, 11, 1>>, <<0, 3, 1>>, <<12, 12, 1>>}, h \in {"item", "whole"}} \cup
  {[op |-> "par", p |-> p, how |-> h] : h \in {"list", "array", "col"}, p \in {<<m>> : m \in 0..32} \cup {<<m, m2>> : m, m2 \in {3, 8, 12, 17, 21}} \cup {<<4, 17, 9>>}} \cup
  {[op |-> o] : o \in {"copy", "save", "badpar"}}
Enabled1(c, o) ==
  LET s == St(c, Len(c.ops)) IN
  CASE o.op = "par" -> \A j \in 1..Len(o.p) : IF c.approx = "linear" THEN \A q \in 1..Len(c.ds) : Inside(c.ds[q], o.p[j]) ELSE \A q \in 1..Len(c.ds) : TieOk(c.ds[q], o.p[j])
    [] o.op = "badfit" -> o.how = "dmds" => c.part
    [] OTHER -> TRUE
Next ==
  \/ phase = 0 /\ \E v \in {"linear", "nearest"} : Set("approx", v)
  \/ phase = 1 /\ \E v \in BOOLEAN : Set("part", v)
  \/ phase = 2 /\ \E v \in 2..4 : Set("ntr", v)
  \/ phase = 3 /\ \E v \in 1..2 : (v = 2 => cfg.approx = "nearest") /\ Set("dim", v)
  \/ phase = 4 /\ \E v \in {"dmd", "proj", "mix", "args"} : Set("inner", v)
  \/ phase = 5 /\ \E v \in BOOLEAN : Set("light", v)
  \/ phase = 6 /\ \E v \in {"own", "ezyrb"} : Set("pod", v)
  \/ phase = 7 /\ Len(cfg.ds) < 2 /\ Len(cfg.cur.ks) < cfg.ntr /\ phase' = 7 /\
       \E k \in 1..Len(Kinds), m \in Mus, T \in 7..9 :
          /\ \A i \in 1..Len(cfg.cur.mu) : cfg.cur.mu[i] # m
          /\ (Len(cfg.cur.ks) > 0 => T = cfg.cur.T)
          /\ cfg' = [cfg EXCEPT !.cur.ks = Append(@, k), !.cur.mu = Append(@, m), !.cur.T = T]
  \/ phase = 7 /\ Len(cfg.ds) < 2 /\ Len(cfg.cur.ks) = cfg.ntr /\ phase' = (IF Len(cfg.ds) = 1 THEN 8 ELSE 7) /\
       Good(cfg, cfg.cur) /\ cfg' = [cfg EXCEPT !.ds = Append(@, cfg.cur), !.cur = [T |-> 8, ks |-> << >>, mu |-> << >>]]
  \/ phase = 8 /\ \E v \in 2..6 : Set("nops", v)
  \/ phase = 9 /\ Len(cfg.ops) < cfg.nops /\ \E v \in {"fit", "badfit", "win", "par", "copy", "save", "badpar"} : Set("sel", v)
  \/ phase = 10 /\ phase' = 9 /\
       \E o \in {x \in Ops(St(cfg, Len(cfg.ops))) : x.op = cfg.sel} : Enabled1(cfg, o) /\ cfg' = [cfg EXCEPT !.ops = Append(@, o)]
  \/ phase = 9 /\ Len(cfg.ops) = cfg.nops /\ phase' = 100 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<< cfg, phase >>
=============================================================================
