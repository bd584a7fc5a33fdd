------------------------------ MODULE MrCosts ------------------------------
(***************************************************************************)
(* mrCOSTS.  Level 1 is the COSTS of the record; level l+1 is the COSTS of *)
(* what level l left in its lowest band.  What leaves the chain at a level *)
(* (its other bands) is dealt to global bands by frequency; what is left   *)
(* after the last level is the background.  Nothing is lost on the way.    *)
(***************************************************************************)
EXTENDS Num, Randomization
VARIABLES cfg, phase
C == INSTANCE Costs
QSum(f) == LET q == TLCEval(f) IN ISum(q)
\* the record of data set i, in units 1/100
Rec(d) == LET D == C!DataOf(d) IN TLCEval([i \in 1..d.n |-> TLCEval([t \in 1..d.T |-> 100 * D[i][t]])])
\* ---- verdicts
\* o.lo[l]: the lowest band of level l (1/100); o.lv[l]: windows of level l
Levels(c, o) == LET d == c.ds[o.i] D == Rec(d) IN
  /\ Len(o.lv) = Len(c.w) /\ Len(o.lo) = Len(c.w)
  /\ \A l \in 1..Len(c.w) : LET v == o.lv[l] W == C!Win(d.T, c.w[l], c.s[l]) Inp == IF l = 1 THEN D ELSE o.lo[l-1] IN
       /\ v.w = c.w[l] /\ v.s = c.s[l] /\ v.ns = Len(W) /\ Len(v.st) = Len(W) /\ Len(v.means) = Len(W)
       /\ \A k \in 1..Len(W) : /\ v.st[k] = W[k] /\ v.t0[k] = 1000 * d.t0 + 500 * d.dt * W[k]
            /\ \A i \in 1..d.n : Abs(v.means[k][i] * c.w[l] - QSum([t \in 1..c.w[l] |-> Inp[i][W[k] + t]])) <= 2 * c.w[l]
Classes(c, o) ==
  /\ Len(o.cen) = o.nc /\ \A j \in 1..o.nc-1 : o.cen[j] <= o.cen[j+1]
  /\ Len(o.x) = Len(o.loc) /\ Len(o.x) = Len(o.cls) /\ Len(o.x) = Len(o.im)
  /\ \A q \in 1..Len(o.x) :
        /\ (o.loc[q] = 0) = (o.cls[q] = -1)
        /\ o.cls[q] # -1 => /\ o.cls[q] \in 0..o.nc-1
                            /\ C!TransOk(o.tm, o.im[q], o.x[q])
                            /\ \A j \in 1..o.nc : Abs(o.x[q] - o.cen[o.cls[q] + 1]) <= Abs(o.x[q] - o.cen[j]) + 4
  \* centroids lie among the frequencies they stand for
  /\ \A j \in 1..o.nc : (\E q \in 1..Len(o.x) : o.loc[q] # 0 /\ o.x[q] - 2 <= o.cen[j]) /\ (\E q \in 1..Len(o.x) : o.loc[q] # 0 /\ o.x[q] + 2 >= o.cen[j])
\* one level: o.V[k][j][i][t] what global band j of window k contains, o.R[j][i][t] the band
Band(c, o) == LET d == c.ds[o.i] w == c.w[o.l] s == c.s[o.l] W == C!Win(d.T, w, s) IN
  /\ Len(o.R) = o.nc /\ Len(o.V) = Len(W)
  /\ \A j \in 1..o.nc : /\ Len(o.R[j]) = d.n
       /\ \A i \in 1..d.n : /\ Len(o.R[j][i]) = d.T
            /\ \A t \in 0..d.T-1 : LET S == C!Ord(C!Cover(d.T, w, s, t)) IN
                 C!Weighted(S, o.g[t+1], TLCEval([k \in 1..Len(S) |-> o.V[S[k]][j][i][t - W[S[k]] + 1]]), o.R[j][i][t+1])
\* o.H[l]: all bands of level l but the lowest; o.S[l]: its global bands added up
Conserve(c, o) ==
  /\ Len(o.H) = Len(c.w) /\ Len(o.S) = Len(c.w) /\ Len(o.lo) = Len(c.w)
  /\ \A l \in 1..Len(o.H) : \A i \in 1..Len(o.H[l]) : \A t \in 1..Len(o.H[l][i]) : Abs(o.H[l][i][t] - o.S[l][i][t]) <= 3
  /\ \A i \in 1..Len(o.bg) : \A t \in 1..Len(o.bg[i]) :
        /\ Abs(o.bg[i][t] - o.lo[Len(c.w)][i][t]) <= 2
        /\ Abs(o.G[i][t] - (o.bg[i][t] + QSum([l \in 1..Len(o.S) |-> o.S[l][i][t]]))) <= 8
NearM(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearI(a[i], b[i])
Verdict(c, o) ==
  IF o.kind = "rejected" THEN IF o.exc = "ValueError" THEN "" ELSE "invalid-accepted:" \o o.what
  ELSE IF o.exc # "" THEN "raises:" \o o.kind
  ELSE IF o.skip THEN ""
  ELSE IF ("i" \in DOMAIN o /\ o.i \notin 1..Len(c.ds)) \/ ("l" \in DOMAIN o /\ o.l \notin 1..Len(c.w)) THEN "reference"
  ELSE CASE o.kind \in {"fit", "call"} -> ""
    [] o.kind = "levels" -> IF Levels(c, o) THEN "" ELSE "chain"
    [] o.kind = "classes" -> IF Classes(c, o) THEN "" ELSE "global-bands"
    [] o.kind = "band" -> IF Band(c, o) THEN "" ELSE "reassembly"
    [] o.kind = "conserve" -> IF Conserve(c, o) THEN "" ELSE "conservation"
    [] o.kind = "same" -> IF NearM(o.a, o.b) THEN "" ELSE "inconsistent:" \o o.what
    [] o.kind = "flag" -> IF o.x THEN "" ELSE "state:" \o o.what
\* ---- properties of the model
Tiles == phase = 100 => \A q \in 1..Len(cfg.ds), l \in 1..Len(cfg.w) : LET T == cfg.ds[q].T W == C!Win(T, cfg.w[l], cfg.s[l]) IN
   /\ \A k \in 1..Len(W) : W[k] >= 0 /\ W[k] + cfg.w[l] <= T
   /\ W[Len(W)] + cfg.w[l] = T /\ (\A t \in 0..T-1 : C!Cover(T, cfg.w[l], cfg.s[l], t) # {})
Init == phase = 0 /\ cfg = [ds |-> << >>, w |-> << >>, s |-> << >>, r |-> << >>, gl |-> << >>, nc |-> << >>, sweep |-> FALSE, tm |-> "absolute", tg |-> "absolute", ng |-> 2, ng2 |-> 2, con |-> "none", rev |-> FALSE]
RVec(n, S) == TLCEval([i \in 1..n |-> RandomElement(S)])
RMat(a, b, S) == TLCEval([i \in 1..a |-> TLCEval([j \in 1..b |-> RandomElement(S)])])
Ds(n, wm) == LET T == wm + RandomElement({4, 5, 6, 8, 9, 11, 14}) v1 == RandomElement({1, 2, 4})
         IN TLCEval([n |-> n, T |-> T, w |-> wm, s |-> 1, c |-> RVec(n, -4..4), v |-> << v1, 3 >>,
             a |-> RMat(2, n, -3..3), b |-> RMat(2, n, -3..3), t0 |-> RandomElement({0, 3}), dt |-> RandomElement({1, 2})])
Full(d) == \A i \in 1..d.n : (d.a[1][i] # 0 \/ d.b[1][i] # 0) /\ (d.a[2][i] # 0 \/ d.b[2][i] # 0)
Next ==
  \/ phase = 0 /\ \E L \in {2, 2, 3} : \E w \in {IF L = 2 THEN << RandomElement({8, 9, 10}), RandomElement({12, 13, 15, 18}) >> ELSE << RandomElement({8, 9}), RandomElement({11, 12}), RandomElement({15, 18}) >>} :
        cfg' = [cfg EXCEPT !.w = w] /\ phase' = 1
  \/ phase = 1 /\ LET L == Len(cfg.w) IN \E s \in {RVec(L, {1, 2, 3, 4})}, r \in {RVec(L, {2, 4, 4})}, g \in {RVec(L, BOOLEAN)}, nc \in {RVec(L, {2, 2, 3})} :
        cfg' = [cfg EXCEPT !.s = s, !.r = r, !.gl = g, !.nc = TLCEval([l \in 1..L |-> IF r[l] = 2 THEN 2 ELSE nc[l]])] /\ phase' = 2
  \/ phase = 2 /\ \E d1 \in {Ds(4, cfg.w[Len(cfg.w)])}, d2 \in {Ds(4, cfg.w[Len(cfg.w)])} :
        (Full(d1) /\ Full(d2) /\ \A l \in 1..Len(cfg.w) : C!Slides(d1.T, cfg.w[l], cfg.s[l]) <= 14 /\ C!Slides(d2.T, cfg.w[l], cfg.s[l]) <= 14) = TRUE /\ cfg' = [cfg EXCEPT !.ds = << d1, d2 >>] /\ phase' = 3
  \/ phase = 3 /\ \E a, b \in {"none", "absolute", "square_frequencies"}, x, y \in {2, 3} : cfg' = [cfg EXCEPT !.tm = a, !.tg = b, !.ng = x, !.ng2 = y] /\ phase' = 4
  \/ phase = 4 /\ \E x \in {"none", "imag", "stable"}, f, sw \in BOOLEAN : cfg' = [cfg EXCEPT !.con = x, !.rev = f, !.sweep = sw /\ (\A l \in 1..Len(cfg.r) : cfg.r[l] = 4)] /\ phase' = 5
  \/ phase = 5 /\ phase' = 100 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<< cfg, phase >>
=============================================================================
