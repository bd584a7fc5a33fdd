------------------------------- MODULE Costs -------------------------------
(***************************************************************************)
(* COSTS.  A record of T snapshots is cut into windows of w snapshots      *)
(* every s snapshots, plus one last window aligned with the end; each is   *)
(* freed from its mean and decomposed; the frequencies of all windows are  *)
(* clustered into bands ordered by centroid; every band is reassembled     *)
(* from the windows covering an instant, as their weighted average.        *)
(* Bands partition what the windows contain: nothing is lost or counted    *)
(* twice, and the window means go to the lowest band only.                 *)
(***************************************************************************)
EXTENDS Num, Randomization
VARIABLES cfg, phase
QSum(f) == LET q == TLCEval(f) IN ISum(q)
\* ---- windows
Slides(T, w, s) == ((T - w) \div s) + 1 + (IF (T - w) % s = 0 THEN 0 ELSE 1)
Start(T, w, s, k) == Min2((k - 1) * s, T - w)          \* 0-based first index of window k
Win(T, w, s) == TLCEval([k \in 1..Slides(T, w, s) |-> Start(T, w, s, k)])
Cover(T, w, s, t) == {k \in 1..Slides(T, w, s) : Start(T, w, s, k) <= t /\ t < Start(T, w, s, k) + w}   \* t 0-based
\* w times the mean of window k
SumW(D, i, st, w) == QSum([t \in 1..w |-> D[i][st + t]])
\* ---- data: sums of integer wave forms
Waves == << << 2, 0, -2, 0 >>, << 2, 1, -1, -2, -1, 1 >>, << 0, 1, 2, 3, 2, 1, 0, -1, -2, -3, -2, -1 >>, << 2, -1, -1 >> >>
Wave(v, t) == LET W == Waves[v] IN W[(t % Len(W)) + 1]
DataOf(d) == TLCEval([i \in 1..d.n |-> TLCEval([t \in 1..d.T |->
    d.c[i] + QSum([q \in 1..Len(d.v) |-> d.a[q][i] * Wave(d.v[q], t) + d.b[q][i] * Wave(d.v[q], t + (Len(Waves[d.v[q]]) + 1) \div 4)])])])
\* ---- verdicts
WinOk(c, o) == LET d == c.ds[o.i] W == Win(d.T, d.w, d.s) D == DataOf(d) IN
  /\ o.ns = Len(W) /\ Len(o.st) = Len(W) /\ Len(o.times) = Len(W) /\ Len(o.means) = Len(W)
  /\ \A k \in 1..Len(W) : /\ o.st[k] = << W[k], W[k] + d.w >>
                          /\ Len(o.times[k]) = d.w /\ \A t \in 1..d.w : Abs(o.times[k][t] - (1000 * d.t0 + 500 * d.dt * (W[k] + t - 1))) <= 1
                          /\ Len(o.means[k]) = d.n /\ \A i \in 1..d.n : Abs(o.means[k][i] * d.w - 1000 * SumW(D, i, W[k], d.w)) <= d.w
Sq(x) == x * x
TransOk(m, im, x) ==      \* im, x in units 1/1000
  CASE m \in {"none", "absolute"} -> Abs(Abs(im) - x) <= 2
    [] m = "square_frequencies" -> Abs(im) <= 40000 => Abs((Sq(im) \div 1000) - x) <= 4 + (Abs(im) \div 300)
    [] m = "period" -> (Abs(im) >= 20 /\ x <= 50000) => Abs((Abs(im) * x) - 1000000) <= Abs(im) + x + 10
    [] OTHER -> TRUE
ClusterOk(c, o) ==
  /\ Len(o.cen) = o.nc /\ \A j \in 1..o.nc-1 : o.cen[j] <= o.cen[j+1]
  /\ Len(o.cls) = Len(o.x) /\ Len(o.im) = Len(o.x)
  /\ \A q \in 1..Len(o.x) : /\ o.cls[q] \in 0..o.nc-1
                            /\ TransOk(o.tm, o.im[q], o.x[q])
                            /\ \A j \in 1..o.nc : Abs(o.x[q] - o.cen[o.cls[q] + 1]) <= Abs(o.x[q] - o.cen[j]) + 4
  /\ \A p, q \in 1..Len(o.x) : Abs(o.im[p]) + 3 < Abs(o.im[q]) => IF o.tm = "period" THEN o.cls[p] >= o.cls[q] ELSE o.cls[p] <= o.cls[q]
Weighted(S, g, v, r) ==      \* r is the average of v[k], k in S, with weights g[k] (per mille)
  LET G == QSum([k \in 1..Len(S) |-> g[k]])
      a == QSum([k \in 1..Len(S) |-> g[k] * v[k]])
  IN Abs(a - G * r) <= QSum([k \in 1..Len(S) |-> Abs(v[k])]) + Len(S) * Abs(r) + 3 * G
RECURSIVE Ord(_)
Ord(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN << m >> \o Ord(S \ {m})
\* o.V[k][j][i][t]: what band j of window k contains; o.R[j][i][t]: the band (units 1/100)
RecOk(c, o) == LET d == c.ds[o.i] W == Win(d.T, d.w, d.s) D == DataOf(d)
                   mean == TLCEval([k \in 1..Len(W) |-> TLCEval([i \in 1..d.n |-> (100 * SumW(D, i, W[k], d.w)) \div d.w])]) IN
  /\ Len(o.R) = o.nc
  /\ \A j \in 1..o.nc : /\ Len(o.R[j]) = d.n
                        /\ \A i \in 1..d.n : /\ Len(o.R[j][i]) = d.T
                             /\ \A t \in 0..d.T-1 : LET S == Ord(Cover(d.T, d.w, d.s, t)) IN
                                 Weighted(S, o.g[t+1], TLCEval([k \in 1..Len(S) |-> o.V[S[k]][j][i][t - W[S[k]] + 1] + (IF o.mean /\ j = 1 THEN mean[S[k]][i] ELSE 0)]), o.R[j][i][t+1])
SumOk(o) == \A i \in 1..Len(o.G) : \A t \in 1..Len(o.G[i]) :
   LET all == QSum([j \in 1..Len(o.R) |-> o.R[j][i][t]]) IN
   /\ Abs(o.G[i][t] - all) <= 5 /\ Abs(o.lo[i][t] - o.R[1][i][t]) <= 2 /\ Abs(o.hi[i][t] - (all - o.R[1][i][t])) <= 5
NearM(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearI(a[i], b[i])
Verdict(c, o) ==
  IF o.kind = "rejected" THEN IF o.exc = "ValueError" THEN "" ELSE "invalid-accepted:" \o o.what
  ELSE IF o.exc # "" THEN "raises:" \o o.kind
  ELSE IF o.skip THEN ""
  ELSE IF "i" \in DOMAIN o /\ o.i \notin 1..Len(c.ds) THEN "reference"
  ELSE CASE o.kind \in {"fit", "call"} -> ""
    [] o.kind = "windows" -> IF WinOk(c, o) THEN "" ELSE "windows"
    [] o.kind = "cluster" -> IF ClusterOk(c, o) THEN "" ELSE "bands"
    [] o.kind = "rec" -> IF RecOk(c, o) THEN "" ELSE "reassembly"
    [] o.kind = "sum" -> IF SumOk(o) THEN "" ELSE "band-sum"
    [] o.kind = "same" -> IF NearM(o.a, o.b) THEN "" ELSE "inconsistent:" \o o.what
    [] o.kind = "flag" -> IF o.x THEN "" ELSE "state:" \o o.what
\* ---- properties of the model
\* the windows lie in the record, cover every instant, and end at its end
Tiles == phase = 100 => \A q \in 1..Len(cfg.ds) : LET d == cfg.ds[q] W == Win(d.T, d.w, d.s) IN
   /\ \A k \in 1..Len(W) : W[k] >= 0 /\ W[k] + d.w <= d.T
   /\ W[Len(W)] + d.w = d.T /\ \A k \in 1..Len(W)-1 : W[k] < W[k+1]
   /\ (d.s <= d.w => \A t \in 0..d.T-1 : Cover(d.T, d.w, d.s, t) # {})
NoDs == [n |-> 1, T |-> 1, w |-> 1, s |-> 1, c |-> << >>, v |-> << >>, a |-> << >>, b |-> << >>, t0 |-> 0, dt |-> 2]
Init == phase = 0 /\ cfg = [ds |-> << >>, r |-> 2, gl |-> TRUE, con |-> "none", proj |-> FALSE, nc |-> 2, nc2 |-> 2, tm |-> "absolute", tm2 |-> "absolute", meth |-> "mini", cs |-> 16, maxit |-> 5, even |-> TRUE]
Set(f, v) == cfg' = [cfg EXCEPT ![f] = v] /\ phase' = phase + 1
RVec(n, S) == TLCEval([i \in 1..n |-> RandomElement(S)])
RMat(a, b, S) == TLCEval([i \in 1..a |-> TLCEval([j \in 1..b |-> RandomElement(S)])])
Ds(n) == LET w == RandomElement({8, 9, 10, 12}) T == w + RandomElement({1, 3, 5, 6, 8, 10, 12, 14}) q == RandomElement({1, 2}) v1 == RandomElement(1..4) v2 == RandomElement({x \in 1..4 : x # v1})
         IN TLCEval([n |-> n, T |-> T, w |-> w, s |-> RandomElement({1, 2, 3, 4, 5, 7, 8}), c |-> RVec(n, -4..4), v |-> IF q = 1 THEN << v1 >> ELSE << v1, v2 >>,
             a |-> RMat(q, n, -3..3), b |-> RMat(q, n, -3..3), t0 |-> RandomElement({0, 3, -2}), dt |-> RandomElement({1, 2, 3})])
Full(d) == \A i \in 1..d.n : \E q \in 1..Len(d.v) : d.a[q][i] # 0 \/ d.b[q][i] # 0
Next ==
  \/ phase = 0 /\ \E n \in {3, 4} : \E d1 \in {Ds(n)}, d2 \in {Ds(n)} :
        (Full(d1) /\ Full(d2) /\ Slides(d1.T, d1.w, d1.s) <= 9 /\ Slides(d2.T, d2.w, d2.s) <= 9) = TRUE /\ Set("ds", << d1, d2 >>)
  \/ phase = 1 /\ \E r \in {2, 0, -1, 3}, g \in BOOLEAN : (~g => r \in {2, 0}) /\ cfg' = [cfg EXCEPT !.r = r, !.gl = g] /\ phase' = 2
  \/ phase = 2 /\ \E x \in {"none", "imag", "stable"}, p \in BOOLEAN : cfg' = [cfg EXCEPT !.con = x, !.proj = p] /\ phase' = 3
  \/ phase = 3 /\ \E a, b \in {2, 3}, m \in {"mini", "kmeans"} : cfg' = [cfg EXCEPT !.nc = a, !.nc2 = b, !.meth = m] /\ phase' = 4
  \/ phase = 4 /\ \E a, b \in {"none", "absolute", "square_frequencies", "period", "log10"} : cfg' = [cfg EXCEPT !.tm = a, !.tm2 = b] /\ phase' = 5
  \/ phase = 5 /\ \E x \in {4, 16, 40} : Set("cs", x)
  \/ phase = 6 /\ phase' = 100 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<< cfg, phase >>
=============================================================================
