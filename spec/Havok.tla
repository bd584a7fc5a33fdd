------------------------------- MODULE Havok -------------------------------
(***************************************************************************)
(* HAVOK.  The record is delay embedded, the embedding is reduced to its   *)
(* leading singular coordinates w = (v, u), and dv/dt = A v + B u is        *)
(* regressed on them (second order differences); u, the last num_chaos     *)
(* coordinates, force the system.                                          *)
(*   embedding  : row block i of column k is the snapshot k + i*lag         *)
(*   unravelling: a snapshot is read from the last block that contains it  *)
(*   coordinates: H V = U S, U' H = S V', U and V orthonormal              *)
(*   operator   : V' (2dt dV/dt) / (2dt), since V is orthonormal            *)
(*   response   : the solution of the linear system, mapped back through   *)
(*                the linear coordinates only (checked on a short step     *)
(*                against its Taylor expansion, and by relations)          *)
(*   threshold  : quantiles of the histogram of the forcing                *)
(***************************************************************************)
EXTENDS Num, Randomization
VARIABLES cfg, phase
Hm(c) == c.m - (c.d - 1) * c.lag
HankOf(c) == TLCEval([r \in 1..c.n * c.d |-> LET i == (r-1) \div c.n x == ((r-1) % c.n) + 1 IN
                TLCEval([k \in 1..Hm(c) |-> c.X[x][k + i * c.lag]])])
\* the block that the snapshot t (from 1) is read from, -1 if none
Blk(c, t) == LET S == {i \in 0..c.d-1 : t - i*c.lag \in 1..Hm(c)} IN IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : j <= i
\* ---- fixed point (VS) of the recorded coordinates
VS == 3000
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = << >> THEN 0 ELSE Head(a)*Head(b) + Dot(Tail(a), Tail(b))
ColOf(M, j) == TLCEval([i \in 1..Len(M) |-> M[i][j]])
Orthonormal(M) == \A i, j \in 1..Len(M[1]) : Abs(Dot(ColOf(M, i), ColOf(M, j)) - (IF i = j THEN VS*VS ELSE 0)) <= 4 * VS * 4
\* singular triplets of H (columns 1..nc of it)
Cut(H, nc) == TLCEval([r \in 1..Len(H) |-> TLCEval([k \in 1..nc |-> H[r][k]])])
Triplets(H, U, s, V) ==
  /\ \A j \in 1..Len(s) : s[j] >= -2
  /\ \A j \in 1..Len(s)-1 : s[j] >= s[j+1] - 2
  /\ \A j \in 1..Len(s) :
     /\ LET v == ColOf(V, j) IN \A r \in 1..Len(H) : Abs(Dot(H[r], v) - (U[r][j] * s[j]) \div VS) <= 60 + s[j] \div 500
     /\ LET u == ColOf(U, j) IN \A k \in 1..Len(H[1]) : Abs(Dot(ColOf(H, k), u) - (V[k][j] * s[j]) \div VS) <= 60 + s[j] \div 500
\* 2 dt dV/dt in units 1/VS
Diff2(v) == LET n == Len(v) IN TLCEval([t \in 1..n |->
   IF t = 1 THEN -3*v[1] + 4*v[2] - v[3] ELSE IF t = n THEN 3*v[n] - 4*v[n-1] + v[n-2] ELSE v[t+1] - v[t-1]])
\* P = 2 dt * operator, units 1/10000
OperatorOk(V, P) == \A i, j \in 1..Len(V[1]) :
   Abs((Dot(Diff2(ColOf(V, i)), ColOf(V, j)) \div 900) - P[i][j]) <= 120
Lin(c) == c.r - c.k
\* ---- response over a short step h from v0 with forcing u0 -> u1.
\* Ah, Bh = h*A, h*B in units 1e-6; Cm = last block of U S in units 1/100
RECURSIVE DotD(_, _, _)
DotD(a, b, q) == IF a = << >> THEN 0 ELSE (Head(a)*Head(b)) \div q + DotD(Tail(a), Tail(b), q)
Step1(o, i) == Dot(o.Ah[i], o.v0) + (Dot(o.Bh[i], o.u0) + Dot(o.Bh[i], o.u1)) \div 2      \* 1e-6
F0(o, i) == Dot(o.Ah[i], o.v0) + Dot(o.Bh[i], o.u0)
F1(o, i) == Dot(o.Bh[i], o.u1) - Dot(o.Bh[i], o.u0)
Dv(o, i) == Step1(o, i)
            + DotD(o.Ah[i], [j \in 1..Len(o.v0) |-> F0(o, j) \div 1000], 2000)
            + DotD(o.Ah[i], [j \in 1..Len(o.v0) |-> F1(o, j) \div 1000], 6000)
RECURSIVE AbsDot(_, _)
AbsDot(a, b) == IF a = << >> THEN 0 ELSE Abs(Head(a))*Abs(Head(b)) + AbsDot(Tail(a), Tail(b))
ResponseOk(o) ==
  LET dv == TLCEval([i \in 1..Len(o.v0) |-> Dv(o, i) \div 100]) IN      \* 1e-4
  \A x \in 1..Len(o.C) :
    /\ Abs(Dot(o.C[x], o.v0) - o.y0[x]) <= 40                            \* units 1/100
    /\ Abs(Dot(o.C[x], dv) - o.dy[x]) <= 3000 + AbsDot(o.C[x], dv) \div 60   \* units 1e-6
NearM(a, b) == /\ Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Near(a[i][j], b[i][j])
\* ---- threshold: everything times 2*nb (so that bin centres are integers)
Lo(f) == CHOOSE x \in {f[i] : i \in 1..Len(f)} : \A i \in 1..Len(f) : x <= f[i]
Hi(f) == CHOOSE x \in {f[i] : i \in 1..Len(f)} : \A i \in 1..Len(f) : x >= f[i]
BinOf(c, x) == LET a == Lo(c.f) b == Hi(c.f) IN IF x = b THEN c.nb ELSE ((x - a) * c.nb) \div (b - a) + 1
Centre(c, i) == LET a == Lo(c.f) b == Hi(c.f) IN 2*c.nb*a + (2*i - 1)*(b - a)
Cum(c, i) == Cardinality({q \in 1..Len(c.f) : BinOf(c, c.f[q]) <= i})
\* p = c.p / 1000
Ind1(c) == CHOOSE i \in 1..c.nb : 2000 * Cum(c, i) > c.p * Len(c.f) /\ \A j \in 1..i-1 : 2000 * Cum(c, j) <= c.p * Len(c.f)
Ind2(c) == CHOOSE i \in 1..c.nb : 2000 * (Len(c.f) - Cum(c, i)) < c.p * Len(c.f) /\ \A j \in 1..i-1 : 2000 * (Len(c.f) - Cum(c, j)) >= c.p * Len(c.f)
Thr4(c) == Abs(Centre(c, Ind1(c))) + Abs(Centre(c, Ind2(c)))        \* threshold * 4*nb
ThrOk(c, t) == Abs(Thr4(c) * 10000 - t * 4 * c.nb) <= 12 * c.nb
Cand(c, t) == \E i \in 1..c.nb-1 : Abs((Abs(Centre(c, i)) + Abs(Centre(c, i+1))) * 10000 - t * 4 * c.nb) <= 12 * c.nb
Verdict(c, o) ==
  IF o.kind = "rejected" THEN IF o.exc = "ValueError" THEN "" ELSE "invalid-accepted"
  ELSE IF o.exc # "" THEN "raises:" \o o.kind
  ELSE CASE o.kind = "hankel" -> IF o.H = HankOf(c) THEN "" ELSE "embedding"
    [] o.kind = "dehankel" ->
         IF Len(o.X) # c.n \/ \E x \in 1..Len(o.X) : Len(o.X[x]) # c.m THEN "unravelled-shape"
         ELSE IF \A x \in 1..c.n, t \in 1..c.m : LET i == Blk(c, t) IN i = -1 \/ o.X[x][t] = o.H[i*c.n + x][t - i*c.lag] THEN "" ELSE "unravelling"
    [] o.kind = "fit" -> IF o.self /\ o.r = c.r /\ o.sn = c.X /\ o.ho = HankOf(c) THEN "" ELSE "fit"
    [] o.kind = "time" -> IF Len(o.t) = c.m /\ \A i \in 1..c.m : Near((c.t0 + (i-1)) * c.dt8 * 1250, o.t[i]) THEN "" ELSE "time"
    [] o.kind = "svd" -> IF Len(o.V) # Hm(c) - (IF c.st THEN 1 ELSE 0) \/ Len(o.U) # c.n * c.d \/ Len(o.s) # c.r THEN "coordinates-shape"
         ELSE IF ~Orthonormal(o.U) \/ ~Orthonormal(o.V) THEN "coordinates-not-orthonormal"
         ELSE IF Triplets(Cut(HankOf(c), Len(o.V)), o.U, o.s, o.V) THEN "" ELSE "coordinates"
    [] o.kind = "operator" -> IF o.skip \/ OperatorOk(o.V, o.P) THEN "" ELSE "operator"
    [] o.kind = "split" -> IF /\ \A i \in 1..Lin(c) : \A j \in 1..c.r : o.P[i][j] = (IF j <= Lin(c) THEN o.A[i][j] ELSE o.B[i][j - Lin(c)])
                              /\ Len(o.A) = Lin(c) /\ Len(o.B) = Lin(c) /\ Len(o.A[1]) = Lin(c) /\ Len(o.B[1]) = c.k
                              /\ \A t \in 1..Len(o.V) : o.V[t] = o.v[t] \o o.u[t]
                              /\ Len(o.v) = Len(o.V) /\ Len(o.u) = Len(o.V)
                              /\ Len(o.e) = Lin(c) /\ Abs(ISum([i \in 1..Lin(c) |-> o.A[i][i]]) - ISum([i \in 1..Lin(c) |-> o.e[i]])) <= 20 THEN "" ELSE "split"
    [] o.kind = "response" -> IF o.skip \/ ResponseOk(o) THEN "" ELSE "response"
    [] o.kind = "same" -> IF o.skip \/ NearM(o.a, o.b) THEN "" ELSE "inconsistent:" \o o.what
    [] o.kind = "threshold" -> IF ThrOk(c, o.t) THEN "" ELSE "threshold"
    [] o.kind = "candidate" -> IF Cand(c, o.t) THEN "" ELSE "threshold-candidate"
    [] o.kind = "intact" -> IF o.x THEN "" ELSE "inputs-changed"

\* ---- properties of the model: unravelling undoes the embedding wherever it
\* is defined; the thresholds grow as p shrinks
RoundTrip == phase = 100 => LET H == HankOf(cfg) IN \A x \in 1..cfg.n, t \in 1..cfg.m :
   LET i == Blk(cfg, t) IN i = -1 \/ H[i*cfg.n + x][t - i*cfg.lag] = cfg.X[x][t]
Covered == phase = 100 => (Hm(cfg) >= cfg.lag => \A t \in 1..cfg.m : Blk(cfg, t) # -1)
Quantile == phase = 100 => (Ind1(cfg) <= Ind2(cfg) \/ 2 * cfg.p > 1000)

Init == phase = 0 /\ cfg = [n |-> 1, m |-> 8, d |-> 2, lag |-> 1, r |-> 2, k |-> 1, st |-> FALSE, ls |-> "lstsq", dt8 |-> 8, t0 |-> 0, tf |-> "num",
                            X |-> << >>, f |-> << >>, nb |-> 5, p |-> 10, v0 |-> << >>, u0 |-> << >>, u1 |-> << >>, nd |-> "2d"]
Set(f, v) == cfg' = [cfg EXCEPT ![f] = v] /\ phase' = phase + 1
RMat(a, b, S) == TLCEval([i \in 1..a |-> TLCEval([j \in 1..b |-> RandomElement(S)])])
RSeq(a, S) == TLCEval([i \in 1..a |-> RandomElement(S)])
Next ==
  \/ phase = 0 /\ \E a \in 1..2, b \in 1..4, l \in 1..3 : cfg' = [cfg EXCEPT !.n = a, !.d = b, !.lag = l] /\ phase' = 1
  \/ phase = 1 /\ \E h \in 3..10 : cfg' = [cfg EXCEPT !.m = h + (cfg.d - 1) * cfg.lag] /\ phase' = 2
  \/ phase = 2 /\ \E s \in BOOLEAN : (s => Hm(cfg) > 3) /\ Set("st", s)
  \/ phase = 3 /\ \E r \in 2..4 : r <= Min2(cfg.n * cfg.d, Hm(cfg) - (IF cfg.st THEN 1 ELSE 0)) /\ Set("r", r)
  \/ phase = 4 /\ \E k \in 1..3 : k < cfg.r /\ Set("k", k)
  \/ phase = 5 /\ \E v \in {"lstsq", "pinv", "dmd"} : (cfg.st => v # "dmd") /\ Set("ls", v)
  \/ phase = 6 /\ \E v \in {1, 2, 8, 16, 3}, w \in {"num", "list", "array"}, t \in {0, 2, -3} :
        cfg' = [cfg EXCEPT !.dt8 = v, !.tf = w, !.t0 = IF w = "num" THEN 0 ELSE t] /\ phase' = 7
  \/ phase = 7 /\ \E v \in {"2d", "1d", "list"} : (v = "1d" => cfg.n = 1) /\ Set("nd", v)
  \/ phase = 8 /\ \E X \in {RMat(cfg.n, cfg.m, -4..4)} : Set("X", X)
  \/ phase = 9 /\ \E f0 \in {RSeq(30, -20..20)}, off \in {RandomElement({0, 0, 27, -35})} : \E f \in {[i \in 1..30 |-> f0[i] + off]}, nb \in {RandomElement({5, 7, 11, 13})}, p \in {RandomElement({10, 50, 111, 203, 400})} :
        LET c == [cfg EXCEPT !.f = f, !.nb = nb, !.p = p] a == Lo(f) b == Hi(f) IN
        \* no value on a bin edge, no tie of the quantile rule
        /\ b > a
        /\ \A i \in 1..30 : f[i] \in {a, b} \/ ((f[i] - a) * nb) % (b - a) # 0
        /\ \A i \in 1..nb : 2000 * Cum(c, i) # p * 30 /\ 2000 * (30 - Cum(c, i)) # p * 30
        /\ cfg' = c /\ phase' = 10
  \/ phase = 10 /\ \E v \in {RSeq(Lin(cfg), -3..3)}, a \in {RSeq(cfg.k, -3..3)}, b \in {RSeq(cfg.k, -3..3)} :
        cfg' = [cfg EXCEPT !.v0 = v, !.u0 = a, !.u1 = b] /\ phase' = 11
  \/ phase = 11 /\ phase' = 100 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<< cfg, phase >>
=============================================================================
