-------------------------------- MODULE Rank --------------------------------
(***************************************************************************)
(* How many modes an SVD-truncated estimator keeps.  The singular values   *)
(* are positive integers s[1] >= s[2] >= ..., so every rule is decided in  *)
(* exact integer arithmetic:                                               *)
(*   int k    : min(k, number of singular values)                          *)
(*   energy p/q : the fewest leading values whose squares reach p/q of     *)
(*              the total                                                  *)
(*   all (-1) : every singular value                                       *)
(*   opt (0)  : the Gavish-Donoho hard threshold omega(beta)*median, never *)
(*              fewer than one                                             *)
(***************************************************************************)
EXTENDS Num
VARIABLES cfg, phase
K(c) == Min2(c.rows, c.cols)
RECURSIVE SumSq(_, _)
SumSq(s, r) == IF r = 0 THEN 0 ELSE s[r]*s[r] + SumSq(s, r-1)
\* omega(beta)*100*b^3 for beta = a/b
Om(a, b) == 56*a*a*a - 95*a*a*b + 182*a*b*b + 143*b*b*b
\* twice the median
Med2(s) == LET k == Len(s) IN
           IF k % 2 = 1 THEN 2 * s[(k+1) \div 2] ELSE s[k \div 2] + s[(k \div 2) + 1]
Opt(c) == LET a == Min2(c.rows, c.cols) b == Max2(c.rows, c.cols)
              n == Cardinality({i \in 1..Len(c.s) : c.s[i] * 200 * b*b*b > Med2(c.s) * Om(a, b)})
          IN Max2(1, n)
Energy(c) == CHOOSE r \in 1..Len(c.s) :
   /\ c.q * SumSq(c.s, r) >= c.p * SumSq(c.s, Len(c.s))
   /\ \A t \in 1..r-1 : c.q * SumSq(c.s, t) < c.p * SumSq(c.s, Len(c.s))
RankOf(c) ==
  CASE c.kind = "int"    -> Min2(c.k, Len(c.s))
    [] c.kind = "npint"  -> Min2(c.k, Len(c.s))
    [] c.kind = "all"    -> K(c)
    [] c.kind = "energy" -> Energy(c)
    [] c.kind = "opt"    -> Opt(c)
\* floating point cannot decide an exact tie
Tie(c) ==
  CASE c.kind = "energy" -> \E r \in 1..Len(c.s) : c.q * SumSq(c.s, r) = c.p * SumSq(c.s, Len(c.s))
    [] c.kind = "opt" -> LET a == Min2(c.rows, c.cols) b == Max2(c.rows, c.cols)
                         IN \E i \in 1..Len(c.s) : c.s[i] * 200 * b*b*b = Med2(c.s) * Om(a, b)
    [] OTHER -> FALSE
\* cap: estimators that can represent at most c.rows modes etc. all see K(c)
Verdict(c, o) ==
  IF o.exc # "" THEN "raises:" \o o.who
  ELSE IF o.who = "edmd" /\ c.kind \in {"opt", "all"} THEN ""
  ELSE IF o.r # RankOf(c) THEN "rank:" \o o.who
  ELSE IF o.who = "compute_svd" /\
          (\/ Len(o.s) # RankOf(c)
           \/ \E i \in 1..Len(o.s) : ~Near(c.s[i] * SCALE, o.s[i])
           \/ ~o.ok) THEN "truncated-svd"
  ELSE ""

\* ---- properties of the rule
TypeOk == phase = 100 => RankOf(cfg) \in 1..K(cfg)
\* asking for more energy never keeps fewer modes
Mono == (phase = 100 /\ cfg.kind = "energy") =>
   \A d \in {0, 1, (cfg.q - 1 - cfg.p) \div 2} : cfg.p + d < cfg.q => Energy([cfg EXCEPT !.p = cfg.p + d]) >= Energy(cfg)

Init == phase = 0 /\ cfg = [rows |-> 3, cols |-> 3, s |-> << >>, kind |-> "int", k |-> 1, p |-> 1, q |-> 2, cx |-> FALSE, seed |-> 0]
Set(f, v) == cfg' = [cfg EXCEPT ![f] = v] /\ phase' = phase + 1
\* the optimal threshold lies between 1.43 and 2.86 medians: draw values there
Vals == IF cfg.kind = "opt" THEN (10..30) \cup {1, 4, 40}
        ELSE {1, 2, 3, 4, 5, 7, 9, 12, 16, 20, 25, 31, 40}
Next ==
  \/ phase = 0 /\ \E v \in 2..12 : Set("rows", v)
  \/ phase = 1 /\ \E v \in 2..12 : \E w \in {"int", "npint", "all", "energy", "opt"} :
        cfg' = [cfg EXCEPT !.cols = v, !.kind = w] /\ phase' = 2
  \/ phase = 2 /\ Len(cfg.s) < K(cfg) /\ phase' = 2 /\
        \E v \in {x \in Vals : IF cfg.s = << >> THEN TRUE ELSE x <= cfg.s[Len(cfg.s)]} : cfg' = [cfg EXCEPT !.s = Append(@, v)]
  \/ phase = 2 /\ Len(cfg.s) = K(cfg) /\ phase' = 3 /\ UNCHANGED cfg
  \/ phase = 3 /\ \E v \in 1..10 : Set("k", v)
  \/ phase = 4 /\ \E v \in {10, 100, 1000} : Set("q", v)
  \/ phase = 5 /\ \E v \in {1, 2, 5, 8, 9, cfg.q \div 2, cfg.q - 1, (9 * cfg.q) \div 10} : Set("p", v)
  \/ phase = 6 /\ \E v \in BOOLEAN : Set("cx", v)
  \/ phase = 7 /\ \E v \in 0..99 : Set("seed", v)
  \/ phase = 8 /\ ~Tie(cfg) /\ phase' = 100 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<< cfg, phase >>
=============================================================================
