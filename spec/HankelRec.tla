----------------------------- MODULE HankelRec -----------------------------
(***************************************************************************)
(* How a delay embedded reconstruction is folded back into the original    *)
(* space when the fit is NOT exact, so that the d versions of a snapshot   *)
(* differ and the reconstruction method matters.                           *)
(*                                                                         *)
(* Column j of the embedded reconstruction E (time j, in sampling steps)   *)
(* stacks the snapshots j .. j+d-1: row block i is the snapshot j+i.  The  *)
(* version i of the snapshot t is block i of column t-i.  A window from    *)
(* step a to step b uses the columns First(a)..First(b), where First(t) is *)
(* the first column that contains t.                                       *)
(*   first   : the version in the earliest column used                     *)
(*   mean    : the average of all versions in the columns used             *)
(*   weights : their weighted average (weight i belongs to version i)      *)
(***************************************************************************)
EXTENDS Num
VARIABLES cfg, phase
First(d, t) == Max2(0, t - (d - 1))
Cols(c)  == First(c.d, c.a)..First(c.d, c.b)
Steps(c) == [i \in 1..((c.b - c.a) \div c.s) + 1 |-> c.a + (i-1)*c.s]
Vers(c, t) == {i \in 0..c.d-1 : (t - i) \in Cols(c)}
\* E : sequence of columns First(a)..First(b); each a sequence of n*d pairs
Cell(c, E, i, t, x) == E[t - i - First(c.d, c.a) + 1][i * c.n + x]
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN << 0, 0 >> ELSE LET i == CHOOSE z \in S : TRUE IN FAdd(f[i], SumOver(S \ {i}, f))
RECURSIVE ISumOver(_, _)
ISumOver(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE z \in S : TRUE IN f[i] + ISumOver(S \ {i}, f)
Wt(c, i) == CASE c.rm = "mean" -> 1 [] OTHER -> c.w[i+1]
\* weighted sum and total weight of the snapshot at time t, component x
Sum(c, E, t, x) ==
  IF c.rm = "first"
  THEN LET V == Vers(c, t) m == CHOOSE i \in V : \A j \in V : i >= j
       IN << Cell(c, E, m, t, x), 1 >>
  ELSE << SumOver(Vers(c, t), [i \in Vers(c, t) |-> LET z == Cell(c, E, i, t, x) IN << z[1] * Wt(c, i), z[2] * Wt(c, i) >>]),
          ISumOver(Vers(c, t), [i \in Vers(c, t) |-> Wt(c, i)]) >>
NearW(e, tot, o) == Abs(e - o * tot) <= (TOL * tot) + (Abs(e) \div 20000)
Small(E) == \A j \in 1..Len(E) : \A r \in 1..Len(E[j]) : Abs(E[j][r][1]) < 20000000 /\ Abs(E[j][r][2]) < 20000000
SmallO(r) == \A x \in 1..Len(r) : \A t \in 1..Len(r[x]) : Abs(r[x][t][1]) < 200000000 /\ Abs(r[x][t][2]) < 200000000
Verdict(c, o) ==
  LET ts == Steps(c) IN
  IF o.exc # "" THEN "raises"
  ELSE IF o.er # c.n * c.d THEN "embedding"
  ELSE IF Len(o.rec) # c.n \/ \E x \in 1..Len(o.rec) : Len(o.rec[x]) # Len(ts) THEN "shape"
  ELSE IF ~Small(o.E) THEN ""
  ELSE IF ~SmallO(o.rec) THEN "delay-average"
  ELSE IF \A x \in 1..c.n, k \in 1..Len(ts) :
             LET q == Sum(c, o.E, ts[k], x) IN
             \/ q[2] = 0
             \/ NearW(q[1][1], q[2], o.rec[x][k][1]) /\ NearW(q[1][2], q[2], o.rec[x][k][2])
       THEN "" ELSE "delay-average"

\* ---- properties of the folding itself
\* every requested instant has at least one version, and all of them are real
Covered == phase = 9 => \A k \in 1..Len(Steps(cfg)) : Vers(cfg, Steps(cfg)[k]) # {}
\* folding an EXACT embedding returns the signal (here: the signal is t itself)
ExactE(c) == [j \in 1..(First(c.d, c.b) - First(c.d, c.a) + 1) |->
               [r \in 1..c.n*c.d |-> << 1000 * (First(c.d, c.a) + j - 1 + ((r-1) \div c.n)), 0 >>]]
FoldExact == phase = 9 => LET ts == Steps(cfg) IN
   Verdict(cfg, [exc |-> "", er |-> cfg.n * cfg.d, E |-> ExactE(cfg),
                 rec |-> [x \in 1..cfg.n |-> [k \in 1..Len(ts) |-> << 1000 * ts[k], 0 >>]]]) = ""

\* ---- generation
WSets == { << 1, 2, 3, 4 >>, << 0, 0, 1, 3 >>, << 3, 1, 0, 2 >>, << 1, 0, 0, 0 >> }
Init == phase = 0 /\ cfg = [n |-> 1, d |-> 2, T |-> 9, rk |-> 1, rm |-> "first", w |-> << >>, a |-> 0, b |-> 8, s |-> 1, seed |-> 0, clk |-> 0]
Set(f, v) == cfg' = [cfg EXCEPT ![f] = v] /\ phase' = phase + 1
Next ==
  \/ phase = 0 /\ \E v \in 1..3 : Set("n", v)
  \/ phase = 1 /\ \E v \in 2..4 : Set("d", v)
  \/ phase = 2 /\ \E v \in 8..12 : Set("T", v)
  \/ phase = 3 /\ \E v \in 1..2 : Set("rk", v)
  \/ phase = 4 /\ \E v \in {"first", "mean", "weights"} : Set("rm", v)
  \/ phase = 5 /\ \E v \in WSets : Set("w", SubSeq(v, 5 - cfg.d, 4))
  \/ phase = 6 /\ \E v \in 0..99 : Set("seed", v)
  \/ phase = 7 /\ \E v \in 0..3 : Set("clk", v)
  \/ phase = 8 /\ \E a \in 0..cfg.T, s \in 1..3, k \in 0..12 :
        /\ a + s*k <= cfg.T + 3
        /\ cfg' = [cfg EXCEPT !.a = a, !.b = a + s*k, !.s = s] /\ phase' = 9
Done == phase = 9 /\ phase' = 100 /\ UNCHANGED cfg
Spec == Init /\ [][Next \/ Done]_<< cfg, phase >>
=============================================================================
