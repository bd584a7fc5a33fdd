------------------------------- MODULE MrTree -------------------------------
(***************************************************************************)
(* Multi-resolution DMD.  The record (columns 0..T-1) is split at level l  *)
(* into 2^l consecutive pieces; each piece's residual is fitted, only the  *)
(* slow modes of the piece are kept, and what they explain is removed from *)
(* the residual seen by the next level.                                    *)
(*                                                                         *)
(* State of the decomposition after level l: for every column, the set of  *)
(* system modes still in the residual (Left).  Since the system's modes    *)
(* are exact, the content of every node of the tree is known exactly.      *)
(*                                                                         *)
(* A mode is slow in a piece of m snapshots when it makes fewer than       *)
(* `cyc` cycles in it:  |log lam| / (2 pi) < cyc / m.                      *)
(***************************************************************************)
EXTENDS Systems, Randomization
VARIABLES cfg, phase
\* |log lam| / (2 pi), in millionths, of every eigenvalue used
Speed(lam) ==
  CASE lam = GI(1,0) -> 0 [] lam = GI(-1,0) -> 500000
    [] lam \in {GI(0,1), GI(0,-1)} -> 250000
    [] lam \in {GI(2,0), <<1,0,1>>} -> 110318
    [] lam \in {GI(1,1), GI(1,-1), <<1,1,1>>, <<1,-1,1>>} -> 136629
    [] lam \in {GI(0,2), GI(0,-2), <<0,1,1>>, <<0,-1,1>>} -> 273258
    [] lam \in {GI(4,0), <<1,0,2>>} -> 220636
Slow(lam, m, cyc) == Speed(lam) * m < cyc * 1000000
Tied(lam, m, cyc) == Abs(Speed(lam) * m - cyc * 1000000) < 2000

\* the modes of the record
Menu == << << one(R(<<1,0,1,2,1>>)) >>,
           << neg(R(<<0,1,1,-1,2>>)) >>,
           << im(C(<<1,1,0,2,0>>,<<1,0,0,1,1>>)), mim(CC(<<1,1,0,2,0>>,<<1,0,0,1,1>>)) >>,
           << half(R(<<16,32,-16,0,16>>)) >>,
           << ohpi(C(<<16,0,32,16,0>>,<<0,16,0,-16,16>>)), ohmi(CC(<<16,0,32,16,0>>,<<0,16,0,-16,16>>)) >>,
           << two(R(<<0,1,0,1,1>>)) >>,
           << im(C(<<1,0,2,0,1>>,<<0,1,1,0,0>>)) >>,
           << quar(R(<<0,64,0,64,-32>>)) >>,
           << imh(C(<<16,16,0,0,32>>,<<0,16,0,32,0>>)), mimh(CC(<<16,16,0,0,32>>,<<0,16,0,32,0>>)) >> >>
\* the longest record on which the mode is still well above rounding
TMax(g) == CASE g \in {4, 5} -> 17 [] g \in {6, 9} -> 13 [] g = 8 -> 10 [] OTHER -> 99
RECURSIVE ModesOf(_)
ModesOf(g) == IF g = {} THEN << >> ELSE LET i == CHOOSE x \in g : \A y \in g : x <= y IN Menu[i] \o ModesOf(g \ {i})
Gs(c) == {c.groups[i] : i \in 1..Len(c.groups)}

\* ---- the tree
RECURSIVE FlLog2(_)
FlLog2(x) == IF x < 2 THEN 0 ELSE 1 + FlLog2(x \div 2)
Cap(T) == IF T < 4 THEN (IF T = 2 THEN 0 ELSE 1) ELSE FlLog2(T \div 4) + 1
Lev(c, T) == Min2(c.lev, Cap(T))
\* the level in force once the shorter record of T0 columns was fitted first
LevF(c) == IF c.T0 = 0 THEN Lev(c, c.T) ELSE Min2(Lev(c, c.T0), Cap(c.T))
\* array_split: the first T % k pieces have one more column
PLen(T, k, j) == (T \div k) + (IF j < T % k THEN 1 ELSE 0)
PStart(T, k, j) == j * (T \div k) + Min2(j, T % k)
Piece(T, k, t) == LET q == T \div k r == T % k IN
   IF t < r * (q + 1) THEN t \div (q + 1) ELSE r + ((t - r * (q + 1)) \div q)

\* lefts[l+1][t] : modes left in column t before level l is fitted, l = 0..L+1
RECURSIVE Lefts(_, _, _, _)
Lefts(ms, T, cyc, l) ==
  IF l = 0 THEN << [t \in 0..T-1 |-> 1..Len(ms)] >>
  ELSE LET p == TLCEval(Lefts(ms, T, cyc, l-1)) k == Pow2(l-1)
           short == TLCEval({i \in 1..Len(ms) : Slow(ms[i].lam, T \div k, cyc)})
           long == TLCEval({i \in 1..Len(ms) : Slow(ms[i].lam, (T \div k) + 1, cyc)})
       IN Append(p, TLCEval([t \in 0..T-1 |->
             p[l][t] \ (IF t < (T % k) * ((T \div k) + 1) THEN long ELSE short)]))
InP(lf, T, l, j) == lf[l+1][PStart(T, Pow2(l), j)]
KeptSet(ms, lf, T, cyc, l, j) == {i \in InP(lf, T, l, j) : Slow(ms[i].lam, PLen(T, Pow2(l), j), cyc)}
\* the decomposition is exactly determined: every piece sees whole modes,
\* few enough for its length, at least one, and no threshold tie
Clean(ms, inner, cyc, T, L) ==
  LET lf == TLCEval(Lefts(ms, T, cyc, L)) IN
  \A l \in 0..L : \A j \in 0..Pow2(l)-1 :
   LET m == PLen(T, Pow2(l), j) s == PStart(T, Pow2(l), j) S == InP(lf, T, l, j) IN
   /\ S # {}
   /\ \A t \in s..s+m-1 : lf[l+1][t] = S
   /\ Cardinality(S) <= m - 1 - (IF inner = "hankel" THEN 2 ELSE 0)
   /\ \A k \in S : ~Tied(ms[k].lam, m, cyc)
Ok(c) == /\ c.T0 < c.T
         /\ \A g \in Gs(c) : c.T <= TMax(g)
         /\ Len(c.ms) <= 5
         /\ ~(3 \in Gs(c) /\ 7 \in Gs(c))
         /\ Clean(c.ms, c.inner, c.cyc, c.T, LevF(c))
         /\ (c.T0 # 0 => Clean(c.ms, c.inner, c.cyc, c.T0, Lev(c, c.T0)))
\* the modes kept in every node (computed once, carried by the case)
Tree(c) == LET lf == TLCEval(Lefts(c.ms, c.T, c.cyc, LevF(c))) IN
   [l \in 1..LevF(c)+1 |-> [j \in 1..Pow2(l-1) |-> SeqOfSet(KeptSet(c.ms, lf, c.T, c.cyc, l-1, j-1))]]
Kept(c, l, j) == c.kt[l+1][j+1]
KeptAt(c, l, t) == Kept(c, l, Piece(c.T, Pow2(l), t))

\* ---- what each node must hold
NodeEigs(c, l, j) == LET s == Kept(c, l, j) IN [i \in 1..Len(s) |-> FX(c.ms[s[i]].lam)]
ColVal(c, s, x, t) == FX(GSum([i \in 1..Len(s) |-> ValAt(c.ms[s[i]], x, 2*t)]))
NodeRec(c, l, j) == LET s == PStart(c.T, Pow2(l), j) m == PLen(c.T, Pow2(l), j) IN
   [x \in 1..5 |-> [t \in 1..m |-> ColVal(c, Kept(c, l, j), x, s + t - 1)]]
LevelRec(c, l) == [x \in 1..5 |-> [t \in 1..c.T |-> ColVal(c, KeptAt(c, l, t-1), x, t-1)]]
TotRec(c) == [x \in 1..5 |-> [t \in 1..c.T |->
   ColVal(c, Flat([l \in 1..LevF(c)+1 |-> KeptAt(c, l-1, t-1)]), x, t-1)]]
\* multiset equality up to tolerance (lists are short)
SameBag(e, o) == /\ Len(e) = Len(o)
                 /\ \E f \in [1..Len(e) -> 1..Len(o)] :
                       /\ \A i, j \in 1..Len(e) : i # j => f[i] # f[j]
                       /\ \A i \in 1..Len(e) : NearC(e[i], o[f[i]])
\* time interval of a node, in 1/2^l of the record length
T0Of(c, l, j) == FX(<< c.T * j, 0, l >>)[1]
TendOf(c, l, j) == FX(<< c.T * (j+1), 0, l >>)[1]
\* nodes seen by the window w0 .. w1: those whose interval overlaps it
Bins(c) == {q \in UNION {{l} \X (0..Pow2(l)-1) : l \in 0..LevF(c)} :
              /\ c.T * q[2] < c.w1 * Pow2(q[1])
              /\ c.w0 * Pow2(q[1]) < c.T * (q[2] + 1)}
Nodes(L) == UNION {{l} \X (0..Pow2(l)-1) : l \in 0..L}
NodeSeq(L) == Flat([l \in 1..L+1 |-> [j \in 1..Pow2(l-1) |-> << l-1, j-1 >>]])
\* eigenvalues of nodes, in order of the nodes; inside a node as a bag
BagSeq(c, ns, o) ==
  LET off[i \in 0..Len(ns)] == IF i = 0 THEN 0 ELSE off[i-1] + Len(Kept(c, ns[i][1], ns[i][2]))
  IN /\ Len(o) = off[Len(ns)]
     /\ \A i \in 1..Len(ns) : SameBag(NodeEigs(c, ns[i][1], ns[i][2]), SubSeq(o, off[i-1] + 1, off[i]))
BinSeq(c) == Filter(NodeSeq(LevF(c)), LAMBDA q : q \in Bins(c))

Verdict(c, o) ==
  IF o.exc # "" THEN "raises:" \o o.kind
  ELSE CASE o.kind = "level" -> IF o.lev # LevF(c) \/ o.nodes # Pow2(LevF(c)+1) - 1 THEN "levels" ELSE ""
    [] o.kind = "built" ->
         IF o.calls # NodeSeq(LevF(c)) THEN "builder-calls" ELSE ""
    [] o.kind = "node" ->
         IF ~SameBag(NodeEigs(c, o.l, o.j), o.eigs) THEN "node-eigs"
         ELSE IF ~NearMat(NodeRec(c, o.l, o.j), o.rec) THEN "node-reconstruction"
         ELSE IF ~NearMat(NodeRec(c, o.l, o.j), o.own) THEN "node-own-reconstruction"
         ELSE IF Abs(o.t0 - T0Of(c, o.l, o.j)) > 2 \/ Abs(o.tend - TendOf(c, o.l, o.j)) > 2
                 \/ Abs(o.delta - (TendOf(c, o.l, 0))) > 2 THEN "node-interval"
         ELSE ""
    [] o.kind = "lev" ->
         IF ~BagSeq(c, Filter(NodeSeq(LevF(c)), LAMBDA q : q[1] = o.l), o.eigs) THEN "level-eigs"
         ELSE IF ~NearMat(LevelRec(c, o.l), o.rec) THEN "level-reconstruction"
         ELSE IF o.namp # Len(o.eigs) \/ o.nmod # Len(o.eigs) THEN "level-alignment"
         ELSE ""
    [] o.kind = "all" ->
         IF ~BagSeq(c, NodeSeq(LevF(c)), o.eigs) THEN "all-eigs"
         ELSE IF ~NearMat(TotRec(c), o.rec) THEN "reconstruction-is-sum-of-levels"
         ELSE IF ~NearMat(TotRec(c), o.md) THEN "modes-times-dynamics"
         ELSE IF o.x # "same" THEN "data-changed"
         ELSE ""
    [] o.kind = "window" ->
         IF o.bins # BinSeq(c) THEN "window-bins"
         ELSE IF ~BagSeq(c, BinSeq(c), o.eigs) THEN "window-eigs"
         ELSE IF o.namp # Len(o.eigs) \/ o.nfreq # Len(o.eigs) \/ o.ngr # Len(o.eigs) THEN "window-alignment"
         ELSE IF o.freq # "same" THEN "window-frequency"
         ELSE ""

\* ---- properties of the decomposition itself
\* every mode is kept in at most one level of any column; what is kept and
\* what is left over make up the data
Rng(q) == {q[i] : i \in 1..Len(q)}
OnceOnly == phase = 100 => \A t \in 0..cfg.T-1 : \A l1, l2 \in 0..LevF(cfg) :
   l1 < l2 => Rng(KeptAt(cfg, l1, t)) \cap Rng(KeptAt(cfg, l2, t)) = {}
Complete == phase = 100 => LET lf == TLCEval(Lefts(cfg.ms, cfg.T, cfg.cyc, LevF(cfg)+1)) IN
   \A t \in 0..cfg.T-1 :
   UNION {Rng(KeptAt(cfg, l, t)) : l \in 0..LevF(cfg)} \cup lf[LevF(cfg)+2][t] = 1..Len(cfg.ms)
\* the pieces of a level tile the record
Tiles == phase = 100 => \A l \in 0..LevF(cfg) :
   /\ PStart(cfg.T, Pow2(l), 0) = 0
   /\ \A j \in 1..Pow2(l)-1 : PStart(cfg.T, Pow2(l), j) = PStart(cfg.T, Pow2(l), j-1) + PLen(cfg.T, Pow2(l), j-1)
   /\ PStart(cfg.T, Pow2(l), Pow2(l)-1) + PLen(cfg.T, Pow2(l), Pow2(l)-1) = cfg.T
\* a node at least one of whose instants lies in the window is in the window
WinSound == phase = 100 => Bins(cfg) # {} /\ << 0, 0 >> \in Bins(cfg)

GSets == {S \in SUBSET (1..9) : S # {} /\ Cardinality(S) <= 3}
Init == phase = 0 /\ cfg = [T |-> 8, T0 |-> 0, lev |-> 1, cyc |-> 1, groups |-> << 1 >>, ms |-> << >>, kt |-> << >>, inner |-> "dmd", build |-> "one", w0 |-> 0, w1 |-> 1, form |-> "array"]
Set(f, v) == cfg' = [cfg EXCEPT ![f] = v] /\ phase' = phase + 1
Next ==
  \/ phase = 0 /\ \E v \in (6..20) \cup {23, 24, 27, 28, 31, 32, 36, 40} : Set("T", v)
  \/ phase = 1 /\ \E v \in 1..4 : Set("lev", v)
  \/ phase = 2 /\ \E v \in 1..7 : Set("cyc", v)
  \/ phase = 3 /\ \E S \in RandomSubset(16, GSets) :
        LET d == [cfg EXCEPT !.groups = SeqOfSet(S), !.ms = TLCEval(ModesOf(S))] IN
        Ok(d) /\ cfg' = d /\ phase' = 4
  \/ phase = 4 /\ \E v \in {"dmd", "proj", "opt", "hankel"} : Ok([cfg EXCEPT !.inner = v]) /\ Set("inner", v)
  \/ phase = 5 /\ \E v \in {"one", "list", "tuple", "fun"} : Set("build", v)
  \/ phase = 6 /\ \E v \in {0, 6, 8, 12, 16} : Ok([cfg EXCEPT !.T0 = v]) /\ Set("T0", v)
  \/ phase = 7 /\ \E a, b \in 0..cfg.T : a < b /\ cfg' = [cfg EXCEPT !.w0 = a, !.w1 = b] /\ phase' = 8
  \/ phase = 8 /\ \E v \in {"array", "list", "int", "cube"} : (v = "int" => Gs(cfg) \cap {4, 5, 7, 8, 9} = {}) /\ Set("form", v)
  \/ phase = 9 /\ phase' = 100 /\ cfg' = [cfg EXCEPT !.kt = TLCEval(Tree(cfg))]
Spec == Init /\ [][Next]_<< cfg, phase >>
=============================================================================
