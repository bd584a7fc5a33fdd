-------------------------------- MODULE Prep --------------------------------
(***************************************************************************)
(* Pre/post-processing wrappers.  A stack of stages (outermost first)      *)
(* transforms the data, an estimator is fitted to the result, and the      *)
(* inverse stages map its reconstruction back.                             *)
(*                                                                         *)
(* Every stage is exact on a sum of modes: removing an average adds or     *)
(* changes the constant mode, delay embedding stacks shifted copies,       *)
(* projections and scalings are isomorphisms of the span.  So the spectrum *)
(* the inner estimator must find is known, and the outer reconstruction is *)
(* the original signal at the requested instants - minus the contributions *)
(* of the modes switched off (the average is put back).                    *)
(*                                                                         *)
(* State: the fitted data set, the window, the modes switched off.         *)
(***************************************************************************)
EXTENDS Systems, Randomization
VARIABLES cfg, phase
Base == << one(R(<<1,0,1,2>>)), neg(R(<<0,1,1,-1>>)), half(R(<<8,4,-4,0>>)), two(R(<<0,1,0,1>>)),
           im(C(<<1,1,0,2>>,<<1,0,0,1>>)), mim(CC(<<1,1,0,2>>,<<1,0,0,1>>)),
           im(C(<<2,0,1,1>>,<<0,1,1,-1>>)), quar(R(<<0,16,4,8>>)), one(R(<<2,-1,3,1>>)) >>
Groups == << {1}, {2}, {3}, {4}, {5, 6}, {7}, {8}, {1, 2}, {2, 3}, {9, 3}, {1, 4}, {1, 5, 6}, {3, 5, 6}, {2, 7}, {9, 7}, {8, 1}, {1, 2, 3}, {2, 4}, {9, 8, 2} >>
Cut(m, n) == [m EXCEPT !.c = TLCEval([i \in 1..n |-> m.c[i]])]
\* a data set: [n, T, g]
Ms(d) == LET s == SeqOfSet(Groups[d.g]) IN TLCEval([i \in 1..Len(s) |-> Cut(Base[s[i]], d.n)])
Val(ms, x, t) == GSum([k \in 1..Len(ms) |-> ValAt(ms[k], x, 2*t)])

\* ---- the data seen by the estimator, modulo a prime (certificate of rank)
II == 3303                    \* a square root of -1
ModC(g) == (((g[1] % PR) + II * (g[2] % PR)) % PR * PowM(INV2, g[3])) % PR
Inv1(x) == InvM(x % PR, PR - 2, 1)
Pows(l) == TLCEval([t \in 1..13 |-> PowM(l, t-1)])
Mod0(d) == LET ms == Ms(d) IN [T |-> d.T, q |-> TLCEval([i \in 1..Len(ms) |->
             [lam |-> ms[i].lam, p |-> Pows(ModC(ms[i].lam)), v |-> TLCEval([x \in 1..d.n |-> ModC(ms[i].c[x])])]])]
RECURSIVE SumM(_)
SumM(s) == IF s = << >> THEN 0 ELSE (Head(s) + SumM(Tail(s))) % PR
Rows(z) == Len(z.q[1].v)
\* sum of lam^t over the columns in W (a sequence of columns)
SumPow(e, W) == SumM([i \in 1..Len(W) |-> e.p[W[i]+1]])
\* average over the columns W : one number per row
ColMean(z, W) == LET sp == TLCEval([k \in 1..Len(z.q) |-> SumPow(z.q[k], W)]) iw == TLCEval(Inv1(Len(W))) IN TLCEval([x \in 1..Rows(z) |->
    (SumM([k \in 1..Len(z.q) |-> (z.q[k].v[x] * sp[k]) % PR]) * iw) % PR])
Cols(T) == [i \in 1..T |-> i-1]
Mean(z, how) ==
  CASE how = "row"  -> ColMean(z, Cols(z.T))
    [] how = "first" -> ColMean(z, << 0 >>)
    [] how = "half" -> ColMean(z, Cols(z.T \div 2))
    [] how = "all"  -> LET m == ColMean(z, Cols(z.T)) a == (SumM(m) * Inv1(Rows(z))) % PR IN [x \in 1..Rows(z) |-> a]
Const(z) == {k \in 1..Len(z.q) : z.q[k].lam = GI(1,0)}
SubMean(z, m) ==
  LET nz == TLCEval(IF Const(z) = {} THEN [x \in 1..Rows(z) |-> (PR - m[x]) % PR]
            ELSE LET k == CHOOSE k \in Const(z) : TRUE IN [x \in 1..Rows(z) |-> (z.q[k].v[x] + PR - m[x]) % PR])
      rest == Filter(z.q, LAMBDA e : e.lam # GI(1,0))
  IN [z EXCEPT !.q = rest \o (IF \A x \in 1..Rows(z) : nz[x] = 0 THEN << >> ELSE << [lam |-> GI(1,0), p |-> [t \in 1..13 |-> 1], v |-> nz] >>)]
Delay(z, d) == [T |-> z.T - d + 1, q |-> TLCEval([k \in 1..Len(z.q) |-> [lam |-> z.q[k].lam, p |-> z.q[k].p,
   v |-> TLCEval([i \in 1..d*Rows(z) |-> (z.q[k].v[((i-1) % Rows(z)) + 1] * z.q[k].p[((i-1) \div Rows(z)) + 1]) % PR])]])]
RECURSIVE Through(_, _)
Through(z, st) ==
  IF st = << >> THEN z
  ELSE LET s == Head(st)
           w == TLCEval(CASE s.k = "mean" -> SubMean(z, TLCEval(Mean(z, s.how)))
                  [] s.k = "hankel" -> Delay(z, s.d)
                  [] OTHER -> z)
       IN IF w.q = << >> \/ w.T < 3 THEN [w EXCEPT !.q = << >>] ELSE Through(w, Tail(st))
Seen(d, st) == Through(TLCEval(Mod0(d)), st)
\* an inner estimator that embeds its data itself
Full(c) == IF c.inner = "hank" THEN Append(c.st, [k |-> "hankel", how |-> "first", d |-> 2, r |-> "all"]) ELSE c.st
Good(d, st) == LET z == TLCEval(Seen(d, st)) IN
  /\ z.q # << >> /\ z.T - 1 >= Len(z.q) + 1
  /\ FullRank([k \in 1..Len(z.q) |-> z.q[k].v])
\* the span never exceeds the rank kept by a projection stage: the projection
\* keeps everything when asked for `all` or for at least the number of modes
Stages == [k : {"mean"}, how : {"row", "all", "first", "half"}, d : {0}, r : {"all"}]
     \cup [k : {"svd"}, how : {""}, d : {0}, r : {"all", "int", "np"}]
     \cup [k : {"rand"}, how : {"", "seed", "test"}, d : {0}, r : {"all"}]
     \cup [k : {"hankel"}, how : {"first", "mean", "list", "array"}, d : 2..4, r : {"all"}]
     \cup [k : {"id", "norm"}, how : {""}, d : {0}, r : {"all"}]
Has(st, k) == \E i \in 1..Len(st) : st[i].k = k
Idx(st, k) == {i \in 1..Len(st) : st[i].k = k}
\* averages over all entries depend on the coordinates: only in the original ones
StackOk(st) ==
  /\ \A i \in 1..Len(st) : st[i].k = "mean" /\ st[i].how = "all" =>
        \A j \in 1..i-1 : st[j].k \in {"id", "norm"}
  /\ Cardinality(Idx(st, "hankel")) <= 2
\* stages built for one number of columns
OneT(st) == \E i \in 1..Len(st) : st[i].how \in {"test"} \/ (st[i].k = "mean" /\ st[i].how \in {"first", "half"})
Extra(st) == LET s == Idx(st, "hankel") IN
             IF s = {} THEN 0 ELSE LET f[S \in SUBSET s] == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN st[i].d - 1 + f[S \ {i}] IN f[s]
\* switching modes off is predictable when at most one average is removed,
\* before any delay stage
MaskOk(st) == \/ ~Has(st, "mean")
              \/ /\ Cardinality(Idx(st, "mean")) = 1
                 /\ \A i \in Idx(st, "mean") : \A j \in Idx(st, "hankel") : i < j

\* ---- the state after the first k operations
W0(c, d) == << 0, d.T - 1 - Extra(c.st) >>
RECURSIVE St(_, _)
St(c, k) ==
  IF k = 0 THEN [d |-> c.ds[1], i |-> 1, win |-> W0(c, c.ds[1]), off |-> {}]
  ELSE LET s == St(c, k-1) o == c.ops[k] IN
       CASE o.op = "fit" -> [d |-> c.ds[o.i], i |-> o.i, win |-> W0(c, c.ds[o.i]), off |-> {}]
         [] o.op = "win" -> [s EXCEPT !.win = o.w]
         [] o.op = "mask" -> [s EXCEPT !.off = {o.off[i] : i \in 1..Len(o.off)}]
         [] OTHER -> s
\* outer instants: the window plus the delays
Times(c, s) == [i \in 1..(s.win[2] - s.win[1] + 1 + Extra(c.st)) |-> s.win[1] + i - 1]
\* the average that was removed (fixed point), as a vector over rows
MeanHow(c) == LET i == CHOOSE i \in Idx(c.st, "mean") : TRUE IN c.st[i].how
RECURSIVE FxSum(_, _, _, _)
FxSum(ms, x, t0, t1) == IF t0 > t1 THEN << 0, 0 >> ELSE FAdd(FX(Val(ms, x, t0)), FxSum(ms, x, t0+1, t1))
FDiv(a, n) == << a[1] \div n, a[2] \div n >>
MeanFx(c, d, x) ==
  LET ms == Ms(d) h == MeanHow(c) IN
  CASE h = "row" -> FDiv(FxSum(ms, x, 0, d.T-1), d.T)
    [] h = "half" -> FDiv(FxSum(ms, x, 0, (d.T \div 2)-1), d.T \div 2)
    [] h = "first" -> FX(Val(ms, x, 0))
    [] h = "all" -> FDiv(FSum([y \in 1..d.n |-> FxSum(ms, y, 0, d.T-1)]), d.T * d.n)
\* contribution of the modes with eigenvalue l to the processed data
ContribFx(c, d, l, x, t) ==
  LET ms == Ms(d) own == FSum([k \in 1..Len(ms) |-> IF ms[k].lam = l THEN FX(ValAt(ms[k], x, 2*t)) ELSE << 0, 0 >>])
  IN IF l = GI(1,0) /\ Has(c.st, "mean") THEN LET m == MeanFx(c, d, x) IN << own[1] - m[1], own[2] - m[2] >> ELSE own
RecFx(c, s) == LET ts == Times(c, s) ms == TLCEval(Ms(s.d)) offs == IF s.off = {} THEN << >> ELSE SeqOfSet(s.off) IN
   [x \in 1..s.d.n |-> [i \in 1..Len(ts) |->
      LET f == FX(Val(ms, x, ts[i]))
          r == FSum([k \in 1..Len(offs) |-> ContribFx(c, s.d, c.lams[s.i][offs[k]], x, ts[i])])
      IN << f[1] - r[1], f[2] - r[2] >>]]
LamsOf(z) == [k \in 1..Len(z.q) |-> z.q[k].lam]
SameBag(e, o) == /\ Len(e) = Len(o)
                 /\ \E f \in [1..Len(e) -> 1..Len(o)] :
                       /\ \A i, j \in 1..Len(e) : i # j => f[i] # f[j]
                       /\ \A i \in 1..Len(e) : NearC(e[i], o[f[i]])
Active(c, s) == LET l == c.lams[s.i] IN
   [k \in 1..Len(l) - Cardinality(s.off) |-> FX(l[SeqOfSet((1..Len(l)) \ s.off)[k]])]
Verdict(c, o) ==
  LET s == St(c, o.k) IN
  IF o.exc # "" THEN "raises:" \o o.kind
  ELSE CASE o.kind = "op" -> IF o.self THEN "" ELSE "fit-returns-estimator"
    [] o.kind = "rec" -> IF NearMat(RecFx(c, s), o.v) THEN "" ELSE "reconstruction"
    [] o.kind = "eigs" -> IF ~SameBag(Active(c, s), o.eigs) THEN "eigenvalues"
                          ELSE IF o.nmod # Len(o.eigs) \/ o.namp # Len(o.eigs) \/ o.ndyn # Len(o.eigs) THEN "alignment"
                          ELSE IF o.fwd # "same" THEN "forwarded-attributes" ELSE ""
    [] o.kind = "time" -> IF NearI([i \in 1..(s.win[2] - s.win[1] + 1) |-> (s.win[1] + i - 1) * SCALE], o.ts) THEN "" ELSE "timesteps"
    [] o.kind = "intact" -> IF o.x THEN "" ELSE "inputs-changed"

\* ---- properties of the model
\* removing the average before or after a unitary change of coordinates gives
\* the same spectrum, and every stage list leaves the eigenvalues of the signal
\* other than 1 in place
SpectrumKept == phase = 100 => \A i \in 1..Len(cfg.ds) :
   LET a == {m.lam : m \in {Ms(cfg.ds[i])[k] : k \in 1..Len(Ms(cfg.ds[i]))}} b == {cfg.lams[i][k] : k \in 1..Len(cfg.lams[i])}
   IN a \ {GI(1,0)} = b \ {GI(1,0)} /\ b \subseteq a \cup {GI(1,0)}
Sane == phase = 100 => \A k \in 0..Len(cfg.ops) : LET s == St(cfg, k) IN s.off \subseteq 1..(Len(cfg.lams[s.i]) - 1)

\* ---- generation
Init == phase = 0 /\ cfg = [st |-> << >>, depth |-> 1, inner |-> "dmd", ds |-> << >>, lams |-> << >>, ops |-> << >>, nops |-> 3, sel |-> "", call |-> "pos"]
Set(f, v) == cfg' = [cfg EXCEPT ![f] = v] /\ phase' = phase + 1
\* sizes of numbers: growing modes only on short records
DOk(d) == (4 \in Groups[d.g] => d.T <= 9) /\ (8 \in Groups[d.g] => d.T <= 9)
          /\ \A k \in Groups[d.g] : \E x \in 1..d.n : N2(Base[k].c[x]) > 0
DSets == {d \in [n : 1..4, T : 7..12, g : 1..Len(Groups)] : DOk(d)}
Ops(c, s) ==
  CASE c.sel = "fit" -> {[op |-> "fit", i |-> i] : i \in 1..Len(c.ds)}
    [] c.sel = "win" -> {[op |-> "win", w |-> w, how |-> h] : h \in {"item", "whole"},
          w \in {<< 0, 4 >>, << 3, 7 >>, << 2, 2 >>, << 5, 12 >>, << s.win[1] + 1, s.win[2] + 1 >>, << s.win[1], s.win[2] - 1 >>}}
    [] c.sel = "mask" -> {[op |-> "mask", off |-> SeqOfSet(S)] : S \in SUBSET (1..Len(c.lams[s.i]) - 1)}
    [] OTHER -> {[op |-> c.sel]}
OpOk(c, s, o) ==
  CASE o.op = "win" -> o.w[1] <= o.w[2] /\ o.w[1] >= 0 /\ o.w[2] + Extra(c.st) <= 14
    [] o.op = "mask" -> MaskOk(c.st)
    [] OTHER -> TRUE
Next ==
  \/ phase = 0 /\ \E v \in 1..3 : Set("depth", v)
  \/ phase = 1 /\ Len(cfg.st) < cfg.depth /\ phase' = 1 /\
       \E s \in Stages : StackOk(Append(cfg.st, s)) /\ cfg' = [cfg EXCEPT !.st = Append(@, s)]
  \/ phase = 1 /\ Len(cfg.st) = cfg.depth /\ \E v \in {"dmd", "proj", "opt", "sorted", "cdmd", "hank"} : (v = "hank" => ~Has(cfg.st, "hankel")) /\ cfg' = [cfg EXCEPT !.inner = v] /\ phase' = 2
  \/ phase = 2 /\ \E v \in {"pos", "kw"} : Set("call", v)
  \/ phase = 3 /\ Len(cfg.ds) < 2 /\ phase' = 3 /\
       \E d \in RandomSubset(IF Len(cfg.ds) = 1 THEN 24 ELSE 10, DSets) : (Len(cfg.ds) = 1 /\ OneT(cfg.st) => d.T = cfg.ds[1].T) /\ LET l == TLCEval(LamsOf(Seen(d, Full(cfg)))) IN
          (Len(cfg.ds) = 1 => Len(l) = Len(cfg.lams[1])) /\ Good(d, Full(cfg)) /\
          cfg' = [cfg EXCEPT !.ds = Append(@, d), !.lams = Append(@, l)]
  \/ phase = 3 /\ Len(cfg.ds) = 2 /\ \E v \in 2..6 : cfg' = [cfg EXCEPT !.nops = v] /\ phase' = 4
  \/ phase = 4 /\ Len(cfg.ops) < cfg.nops /\ \E v \in {"fit", "win", "mask", "copy", "pickle", "save", "read"} :
       (v = "mask" => MaskOk(cfg.st)) /\ Set("sel", v)
  \/ phase = 5 /\ phase' = 4 /\ LET s == TLCEval(St(cfg, Len(cfg.ops))) IN
       \E o \in Ops(cfg, s) : OpOk(cfg, s, o) /\ cfg' = [cfg EXCEPT !.ops = Append(@, o)]
  \/ phase = 4 /\ Len(cfg.ops) = cfg.nops /\ phase' = 100 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<< cfg, phase >>
=============================================================================
