----------------------------- MODULE LifeTrace -----------------------------
(* Validation of executions recorded from the real library against DmdLife. *)
(* One JSON line per behaviour.  Each step carries the action, what it      *)
(* returned and what was observed; the verdict names the clause that fails. *)
EXTENDS DmdLife, Json, TLCExt
CONSTANT TRACEFILE
VARIABLES tr, l, bad
Traces == ndJsonDeserialize(TRACEFILE)
tvars == << st, hist, phase, tr, l, bad >>

Reorder(o, ord) ==
  LET r == NModes(o)
      Match(p) == \A k \in 1..r : NearC(FX(o.ms[p[k]].lam), ord[k])
      P == {p \in [1..r -> 1..r] : (\A a, b \in 1..r : p[a] = p[b] => a = b) /\ Match(p)}
  IN IF Len(ord) # r \/ P = {} THEN << >>
     ELSE LET p == CHOOSE x \in P : TRUE IN << [o EXCEPT !.ms = [k \in 1..r |-> o.ms[p[k]]]] >>

AbsKey(md) == IF md.m = NOMOD THEN 2*N2(md.lam) ELSE 0
\* squared modulus comparison as exact dyadics:  N2/4^e
AbsLeq(a, b) == LET ea == a.lam[3] eb == b.lam[3] IN
                N2(a.lam) * Pow2(2*eb) <= N2(b.lam) * Pow2(2*ea)
ReCmp(a, b) == a.lam[1] * Pow2(b.lam[3]) - b.lam[1] * Pow2(a.lam[3])
ImCmp(a, b) == a.lam[2] * Pow2(b.lam[3]) - b.lam[2] * Pow2(a.lam[3])
Sorted(cfg, o) ==
  CASE cfg.sort = "abs"  -> \A k \in 1..NModes(o)-1 : AbsLeq(o.ms[k], o.ms[k+1])
    [] cfg.sort = "real" -> \A k \in 1..NModes(o)-1 :
            \/ ReCmp(o.ms[k], o.ms[k+1]) < 0
            \/ ReCmp(o.ms[k], o.ms[k+1]) = 0 /\
                 \* an exact tie is only guaranteed for a conjugate pair of real data
                 (ImCmp(o.ms[k], o.ms[k+1]) < 0 \/ o.ms[k].lam # GConj(o.ms[k+1].lam)
                  \/ ~RealData(ById(o.ds)) \/ cfg.cls \in {"CDMD","RDMD"})
    [] OTHER -> TRUE

FreqNear(o, f) == LET e == FreqOf(o) IN
  /\ Len(f) = Len(e)
  /\ \A k \in 1..Len(e) : Near(e[k], f[k]) \/ (K8(Active(o)[k].lam) = 4 /\ Near(-e[k], f[k]))
\* observation of one handle
ObsVerdict(cfg, o, ob) ==
  IF ~o.ex THEN "handle"
  ELSE IF ~o.fit THEN (IF ob.f THEN "fitted-flag" ELSE "")
  ELSE IF ob.exc # "" THEN "observation-raises"
  ELSE IF ~ob.f THEN "fitted-flag"
  ELSE IF ob.mask # MaskOf(o) THEN "activation"
  ELSE IF ~NearSeq(EigsOf(o), ob.eigs) THEN "eigenvalues"
  ELSE IF HasCon(cfg) /\ ~NearMat(ConOf(cfg, o), ob.con) THEN "contributions"
  ELSE IF ~NearI(StepsOf(o), ob.ts) THEN "timesteps"
  ELSE IF ~NearI(TimeDictOf(o), ob.td) THEN "time-window"
  ELSE IF ~NearI(OStepsOf(o), ob.ots) THEN "original-timesteps"
  ELSE IF ~FreqNear(o, ob.frq) THEN "frequency"
  ELSE IF ~NearMat(RecOf(o), ob.rec) THEN "reconstruction"
  ELSE ""
RECURSIVE ObsAll(_, _, _)
ObsAll(s, obs, i) == IF i > Len(obs) THEN ""
                     ELSE LET v == ObsVerdict(s.cfg, s.objs[obs[i].h], obs[i])
                          IN IF v # "" THEN v ELSE ObsAll(s, obs, i+1)

ExcFor(cfg, w) ==
  CASE w = "mask_len" -> {"ValueError"}
    [] w = "mask_dtype" -> {"RuntimeError"}
    [] w = "mask_inplace" -> {"ValueError"}
    [] w \in {"item_repeat", "item_type"} -> {"ValueError"}
    [] w = "item_range" -> IF Delay(cfg) THEN {"ValueError"} ELSE {"IndexError"}
    [] w = "time_key" -> {"KeyError"}
    [] w \in {"fit_single", "fit_1d"} -> {"ValueError"}
    [] w \in {"unfit_mask", "unfit_time"} -> {"RuntimeError"}

\* what the estimator reports about its input
ShapeOf(cfg, d) == IF cfg.form \in Cubes THEN << d.n \div 2, 2 >> ELSE << d.n >>
SeenOf(d, y) == LET S == Snap(d) IN [i \in 1..d.n |-> [t \in 1..NT(y, d) |-> FX(S[i][t])]]
SeenY(d) == LET S == Snap(d) IN [i \in 1..d.n |-> [t \in 1..d.T-1 |-> FX(S[i][t+1])]]
RetVerdict(s, a, ret) ==
  LET o == s.objs[a.o] IN
  CASE a.k = "bad" -> IF ret.exc \in ExcFor(s.cfg, a.what) THEN "" ELSE "error-contract:" \o a.what
    [] ret.exc # "" -> "raises:" \o a.k
    [] a.k = "sel" /\ a.how \in {"inplace", "copy"} ->
         LET keep == KeepThr(o, a.lo, a.hi)
         IN IF {ret.cut[i] + 1 : i \in 1..Len(ret.cut)} = {k \in DOMAIN keep : ~keep[k]} THEN "" ELSE "cut-indexes"
    [] a.k \in {"sel", "stab", "isel"} /\ a.how = "tunersub" /\ ret.oth # MaskOf(o) -> "tuner-subset"
    [] a.k = "isel" -> LET S == {k \in 1..NActive(o) : (k-1) \notin {a.cut[i] : i \in 1..Len(a.cut)}}
                       IN IF Len(ret.nb) # NActive(o) THEN "integral-contribution"
                          ELSE IF TopN(S, IntCon(o, ret.nb), a.n) THEN "" ELSE "integral-contribution"
    [] a.k = "stab" /\ a.how \in {"inplace", "copy"} ->
         IF {ret.cut[i] + 1 : i \in 1..Len(ret.cut)} = StabIdx(o, a.lo, a.hi) THEN "" ELSE "stabilised-indexes"
    [] a.k = "pred" -> IF NearSeq(PredOf(o, a.t), ret.pred) THEN "" ELSE "one-step-prediction"
    [] a.k = "fit" -> IF ret.mut THEN "caller-data-modified"
                      ELSE IF ret.shape # ShapeOf(s.cfg, ById(a.ds)) THEN "snapshots-shape"
                      ELSE IF ~NearMat(SeenOf(ById(a.ds), a.y), ret.sn) THEN "snapshots"
                      ELSE IF ~NearMat(IF a.y THEN SeenY(ById(a.ds)) ELSE << >>, ret.sny) THEN "paired-snapshots"
                      ELSE IF ret.self THEN "" ELSE "fit-does-not-return-estimator"
    [] OTHER -> ""

Steps(t) == Traces[t].steps
TInit == /\ tr \in 1..Len(Traces) /\ l = 0 /\ bad = ""
         /\ st = [cfg |-> Traces[tr].cfg, objs |-> [i \in 1..NH |-> IF i = 1 THEN Fresh ELSE NoObj]]
         /\ hist = << >> /\ phase = 0
TNext ==
  /\ bad = "" /\ l < Len(Steps(tr))
  /\ LET stp == Steps(tr)[l+1]
         a == stp.a
         s0 == Apply(st, a)
         ro == IF a.k = "fit" THEN Reorder(s0.objs[a.o], stp.ret.ord) ELSE << s0.objs[a.o] >>
         s1 == IF a.k = "fit" /\ ro # << >> THEN Upd(s0, a.o, ro[1]) ELSE s0
         v0 == RetVerdict(st, a, stp.ret)
         v1 == IF v0 # "" THEN v0
               ELSE IF ro = << >> THEN "fit-eigenvalues"
               ELSE IF a.k = "fit" /\ ~Sorted(st.cfg, s1.objs[a.o]) THEN "eigenvalue-order"
               ELSE ObsAll(s1, stp.obs, 1)
     IN /\ st' = s1 /\ l' = l + 1 /\ bad' = v1
        /\ (v1 # "" => PrintT("FAIL " \o ToJson([tr |-> tr, step |-> l+1, clause |-> v1])))
  /\ UNCHANGED << hist, phase, tr >>
TSpec == TInit /\ [][TNext]_tvars
RECURSIVE TotLen(_)
TotLen(i) == IF i = 0 THEN 0 ELSE 1 + Len(Steps(i)) + TotLen(i-1)
\* every recorded step was consumed (unless a verdict stopped it)
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").distinct) \o " " \o ToString(TotLen(Len(Traces))))
=============================================================================
