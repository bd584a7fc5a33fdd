------------------------------ MODULE DmdLife ------------------------------
(***************************************************************************)
(* Life cycle of DMD estimator objects as a user sees it.                  *)
(*                                                                         *)
(* State: up to NH object handles sharing one configuration.  An object    *)
(* knows (abstractly) its modes: eigenvalue, contribution, active flag;    *)
(* its clock (time of the first snapshot and sampling step) and the        *)
(* reconstruction window (in half sampling steps relative to the clock).   *)
(*                                                                         *)
(* Everything observable is a function of that state: eigenvalues,         *)
(* contributions, activation flags, time steps and the reconstruction.     *)
(* The same Apply operator drives model checking, behaviour generation and *)
(* trace validation.                                                       *)
(***************************************************************************)
EXTENDS Systems

CONSTANTS NH,        \* number of handles
          KINDS,     \* action kinds enabled (focus)
          DEPTH,     \* length of generated behaviours
          CLASSES,   \* estimator classes
          OPTS       \* which option dimensions vary

VARIABLES st, hist, phase
vars == << st, hist, phase >>

NoObj == [fit |-> FALSE, ex |-> FALSE]
Fresh == [fit |-> FALSE, ex |-> TRUE]

Delay(cfg)  == cfg.cls \in {"HankelDMD", "HODMD"}
Cont(cfg)   == cfg.cls \in {"BOPDMD", "VarProDMD"}
HasCon(cfg) == cfg.cls # "HODMD"
HasWin(cfg) == ~Cont(cfg)
HasItem(cfg) == ~Delay(cfg)
HasOpt(cfg) == cfg.cls \in {"DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "HankelDMD", "HODMD", "EDMD"}

Cfg0 == [cls |-> "DMD", rk |-> -1, exact |-> FALSE, optk |-> "F", j |-> 0,
         resc |-> "none", fb |-> FALSE, sort |-> "no", tik |-> "none",
         tlsq |-> 0, d |-> 1, rm |-> "first", form |-> "nd", y |-> FALSE]

\* forms with a two-dimensional space
Cubes == {"cube", "lcube", "fcube", "tcube", "lfcube"}
\* data sets a configuration can represent exactly
DsOk(cfg, d) ==
  \* forward-backward DMD is exact only for one mode (known finding FB: the
  \* backward operator is expressed in another basis), see DESIGN.md
  /\ (cfg.fb \/ cfg.cls = "FbDMD") => (FbOk(d) /\ Rk(d) = 1)
  /\ cfg.cls = "EDMD" => (RealData(d) /\ cfg.rk > 0)
  /\ cfg.cls = "CDMD" => cfg.rk > 0   \* without truncation rounding noise adds modes
  /\ IF Delay(cfg)
     THEN /\ d.id >= 31 \/ cfg.d <= 2
          /\ cfg.rk = Rk(d)
          /\ cfg.cls = "HODMD" => Rk(d) <= (IF d.n < Rk(d) THEN d.n ELSE Rk(d)) * cfg.d
          /\ Rk(d) <= d.n * cfg.d
          /\ d.T - cfg.d >= Rk(d) + 1 /\ d.id # 8
     ELSE /\ d.id < 31
          /\ IF cfg.rk = -1 THEN d.n = Rk(d) ELSE cfg.rk = Rk(d)
  /\ cfg.cls = "SubspaceDMD" => d.T >= 2 * Rk(d) + 3
  /\ Cont(cfg) => /\ \A k \in 1..Rk(d) : Abs(d.ms[k].m) <= 2 /\ d.ms[k].lam[1] > 0
                  /\ d.id \notin {12, 23, 6}
  /\ cfg.form \in Cubes => (d.n % 2 = 0)
  /\ cfg.form = "int" => IntData(d)
  /\ (cfg.optk = "I") => (cfg.j < d.T /\ -cfg.j <= d.T)
DsFor(cfg) == {d \in DSet : DsOk(cfg, d)}

\* paired data (X, Y) instead of one trajectory: chosen at every fit.  The
\* optimal amplitudes of projected modes are exact only for paired data (known
\* finding OPTPROJ).
ExactModes(cfg) == cfg.exact \/ cfg.cls \in {"CDMD", "RDMD", "SubspaceDMD", "EDMD"}
YFor(cfg) == IF ~cfg.y THEN {FALSE} ELSE IF cfg.optk = "T" /\ ~ExactModes(cfg) THEN {TRUE} ELSE BOOLEAN

RefIdx(cfg, y, d) == IF cfg.optk # "I" THEN 0
                  ELSE LET TT == IF y THEN d.T - 1 ELSE IF Delay(cfg) THEN d.T - cfg.d + 1 ELSE d.T
                       IN IF cfg.j < 0 THEN TT + cfg.j ELSE cfg.j

NT(y, d) == IF y THEN d.T - 1 ELSE d.T     \* snapshots seen by the estimator

Fitted(cfg, d, y) ==
  LET j == RefIdx(cfg, y, d) IN
  [fit |-> TRUE, ex |-> TRUE, ds |-> d.id, n |-> d.n, T |-> NT(y, d), j |-> j,
   ms |-> [k \in 1..Rk(d) |->
             [lam |-> d.ms[k].lam, mu |-> d.ms[k].mu, m |-> d.ms[k].m, on |-> TRUE,
              c |-> [s \in 1..d.n |-> GMul(d.ms[k].c[s], GPow(d.ms[k].lam, j))]]],
   ot0 |-> <<0,1>>, odt |-> <<1,1>>, win |-> << 0, 2*(NT(y, d)-1), 2 >>,
   sh |-> FALSE,    \* shares its operator with a slice (documented)
   nf |-> FALSE,    \* ... and the other one has been fitted again since
   as |-> FALSE,    \* the window was assigned as a whole (plain dict)
   st |-> FALSE]    \* eigenvalues or amplitudes were modified

Active(o) == Filter(o.ms, LAMBDA md : md.on)
NModes(o) == Len(o.ms)
NActive(o) == Len(Active(o))

\* ---------------------------------------------------------------- observables
EigsOf(o)  == [k \in 1..NActive(o) |-> FX(Active(o)[k].lam)]
ConOf(cfg, o) ==
  LET am == Active(o) IN
  [k \in 1..Len(am) |->
     Flat([i \in 1..cfg.d |-> [s \in 1..o.n |-> FX(GMul(am[k].c[s], GPow(am[k].lam, i-1)))]])]
MaskOf(o) == [k \in 1..NModes(o) |-> o.ms[k].on]
\* the steps go on until the end of the window is reached
WinLen(w) == ((w[2] - w[1] + w[3] - 1) \div w[3]) + 1
WinAt(w, i) == w[1] + (i-1) * w[3]
TimeAt(o, h) == ((o.ot0[1] * SCALE) \div o.ot0[2]) + ((o.odt[1] * h * SCALE) \div (2 * o.odt[2]))
StepsOf(o) == [i \in 1..WinLen(o.win) |-> TimeAt(o, WinAt(o.win, i))]
TimeDictOf(o) == << TimeAt(o, o.win[1]), TimeAt(o, o.win[2]), (o.odt[1] * o.win[3] * SCALE) \div (2 * o.odt[2]) >>
RecOf(o) ==
  LET am == Active(o) IN
  [s \in 1..o.n |-> [i \in 1..WinLen(o.win) |->
     FSum([k \in 1..Len(am) |-> FX(ValAt(am[k], s, WinAt(o.win, i) - 2*o.j))])]]
\* cycles per time unit: the argument of the eigenvalue over 2*pi*dt
FreqOf(o) == [k \in 1..NActive(o) |-> (K8(Active(o)[k].lam) * SCALE * o.odt[2]) \div (8 * o.odt[1])]
OStepsOf(o) == [i \in 1..o.T |-> TimeAt(o, 2*(i-1))]
\* one-step prediction from the data: the state at t+1 (half steps 2t+2)
PredOf(o, t) == [s \in 1..o.n |-> FSum([k \in 1..NModes(o) |-> FX(ValAt(o.ms[k], s, 2*(t+1) - 2*o.j))])]

\* ---------------------------------------------------------------- actions
Upd(s, o, f) == [s EXCEPT !.objs[o] = f]

StabMode(md, lo, hi) ==
  \* lo, hi are exponents*2 of |lam| thresholds: 2*m strictly between
  IF md.on /\ 2*md.m > lo /\ 2*md.m < hi
  THEN [md EXCEPT !.lam = GScale2(md.lam, -md.m),
                  !.mu = IF md.mu # << >> /\ md.lam[2] = 0 THEN GOne ELSE << >>,
                  !.m = 0,
                  !.c = [s \in 1..Len(md.c) |-> GScale2(md.c[s], md.m)]]
  ELSE md
StabObj(o, lo, hi) == [o EXCEPT !.ms = [k \in 1..NModes(o) |-> StabMode(o.ms[k], lo, hi)], !.st = TRUE]
StabIdx(o, lo, hi) == LET am == Active(o) IN
  {k \in 1..Len(am) : 2*am[k].m > lo /\ 2*am[k].m < hi}

\* keep : function from active position to BOOLEAN
CutObj(o, keep, nul) ==
  LET pos(k) == Cardinality({i \in 1..k : o.ms[i].on}) IN
  [o EXCEPT !.st = @ \/ nul,
            !.ms = [k \in 1..NModes(o) |->
     IF o.ms[k].on /\ ~keep[pos(k)]
     THEN IF nul THEN [o.ms[k] EXCEPT !.c = [s \in 1..Len(o.ms[k].c) |-> GZero]]
                 ELSE [o.ms[k] EXCEPT !.on = FALSE]
     ELSE o.ms[k]]]

\* selection by eigenvalue modulus (2*log2 thresholds)
KeepThr(o, lo, hi) == LET am == Active(o) IN
  [k \in 1..Len(am) |-> 2*am[k].m > lo /\ 2*am[k].m < hi]

\* selection of the n modes with the largest integral contribution
\*    ||mode||^2 * SUM_t |amplitude * lam^t|   over the ORIGINAL time steps;
\* the scaling of modes is free, hence mode norm and amplitude are observed
\* (fixed point, 1/1000) while the sum over time comes from the model.
RECURSIVE Geo(_, _)       \* SUM_{t<T} 2^(m t), fixed point 1/100
Geo(m, T) == IF T = 0 THEN 0 ELSE Geo(m, T-1) + (IF m >= 0 THEN 100 * Pow2(m*(T-1)) ELSE 100 \div Pow2(Min2(20, -m*(T-1))))
Clamp(x) == Min2(x, 20000)
IntCon(o, nb) ==
  LET am == Active(o)
      g == [k \in 1..Len(am) |-> Geo(am[k].m, o.T)]
      gm == CHOOSE x \in {g[k] : k \in 1..Len(am)} : \A k \in 1..Len(am) : g[k] <= x
      sc == Max2(1, gm \div 20000)
  IN [k \in 1..Len(am) |-> ((Clamp(nb[k][1]) * Clamp(nb[k][2])) \div 10000) * (g[k] \div sc)]
\* S is an acceptable choice of n modes out of the contributions ic
TopN(S, ic, n) == /\ Cardinality(S) = Min2(n, Len(ic))
                  /\ \A i \in S, j \in (1..Len(ic)) \ S : ic[i] + 2000 + (ic[i] \div 50) >= ic[j]

\* result of an action: the new state; errors leave the state unchanged
Dest(a) == a.d
Apply(s, a) ==
  LET cfg == s.cfg
      o == s.objs[a.o] IN
  CASE a.k = "new"   -> Upd(s, a.o, Fresh)
    [] a.k = "fit"   -> [s EXCEPT !.objs = [i \in 1..NH |->
                             IF i = a.o THEN Fitted(cfg, ById(a.ds), a.y)
                             ELSE IF o.fit /\ o.sh /\ s.objs[i].fit /\ s.objs[i].sh
                                  THEN [s.objs[i] EXCEPT !.nf = TRUE] ELSE s.objs[i]]]
    [] a.k = "mask"  -> Upd(s, a.o, [o EXCEPT !.ms = [k \in 1..NModes(o) |-> [o.ms[k] EXCEPT !.on = a.m[k]]]])
    [] a.k = "item"  -> [s EXCEPT !.objs[a.d] = [o EXCEPT !.sh = TRUE,
                             !.ms = [k \in 1..NModes(o) |-> [o.ms[k] EXCEPT !.on = (k \in {a.key[i] : i \in 1..Len(a.key)})]]],
                                  !.objs[a.o].sh = TRUE]
    [] a.k = "copy"  -> Upd(s, a.d, [o EXCEPT !.sh = FALSE])
    [] a.k = "time"  -> Upd(s, a.o, [o EXCEPT !.win = << a.h0, a.h1, a.hs >>, !.as = @ \/ a.how # "items"])
    [] a.k = "clock" -> Upd(s, a.o, [o EXCEPT !.ot0 = a.t0, !.odt = a.dt, !.win = << 0, 2*(o.T-1), 2 >>])
    [] a.k = "stab"  -> Upd(s, a.d, [StabObj(o, a.lo, a.hi) EXCEPT !.sh = FALSE])
    [] a.k = "sel"   -> Upd(s, a.d, [CutObj(o, KeepThr(o, a.lo, a.hi), a.nul) EXCEPT !.sh = (a.d = a.o /\ o.sh)])
    [] a.k = "isel"  -> Upd(s, a.d, [CutObj(o, [k \in 1..NActive(o) |-> (k-1) \notin {a.cut[i] : i \in 1..Len(a.cut)}], a.nul)
                                       EXCEPT !.sh = (a.d = a.o /\ o.sh)])
    [] a.k \in {"read", "pred"} -> s
    [] a.k = "bad"   -> s
    [] OTHER -> s

\* ---------------------------------------------------------------- enabling
Live(s)   == {i \in 1..NH : s.objs[i].ex}
FitObj(s) == {i \in 1..NH : s.objs[i].fit}
Look == {"none", "peek", "all", "last"}

Masks(r) == [1..r -> BOOLEAN]
Keys(r) == {<<i>> : i \in 1..r} \cup {SeqOfSet(S) : S \in SUBSET (1..r)} \cup {Rev(SeqOfSet(S)) : S \in SUBSET (1..r)}
KeyForms(key, r) == {"list"} \cup (IF Len(key) = 1 THEN {"int", "neg"} ELSE {})
                    \cup (IF key # << >> /\ key = [i \in 1..Len(key) |-> key[1] + i - 1] THEN {"slice"} ELSE {})
                    \cup (IF key # << >> THEN {"array"} ELSE {})
Thr == { << -99, 1 >>, << -1, 99 >>, << -1, 1 >>, << -3, 3 >>, << -99, -1 >>, << 1, 99 >>, << 1, 3 >>, << 3, 99 >> }
ModsOk(o) == \A k \in 1..NModes(o) : o.ms[k].m # NOMOD
HalfWinOk(o) == \A k \in 1..NModes(o) : o.ms[k].mu # << >>

\* largest horizon (half steps) that keeps values inside 32 bit fixed point
MaxM(o) == CHOOSE x \in {0} \cup {Max2(0, o.ms[k].m) : k \in {i \in 1..NModes(o) : o.ms[i].m # NOMOD}}
                       \cup {1 : k \in {i \in 1..NModes(o) : o.ms[i].m = NOMOD}} :
             \A k \in 1..NModes(o) : (o.ms[k].m = NOMOD => x >= 1) /\ (o.ms[k].m # NOMOD => x >= o.ms[k].m)
Horizon(o) == CASE MaxM(o) = 0 -> 2*(o.T + 6) [] MaxM(o) = 1 -> 22 [] OTHER -> 14
\* backwards in time small eigenvalues blow up as well
Low(o, cfg) == IF Delay(cfg) \/ \E k \in 1..NModes(o) : o.ms[k].m # NOMOD /\ o.ms[k].m < 0 THEN 0 ELSE -4
WinOk(cfg, o, w) ==
      /\ w[1] >= Low(o, cfg) /\ w[2] <= Horizon(o)
      /\ w[2] >= w[1] /\ WinLen(w) <= 13 /\ WinAt(w, WinLen(w)) <= Horizon(o)
      /\ (w[1] % 2 = 1 \/ w[3] = 1) => (HalfWinOk(o) /\ ~Delay(cfg))
      /\ Delay(cfg) => w[3] % 2 = 0
      /\ w[1] % 2 = 0 \/ HalfWinOk(o)
Wins(cfg, o) ==
  {w \in (Low(o, cfg)..Horizon(o)) \X (0..Horizon(o)) \X {1, 2, 4, 6} : WinOk(cfg, o, w)}
Clocks == { <<0,1>>, <<5,1>>, <<-3,2>>, <<1,10>> } \X { <<1,1>>, <<1,10>>, <<1,2>>, <<3,1>>, <<7,100>> }

Reads == { << "dynamics", "modes", "eigs" >>, << "reconstructed_data", "amplitudes" >>,
           << "frequency", "growth_rate" >>, << "operator", "snapshots", "snapshots_shape" >>,
           << "dmd_timesteps", "original_timesteps", "fitted", "modes_activation_bitmask" >>,
           << "plot_eigs" >>, << "plot_summary" >>, << "plot_modes", "plot_snapshots" >> }
Bads == { "mask_len", "mask_dtype", "mask_inplace", "item_repeat", "item_type", "item_range", "time_key", "fit_single", "fit_1d" }
BadsU == { "unfit_mask", "unfit_time" }

E1(s, a) == /\ st' = Apply(s, a)
            /\ hist' = Append(hist, a)
            /\ UNCHANGED phase
On(k) == k \in KINDS
L(a) == \E lk \in Look : E1(st, [look |-> lk] @@ a)

Run == phase = 99 /\ Len(hist) < DEPTH

Fit  == Run /\ On("fit")  /\ \E o \in {i \in Live(st) : st.objs[i].fit => ~st.objs[i].nf}, d \in DsFor(st.cfg), y \in YFor(st.cfg) : L([k |-> "fit", o |-> o, ds |-> d.id, y |-> y])
Fit1 == Run /\ FitObj(st) = {} /\ \E o \in Live(st), d \in DsFor(st.cfg), y \in YFor(st.cfg) : L([k |-> "fit", o |-> o, ds |-> d.id, y |-> y])
New  == Run /\ On("new") /\ \E o \in 1..NH : ~st.objs[o].ex /\ L([k |-> "new", o |-> o])
Mask == Run /\ On("mask") /\ \E o \in FitObj(st) : \E m \in Masks(NModes(st.objs[o])) : L([k |-> "mask", o |-> o, m |-> m])
Item == Run /\ On("item") /\ HasItem(st.cfg) /\ \E o \in FitObj(st), d \in 1..NH :
          /\ d # o /\ ~st.objs[o].st /\ ~st.objs[o].nf
          /\ \E key \in Keys(NModes(st.objs[o])) : \E kf \in KeyForms(key, NModes(st.objs[o])) :
               L([k |-> "item", o |-> o, d |-> d, key |-> key, kf |-> kf])
Copy == Run /\ On("copy") /\ \E o \in FitObj(st), d \in 1..NH : \E how \in {"deepcopy", "pickle", "saveload"} :
          d # o /\ L([k |-> "copy", o |-> o, d |-> d, how |-> how])
Time == Run /\ On("time") /\ HasWin(st.cfg) /\ \E o \in FitObj(st) : \E w \in Wins(st.cfg, st.objs[o]) :
          \E how \in (IF st.objs[o].sh THEN {"assign"} ELSE {"assign", "items"}) :
          L([k |-> "time", o |-> o, h0 |-> w[1], h1 |-> w[2], hs |-> w[3], how |-> how])
\* d.dmd_time = other.dmd_time : the window is copied, not shared
TimeFrom == Run /\ On("time") /\ \E o, src \in FitObj(st) :
          /\ o # src /\ st.objs[o].ot0 = st.objs[src].ot0 /\ st.objs[o].odt = st.objs[src].odt
          /\ WinOk(st.cfg, st.objs[o], st.objs[src].win)
          /\ L([k |-> "time", o |-> o, src |-> src, how |-> "other", h0 |-> st.objs[src].win[1],
                h1 |-> st.objs[src].win[2], hs |-> st.objs[src].win[3]])
Clock == Run /\ On("clock") /\ HasWin(st.cfg) /\ \E o \in FitObj(st) : ~st.objs[o].sh /\ \E c \in Clocks :
          L([k |-> "clock", o |-> o, t0 |-> c[1], dt |-> c[2]])
Hows == {"inplace", "copy", "tuner", "tunerin", "tunercopy", "tunersub"}
Stab == Run /\ On("stab") /\ ~Delay(st.cfg) /\ ~Cont(st.cfg) /\ \E o \in FitObj(st), d \in 1..NH, th \in Thr, how \in Hows :
          /\ ModsOk(st.objs[o]) /\ ~st.objs[o].sh
          /\ (how \in {"inplace", "tunerin"}) <=> (d = o)
          /\ LET w == st.objs[o].win IN
             (w[1] % 2 = 0 /\ w[3] % 2 = 0) \/ HalfWinOk(StabObj(st.objs[o], th[1], th[2]))
          /\ L([k |-> "stab", o |-> o, d |-> d, lo |-> th[1], hi |-> th[2], how |-> how])
Sel == Run /\ On("sel") /\ \E o \in FitObj(st), d \in 1..NH, th \in Thr, how \in Hows, nul \in BOOLEAN :
          /\ ModsOk(st.objs[o]) /\ (nul => ~st.objs[o].sh)
          /\ (how \in {"inplace", "tunerin"}) <=> (d = o)
          /\ (how \in {"tuner", "tunercopy", "copy"}) => TRUE
          /\ L([k |-> "sel", o |-> o, d |-> d, lo |-> th[1], hi |-> th[2], how |-> how, nul |-> nul])
\* which modes go is not fixed by the model (ties): the executed choice is
\* recorded in `cut` and judged by TopN; nothing follows it in a behaviour
ISel == Run /\ On("isel") /\ Len(hist) = DEPTH - 1 /\ ~Delay(st.cfg) /\ \E o \in FitObj(st), d \in 1..NH, how \in Hows, nul \in BOOLEAN :
          /\ ModsOk(st.objs[o]) /\ (nul => (~st.objs[o].sh /\ how \in {"inplace", "copy"})) /\ NActive(st.objs[o]) > 1 /\ st.objs[o].T <= 9
          /\ (how \in {"inplace", "tunerin"}) <=> (d = o)
          /\ \E n \in 1..NActive(st.objs[o]) :
               L([k |-> "isel", o |-> o, d |-> d, n |-> n, how |-> how, nul |-> nul, cut |-> << >>])
Read == Run /\ On("read") /\ \E o \in FitObj(st), r \in Reads : L([k |-> "read", o |-> o, what |-> r])
\* predict() maps a snapshot (vector or matrix of columns) one step ahead
Pred == Run /\ On("pred") /\ st.cfg.cls \in {"DMD", "FbDMD"} /\ \E o \in FitObj(st) :
          /\ ~st.objs[o].st /\ \A k \in 1..NModes(st.objs[o]) : st.objs[o].ms[k].on
          /\ \E t \in 0..(st.objs[o].T - 1), mx \in BOOLEAN : L([k |-> "pred", o |-> o, t |-> t, mx |-> mx])
Bad == Run /\ On("bad") /\ (\/ \E o \in FitObj(st), w \in Bads :
                                  ~(w = "time_key" /\ st.objs[o].as) /\ L([k |-> "bad", o |-> o, what |-> w])
                            \/ \E o \in Live(st) \ FitObj(st), w \in BadsU : L([k |-> "bad", o |-> o, what |-> w]))

\* ---------------------------------------------------------------- configuration, chosen field by field
Ch(f, v) == st' = [st EXCEPT !.cfg = [@ EXCEPT ![f] = v]] /\ UNCHANGED hist
Var(f) == f \in OPTS
cf == st.cfg
Conf ==
  \/ phase = 0  /\ phase' = 1  /\ \E c \in CLASSES : Ch("cls", c)
  \/ phase = 1  /\ phase' = 2  /\ \E v \in (IF Delay(cf) THEN {2, 3} ELSE IF Cont(cf) THEN {2, 3} ELSE IF cf.cls \in {"CDMD", "EDMD"} THEN {1, 2, 3} ELSE IF cf.cls = "FbDMD" THEN {1} ELSE {-1, 1, 2, 3}) : Ch("rk", v)
  \/ phase = 2  /\ phase' = 3  /\ \E v \in (IF cf.cls = "SpDMD" THEN {TRUE}
                                        ELSE IF Var("exact") /\ cf.cls \notin {"CDMD","RDMD","SubspaceDMD","EDMD"} THEN BOOLEAN ELSE {FALSE}) : Ch("exact", v)
  \/ phase = 3  /\ phase' = 4  /\ \E v \in (IF Var("opt") THEN (IF cf.cls = "SpDMD" THEN {"F"} \cup (IF cf.exact THEN {"T"} ELSE {})
                 ELSE IF Delay(cf) /\ ~cf.exact THEN {"F", "I"} ELSE IF HasOpt(cf) THEN {"F", "T", "I"} ELSE {"F"}) ELSE {"F"}) : Ch("optk", v)
  \/ phase = 4  /\ phase' = 5  /\ \E v \in (IF cf.optk = "I" THEN {0, 1, 2, 3, -1, -2, -3} ELSE {0}) : Ch("j", v)
  \/ phase = 5  /\ phase' = 6  /\ \E v \in (IF Var("resc") /\ ~Cont(cf) /\ cf.cls # "EDMD" THEN {"none", "auto"} ELSE {"none"}) : Ch("resc", v)
  \/ phase = 6  /\ phase' = 7  /\ \E v \in (IF Var("fb") /\ cf.rk = 1 /\ cf.cls \in {"DMD","CDMD","RDMD","SpDMD"} THEN BOOLEAN ELSE {FALSE}) : Ch("fb", v)
  \/ phase = 7  /\ phase' = 8  /\ \E v \in (IF Var("sort") /\ ~Cont(cf) /\ cf.cls # "EDMD" THEN {"no", "abs", "real"} ELSE {"no"}) : Ch("sort", v)
  \/ phase = 8  /\ phase' = 9  /\ \E v \in (IF Var("tik") /\ cf.cls \in {"DMD","CDMD","RDMD","HankelDMD"} THEN {"none", "zero"} ELSE {"none"}) : Ch("tik", v)
  \/ phase = 9  /\ phase' = 10 /\ \E v \in (IF Var("tlsq") /\ cf.rk > 0 /\ cf.cls \notin {"SubspaceDMD", "EDMD"} /\ ~Cont(cf) THEN {0, cf.rk} ELSE {0}) : Ch("tlsq", v)
  \/ phase = 10 /\ phase' = 11 /\ \E v \in (IF Delay(cf) THEN {2, 3, 4} ELSE {1}) : Ch("d", v)
  \/ phase = 11 /\ phase' = 12 /\ \E v \in (IF Delay(cf) THEN {"first", "mean", "weights", "wlist"} ELSE {"first"}) : Ch("rm", v)
  \/ phase = 12 /\ phase' = 13 /\ \E v \in (IF Var("form") THEN {"nd", "list", "tuple", "fortran", "strided", "readonly", "int"} \cup Cubes ELSE {"nd"}) : Ch("form", v)
  \/ phase = 13 /\ phase' = 99 /\ \E v \in (IF cf.cls \in {"DMD","FbDMD","EDMD"}
                                           THEN IF Var("y") THEN BOOLEAN ELSE {FALSE}
                                           ELSE {FALSE}) :
        /\ (cf.optk = "T" /\ ~ExactModes(cf)) => v
        /\ Ch("y", v)

\* behaviours end in phase 100
Stop == phase = 99 /\ Len(hist) = DEPTH /\ phase' = 100 /\ UNCHANGED << st, hist >>
Init == /\ st = [cfg |-> Cfg0, objs |-> [i \in 1..NH |-> IF i = 1 THEN Fresh ELSE NoObj]]
        /\ hist = << >> /\ phase = 0
Next == \/ Conf \/ Fit1 \/ Fit \/ New \/ Mask \/ Item \/ Copy \/ Time \/ TimeFrom \/ Clock \/ Stab \/ Sel \/ ISel \/ Read \/ Pred \/ Bad \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
