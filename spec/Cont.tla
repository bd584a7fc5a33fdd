-------------------------------- MODULE Cont --------------------------------
(***************************************************************************)
(* Continuous-time fits (BOPDMD, VarProDMD).  The data are samples         *)
(*      x(t) = SUM_k c_k exp(w_k t),      w_k = log(lam_k) / u             *)
(* at the instants  t = u * tau,  tau a strictly increasing sequence of    *)
(* integers (regular or not, starting anywhere, u in eighths), so that     *)
(* every sample c_k lam_k^tau is exact.  A fit of rank = number of modes   *)
(* must report exactly the w_k and c_k, whatever the sampling, and predict *)
(* the same expression at any other instant.                               *)
(***************************************************************************)
EXTENDS Systems
VARIABLES cfg, phase
\* 1: constant  2: decay  3: growth  4: pair +-i  5: decaying pair  6: growing pair
Vecs == << << << 1, 0, 1, 2, 1 >>, << 2, -1, 0, 1, 1 >> >>,
           << << 2, 4, -2, 0, 2 >>, << 0, 1, 3, -1, 1 >> >>,
           << << 0, 1, 0, 1, 1 >>, << 1, 1, -1, 0, 2 >> >> >>
CRe == << << << 1, 1, 0, 2, 0 >>, << 1, 0, 2, 0, -1 >> >>, << << 2, 0, 1, 1, 0 >>, << 1, -1, 0, 2, 1 >> >>, << << 1, 0, 0, 1, 2 >>, << 0, 2, 1, -1, 1 >> >> >>
CIm == << << << 1, 0, 0, 1, 1 >>, << 0, 1, 1, 0, 2 >> >>, << << 0, 1, 0, -1, 1 >>, << 1, 1, 1, 0, 0 >> >>, << << 0, 2, 1, 0, 1 >>, << 1, 0, -1, 1, 0 >> >> >>
Grp(g, v) ==
  CASE g = 1 -> << one(R(Vecs[1][v])) >>
    [] g = 2 -> << half(R(Vecs[2][v])) >>
    [] g = 3 -> << two(R(Vecs[3][v])) >>
    [] g = 4 -> << im(C(CRe[1][v], CIm[1][v])), mim(CC(CRe[1][v], CIm[1][v])) >>
    [] g = 5 -> << ohpi(C(CRe[2][v], CIm[2][v])), ohmi(CC(CRe[2][v], CIm[2][v])) >>
    [] g = 6 -> << opi(C(CRe[3][v], CIm[3][v])), omi(CC(CRe[3][v], CIm[3][v])) >>
RECURSIVE Cat(_, _)
Cat(gs, v) == IF gs = << >> THEN << >> ELSE Grp(Head(gs), v) \o Cat(Tail(gs), v)
Ms(f) == TLCEval(Cat(f.gs, f.v))
Rf(f) == Len(Ms(f))
n == 5
\* linear independence of the modes: real and imaginary parts, certified mod p
Parts(f) == Flat([k \in 1..Rf(f) |-> LET m == Ms(f)[k] IN
   IF \A x \in 1..5 : m.c[x][2] = 0 THEN << [x \in 1..5 |-> ModP(m.c[x])] >>
   ELSE IF m.c[CHOOSE x \in 1..5 : m.c[x][2] # 0 /\ \A y \in 1..x-1 : m.c[y][2] = 0][2] > 0
        THEN << [x \in 1..5 |-> ModP(<< m.c[x][1], 0, m.c[x][3] >>)], [x \in 1..5 |-> ModP(<< m.c[x][2], 0, m.c[x][3] >>)] >>
        ELSE << >>])
\* log(lam), fixed point: real part m*ln2, imaginary part k*pi/4
LN2(h) == (h * 34657) \div 10                \* h halves of ln 2
QPI == 7854
LogFx(lam) ==
  CASE lam = GI(1,0) -> << 0, 0 >>
    [] lam = <<1,0,1>> -> << -LN2(2), 0 >>
    [] lam = GI(2,0) -> << LN2(2), 0 >>
    [] lam = GI(0,1) -> << 0, 2*QPI >> [] lam = GI(0,-1) -> << 0, -2*QPI >>
    [] lam = <<1,1,1>> -> << -LN2(1), QPI >> [] lam = <<1,-1,1>> -> << -LN2(1), -QPI >>
    [] lam = GI(1,1) -> << LN2(1), QPI >> [] lam = GI(1,-1) -> << LN2(1), -QPI >>
\* u in eighths
Om(f, k) == LET w == LogFx(Ms(f)[k].lam) IN << (8 * w[1]) \div f.u, (8 * w[2]) \div f.u >>
At(ms, S, x, tau) == FX(GSum([i \in 1..Len(S) |-> ValAt(ms[S[i]], x, 2*tau)]))
All(f) == [k \in 1..Rf(f) |-> k]
RecAt(f, S, taus) == LET ms == Ms(f) IN
   TLCEval([x \in 1..n |-> TLCEval([j \in 1..Len(taus) |-> At(ms, S, x, taus[j])])])
\* spectrum: modes in the order given by the observation, matched to the w_k
Match(f, eigs, con) ==
  LET ms == Ms(f) r == Len(ms) om == TLCEval([k \in 1..r |-> Om(f, k)])
      Same(k, i) == NearC(om[k], eigs[i]) /\ NearSeq([x \in 1..n |-> FX(ms[k].c[x])], con[i])
  IN /\ Len(eigs) = r /\ Len(con) = r      \* the eigenvalues are distinct
     /\ \A i \in 1..r : \E k \in 1..r : Same(k, i)
     /\ \A k \in 1..r : \E i \in 1..r : Same(k, i)
\* required order of the eigenvalues

Up(s, d) == \A i \in 1..Len(s)-1 : IF d = "up" THEN s[i] <= s[i+1] + TOL ELSE s[i] >= s[i+1] - TOL
AbsSq(w) == LET a == Abs(w[1]) \div 100 b == Abs(w[2]) \div 100 IN a*a + b*b
Ordered(c, f, eigs) ==
  CASE c.sort = "none" -> TRUE
    [] c.sort = "real" -> Up([i \in 1..Len(eigs) |-> IF c.cls = "vp" THEN Abs(eigs[i][1]) ELSE eigs[i][1]], IF c.cls = "vp" THEN "down" ELSE "up")
    [] c.sort = "imag" -> Up([i \in 1..Len(eigs) |-> IF c.cls = "vp" THEN Abs(eigs[i][2]) ELSE eigs[i][2]], IF c.cls = "vp" THEN "down" ELSE "up")
    [] c.sort = "abs" -> LET s == [i \in 1..Len(eigs) |-> AbsSq(eigs[i])] IN
                         \A i \in 1..Len(s)-1 : IF c.cls = "vp" THEN s[i] >= s[i+1] - (100 + s[i] \div 100) ELSE s[i] <= s[i+1] + (100 + s[i] \div 100)
\* keys of the sort are separated (bagged averages need a unique order)
Dist(f, key(_)) == \A i, j \in 1..Rf(f) : i # j => Abs(key(Om(f, i)) - key(Om(f, j))) > 2000 \div f.u
Separated(c, f) ==
  CASE c.sort = "real" -> LET K(w) == w[1] IN Dist(f, K)
    [] c.sort = "imag" -> LET K(w) == w[2] IN Dist(f, K)
    [] c.sort = "abs" -> LET K(w) == AbsSq(w) IN \A i, j \in 1..Rf(f) : i # j => Abs(AbsSq(Om(f, i)) - AbsSq(Om(f, j))) > 300
    [] OTHER -> FALSE
Verdict(c, o) ==
  LET f == c.fits[o.fit] IN
  IF o.kind = "rejected" THEN IF o.exc \in {"ValueError", "TypeError", "RuntimeError"} THEN "" ELSE "invalid-accepted"
  ELSE IF o.exc # "" THEN "raises:" \o o.kind
  ELSE CASE o.kind = "spectrum" ->
         IF ~Match(f, o.eigs, o.con) THEN "spectrum"
         ELSE IF ~Ordered(c, f, o.eigs) THEN "order"
         ELSE IF ~NearI([j \in 1..Len(f.tau) |-> (f.tau[j] * f.u * SCALE) \div 8], o.time) THEN "time"
         ELSE ""
    [] o.kind = "rec" -> IF NearMat(RecAt(f, All(f), f.tau), o.v) THEN "" ELSE "reconstruction"
    [] o.kind = "forecast" -> IF NearMat(RecAt(f, All(f), f.q), o.v) THEN "" ELSE "forecast"
    [] o.kind = "one" -> IF \E k \in 1..Rf(f) : NearC(Om(f, k), o.eig) /\ NearMat(RecAt(f, << k >>, f.q), o.v)
                             /\ NearMat(RecAt(f, << k >>, f.tau), o.w)
                         THEN "" ELSE "single-mode-forecast"
    [] o.kind = "A" -> IF \A k \in 1..Rf(f) : \A x \in 1..n :
                             NearC(LET w == Om(f, k) z == Ms(f)[k].c[x] IN << w[1]*z[1] - w[2]*z[2], w[1]*z[2] + w[2]*z[1] >>, o.ac[k][x])
                       THEN "" ELSE "system-matrix"
    [] o.kind = "std" -> IF \A i \in 1..Len(o.v) : Abs(o.v[i]) <= TOL THEN "" ELSE "uncertainty-of-exact-data"
    [] o.kind = "stable" -> IF o.maxre <= 0 THEN "" ELSE "eigenvalue-constraint-stable"
    [] o.kind = "imag" -> IF o.maxabsre <= 0 THEN "" ELSE "eigenvalue-constraint-imag"
    [] o.kind = "pairs" -> IF o.unpaired = 0 THEN "" ELSE "eigenvalue-constraint-pairs"
    [] o.kind = "intact" -> IF o.x THEN "" ELSE "inputs-changed"
    [] o.kind = "freq" -> IF o.x THEN "" ELSE "frequency-growth"

\* ---- properties of the model
\* the sampled signal is what the spectrum says: value at tau+1 is lam times
\* the value at tau, mode by mode
Consistent == phase = 100 => \A q \in 1..Len(cfg.fits) : LET f == cfg.fits[q] IN
   \A k \in 1..Rf(f) : \A j \in 1..Len(f.tau) :
      ValAt(Ms(f)[k], 1, 2*(f.tau[j] + 1)) = GMul(Ms(f)[k].lam, ValAt(Ms(f)[k], 1, 2*f.tau[j]))
Increasing == phase = 100 => \A q \in 1..Len(cfg.fits) : \A j \in 1..Len(cfg.fits[q].tau)-1 :
   cfg.fits[q].tau[j] < cfg.fits[q].tau[j+1]

\* ---- generation
Blank == [gs |-> << >>, v |-> 1, u |-> 8, tau |-> << >>, q |-> << >>]
Init == phase = 0 /\ cfg = [cls |-> "bop", proj |-> TRUE, init |-> "none", sort |-> "none", trials |-> 0, tsize |-> "int", con |-> "none", econ |-> FALSE, comp |-> 0, basis |-> FALSE, A |-> FALSE, form |-> "array", rank |-> "int", fits |-> << >>, nf |-> 1, cur |-> Blank, T |-> 9]
Set(f, v) == cfg' = [cfg EXCEPT ![f] = v] /\ phase' = phase + 1
cur == cfg.cur
GSets == {s \in SUBSET (1..6) : s # {} /\ Cardinality(s) <= 3 /\ ~({2, 3} \subseteq s) /\ ~({5, 6} \subseteq s) /\ ~({2, 6} \subseteq s) /\ ~({3, 5} \subseteq s)}
NoInit(s) == ~({2, 4} \subseteq s) /\ ~({4, 5} \subseteq s) /\ ~({4, 6} \subseteq s)
ConOk(con, s) == CASE con = "stable" -> s \subseteq {1, 2, 4, 5}
                   [] con \in {"imag", "imag+pairs"} -> s \subseteq {1, 4}
                   [] con \in {"pairs", "stable+pairs"} -> Cardinality(s \cap {1, 2, 3}) <= 1 /\ (con = "stable+pairs" => s \subseteq {1, 2, 4, 5})
                   [] OTHER -> TRUE
Tdec(s) == s \cap {2, 3, 5, 6} # {}
Next ==
  \/ phase = 0 /\ \E v \in {"bop", "vp"} : Set("cls", v)
  \/ phase = 1 /\ \E v \in BOOLEAN : Set("proj", v)
  \/ phase = 2 /\ \E v \in {"none", "given"} : (cfg.cls = "vp" => v = "none") /\ Set("init", v)
  \/ phase = 3 /\ \E v \in {"none", "real", "imag", "abs"} : Set("sort", v)
  \/ phase = 4 /\ \E v \in {0, 3} : ((cfg.cls = "vp" \/ cfg.sort = "none") => v = 0) /\ ((cfg.cls = "bop" /\ cfg.sort # "none") => v = 3) /\ Set("trials", v)
  \/ phase = 5 /\ \E v \in {"int", "float"} : Set("tsize", v)
  \/ phase = 6 /\ \E v \in {"none", "stable", "imag", "pairs", "stable+pairs", "imag+pairs", "fun"} : (cfg.cls = "vp" => v = "none") /\ Set("con", v)
  \/ phase = 7 /\ \E v \in BOOLEAN : (v => cfg.cls = "bop" /\ cfg.proj) /\ Set("econ", v)
  \/ phase = 8 /\ \E v \in {0, 25, 40} : (cfg.cls = "bop" => v = 0) /\ Set("comp", v)
  \/ phase = 9 /\ \E v \in BOOLEAN : (v => cfg.cls = "bop" /\ cfg.proj) /\ Set("basis", v)
  \/ phase = 10 /\ \E v \in BOOLEAN : Set("A", v /\ cfg.cls = "bop")
  \/ phase = 11 /\ \E v \in {"array", "list", "cube"} : Set("form", v)
  \/ phase = 12 /\ \E v \in {"int", "energy"} : ((cfg.econ \/ cfg.basis) => v = "int") /\ Set("rank", v)
  \/ phase = 13 /\ \E v \in 1..2 : ((cfg.basis \/ cfg.econ) => v = 1) /\ Set("nf", v)
  \* one fit
  \/ phase = 14 /\ \E s \in GSets, v \in 1..2, u \in {8, 2, 16, 4} :
        /\ (cfg.init = "none" => NoInit(s))
        /\ ConOk(cfg.con, s)
        /\ (cfg.fits # << >> /\ (cfg.init = "given" \/ cfg.rank = "int") => SeqOfSet(s) = cfg.fits[1].gs /\ (cfg.init = "given" => u = cfg.fits[1].u))
        /\ LET f == [Blank EXCEPT !.gs = SeqOfSet(s), !.v = v, !.u = u] IN
           /\ FullRank(Parts(f)) /\ (cfg.rank = "energy" => Rf(f) <= 3)
           /\ (cfg.trials > 0 => Separated(cfg, f) /\ Rf(f) <= 3)
           /\ (cfg.comp > 0 => Rf(f) <= IF cfg.comp = 40 THEN 2 ELSE 3)
           /\ cfg' = [cfg EXCEPT !.cur = f] /\ phase' = 15
  \/ phase = 15 /\ \E t \in 9..14 : (Tdec({cur.gs[i] : i \in 1..Len(cur.gs)}) => t <= 10)
        /\ (cfg.init = "none" => t >= 9) /\ Set("T", t)
  \/ phase = 16 /\ cur.tau = << >> /\ phase' = 16 /\ \E t0 \in {0, -2, 3} :
        (t0 # 0 => ~Tdec({cur.gs[i] : i \in 1..Len(cur.gs)})) /\ cfg' = [cfg EXCEPT !.cur.tau = << t0 >>]
  \/ phase = 16 /\ cur.tau # << >> /\ Len(cur.tau) < cfg.T /\ phase' = 16 /\ \E g \in 1..2 :
        (g = 2 => /\ cfg.init = "given" \/ (cur.gs = << 1 >>)
                  /\ cfg.trials > 0 => \A i \in 1..Len(cur.gs) : cur.gs[i] # 4   \* a bag of equal parity does not identify +-i
                  /\ Tdec({cur.gs[i] : i \in 1..Len(cur.gs)}) => cur.tau[Len(cur.tau)] + 2 + (cfg.T - Len(cur.tau) - 1) <= 11) /\
        cfg' = [cfg EXCEPT !.cur.tau = Append(@, cur.tau[Len(cur.tau)] + g)]
  \/ phase = 16 /\ Len(cur.tau) = cfg.T /\ \E a \in {-1, 0, 1, 4}, b \in 1..4, k \in 1..4 :
        LET l == cur.tau[Len(cur.tau)]
            q == [i \in 1..k |-> IF a = 4 THEN l - 3 + i*b ELSE a + (i-1)*b] IN
        /\ q[k] <= IF Tdec({cur.gs[i] : i \in 1..Len(cur.gs)}) THEN 12 ELSE 30
        /\ cfg' = [cfg EXCEPT !.fits = Append(@, [cur EXCEPT !.q = q]), !.cur = Blank]
        /\ phase' = IF Len(cfg.fits) + 1 = cfg.nf THEN 17 ELSE 14
  \/ phase = 17 /\ phase' = 100 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<< cfg, phase >>
=============================================================================
