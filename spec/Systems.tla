------------------------------ MODULE Systems ------------------------------
(***************************************************************************)
(* The abstract linear systems.  A data set is the exact trajectory        *)
(*      x(t) = SUM_k  c_k * lam_k^t ,      t = 0 .. T-1                    *)
(* of a diagonalisable linear system with distinct non-zero eigenvalues.   *)
(*   lam : eigenvalue,  mu : square root on the principal branch (or << >>)*)
(*   m   : log2 |lam|  (NOMOD when |lam| is not a power of two)            *)
(*   c   : contribution of the mode (mode vector times amplitude): this is *)
(*         what does not depend on how an implementation scales its modes. *)
(***************************************************************************)
EXTENDS Num
NOMOD == 99
M(lam, mu, m, c) == [lam |-> lam, mu |-> mu, m |-> m, c |-> c]

one(c)   == M(GI(1,0),  GI(1,0),  0, c)
neg(c)   == M(GI(-1,0), << >>,    0, c)
four(c)  == M(GI(4,0),  GI(2,0),  2, c)
two(c)   == M(GI(2,0),  << >>,    1, c)
half(c)  == M(<<1,0,1>>, << >>,  -1, c)
nhalf(c) == M(<<-1,0,1>>, << >>, -1, c)
quar(c)  == M(<<1,0,2>>, <<1,0,1>>, -2, c)
im(c)    == M(GI(0,1),  << >>,    0, c)
mim(c)   == M(GI(0,-1), << >>,    0, c)
im2(c)   == M(GI(0,2),  GI(1,1),  1, c)
mim2(c)  == M(GI(0,-2), GI(1,-1), 1, c)
imh(c)   == M(<<0,1,1>>,  <<1,1,1>>,  -1, c)
mimh(c)  == M(<<0,-1,1>>, <<1,-1,1>>, -1, c)
opi(c)   == M(GI(1,1),  << >>, NOMOD, c)
omi(c)   == M(GI(1,-1), << >>, NOMOD, c)
ohpi(c)  == M(<<1,1,1>>, << >>, NOMOD, c)
ohmi(c)  == M(<<1,-1,1>>, << >>, NOMOD, c)

R(s) == TLCEval([i \in 1..Len(s) |-> GI(s[i], 0)])
C(re, imv) == TLCEval([i \in 1..Len(re) |-> GI(re[i], imv[i])])
CC(re, imv) == TLCEval([i \in 1..Len(re) |-> GI(re[i], -imv[i])])

D(id, n, T, ms) == [id |-> id, n |-> n, T |-> T, ms |-> ms]

\* rank 3
D1 == D(1, 3, 7, << one(R(<<1,0,1>>)), quar(R(<<0,2,-1>>)), four(R(<<1,1,0>>)) >>)
D2 == D(2, 3, 9, << im(C(<<1,1,0>>,<<1,0,0>>)), mim(CC(<<1,1,0>>,<<1,0,0>>)), half(R(<<0,1,2>>)) >>)
D3 == D(3, 3, 8, << neg(R(<<1,2,0>>)), half(R(<<3,-1,1>>)), two(R(<<0,1,1>>)) >>)
D4 == D(4, 4, 8, << opi(C(<<1,0,2,1>>,<<0,1,0,-1>>)), omi(CC(<<1,0,2,1>>,<<0,1,0,-1>>)), one(R(<<2,1,0,-1>>)) >>)
D5 == D(5, 4, 9, << one(R(<<1,-1,2,0>>)), neg(R(<<0,1,1,1>>)), quar(R(<<2,0,-2,1>>)) >>)
D6 == D(6, 3, 8, << im2(C(<<1,0,1>>,<<1,1,0>>)), quar(C(<<0,2,1>>,<<1,0,0>>)), one(C(<<1,1,0>>,<<0,0,-1>>)) >>)
D7 == D(7, 4, 9, << imh(C(<<2,1,0,1>>,<<0,1,1,0>>)), mimh(CC(<<2,1,0,1>>,<<0,1,1,0>>)), two(R(<<0,1,0,1>>)) >>)
\* larger: more sensors than snapshots, and a long record
Pat(n, a, b, k) == [i \in 1..n |-> GI(((i*a + b) % k) - 1, 0)]
PatC(n, a, b, k) == [i \in 1..n |-> GI(((i*a + b) % k) - 1, ((i*b + a) % 3) - 1)]
PatCC(n, a, b, k) == [i \in 1..n |-> GConj(PatC(n, a, b, k)[i])]
D8 == D(8, 16, 7, << im(PatC(16,3,1,4)), mim(PatCC(16,3,1,4)), two(Pat(16,2,1,5)) >>)
D9 == D(9, 3, 26, << im(C(<<1,0,2>>,<<0,1,1>>)), mim(CC(<<1,0,2>>,<<0,1,1>>)), one(R(<<1,1,0>>)) >>)
\* rank 2
D11 == D(11, 4, 8, << im2(C(<<1,0,1,0>>,<<0,1,1,0>>)), mim2(CC(<<1,0,1,0>>,<<0,1,1,0>>)) >>)
D12 == D(12, 2, 7, << im2(C(<<1,2>>,<<1,0>>)), quar(C(<<0,1>>,<<1,-1>>)) >>)
D13 == D(13, 3, 7, << four(R(<<1,0,1>>)), quar(R(<<1,3,-1>>)) >>)
D14 == D(14, 2, 8, << half(R(<<1,-2>>)), one(R(<<3,1>>)) >>)
D15 == D(15, 4, 9, << neg(R(<<1,1,0,-1>>)), two(R(<<0,1,1,0>>)) >>)
D16 == D(16, 2, 9, << ohpi(C(<<2,1>>,<<0,1>>)), ohmi(CC(<<2,1>>,<<0,1>>)) >>)
\* rank 1
D21 == D(21, 4, 5, << four(R(<<1,-1,0,2>>)) >>)
D22 == D(22, 2, 7, << neg(R(<<2,1>>)) >>)
D23 == D(23, 3, 6, << im2(C(<<1,0,2>>,<<0,1,1>>)) >>)
\* needs delays (fewer sensors than modes)
D31 == D(31, 1, 10, << one(R(<<1>>)), neg(R(<<2>>)), half(R(<<4>>)) >>)
D32 == D(32, 1, 12, << im(C(<<1>>,<<1>>)), mim(CC(<<1>>,<<1>>)), two(R(<<1>>)) >>)
D33 == D(33, 2, 10, << im(C(<<1,0>>,<<0,1>>)), mim(CC(<<1,0>>,<<0,1>>)), half(R(<<2,1>>)) >>)
D34 == D(34, 1, 9, << four(R(<<1>>)), one(R(<<3>>)) >>)
D35 == D(35, 2, 8, << quar(R(<<4,1>>)), four(R(<<1,-1>>)) >>)
D36 == D(36, 2, 11, << imh(C(<<4,0>>,<<0,2>>)), im2(C(<<0,1>>,<<1,0>>)), one(C(<<2,1>>,<<1,1>>)) >>)

AllDS == << D1,D2,D3,D4,D5,D6,D7,D8,D9,D11,D12,D13,D14,D15,D16,D21,D22,D23,D31,D32,D33,D34,D35,D36 >>
DSet == {AllDS[i] : i \in 1..Len(AllDS)}
ById(i) == CHOOSE d \in DSet : d.id = i
Rk(d) == Len(d.ms)
RealData(d) == d.id \notin {6, 12, 23, 36}
HalfOk(d) == \A k \in 1..Rk(d) : d.ms[k].mu # << >>
ModOk(d)  == \A k \in 1..Rk(d) : d.ms[k].m # NOMOD
\* the forward-backward operator is a principal matrix square root: it can only
\* represent eigenvalues in the open right half plane
FbOk(d) == \A k \in 1..Rk(d) : d.ms[k].lam[1] > 0

IntData(d) == d.id \in {4, 9, 15, 21, 22}
\* eighths of a turn of the argument (the argument of -1 is +4 or -4)
K8(g) == CASE g[2] = 0 -> IF g[1] > 0 THEN 0 ELSE 4
           [] g[1] = 0 -> IF g[2] > 0 THEN 2 ELSE -2
           [] g[1] > 0 /\ g[2] = g[1] -> 1
           [] g[1] > 0 /\ g[2] = -g[1] -> -1

\* value of one mode [lam, mu, c] at component s, half-step h after its reference
PowH(md, h) == IF h % 2 = 0 THEN GPow(md.lam, h \div 2) ELSE GPow(md.mu, h)
ValAt(md, s, h) == GMul(md.c[s], PowH(md, h))

\* exact snapshot matrix, row per sensor, for t = 0 .. T-1
RECURSIVE GSum(_)
GSum(s) == IF s = << >> THEN GZero ELSE GAdd(Head(s), GSum(Tail(s)))
Snap(d) == TLCEval([s \in 1..d.n |-> TLCEval([t \in 1..d.T |->
              GSum([k \in 1..Rk(d) |-> ValAt(d.ms[k], s, 2*(t-1))])])])
\* the same trajectory continued past the data
SnapX(d, T) == [s \in 1..d.n |-> [t \in 1..T |->
              GSum([k \in 1..Rk(d) |-> ValAt(d.ms[k], s, 2*(t-1))])]]
=============================================================================
