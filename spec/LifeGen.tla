------------------------------ MODULE LifeGen ------------------------------
(* Behaviour generation: every behaviour of DmdLife that reaches DEPTH is    *)
(* printed as one JSON line for replay.                                      *)
EXTENDS DmdLife, Json
ASSUME \A i \in 1..Len(AllDS) :
  PrintT("DATA " \o ToJson([id |-> AllDS[i].id, rows |-> Snap(AllDS[i])]))
Emit == (phase = 100) =>
           PrintT("BEH " \o ToJson([cfg |-> st.cfg, acts |-> hist]))

\* ---- properties of the specification itself, checked while exploring
\* with every mode active and nothing tuned the reconstruction IS the data
DataRecovered == phase = 100 =>
  \A i \in FitObj(st) :
    LET o == st.objs[i] d == ById(o.ds) S == Snap(d) IN
    (~o.st /\ \A k \in 1..NModes(o) : o.ms[k].on) =>
       \A s \in 1..o.n : \A t \in 1..o.T :
          LET x == FX(S[s][t])
              y == FSum([k \in 1..NModes(o) |-> FX(ValAt(o.ms[k], s, 2*(t-1) - 2*o.j))])
          IN Near(x[1], y[1]) /\ Near(x[2], y[2])
\* active and inactive modes partition the trajectory
Partition == phase = 100 =>
  \A i \in FitObj(st) :
    LET o == st.objs[i]
        inv == [o EXCEPT !.ms = [k \in 1..NModes(o) |-> [o.ms[k] EXCEPT !.on = ~@]]]
        all == [o EXCEPT !.ms = [k \in 1..NModes(o) |-> [o.ms[k] EXCEPT !.on = TRUE]]]
        A == RecOf(o) B == RecOf(inv) F == RecOf(all)
    IN \A s \in 1..o.n : \A t \in 1..WinLen(o.win) :
         NearC(F[s][t], FAdd(A[s][t], B[s][t]))
\* eigenvalues stay distinct, so that observations identify modes
TypeOk == phase = 100 =>
  \A i \in FitObj(st) : LET o == st.objs[i] IN
      /\ Len(StepsOf(o)) = WinLen(o.win)
      /\ NModes(o) = Rk(ById(o.ds))
\* an action touches only its own handle and its destination
Vis(o) == IF o.fit THEN << o.ms, o.win, o.ot0, o.odt, o.ds >> ELSE << >>
Frame == [][ (phase = 99 /\ phase' = 99) => \A i \in 1..NH :
              LET a == hist'[Len(hist')] IN
              (Vis(st'.objs[i]) # Vis(st.objs[i]) =>
                 \/ i = a.o /\ a.k \notin {"copy", "read", "bad", "item"}
                 \/ "d" \in DOMAIN a /\ i = a.d) ]_vars
=============================================================================
