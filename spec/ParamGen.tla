---------------------------- MODULE ParamGen ----------------------------
EXTENDS Param, Json
Exact(d) == [i \in 1..Len(d.mu) |-> [x \in 1..n |-> [t \in 1..d.T |-> Val(d, i, x, t-1)]]]
Emit == (phase = 100) => PrintT("BEH " \o ToJson(
   [X |-> [q \in 1..2 |-> Exact(cfg.ds[q])],
    r |-> [q \in 1..2 |-> [i \in 1..cfg.ntr |-> Cardinality(Lams(cfg.ds[q], i))]],
    ra |-> [q \in 1..2 |-> Cardinality(AllLams(cfg.ds[q]))]] @@ cfg))
=============================================================================
