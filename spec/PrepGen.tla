---------------------------- MODULE PrepGen ----------------------------
EXTENDS Prep, Json
Data(d) == LET ms == Ms(d) IN [x \in 1..d.n |-> [t \in 1..d.T |-> Val(ms, x, t-1)]]
Emit == (phase = 100) => PrintT("BEH " \o ToJson([X |-> [i \in 1..2 |-> Data(cfg.ds[i])]] @@ cfg))
=============================================================================
