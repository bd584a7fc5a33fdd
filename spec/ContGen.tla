---------------------------- MODULE ContGen ----------------------------
EXTENDS Cont, Json
Emit == (phase = 100) => PrintT("BEH " \o ToJson(
   [ms |-> [q \in 1..Len(cfg.fits) |-> Ms(cfg.fits[q])]] @@ cfg))
=============================================================================
