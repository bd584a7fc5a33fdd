---------------------------- MODULE BestFitGen ----------------------------
EXTENDS BestFit, Json
Emit == (phase = 100) => PrintT("BEH " \o ToJson(cfg))
=============================================================================
