---------------------------- MODULE MrCostsGen ----------------------------
EXTENDS MrCosts, Json
Emit == (phase = 100) => PrintT("BEH " \o ToJson(cfg))
=============================================================================
