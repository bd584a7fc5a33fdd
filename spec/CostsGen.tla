---------------------------- MODULE CostsGen ----------------------------
EXTENDS Costs, Json
Emit == (phase = 100) => PrintT("BEH " \o ToJson(cfg))
=============================================================================
