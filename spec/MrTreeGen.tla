---------------------------- MODULE MrTreeGen ----------------------------
EXTENDS MrTree, Json
Emit == (phase = 100) => PrintT("BEH " \o ToJson(cfg))
=============================================================================
