---------------------------- MODULE HankelRecGen ----------------------------
EXTENDS HankelRec, Json
Emit == (phase = 100) => PrintT("BEH " \o ToJson(cfg))
=============================================================================
