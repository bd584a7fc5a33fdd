---------------------------- MODULE HavokGen ----------------------------
EXTENDS Havok, Json
Emit == (phase = 100) => PrintT("BEH " \o ToJson(cfg))
=============================================================================
