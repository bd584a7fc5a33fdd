---------------------------- MODULE PiGen ----------------------------
EXTENDS Pi, Json
Emit == (phase = 100) => PrintT("BEH " \o ToJson(cfg))
=============================================================================
