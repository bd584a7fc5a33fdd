---------------------------- MODULE ControlGen ----------------------------
EXTENDS Control, Json
Emit == (phase = 100) => PrintT("BEH " \o ToJson(cfg))
=============================================================================
