---------------------------- MODULE LandoGen ----------------------------
EXTENDS Lando, Json
Emit == (phase = 100) => PrintT("BEH " \o ToJson(cfg))
=============================================================================
