---------------------------- MODULE RankGen ----------------------------
EXTENDS Rank, Json
Emit == (phase = 100) => PrintT("BEH " \o ToJson(cfg))
=============================================================================
