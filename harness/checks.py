"""Which checks decide which property."""
import checks_life
from checks_table import table

CHECKS = {p: [checks_life.life] for p in checks_life.FOCUS}
CHECKS["P01"] += [checks_life.findings]
CHECKS["P07"] = [table("Rank", "rank", 2000, 30000, depth=40,
                       invariants=["TypeOk", "Mono"])]
CHECKS["P10"] += [table("HankelRec", "hankelrec", 400, 6000,
                        invariants=["Covered", "FoldExact"])]
CHECKS["P11"] = [table("MrTree", "mrtree", 1800, 20000, depth=60,
                       invariants=["OnceOnly", "Complete", "Tiles", "WinSound"])]
CHECKS["P12"] = [table("Control", "control", 240, 3000, depth=60,
                       invariants=["Super"])]
CHECKS["P13"] = [table("Cont", "cont", 900, 9000, depth=80,
                       invariants=["Consistent", "Increasing"])]
CHECKS["P14"] = [table("Param", "param", 400, 5000, depth=60,
                       invariants=["Interpolates", "RejectKeeps"])]
CHECKS["P15"] = [table("Prep", "prep", 550, 8000, depth=80,
                       invariants=["SpectrumKept", "Sane"]),
                 table("Control", "controlw", 60, 1000, depth=60,
                       invariants=["Super"], label="ControlWrapped")]
CHECKS["P18"] = [table("Pi", "pi", 700, 10000, depth=20,
                       invariants=["SelfTest", "Detects"])]
CHECKS["P21"] = [table("BestFit", "bestfit", 3000, 40000, depth=40,
                       invariants=["Built", "Self"])]
CHECKS["P16"] = [table("Costs", "costs", 330, 3500, depth=30, invariants=["Tiles"])]
CHECKS["P17"] = [table("MrCosts", "mrcosts", 300, 3000, depth=30, invariants=["Tiles"])]
CHECKS["P20"] = [table("Lando", "lando", 400, 5000, depth=30, invariants=["TaylorOk"])]
CHECKS["P19"] = [table("Havok", "havok", 800, 10000, depth=40,
                       invariants=["RoundTrip", "Covered", "Quantile"])]
