"""Generation of DmdLife behaviours with TLC."""
import json
import vf

ALL = {"new", "fit", "mask", "item", "copy", "time", "clock", "stab", "sel", "isel", "read", "pred", "bad"}
ALLOPT = {"exact", "opt", "resc", "fb", "sort", "tik", "tlsq", "form", "y"}
LIN = {"DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "SpDMD", "EDMD"}
HANK = {"HankelDMD", "HODMD"}


INV = ["Emit", "DataRecovered", "Partition", "TypeOk"]


def gen(groups):
    """Behaviours drawn by TLC's simulator, for every group
    dict(kinds, classes, opts, depth, nh, num, seed); the specification's own
    properties are checked along the way.  Returns (cases, TLC results)."""
    tot = sum(g["num"] for g in groups)
    jobs = []
    for g in groups:
        n = max(1, min(8, round(8.0 * g["num"] / tot)))
        jobs += [(g, i, (g["num"] + n - 1) // n) for i in range(n)]

    def one(job):
        g, i, num = job
        consts = dict(NH=g["nh"], KINDS=set(g["kinds"]), DEPTH=g["depth"],
                      CLASSES=set(g["classes"]), OPTS=set(g["opts"]))
        return vf.run_tlc(
            "LifeGen", consts, spec="Spec", invariants=INV,
            properties=["Frame"], simulate=num, depth=g["depth"] + 16,
            seed=vf.SEED * 100003 + g["seed"] * 1009 + i, workers=1)

    res = vf.pmap(one, jobs)
    data = {str(x["id"]): x["rows"] for x in res[0].json("DATA")}
    cases, seen = [], set()
    for r in res:
        for b in r.json("BEH"):
            k = json.dumps(b, sort_keys=True)
            if k not in seen:
                seen.add(k)
                used = {str(a["ds"]) for a in b["acts"] if a["k"] == "fit"}
                cases.append(dict(b, data={u: data[u] for u in used}))
    return cases, res


TCONSTS = dict(NH=3, KINDS=set(), DEPTH=0, CLASSES=set(), OPTS=set())
