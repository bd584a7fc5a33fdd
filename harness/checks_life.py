"""Checks decided by spec/DmdLife (life cycle of estimator objects)."""
import collections

import lifegen
import vf
from lifegen import ALL, ALLOPT, HANK, LIN

# what a check explores: (label, action kinds, classes, options, depth, handles,
#                         behaviours quick, behaviours thorough)
FOCUS = {
    "P01": [
        ("fit", {"fit", "pred"}, LIN, ALLOPT, 1, 2, 900, 9000),
        ("fitd", {"fit", "pred"}, HANK, ALLOPT, 1, 2, 300, 3000),
        ("forecast", {"fit", "time", "pred", "clock"}, LIN | HANK,
         {"exact", "opt", "resc", "y", "tlsq"}, 3, 2, 500, 5000),
    ],
    "P02": [
        ("win", {"fit", "time", "clock"}, LIN, {"exact", "opt", "resc", "sort"},
         4, 2, 600, 6000),
        ("wind", {"fit", "time", "clock", "copy"}, HANK, {"exact", "opt"}, 4, 2,
         350, 4000),
        ("mix", {"fit", "time", "clock", "mask", "copy", "read", "item"},
         LIN | HANK, {"opt"}, 6, 2, 350, 5000),
    ],
    "P03": [
        ("mask", {"fit", "mask", "item", "bad"}, LIN, {"exact", "opt", "sort"},
         5, 3, 700, 7000),
        ("maskd", {"fit", "mask", "copy"}, HANK, {"opt"}, 4, 2, 200, 2000),
        ("mix", {"fit", "mask", "item", "copy", "time", "clock", "read", "stab", "sel"},
         LIN | HANK, {"opt", "resc"}, 6, 3, 400, 5000),
    ],
    "P04": [
        ("tune", {"fit", "stab", "sel", "isel"}, LIN, {"exact", "opt", "sort"},
         3, 2, 700, 7000),
        ("mix", {"fit", "stab", "sel", "isel", "mask", "time", "copy"},
         LIN, {"opt", "resc"}, 5, 2, 500, 6000),
        ("seld", {"fit", "sel", "mask", "time"}, HANK, {"opt"}, 4, 2, 200, 2000),
    ],
    "P05": [
        ("refit", {"fit"}, LIN | HANK, ALLOPT, 3, 1, 500, 5000),
        ("mix", {"fit", "mask", "time", "clock", "sel", "stab", "read", "bad"},
         LIN, {"exact", "opt", "resc", "sort", "y", "form"}, 5, 1, 500, 6000),
        ("mixd", {"fit", "mask", "time", "clock", "sel", "read"}, HANK,
         {"exact", "opt", "form"}, 5, 1, 250, 3000),
    ],
    "P06": [
        ("form", {"fit", "bad"}, LIN, {"form", "y", "exact", "opt"}, 2, 1, 800,
         6000),
        ("formd", {"fit", "bad"}, HANK, {"form", "opt"}, 2, 1, 300, 3000),
    ],
    "P08": [
        ("copy", {"fit", "copy", "mask", "time", "clock", "stab", "sel"},
         LIN, {"exact", "opt", "sort"}, 5, 3, 700, 7000),
        ("copyd", {"fit", "copy", "mask", "time", "clock", "sel"}, HANK,
         {"opt"}, 5, 3, 300, 3000),
        ("mix", {"fit", "copy", "item", "mask", "read", "new", "time"},
         LIN | HANK, {"opt", "form", "y"}, 6, 3, 300, 4000),
    ],
    "P09": [
        ("order", {"fit"}, LIN | HANK, {"exact", "opt", "sort", "resc"}, 1, 1,
         700, 7000),
        ("mix", {"fit", "clock", "mask", "stab", "item", "read"}, LIN,
         {"sort", "exact", "opt"}, 4, 2, 500, 6000),
    ],
    "P10": [
        ("delay", {"fit", "time", "clock"}, HANK, ALLOPT, 3, 1, 700, 8000),
        ("mix", {"fit", "mask", "time", "clock", "copy", "sel", "read", "bad"},
         HANK, ALLOPT, 5, 2, 500, 6000),
    ],
    "P22": [
        ("read", {"fit", "read", "mask", "time", "clock", "stab", "sel"},
         LIN, {"exact", "opt", "resc", "y"}, 6, 2, 600, 6000),
        ("readd", {"fit", "read", "mask", "time", "clock", "sel", "copy"},
         HANK, {"exact", "opt"}, 6, 2, 250, 3000),
        ("pred", {"fit", "read", "pred", "item", "copy"}, LIN, {"opt"}, 5, 2,
         250, 2500),
    ],
}


def life(ck, prop):
    cnt, cls = collections.Counter(), collections.Counter()
    groups = [
        dict(kinds=kinds, classes=classes, opts=opts, depth=depth, nh=nh,
             num=nt if ck.tier == "thorough" else nq, seed=int(prop[1:]) * 10 + i)
        for i, (_, kinds, classes, opts, depth, nh, nq, nt)
        in enumerate(FOCUS[prop])
    ]
    cases, res = lifegen.gen(groups)
    for r in res:
        ck.add_spec(r)
    for b in cases:
        cls[b["cfg"]["cls"]] += 1
        cnt.update(a["k"] for a in b["acts"])
    traces = vf.drive("life", cases)
    ck.judge("LifeTrace", traces, lifegen.TCONSTS, driver="life", cases=cases)
    ck.extra["actions_replayed"] = dict(cnt)
    ck.extra["behaviours_per_class"] = dict(cls)
    for g in groups:
        for k in g["kinds"]:
            if not cnt[k]:
                raise vf.ToolError("vacuous: no %s action was generated" % k)


CFG0 = dict(cls="DMD", rk=2, exact=False, optk="F", j=0, resc="none", fb=False,
            sort="no", tik="none", tlsq=0, d=1, rm="first", form="nd", y=False)
# inputs on which the pinned library is wrong and which cannot be repaired
# without editing its tests (known_findings.jsonl): kept so that a repair, or a
# different failure on the same input, is noticed
FINDINGS = [
    (dict(fb=True), 14), (dict(cls="FbDMD"), 14), (dict(cls="RDMD", fb=True), 14),
    (dict(optk="T"), 14), (dict(optk="T", cls="HankelDMD", d=2), 34),
]


def findings(ck, prop):
    groups = [dict(kinds={"fit"}, classes={"DMD"}, opts=set(), depth=1, nh=1,
                   num=4, seed=0)]
    _, res = lifegen.gen(groups)
    data = {str(x["id"]): x["rows"] for x in res[0].json("DATA")}
    cases = [dict(cfg=dict(CFG0, **c), data={str(ds): data[str(ds)]},
                  acts=[dict(k="fit", o=1, ds=ds, y=False, look="all")])
             for c, ds in FINDINGS]
    traces = vf.drive("life", cases)
    ck.judge("LifeTrace", traces, lifegen.TCONSTS, driver="life", cases=cases)
