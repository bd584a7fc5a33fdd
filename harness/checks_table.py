"""Checks decided by the single-observation specifications: TLC enumerates or
draws configurations (checking the module's own invariants), the driver runs
the library on each and TLC judges the recorded observation."""
import json

import vf


def gen(module, num, depth, seed, invariants=(), consts=None, split=4,
        exhaustive=False):
    if exhaustive:
        res = [vf.run_tlc(module + "Gen", consts, spec="Spec", workers=4,
                          invariants=["Emit"] + list(invariants))]
    else:
        split = max(1, min(split, num // 50))
        res = vf.pmap(lambda i: vf.run_tlc(
            module + "Gen", consts, spec="Spec",
            invariants=["Emit"] + list(invariants),
            simulate=(num + split - 1) // split, depth=depth,
            seed=vf.SEED * 100003 + seed * 1009 + i), range(split))
    cases, seen = [], set()
    for r in res:
        for b in r.json("BEH"):
            k = json.dumps(b, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cases.append(b)
    return cases, res


def table(module, driver, nq, nt, depth=20, invariants=(), consts=None,
          exhaustive=False, timeout=700, label=None, post=None):
    def run(ck, prop):
        n = nt if ck.tier == "thorough" else nq
        cases, res = gen(module, n, depth, int(prop[1:]), invariants, consts,
                         exhaustive=exhaustive)
        for r in res:
            ck.add_spec(r)
        if not cases:
            raise vf.ToolError("no cases from " + module)
        if post:
            cases = post(cases)
        traces = vf.drive(driver, cases, timeout=timeout)
        ck.judge(module + "Trace", traces, consts, driver=driver, cases=cases)
        ck.extra["cases_" + (label or module)] = len(cases)
    return run
