"""Writes spec/<M>Trace.tla for the single-observation specifications: the
module provides Verdict(c, o); a trace is one record {c, o}."""
import os, sys
T = '''---- MODULE %(m)sTrace ----
(* Recorded executions against %(m)s (generated by tools/mktrace.py). *)
EXTENDS %(m)s, Json, TLCExt
CONSTANT TRACEFILE
VARIABLES tr, l, bad
Traces == ndJsonDeserialize(TRACEFILE)
TInit == tr \\in 1..Len(Traces) /\\ l = 0 /\\ bad = "" /\\ cfg = Traces[tr].c /\\ phase = 99
TNext == /\\ bad = "" /\\ l < Len(Traces[tr].o)
         /\\ LET v == Verdict(Traces[tr].c, Traces[tr].o[l+1]) IN
            /\\ bad' = v /\\ l' = l + 1
            /\\ (v # "" => PrintT("FAIL " \\o ToJson([tr |-> tr, step |-> l+1, clause |-> v])))
         /\\ UNCHANGED << tr, cfg, phase >>
TSpec == TInit /\\ [][TNext]_<< cfg, phase, tr, l, bad >>
RECURSIVE TotLen(_)
TotLen(i) == IF i = 0 THEN 0 ELSE 1 + Len(Traces[i].o) + TotLen(i-1)
Consumed == PrintT("CONSUMED " \\o ToString(TLCGet("stats").distinct) \\o " " \\o ToString(TotLen(Len(Traces))))
====
'''
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for m in sys.argv[1:]:
    open(os.path.join(root, "spec", m + "Trace.tla"), "w").write(T % dict(m=m))
