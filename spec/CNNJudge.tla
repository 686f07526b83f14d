------------------------------ MODULE CNNJudge ------------------------------
(* Judges recorded evaluations of the network's layers (C19). *)
EXTENDS CNN
Cfgs == ndJsonDeserialize(IOEnv.CFGS)
Cases == ndJsonDeserialize(IOEnv.CASES)
CfgNamed(n) == Cfgs[CHOOSE i \in DOMAIN Cfgs : Cfgs[i].name = n]

\* beyond this the result is not determined after rounding
Determined(c, v) == VMaxAbs(c, v) < c.vmax
\* and within it the slots are close to integers (in billionths): one layer leaves 10^-5 and less, the whole
\* network more, where large intermediate values cancel
Close(x) == x.nano < (IF x.layer = "net" THEN 50000000 ELSE 100000)
Right(x) ==
  LET c == CfgNamed(x.cfg)  want == Result(c, x) IN
  IF ~Determined(c, want) THEN "skipped"
  ELSE IF /\ x.res = "ok" /\ x.frame = <<>> /\ Close(x)
          /\ \A i \in DOMAIN x.outs : x.outs[i] = want /\ Range(x.ids[i]) = Parties(x)
          /\ Len(x.outs) = (IF x.again THEN 2 ELSE 1)
  THEN "right" ELSE "wrong"

VARIABLES case, verdict
Init == case \in DOMAIN Cases /\ verdict = "none"
Judge == /\ verdict = "none"
         /\ verdict' = Right(Cases[case])
         /\ PrintT("VERDICT " \o ToJson(<<Cases[case].num, verdict'>>))
         /\ UNCHANGED case
Next == Judge
Spec == Init /\ [][Next]_<<case, verdict>>
=============================================================================
