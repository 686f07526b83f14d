------------------------------ MODULE KeysGen -------------------------------
(***************************************************************************)
(* Draws histories of key generations for C21 (and C15): one history is    *)
(* the life of a parameter set, with a few key generators.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfgs == ndJsonDeserialize(IOEnv.CFGS)
Pr == ndJsonDeserialize(IOEnv.PROF)[1]
VARIABLES c, ops, sks, crs, act
vars == <<c, ops, sks, crs, act>>

R(S) == RandomElement(S)
Names == {"a", "bob", "0x", "", "user 1"}
Half == 2 ^ (c.logn - 1)
Emit(o) == ops' = Append(ops, o)
Gen == R(1..2)                          \* one of two key generators

Sk == /\ act = "sk"
      /\ Emit([op |-> "sk", g |-> Gen, id |-> R(Names), how |-> R({"std", "std", "pair", "distrib", "sparse", "psparse", "gauss"}),
               p |-> R({1, 5, 9}), hw |-> R(0..2 ^ c.logn)])
      /\ sks' = sks + 1 /\ UNCHANGED crs
Pk == act = "pk" /\ sks > 0 /\ Emit([op |-> "pk", g |-> Gen, sk |-> R(1..sks)]) /\ UNCHANGED <<sks, crs>>
Rlk == act = "rlk" /\ sks > 0 /\ Emit([op |-> "rlk", g |-> Gen, sk |-> R(1..sks), r |-> R(1..sks)]) /\ UNCHANGED <<sks, crs>>
Cjk == act = "cjk" /\ sks > 0 /\ Emit([op |-> "cjk", g |-> Gen, sk |-> R(1..sks)]) /\ UNCHANGED <<sks, crs>>
Swk == act = "swk" /\ sks > 0 /\ Emit([op |-> "swk", g |-> Gen, sk |-> R(1..sks), bfv |-> c.nm > 0 /\ R(1..4) > 1]) /\ UNCHANGED <<sks, crs>>
Amt(z) == IF z <= 5 THEN R(crs) ELSE IF z <= 7 THEN R(crs) - (Half * R(1..3)) ELSE IF z = 8 THEN R((-Half)..(-1)) ELSE R(1..(2 * Half))
Rot == /\ act = "rot" /\ sks > 0
       /\ Emit([op |-> "rot", g |-> Gen, sk |-> R(1..sks),
                arg |-> CHOOSE x \in {IF a <= 0 /\ a % Half = 0 THEN 1 ELSE a : a \in {Amt(R(1..10))}} : TRUE])
       /\ UNCHANGED <<sks, crs>>
Def == act = "def" /\ sks > 0 /\ Emit([op |-> "def", g |-> Gen, sk |-> R(1..sks)]) /\ UNCHANGED <<sks, crs>>
\* a common reference for one more amount (not for one that has one: that would make older keys useless)
Crs == /\ act = "crs"
       /\ \E k \in {R(IF R(1..4) = 1 THEN (Half + 1)..(2 * Half) ELSE 1..(Half - 1))} :       \* \E, not LET: drawn once
          IF k \in crs THEN UNCHANGED <<ops, crs>> ELSE Emit([op |-> "crs", idx |-> k]) /\ crs' = crs \cup {k}
       /\ UNCHANGED sks

Init == c = Cfgs[1] /\ ops = <<>> /\ sks = 0 /\ crs = {} /\ act = "none"
Acts == IF Pr.secrets THEN <<"sk">> ELSE <<"sk", "sk", "pk", "pk", "rlk", "rlk", "cjk", "cjk", "rot", "rot", "rot", "rot", "swk", "swk", "crs", "def">>
Start == /\ act = "none" /\ c' = Cfgs[R(DOMAIN Cfgs)] /\ crs' = {2 ^ j : j \in 0..(c'.logn - 2)} /\ act' = "sk" /\ UNCHANGED <<ops, sks>>
Choose == /\ act = "next" /\ UNCHANGED <<c, ops, sks, crs>>
          /\ act' = IF Len(ops) >= Pr.len THEN "end" ELSE Acts[R(DOMAIN Acts)]
Do == act \notin {"none", "next", "end", "stop"} /\ (Sk \/ Pk \/ Rlk \/ Cjk \/ Swk \/ Rot \/ Def \/ Crs) /\ act' = "next" /\ UNCHANGED c
End == act = "end" /\ act' = "stop" /\ PrintT("HIST " \o ToJson([cfg |-> c.name, ops |-> ops])) /\ UNCHANGED <<c, ops, sks, crs>>
Next == Start \/ Choose \/ Do \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
