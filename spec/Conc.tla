-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Threads with a context each, sharing keys and ciphertexts: the memory a *)
(* call touches, at the granularity of one object per step.                *)
(*                                                                         *)
(* A call (a relinearized product, the call with the most scratch space)   *)
(* of a thread reads the operands component by component into scratch      *)
(* space of its own (hoisted form of every party's component), combines    *)
(* scratch and keys into an accumulator of the context, and writes the     *)
(* result.  Owner says to whom the scratch space belongs: "context" (the   *)
(* library) or "registry" (as the library did before: one pool per key     *)
(* registry, shared by all threads that use it).                           *)
(*                                                                         *)
(* Locations: <<"in", p>> shared operand component (read only),            *)
(* <<"key", p>> shared key, <<"pool", o, p>> scratch of owner o,           *)
(* <<"acc", t>> accumulator, <<"out", t>> result.                          *)
(* NoRace: no reachable state has two threads about to access the same     *)
(* location, one of them writing (there is no synchronisation, so any two  *)
(* accesses of different threads are unordered: checked over the whole     *)
(* history).  Alone: every finished call has the result it has alone.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Parties, Owner

VARIABLES pc,       \* thread -> [step, todo]
          mem,      \* location -> value
          hist      \* set of accesses made: [t, loc, w]
vars == <<pc, mem, hist>>

\* each thread works on an operand of its own choosing: two shared ciphertexts
Operand(t) == CHOOSE n \in 1..Cardinality(Threads) : \E f \in [1..Cardinality(Threads) -> Threads] : f[n] = t /\ \A i, j \in DOMAIN f : f[i] = f[j] => i = j
Pool(t, p) == <<"pool", IF Owner = "context" THEN t ELSE "registry", p>>
PoolLocs == {Pool(t, p) : t \in Threads, p \in Parties}

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

Init == /\ pc = [t \in Threads |-> [step |-> "hoist", todo |-> Parties]]
        /\ mem = [l \in PoolLocs \cup {<<"acc", t>> : t \in Threads} \cup {<<"out", t>> : t \in Threads} |-> 0]
        /\ hist = {}

Acc(t, S, w) == {[t |-> t, loc |-> l, w |-> w] : l \in S}
\* the value of a component: depends on the ciphertext the thread works on, and the party
InVal(t, p) == IF \E q \in Threads : q # t THEN 10 * Operand(t) ELSE 10

Hoist(t) == /\ pc[t].step = "hoist" /\ pc[t].todo # {}
            /\ \E p \in pc[t].todo :
                 /\ mem' = [mem EXCEPT ![Pool(t, p)] = InVal(t, p)]
                 /\ hist' = hist \cup Acc(t, {<<"in", p>>}, FALSE) \cup Acc(t, {Pool(t, p)}, TRUE)
                 /\ pc' = [pc EXCEPT ![t].todo = @ \ {p}]
Turn(t) == /\ pc[t].step = "hoist" /\ pc[t].todo = {}
           /\ mem' = [mem EXCEPT ![<<"acc", t>>] = 0]
           /\ hist' = hist \cup Acc(t, {<<"acc", t>>}, TRUE)
           /\ pc' = [pc EXCEPT ![t] = [step |-> "combine", todo |-> Parties]]
Combine(t) == /\ pc[t].step = "combine" /\ pc[t].todo # {}
              /\ \E p \in pc[t].todo :
                   /\ mem' = [mem EXCEPT ![<<"acc", t>>] = @ + mem[Pool(t, p)]]
                   /\ hist' = hist \cup Acc(t, {Pool(t, p), <<"key", p>>}, FALSE) \cup Acc(t, {<<"acc", t>>}, TRUE)
                   /\ pc' = [pc EXCEPT ![t].todo = @ \ {p}]
Finish(t) == /\ pc[t].step = "combine" /\ pc[t].todo = {}
             /\ mem' = [mem EXCEPT ![<<"out", t>>] = mem[<<"acc", t>>]]
             /\ hist' = hist \cup Acc(t, {<<"acc", t>>}, FALSE) \cup Acc(t, {<<"out", t>>}, TRUE)
             /\ pc' = [pc EXCEPT ![t] = [step |-> "done", todo |-> {}]]
Next == \E t \in Threads : Hoist(t) \/ Turn(t) \/ Combine(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars

NoRace == \A a, b \in hist : (a.t # b.t /\ a.loc = b.loc) => ~a.w /\ ~b.w
Alone == \A t \in Threads : pc[t].step = "done" =>
           mem[<<"out", t>>] = Sum([p \in Parties |-> InVal(t, p)], Parties)
=============================================================================
