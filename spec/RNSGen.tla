------------------------------- MODULE RNSGen -------------------------------
(***************************************************************************)
(* Enumerates the calls to make for C17: every operation, every pair of    *)
(* levels, every block and every style of operand, for each set of primes. *)
(* CFGS: the prime sets [name, nq, np, nm, tiny]; REPS: repetitions.       *)
(* Styles: see harness/rns.  The driver draws the operands.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfgs == ndJsonDeserialize(IOEnv.CFGS)
Pr == ndJsonDeserialize(IOEnv.PROF)[1]
VARIABLES x, done

Up == {"edge", "rand", "max", "zero", "one"}
Lev(c) == 0..(c.nq - 1)
LevP(c) == 0..(c.np - 1)
Of(c) ==
  LET Case(op, lq, lp, alpha, blk, style, how) ==
        [cfg |-> c.name, op |-> op, lq |-> lq, lp |-> lp, alpha |-> alpha, blk |-> blk, style |-> style, how |-> how]
      few == {"edge", "rand"}
  IN {Case(op, lq, lp, 1, 0, st, how) : op \in {"upQP", "upPQ"}, lq \in Lev(c), lp \in LevP(c), st \in Up, how \in {"plain"}}
     \cup {Case(op, lq, lp, 1, 0, st, how) : op \in {"downQ", "downQntt", "downP"}, lq \in Lev(c), lp \in LevP(c), st \in Up, how \in {"plain"}}
     \cup {Case(op, lq, lp, 1, 0, "edge", how) : op \in {"upQP", "upPQ", "downQ", "downQntt", "downP"}, lq \in {0, c.nq - 1}, lp \in {0, c.np - 1},
                                                  how \in {"shallow", "alias"}}
     \* decomposition: the width follows from the number of special primes
     \cup UNION {{Case("decomp", lq, lp, (lp + 1) \div 2, b, st, "split") :
                    b \in 0..((lq \div ((lp + 1) \div 2))), st \in {"edge", "max", "zero", "unred"}} : lq \in Lev(c), lp \in 1..(c.np - 1)}
     \* the whole decomposition of a key switcher, and external products
     \cup (IF c.np < 2 THEN {} ELSE
           LET al == c.np \div 2 IN
           UNION {{Case("decomp", lq, c.np - 1, al, b, st, how) : b \in 0..(lq \div al), st \in {"edge", "unred"}, how \in {"ks", "ksntt"}} : lq \in Lev(c)}
           \cup {Case("ext", lq, c.np - 1, al, 0, st, how) : lq \in Lev(c), st \in {"dense", "sparse", "one"}, how \in {"ks", "ksntt"}})
     \cup (IF c.nm = 0 THEN {} ELSE
           LET al == c.np \div 2 IN
           {Case(op, c.nq - 1, c.np - 1, al, 0, st, "bfv") : op \in {"upQR", "rescale", "quant"}, st \in Up}
           \cup {Case("decompR", c.nq - 1, c.np - 1, al, b, st, "bfv") : b \in 0..(2 * (c.nq \div al) - 1), st \in few}
           \cup {Case("extR", c.nq - 1, c.np - 1, al, 0, st, "bfv") : st \in {"dense", "sparse", "one"}})

Init == (\E i \in DOMAIN Cfgs : x \in Of(Cfgs[i])) /\ done = FALSE
\* dense external products with large primes are slow to judge: the sparse ones stand for them
Wanted(y) == \A i \in DOMAIN Cfgs : (Cfgs[i].name = y.cfg /\ ~Cfgs[i].tiny /\ y.style = "dense") => Pr.dense
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED x
        /\ (IF Wanted(x) THEN PrintT("CASE " \o ToJson(x)) ELSE TRUE)
Spec == Init /\ [][Next]_<<x, done>>
=============================================================================
