----------------------------- MODULE CNNDesign ------------------------------
(***************************************************************************)
(* The layers as sequences of operations of MKHE.tla: TLC checks, for all  *)
(* small data and owners drawn, that the composition computes the          *)
(* functions of CNN.tla, involves the right parties and never refuses.     *)
(***************************************************************************)
EXTENDS CNN
Cfgs == ndJsonDeserialize(IOEnv.CFGS)
VARIABLES s, phase, x, out
vars == <<s, phase, x, out>>
R(S) == RandomElement(S)
Party == {"p1", "p2", "p3"}
Vec(c) == TLCEval([i \in 1..c.n |-> <<R(-1..1), 0>>])

RECURSIVE Run(_, _)
Run(st, ops) == IF ops = <<>> THEN st ELSE LET d == Do(st, Head(ops)) IN
                IF d.res # "ok" THEN [st EXCEPT !.clk = -1] ELSE Run(d.s, Tail(ops))
Last(st) == Len(st.ct)
Key(st, k, id) == CHOOSE i \in DOMAIN st.keys : st.keys[i].k = k /\ st.keys[i].id = id
Encrypt(st, id, v) == Run(st, <<[op |-> "enc", pk |-> Key(st, "pk", id), val |-> v]>>)
RECURSIVE EncAll(_, _, _)
EncAll(st, ids, vs) == IF vs = <<>> THEN st ELSE EncAll(Encrypt(st, Head(ids), Head(vs)), Tail(ids), Tail(vs))
FoldOp(st, k) == LET a == Last(st)
                     t == Run(st, <<[op |-> "rot", r |-> 1, a |-> a, k |-> k]>>) IN
                 Run(t, <<[op |-> "add", a |-> a, b |-> Last(t)]>>)
RECURSIVE FoldOps(_, _)
FoldOps(st, ks) == IF ks = <<>> THEN st ELSE FoldOps(FoldOp(st, Head(ks)), Tail(ks))
\* acc = 0: nothing accumulated yet
RECURSIVE InnerOps(_, _, _, _, _, _)
InnerOps(st, v, m1, offs, i, acc) ==
  IF i > Len(offs) THEN st ELSE
  LET h == Run(st, <<[op |-> "hoist", a |-> v]>>)
      r == Run(h, <<[op |-> "roth", r |-> 1, a |-> v, k |-> offs[i], h |-> Len(h.hst)]>>)
      rr == Last(r)
      g == Run(r, <<[op |-> "hoist", a |-> rr], [op |-> "hoist", a |-> m1 + i - 1]>>)
      p == Run(g, <<[op |-> "mulh", r |-> 1, a |-> rr, b |-> m1 + i - 1, ha |-> Len(g.hst) - 1, hb |-> Len(g.hst)]>>)
      pp == Last(p)
      q == IF acc = 0 THEN p ELSE Run(p, <<[op |-> "add", a |-> acc, b |-> pp]>>)
  IN InnerOps(q, v, m1, offs, i + 1, Last(q))

Joined(c, offs) ==
  LET st == Run(Init0(c), [i \in DOMAIN offs |-> [op |-> "addcrs", idx |-> offs[i]]])
      j == Run(st, <<[op |-> "join", id |-> "p1"], [op |-> "join", id |-> "p2"], [op |-> "join", id |-> "p3"]>>)
      gen(id) == [i \in DOMAIN offs |-> [op |-> "genrot", sk |-> Key(j, "sk", id), idx |-> offs[i]]]
      g == Run(j, gen("p1") \o gen("p2") \o gen("p3"))
      n0 == Len(j.keys)
  IN Run(g, [i \in 1..(Len(g.keys) - n0) |-> [op |-> "reg", r |-> 1, key |-> n0 + i]])

Offs(c, ks) == LET S == {Norm(c, k) : k \in ks} \ ({0} \cup {2^j : j \in 0..(c.logn - 2)})
                   RECURSIVE Sq(_)
                   Sq(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE a \in T : TRUE IN <<m>> \o Sq(T \ {m})
               IN Sq(S)

Case(c) ==
  LET layer == R({"conv", "fc1", "fc2"})  nm == R(1..3) IN
  [cfg |-> c.name, layer |-> layer, v |-> Vec(c), pv |-> R(Party),
   ks |-> TLCEval([i \in 1..4 |-> Vec(c)]), pks |-> TLCEval([i \in 1..4 |-> R(Party)]),
   ms |-> TLCEval([i \in 1..nm |-> Vec(c)]), pms |-> TLCEval([i \in 1..nm |-> R(Party)]),
   b1 |-> Vec(c), pb1 |-> R(Party), m2 |-> Vec(c), pm2 |-> R(Party), b2 |-> Vec(c), pb2 |-> R(Party), mask |-> Vec(c)]

Eval(c, y) ==
  CASE y.layer = "conv" ->
         LET t == EncAll(Joined(c, Offs(c, {14, 15})), <<y.pv>> \o y.pks, <<y.v>> \o y.ks) IN
         FoldOps(InnerOps(t, 1, 2, <<0, 1, 14, 15>>, 1, 0), <<2048, 1024>>)
    [] y.layer = "fc1" ->
         LET n == Len(y.ms)
             offs == [i \in 1..n |-> (i - 1) * 128]
             t == EncAll(Joined(c, Offs(c, Range(offs))), <<y.pv>> \o y.pms \o <<y.pb1>>, <<y.v>> \o y.ms \o <<y.b1>>)
             f == FoldOps(InnerOps(t, 1, 2, offs, 1, 0), Pow(1, 7)) IN
         Run(f, <<[op |-> "add", a |-> Last(f), b |-> n + 2]>>)
    [] y.layer = "fc2" ->
         LET t == EncAll(Joined(c, <<>>), <<y.pv, y.pm2, y.pb2>>, <<y.v, y.m2, y.b2>>)
             e == Run(t, <<[op |-> "encode", val |-> y.mask, lev |-> c.maxlev, m |-> 1, b |-> c.sb], [op |-> "pmul", a |-> 1, pt |-> 1]>>)
             f == FoldOps(e, Pow(-1, 4))
             p == Run(f, <<[op |-> "mul", r |-> 1, a |-> Last(f), b |-> 2]>>)
             g == FoldOps(p, Pow(128, 6)) IN
         Run(g, <<[op |-> "add", a |-> Last(g), b |-> 3]>>)

Init == s = <<>> /\ phase = 0 /\ x = <<>> /\ out = <<>>
Draw == phase = 0 /\ phase' = 1 /\ (\E i \in DOMAIN Cfgs : x' = Case(Cfgs[i])) /\ UNCHANGED <<s, out>>
CfgNamed(n) == Cfgs[CHOOSE i \in DOMAIN Cfgs : Cfgs[i].name = n]
Work == /\ phase = 1 /\ phase' = 2
        /\ LET e == Eval(CfgNamed(x.cfg), x) IN
           s' = e.clk /\ out' = (IF e.clk < 0 THEN <<>> ELSE e.ct[Len(e.ct)])
        /\ UNCHANGED x
Next == Draw \/ Work
Spec == Init /\ [][Next]_vars
Computes == phase = 2 => /\ s >= 0                 \* nothing was refused
                         /\ out.ok                 \* the slots are determined
                         /\ out.val = Result(CfgNamed(x.cfg), x)
                         /\ out.ids = Parties(x)
=============================================================================
