-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance of recorded executions: every trace recorded from the real  *)
(* code is re-executed by the transition function Do of MKHE, and every    *)
(* observation is compared with what the specification allows.             *)
(*                                                                         *)
(* CFGS: the configurations; TRACES: one trace per line,                   *)
(*   [cfg, n, ev : sequence of [o : operation, r : what was observed]]     *)
(* PROP: the property under check.  A deviation is a set of tags           *)
(* <<kind, operation>>; it violates the property when one of its tags is   *)
(* among those the property is about (Focus).  Every first deviation of a  *)
(* trace is printed ("DEV ..."), and the invariant Holds is false in a     *)
(* state where a deviation concerns PROP.                                  *)
(***************************************************************************)
EXTENDS Noise, Json, IOUtils

Cfgs == ndJsonDeserialize(IOEnv.CFGS)
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP

CfgOf(n) == LET i == CHOOSE i \in DOMAIN Cfgs : Cfgs[i].name = n IN Cfgs[i]

VARIABLES tr, s, i, dev, stop, nz
vars == <<tr, s, i, dev, stop, nz>>

(*************************** comparing observations ************************)
\* normalise m*2^b to 2^14 <= m < 2^15
RECURSIVE NormS(_, _)
NormS(m, b) == IF m = 0 THEN <<0, 0>> ELSE IF m < 16384 THEN NormS(2 * m, b - 1)
               ELSE IF m >= 32768 THEN NormS(m \div 2, b + 1) ELSE <<m, b>>
Near(x, y) == Abs(x - y) <= 3
SameScale(x, y) ==
  \/ x[2] = y[2] /\ Near(x[1], y[1])
  \/ x[2] = y[2] + 1 /\ Near(2 * x[1], y[1])
  \/ y[2] = x[2] + 1 /\ Near(2 * y[1], x[1])

SameVal(c, exp, got) ==
  /\ Len(got) = Len(exp)
  /\ IF c.scheme = "ckks" THEN \A j \in DOMAIN exp : got[j][1] = exp[j][1] /\ got[j][2] = exp[j][2]
     ELSE \A j \in DOMAIN exp : got[j] = exp[j]

RegDump(st) == {[k |-> e.k, r |-> e.r, id |-> e.id, idx |-> e.idx, key |-> e.key] : e \in st.reg}
SetDump(st) == [j \in DOMAIN st.sets |-> st.sets[j]]
NewKeys(s0, s1) == SubSeq(s1.keys, Len(s0.keys) + 1, Len(s1.keys))

Unary == {"rot", "roth", "conj", "drop", "resc", "rescto", "cmul", "pmul", "copy"}
RegOps == {"reg", "del", "get", "gendef", "join"}
KeyKinds == {"sk", "pk", "rlk", "rot", "cjk"}
SetOps == {"snew", "sof", "sadd", "srem", "scopy", "sunion", "sinter"}

\* the noise of ciphertext j: as measured when it was made, or what the specification allows
Nz(j) == IF j \in DOMAIN nz /\ nz[j] >= 0 THEN nz[j] ELSE s.ct[j].nb
Stat == "STAT" \in DOMAIN IOEnv

\* which kinds of objects the changed objects (or pairs that share storage) are
Mentions(f, p) == \E k \in 1..(Len(f) - Len(p) + 1) : SubSeq(f, k, k + Len(p) - 1) = p
Frames(r, op) == IF r.frame = <<>> THEN {}
                 ELSE {<<"frame", op>>} \cup {<<p \o " frame", op>> : p \in {q \in {"ct", "hst", "set", "crs", "key", "reg"} : \E j \in DOMAIN r.frame : Mentions(r.frame[j], q)}}

\* what deviates in event e, given the transition d = Do(s, e.o)
Devs(e, d) ==
  LET o == e.o  r == e.r
      T(k) == {<<k, o.op>>}
  IN IF d.res = "any" THEN {}
     ELSE IF r.res # d.res THEN T("res") \cup Frames(r, o.op) \cup (IF r.db # 0 THEN T("db") ELSE {})
     ELSE Frames(r, o.op)
     \cup (IF d.t # 0 /\ r.res = "ok"
           THEN LET x == d.s.ct[d.t] IN
                (IF Range(r.ids) # x.ids THEN T("ids") ELSE {})
           \cup (IF r.lev # x.lev THEN T("lev") ELSE {})
           \cup (IF Ckks(s) /\ x.m # 0 /\ ~SameScale(NormS(x.m, x.b), <<r.sm, r.sb>>) THEN T("scale") ELSE {})
           \cup (IF x.ok /\ ~SameVal(s.c, x.val, r.val) THEN T("val") ELSE {})
           \cup (IF x.ok /\ SameVal(s.c, x.val, r.val) /\ r.nz > After(s, d, o, Nz)
                  THEN T("noise") ELSE {})
           \cup (IF Stat /\ x.ok /\ PrintT("NZ " \o ToJson([op |-> o.op, nz |-> r.nz, nb |-> x.nb, bd |-> After(s, d, o, Nz), c |-> s.c.name, k |-> Cardinality(x.ids), dr |-> x.dr])) THEN {} ELSE {})
           \* division by the last primes is rounded to the nearest
           \cup (IF o.op \in {"resc", "rescin", "rescto"} /\ r.slip > 500 THEN T("slip") ELSE {})
           \cup (IF r.db > x.nb + 2 /\ r.db > 0 THEN T("db") ELSE {})
           \cup (IF Range(o.wit) # Wit(d.s, x) THEN T("wit") ELSE {})
           ELSE IF r.db # 0 THEN T("db") ELSE {})
     \cup (IF ~r.eq THEN T("eq") ELSE {})
     \cup (IF "races" \in DOMAIN r /\ r.races # <<>> THEN T("race") ELSE {})
     \cup (IF o.op \in RegOps /\ r.res = "ok" /\ Range(r.regs) # RegDump(d.s) THEN T("regs") ELSE {})
     \cup (IF o.op = "get" /\ r.res = "ok" /\ r.uid # KeyOf(s, o.k, o.r, o.id, o.idx) THEN T("uid") ELSE {})
     \cup (IF o.op \in SetOps /\
              (Len(r.sets) # Len(d.s.sets)
                 \/ \E j \in DOMAIN r.sets : \/ Range(r.sets[j].has) # d.s.sets[j]
                                             \/ r.sets[j].size # Cardinality(d.s.sets[j]))
           THEN T("sets") ELSE {})
     \cup (LET nk == NewKeys(s, d.s)
               Tags(q, kd) == {<<q[j].id, IF kd = "rot" THEN q[j].idx ELSE 0>> : j \in {h \in DOMAIN q : q[h].k = kd}}
           IN UNION {IF Tags(nk, kd) # Tags(r.tags, kd) THEN T("keytag") \cup T(kd) ELSE {} : kd \in KeyKinds}
              \cup (IF Len(nk) # Len(r.tags) THEN T("keytag") ELSE {}))
     \cup (IF o.op = "dec" /\ r.res = "ok" /\ s.ct[o.a].ok
           THEN LET x == s.ct[o.a] IN
                IF KeysRight(s, x, Range(o.sks)) THEN (IF ~SameVal(s.c, x.val, r.val) THEN T("val") ELSE {})
                ELSE IF WrongKeyMatters(s, x, Range(o.sks)) /\ SameVal(s.c, x.val, r.val) THEN T("wrongkey") ELSE {}
           ELSE {})

(* Concurrent programs: e.al is what the same operation of the same thread gave when the thread ran *)
(* alone, from the same state.  The two runs may differ only where the outcome is not determined.  *)
AloneDevs(e, d) ==
  IF ~("al" \in DOMAIN e) \/ d.res = "any" THEN {}
  ELSE LET r == e.r  al == e.al IN
       IF \/ r.res # al.res
          \/ /\ al.res = "ok" /\ d.res = "ok"
             /\ \/ Range(r.ids) # Range(al.ids)
                \/ r.lev # al.lev
                \/ ~SameScale(<<r.sm, r.sb>>, <<al.sm, al.sb>>)
                \/ (d.t # 0 /\ d.s.ct[d.t].ok /\ r.val # al.val)
                \/ (e.o.op = "dec" /\ s.ct[e.o.a].ok /\ KeysRight(s, s.ct[e.o.a], Range(e.o.sks)) /\ r.val # al.val)
                \/ (r.db = 9999 /\ al.db # 9999)
                \/ r.uid # al.uid
       THEN {<<"alone", e.o.op>>} ELSE {}

Eval == {"add", "sub", "mul", "mulh", "mulks", "rot", "roth", "conj", "drop", "dropin", "resc", "rescin", "rescto", "cmul", "cmulin", "pmul"}
(* What was partially decrypted is a ciphertext like any other: operations on it that go wrong. *)
Pdecd(a) == \E j \in 1..i : LET p == Traces[tr].ev[j] IN p.o.op = "pdec" /\ p.o.a = a /\ p.r.res = "ok"
AfterDevs(e, d, v) ==
  IF e.o.op \in Eval /\ \E x \in v : x[1] \in {"val", "noise", "db"}
     THEN IF Pdecd(e.o.a) \/ (e.o.op \in {"add", "sub", "mul", "mulks"} /\ Pdecd(e.o.b)) THEN {<<"after", e.o.op>>} ELSE {}
     ELSE {}

(******************************** focus ************************************)
Enc == {"enc", "encpt", "encinto"}
Core == {"val", "noise", "res", "ids", "lev", "scale", "eq"}
Of(kinds, ops) == {<<k, op>> : k \in kinds, op \in ops}
AllOps == Eval \cup Enc \cup RegOps \cup SetOps \cup
          {"gensk", "alias", "genpk", "genrlk", "gencjk", "genrot", "keycopy", "addcrs", "encode", "reenc", "hoist", "setscale", "copy", "pad", "zero", "scribble", "dec", "pdec"}
AllKinds == Core \cup {"frame", "db", "regs", "uid", "sets", "keytag", "wrongkey"}
ParOps == AllOps \cup {"par"}

\* the keys an operation needs: made under the right names, and not refused
Keyed(kinds) == Of(kinds, RegOps \cup {"gensk", "genpk", "genrlk", "gencjk", "genrot"}) \cup Of({"res"}, {"join"})
               \cup Of({"res"}, IF "rlk" \in kinds THEN {"genrlk"} ELSE {}) \cup Of({"res"}, IF "rot" \in kinds THEN {"genrot", "gendef"} ELSE {})
               \cup Of({"res"}, IF "cjk" \in kinds THEN {"gencjk"} ELSE {}) \cup Of({"res"}, IF "pk" \in kinds THEN {"gensk", "genpk"} ELSE {})
Focus(p) ==
  CASE p = "C01" -> Of(Core, Enc \cup {"gensk", "genpk", "join", "encode", "reenc", "dec"}) \cup Keyed({"sk", "pk"})
    [] p = "C02" -> Of(Core, {"add", "sub"})
    [] p = "C03" -> Of(Core, {"mul", "mulks"}) \cup Keyed({"rlk"})
    [] p = "C04" -> Of(Core, {"rot", "genrot"}) \cup Keyed({"rot"})
    [] p = "C05" -> Of(Core, {"conj", "gencjk"}) \cup Keyed({"cjk"})
    [] p = "C06" -> Of(Core \cup {"frame"}, {"mulh", "roth", "hoist", "mulks"}) \cup Of({"hst frame"}, AllOps) \cup Keyed({"rlk", "rot"})
    [] p = "C07" -> Of({"frame"}, AllOps) \cup Of({"eq"}, {"keycopy"})
    [] p = "C08" -> Of({"db"}, AllOps) \cup Of({"val"}, {"dec"})
    [] p = "C09" -> Of({"lev", "scale"}, AllOps) \cup Of(Core \cup {"slip"}, {"drop", "dropin", "resc", "rescin", "rescto"}) \cup Of({"ct frame"}, {"resc", "rescin", "rescto"})
    [] p = "C10" -> Of(Core \cup {"ct frame"}, {"pdec", "dec"}) \cup Of({"ct frame"}, {"copy"}) \cup Of({"after"}, Eval)
    [] p = "C11" -> Of({"res", "val", "wrongkey", "frame"}, {"dec"}) \cup Of({"res", "frame"}, {"pdec"})
    [] p = "C12" -> Of({"regs", "uid", "res", "keytag"}, RegOps) \cup Of({"res"}, Eval) \cup Of({"val"}, {"mul", "mulh", "mulks", "rot", "roth", "conj"}) \cup Of({"reg frame"}, AllOps)
    [] p = "C13" -> Of({"ids", "sets"}, AllOps) \cup Of(Core, SetOps \cup {"copy", "pad", "zero"}) \cup Of({"ct frame"}, {"copy", "pad", "zero", "scribble"}) \cup Of({"set frame"}, AllOps)
    [] p = "C18" -> Of({"race", "alone"}, ParOps) \cup Of({"res"}, {"par"})
    [] p = "C20" -> Of(Core, {"cmul", "cmulin", "pmul", "encode", "reenc", "encpt"})
    [] p = "C22" -> Of({"noise", "slip"}, AllOps) \cup Of({"val"}, Eval \cup Enc)
    [] p = "C21" -> Of({"keytag", "res"}, {"gensk", "genpk", "genrlk", "gencjk", "genrot", "gendef", "join"})
    [] p \in {"C14", "C16"} -> Of(Core \cup {"frame", "keytag", "uid", "regs", "db"}, AllOps)
    [] OTHER -> Of(AllKinds, AllOps)

ASSUME PrintT("FOCUS " \o ToJson(Focus(Prop)))

(***************************** re-execution ********************************)
Poison(st, t) == IF t = 0 THEN st ELSE [st EXCEPT !.ct[t].ok = FALSE]
Structural == {"res", "ids", "lev", "wit", "frame", "regs", "sets", "keytag"}

Init == /\ tr \in DOMAIN Traces
        /\ s = Init0(CfgOf(Traces[tr].cfg))
        /\ i = 0 /\ dev = {} /\ stop = FALSE /\ nz = <<>>

Hang(e) == IF e.r.res = "hang" THEN {<<"res", e.o.op>>} ELSE {}

Step == /\ ~stop /\ i < Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[i + 1]
               d == Do(s, e.o)
               v0 == Devs(e, d) \cup Hang(e) \cup AloneDevs(e, d)
               v == v0 \cup AfterDevs(e, d, v0)
               \* a wrong value or scale is not carried on: the object becomes undetermined
               s1 == IF \E x \in v : x[1] \in {"val", "scale", "db", "eq"} THEN Poison(d.s, d.t) ELSE d.s
           IN /\ i' = i + 1 /\ dev' = v
              /\ nz' = IF d.res = "ok" /\ d.t # 0
                       THEN LET m == IF e.r.res = "ok" /\ s1.ct[d.t].ok THEN e.r.nz ELSE -1 IN
                            IF d.t = Len(nz) + 1 THEN Append(nz, m) ELSE [nz EXCEPT ![d.t] = m]
                       ELSE nz
              /\ s' = IF d.res = "any" THEN s ELSE s1
              /\ stop' = (d.res = "any" \/ \E x \in v : x[1] \in Structural)
              /\ (IF v = {} THEN TRUE ELSE PrintT("DEV " \o ToJson([n |-> Traces[tr].n, i |-> i + 1, tags |-> v,
                                                     mine |-> v \cap Focus(Prop) # {}, cfg |-> s.c.name,
                                                     exp |-> [res |-> d.res, ct |-> IF d.t = 0 THEN <<>> ELSE <<d.s.ct[d.t]>>]])))
              /\ (IF d.res # "any" THEN TRUE ELSE PrintT("UNSPEC " \o ToJson([n |-> Traces[tr].n, i |-> i + 1])))
        /\ UNCHANGED tr
Done_ == /\ (stop \/ i = Len(Traces[tr].ev)) /\ UNCHANGED vars
Next == Step \/ Done_
Spec == Init /\ [][Next]_vars

Holds == dev \cap Focus(Prop) = {}
=============================================================================
