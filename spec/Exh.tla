-------------------------------- MODULE Exh ---------------------------------
(***************************************************************************)
(* Bounded-exhaustive programs over the operations of MKHE.tla: after a    *)
(* fixed preparation, a family lists directives; TLC turns them into       *)
(* programs                                                                *)
(*   tree families  every history of Depth directives (those available may *)
(*                  depend on the state),                                  *)
(*   walk families  one program per block, each performing all directives  *)
(*                  of the block: every relation of operands, every amount,*)
(*                  every choice of keys, every pair of consecutive calls. *)
(* Together the programs of a family contain every case of its space: the  *)
(* random programs of Gen.tla only sample it.                              *)
(*                                                                         *)
(* CFGS: configurations; FAMS: [fam, depth] one per line.                  *)
(***************************************************************************)
EXTENDS MKHE, Json, IOUtils

Cfgs == ndJsonDeserialize(IOEnv.CFGS)
Fams == ndJsonDeserialize(IOEnv.FAMS)

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Between(i, j, g(_)) == [k \in 1..(j - i + 1) |-> g(i + k - 1)]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

VARIABLES s, prog, f, c, todo, left
vars == <<s, prog, f, c, todo, left>>

(*************************** directives to operations **********************)
Val(cf, v) ==
  IF cf.scheme = "ckks" THEN TLCEval([j \in 1..Len_(cf) |-> <<((7 * j + 5 * v) % 9) - 4, ((j + 3 * v) % 5) - 2>>])
  ELSE IF cf.t = 0 THEN TLCEval([j \in 1..Len_(cf) |-> ((7 * j + 5 * v) % 19) - 9])
  ELSE TLCEval([j \in 1..Len_(cf) |-> (31 * j + 17 * v + j * v) % cf.t])
\* the key of a kind a party made last; g counts from the last one back
OfKind(st, k, id) == {u \in DOMAIN st.keys : st.keys[u].k = k /\ st.keys[u].id = id}
Nth(S, g) == CHOOSE u \in S : Cardinality({w \in S : w > u}) = g
Key(st, k, id, g) == Nth(OfKind(st, k, id), g)
NCt(st) == Len(st.ct)
\* operand 0 is the newest ciphertext
A(st, i) == IF i = 0 THEN NCt(st) ELSE i

Op(st, d) ==
  LET cf == st.c IN
  CASE d[1] = "join" -> [op |-> "join", g |-> 1, id |-> d[2], dist |-> "uni"]
    [] d[1] = "gensk" -> [op |-> "gensk", g |-> 1, id |-> d[2], dist |-> "uni"]
    [] d[1] \in {"genrlk", "gencjk", "genpk"} -> [op |-> d[1], g |-> 1, sk |-> Key(st, "sk", d[2], 0)]
    [] d[1] = "genrot" -> [op |-> "genrot", g |-> 1, sk |-> Key(st, "sk", d[2], 0), idx |-> d[3]]
    [] d[1] = "alias" -> [op |-> "alias", sk |-> Key(st, "sk", d[2], 0), id |-> d[3]]
    [] d[1] = "addcrs" -> [op |-> "addcrs", idx |-> d[2]]
    [] d[1] = "regnew" -> [op |-> "reg", r |-> d[2], key |-> Len(st.keys)]
    [] d[1] = "reg" -> [op |-> "reg", r |-> 1, key |-> d[2]]
    [] d[1] \in {"del", "get"} -> [op |-> d[1], k |-> d[2], r |-> 1, id |-> d[3], idx |-> d[4]]
    [] d[1] = "enc" -> [op |-> "enc", x |-> 1, pk |-> Key(st, "pk", d[2], 0), val |-> Val(cf, d[3]), len |-> Len_(cf), cent |-> FALSE]
    [] d[1] = "encode" -> [op |-> "encode", x |-> 1, val |-> Val(cf, d[2]), len |-> Len_(cf), cent |-> FALSE, lev |-> d[3], m |-> d[4], b |-> d[5]]
    [] d[1] = "encpt" -> [op |-> "encpt", x |-> 1, pk |-> Key(st, "pk", d[2], 0), pt |-> IF d[3] = 0 THEN Len(st.pt) ELSE d[3], lev |-> d[4]]
    [] d[1] = "zero" -> [op |-> "zero", ids |-> d[2], lev |-> d[3]]
    [] d[1] \in {"add", "sub"} -> [op |-> d[1], x |-> 1, a |-> A(st, d[2]), b |-> A(st, d[3])]
    [] d[1] = "mul" -> [op |-> "mul", x |-> 1, r |-> 1, a |-> A(st, d[2]), b |-> A(st, d[3])]
    [] d[1] \in {"mulks", "mulh"} -> [op |-> d[1], x |-> 1, r |-> 1, a |-> A(st, d[2]), b |-> A(st, d[3]), ha |-> d[4], hb |-> d[5]]
    [] d[1] = "rot" -> [op |-> "rot", x |-> 1, r |-> 1, a |-> A(st, d[2]), k |-> d[3]]
    [] d[1] = "roth" -> [op |-> "roth", x |-> 1, r |-> 1, a |-> A(st, d[2]), k |-> d[3], h |-> d[4]]
    [] d[1] = "conj" -> [op |-> "conj", x |-> 1, r |-> 1, a |-> A(st, d[2])]
    [] d[1] = "hoist" -> [op |-> "hoist", x |-> 1, a |-> A(st, d[2])]
    [] d[1] \in {"drop", "dropin"} -> [op |-> d[1], x |-> 1, a |-> A(st, d[2]), k |-> d[3]]
    [] d[1] \in {"resc", "rescin", "rescto"} -> [op |-> d[1], x |-> 1, a |-> A(st, d[2]), m |-> d[3], b |-> d[4]]
    [] d[1] \in {"cmul", "cmulin"} -> [op |-> d[1], x |-> 1, a |-> A(st, d[2]), re |-> d[3], im |-> d[4], den |-> d[5], ty |-> d[6]]
    [] d[1] = "pmul" -> [op |-> "pmul", x |-> 1, a |-> A(st, d[2]), pt |-> d[3]]
    [] d[1] = "copy" -> [op |-> "copy", a |-> A(st, d[2]), v |-> d[3]]
    [] d[1] = "pad" -> [op |-> "pad", a |-> A(st, d[2]), ids |-> d[3]]
    [] d[1] = "scribble" -> [op |-> "scribble", a |-> A(st, d[2])]
    [] d[1] = "dec" -> [op |-> "dec", x |-> 1, a |-> A(st, d[2]), sks |-> d[3]]
    [] d[1] = "decall" -> [op |-> "dec", x |-> 1, a |-> A(st, d[2]), sks |-> SetToSeq(Wit(st, st.ct[A(st, d[2])]))]
    [] d[1] = "pdec" -> [op |-> "pdec", x |-> 1, a |-> A(st, d[2]), sk |-> Key(st, "sk", d[3], 0)]
    [] d[1] = "snew" -> [op |-> "snew"]
    [] d[1] = "sof" -> [op |-> "sof", a |-> d[2]]
    [] d[1] \in {"sadd", "srem"} -> [op |-> d[1], i |-> d[2], id |-> d[3]]
    [] d[1] = "scopy" -> [op |-> "scopy", i |-> d[2]]
    [] d[1] \in {"sunion", "sinter"} -> [op |-> d[1], i |-> d[2], j |-> d[3]]

(******************************* preparations ******************************)
Joins == << <<"join", "a">>, <<"join", "b">>, <<"join", "c">> >>
\* operands of every relation: 1 a, 2 b, 3 c, 4 ab, 5 bc, 6 abc, 7 nobody, 8 another of a, 9 a copy of ab, 10 ab padded with c,
\* then (approximate scheme) lower levels: 11 a, 12 abc, 13 ab at level zero; 14 a at twice the scale, 15 b at the scale of a prime more
Zoo(cf) ==
  Joins \o << <<"enc", "a", 1>>, <<"enc", "b", 2>>, <<"enc", "c", 3>>, <<"add", 1, 2>>, <<"sub", 2, 3>>, <<"add", 4, 3>>,
              <<"zero", <<>>, cf.maxlev>>, <<"enc", "a", 4>>, <<"copy", 4, 0>>, <<"copy", 4, 1>>, <<"pad", 10, <<"c">> >> >>
  \o IF cf.scheme # "ckks" THEN <<>> ELSE
     << <<"drop", 8, Min(1, cf.maxlev)>>, <<"drop", 6, Min(2, cf.maxlev)>>, <<"drop", 4, cf.maxlev>>,
        <<"encode", 5, cf.maxlev, 1, cf.sb + 1>>, <<"encpt", "a", 1, cf.maxlev>>,
        <<"encode", 6, cf.maxlev, 3, cf.sb - 2>>, <<"encpt", "b", 2, cf.maxlev>> >>
NZoo(cf) == IF cf.scheme = "ckks" THEN 15 ELSE 10
Rots(cf) == Flat([i \in 1..Len(cf.rotk) |-> LET k == Norm(cf, cf.rotk[i]) IN << <<"addcrs", k>> >> \o
               Flat([j \in 1..3 |-> << <<"genrot", <<"a", "b", "c">>[j], k>>, <<"regnew", 1>> >>])])
Old == << <<"gensk", "a">>, <<"gensk", "b">>, <<"gensk", "c">> >>

\* pairs of consecutive calls: the calls
Calls(cf) ==
  << <<"add", 4, 3>>, <<"sub", 1, 5>>, <<"mul", 1, 1>>, <<"mul", 4, 5>>, <<"mul", 3, 6>>, <<"mul", 7, 4>>, <<"mul", 4, 7>>, <<"mulks", 4, 5, 0, 1>>, <<"mulks", 5, 1, 1, 1>>,
     <<"rot", 4, 1>>, <<"rot", 6, -3>>, <<"rot", 7, 1>>, <<"conj", 4>>, <<"conj", 3>>, <<"conj", 7>>, <<"roth", 4, 2, 1>>, <<"hoist", 6>>,
     <<"enc", "b", 7>>, <<"decall", 4>>, <<"decall", 1>>, <<"decall", 7>>, <<"mul", 10, 2>> >>
  \o IF cf.scheme # "ckks" THEN <<>> ELSE
  << <<"mul", 11, 6>>, <<"mul", 13, 13>>, <<"mulh", 4, 5, 1, 0>>, <<"mulh", 12, 4, 0, 1>>, <<"rot", 12, 3>>, <<"conj", 11>>, <<"roth", 12, 1, 2>>, <<"add", 14, 12>>, <<"sub", 1, 15>>,
     <<"cmul", 4, 3, 0, 2, "float64">>, <<"cmul", 12, -7, 2, 1, "complex128">>, <<"pmul", 11, 1>>, <<"resc", 14, 1, cf.sb>>, <<"resc", 14, 1, cf.sb - 45>>,
     <<"drop", 6, Min(1, cf.maxlev)>>, <<"encpt", "b", 1, cf.maxlev - 1>>, <<"decall", 12>>, <<"decall", 14>> >>

Pre(cf, fam) ==
  CASE fam = "sets" -> << <<"snew">>, <<"sadd", 1, "a">>, <<"snew">> >>
    [] fam = "set" -> << <<"snew">>, <<"sadd", 1, "a">> >>
    [] fam \in {"reg-sk", "reg-pk", "reg-rlk", "reg-cjk", "reg-rot"} ->
         LET mk(id) == CASE fam = "reg-sk" -> <<>> [] fam = "reg-pk" -> << <<"genpk", id>> >> [] fam = "reg-rlk" -> << <<"genrlk", id>> >>
                         [] fam = "reg-cjk" -> << <<"gencjk", id>> >> [] OTHER -> << <<"genrot", id, 1>>, <<"genrot", id, 2>> >>
         IN << <<"gensk", "a">> >> \o mk("a") \o << <<"gensk", "a">> >> \o mk("a") \o << <<"gensk", "b">> >> \o mk("b")
    [] fam = "pdec" -> Joins \o << <<"enc", "a", 1>>, <<"enc", "b", 2>>, <<"enc", "c", 3>>, <<"mul", 1, 2>>, <<"add", 4, 3>> >>
    [] fam = "cont" -> << <<"join", "a">>, <<"join", "b">>, <<"gensk", "c">>, <<"enc", "a", 1>>, <<"enc", "b", 2>>, <<"add", 1, 2>> >>
    [] fam = "keys" -> Joins \o << <<"enc", "a", 1>>, <<"enc", "b", 2>>, <<"enc", "c", 3>>, <<"mul", 1, 2>>, <<"add", 4, 3>>, <<"zero", <<>>, cf.maxlev>>, <<"rot", 1, 1>> >> \o Old
                       \o << <<"alias", "a", "b">>, <<"alias", "b", "c">>, <<"alias", "c", "a">> >>
    [] fam = "rots" -> Joins \o << <<"enc", "a", 1>>, <<"enc", "b", 2>>, <<"enc", "c", 3>>, <<"sub", 1, 2>>, <<"add", 4, 3>> >>
                       \o (IF cf.scheme = "ckks" THEN << <<"drop", 4, cf.maxlev>> >> ELSE << <<"copy", 4, 0>> >>)
                       \o Rots(cf) \o << <<"hoist", 5>>, <<"hoist", 6>> >>
    [] fam = "calls" -> Zoo(cf) \o << <<"hoist", 4>> >> \o (IF cf.scheme = "ckks" THEN << <<"hoist", 12>> >> ELSE <<>>)
    [] fam = "hoisted" -> Zoo(cf) \o [i \in 1..NZoo(cf) |-> <<"hoist", i>>]
    [] fam = "consts" -> << <<"join", "a">>, <<"join", "b">>, <<"enc", "a", 1>>, <<"enc", "b", 2>>, <<"add", 1, 2>> >>
    [] fam = "scales" -> << <<"join", "a">>, <<"join", "b">>, <<"enc", "a", 1>>, <<"enc", "b", 2>>, <<"add", 1, 2>> >>
    [] fam = "encs" -> << <<"join", "a">> >>
    [] OTHER -> Zoo(cf)

(********************************* families ********************************)
Names == {"a", "b", "0"}
RegKind(fam) == CASE fam = "reg-sk" -> "sk" [] fam = "reg-pk" -> "pk" [] fam = "reg-rlk" -> "rlk" [] fam = "reg-cjk" -> "cjk" [] OTHER -> "rot"
\* what may come next in a tree family
Tree(st, fam) ==
  CASE fam \in {"sets", "set"} -> LET D == DOMAIN st.sets IN
         {<<"snew">>} \cup {<<"sadd", i, n>> : i \in D, n \in Names} \cup {<<"srem", i, n>> : i \in D, n \in {"a", "b"}} \cup {<<"scopy", i>> : i \in D}
         \cup {<<k, i, j>> : k \in {"sunion", "sinter"}, i \in D, j \in D}
    [] fam = "pdec" -> {<<"pdec", a, p>> : a \in 5..NCt(st), p \in {"a", "b", "c"}} \cup {<<"decall", a>> : a \in 5..NCt(st)}
                       \cup (IF NCt(st) < 6 THEN {<<"copy", 5, 0>>, <<"pad", 5, <<"a">> >>} ELSE {<<"add", 5, 6>>})
    [] fam = "cont" -> LET n == NCt(st) IN
         {<<"copy", a, v>> : a \in {1, 3, n}, v \in {0, 1}} \cup {<<"pad", a, i>> : a \in {1, 3, n}, i \in {<<"b">>, <<"a", "b">>, <<"c">>}}
         \cup {<<"scribble", n>>, <<"add", 1, n>>, <<"sub", n, n>>, <<"mul", n, 3>>, <<"conj", n>>, <<"rot", n, 0>>, <<"pdec", n, "a">>, <<"zero", <<"a">>, st.c.maxlev>>, <<"decall", n>>}
    [] OTHER -> LET k == RegKind(fam)  idx == IF k = "rot" THEN {1, 2} ELSE {0} IN
         {<<"reg", u>> : u \in {u \in DOMAIN st.keys : st.keys[u].k = k /\ <<st.keys[u].id, st.keys[u].idx>> # <<"b", 2>>}}
         \cup {<<o, k, x[1], x[2]>> : o \in {"del", "get"}, x \in ({"a", "b"} \X idx) \ {<<"b", 2>>}}

Choices(st) == \* for every party: no key, its key, an older or newer one, another party's under its name
  LET own(p) == {<<>>} \cup {<<u>> : u \in OfKind(st, "sk", p)} IN
  {x \o y \o z : x \in own("a"), y \in own("b"), z \in own("c")}

Around(cf) == << <<1, cf.sb>>, <<1, cf.sb - 7>>, <<3, cf.sb>>, <<1, cf.sb - 40>>, <<1, cf.sb + 20>>, <<1, cf.sb + 40>>, <<5, cf.sb + 33>>, <<1, 0>>, <<0, 0>>, <<-1, 3>> >>
Cst == << <<0, 0, 1>>, <<1, 0, 1>>, <<-1, 0, 1>>, <<1000, 0, 1>>, <<-65537, 0, 1>>, <<1, 0, 2>>, <<-5, 0, 4>>, <<0, 1, 1>>, <<0, -1, 1>>, <<2, -3, 1>>, <<1, 1, 2>>, <<0, -3, 4>>,
          <<1, 0, 3>>, <<7, -2, 5>>, <<65535, 0, 2>> >>
Types(k) == IF k[3] = 1 /\ k[2] = 0 THEN (IF k[1] >= 0 THEN <<"int", "int64", "uint64", "float64", "complex128">> ELSE <<"int", "int64", "float64", "complex128">>)
            ELSE IF k[2] = 0 THEN <<"float64", "complex128">> ELSE <<"complex128">>

\* the programs of a walk family: a sequence of sequences of directives
Walk(st, fam) ==
  LET cf == st.c  n == NZoo(cf)  h == cf.half  lv == cf.maxlev IN
  CASE fam = "sums" -> [i \in 1..n |-> Flat([j \in 1..n |-> << <<"add", i, j>>, <<"sub", i, j>> >>])]
    [] fam = "products" -> [i \in 1..n |-> Flat([j \in 1..n |-> << <<"mul", i, j>> >>])]
    [] fam = "hoisted" -> [i \in 1..n |-> Flat([j \in 1..n |-> IF cf.scheme = "ckks" THEN << <<"mulh", i, j, i, j>>, <<"mulh", i, j, IF j % 2 = 0 THEN i ELSE 0, IF j % 2 = 0 THEN 0 ELSE j>> >>
                                                                 ELSE << <<"mulks", i, j, i % 2, j % 2>> >>])]
    [] fam = "rots" -> [i \in 1..4 |-> LET a == <<1, 4, 5, 6>>[i] IN
                          [k \in 1..(4 * Min(h, 16) + 3) |-> <<"rot", a, k - 2 * Min(h, 16) - 2>>]
                          \o (IF i < 3 THEN <<>> ELSE LET q == SetToSeq(DOMAIN st.crs) IN [j \in 1..Len(q) |-> <<"roth", a, q[j], i - 2>>])]
    [] fam = "conjs" -> << Flat([i \in 1..n |-> << <<"conj", i>>, <<"conj", 0>> >>]) >>
    [] fam = "keys" -> [i \in 1..7 |-> LET q == SetToSeq(Choices(st)) IN [j \in 1..Len(q) |-> <<"dec", i, q[j]>>]]
    [] fam = "calls" -> LET q == Calls(cf)  m == Len(q) IN
                        [i \in 1..m |-> Flat(Between(i, m, LAMBDA j : IF j = i THEN <<q[i], q[i]>> ELSE <<q[j], q[i]>>)) \o <<q[(i % m) + 1]>>]
    [] fam = "scales" -> [l \in 1..(lv + 1) |-> LET T == Around(cf) IN
                            << <<"drop", 3, lv + 1 - l>>, <<"cmul", 0, 1, 0, 2, "float64">> >> \o
                            Flat([i \in 1..Len(T) |-> << <<"resc", 5, T[i][1], T[i][2]>>, <<"rescto", 4, T[i][1], T[i][2]>>, <<"copy", 5, 0>>, <<"rescin", 0, T[i][1], T[i][2]>> >>])
                            \o Flat([k \in 1..l |-> << <<"drop", 5, k - 1>>, <<"copy", 4, 0>>, <<"dropin", 0, k - 1>>, <<"add", 0, 5>>, <<"mul", 0, 4>> >>])]
    [] fam = "consts" -> [l \in 1..(lv + 1) |-> << <<"drop", 3, lv + 1 - l>> >> \o
                            Flat([i \in 1..Len(Cst) |-> LET k == Cst[i]  t == Types(k) IN
                                 Flat([j \in 1..Len(t) |-> << <<"cmul", 4, k[1], k[2], k[3], t[j]>> >>]) \o << <<"copy", 4, 0>>, <<"cmulin", 0, k[1], k[2], k[3], t[Len(t)]>> >>])
                            \o Between(l, lv + 1, LAMBDA e : <<"encode", e, e - 1, 1, cf.sb>>) \o Between(l, lv + 1, LAMBDA e : <<"pmul", 4, e - l + 1>>)]
    [] fam = "encs" -> [l \in 1..(lv + 1) |-> Flat([e \in 1..(lv + 1) |-> Flat([z \in 1..3 |-> << <<"encode", 3 * e + z, l - 1, <<1, 1, 3>>[z], <<cf.sb, cf.sb + 3, cf.sb - 4>>[z]>>,
                                                                                                 <<"encpt", "a", 0, e - 1>>, <<"decall", 0>> >>])])]

Trees == {"set", "sets", "pdec", "cont", "reg-sk", "reg-pk", "reg-rlk", "reg-cjk", "reg-rot"}
CkksOnly == {"scales", "consts", "encs"}

(******************************** the machine ******************************)
WitOf(d) == IF d.t = 0 \/ d.res # "ok" THEN <<>> ELSE SetToSeq(Wit(d.s, d.s.ct[d.t]))
\* performs one directive; what is not specified is left out
Perform(d0) == LET o == Op(s, d0)  d == Do(s, o) IN
  IF d.res = "any" THEN UNCHANGED <<s, prog>>
  ELSE s' = d.s /\ prog' = Append(prog, o @@ [wit |-> WitOf(d), want |-> d.res])

Init == \E i \in DOMAIN Cfgs, j \in DOMAIN Fams :
          /\ ~(Cfgs[i].scheme # "ckks" /\ Fams[j].fam \in CkksOnly)
          /\ c = Cfgs[i].name /\ f = Fams[j]
          /\ s = Init0(Cfgs[i]) /\ prog = <<>> /\ todo = Pre(Cfgs[i], Fams[j].fam) /\ left = -1
Prepare == left = -1 /\ todo # <<>> /\ Perform(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<f, c, left>>
Begin == /\ left = -1 /\ todo = <<>>
         /\ IF f.fam \in Trees THEN left' = f.depth /\ todo' = <<>>
            ELSE LET w == Walk(s, f.fam) IN \E i \in DOMAIN w : todo' = w[i] /\ left' = 0
         /\ UNCHANGED <<s, prog, f, c>>
Branch == left > 0 /\ todo = <<>> /\ (\E d \in Tree(s, f.fam) : Perform(d)) /\ left' = left - 1 /\ UNCHANGED <<f, c, todo>>
Go == left = 0 /\ todo # <<>> /\ Perform(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<f, c, left>>
Emit == left = 0 /\ todo = <<>> /\ left' = -2 /\ PrintT("PROG " \o ToJson([cfg |-> c, fam |-> f.fam, ops |-> prog])) /\ UNCHANGED <<s, prog, f, c, todo>>
Next == Prepare \/ Begin \/ Branch \/ Go \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
