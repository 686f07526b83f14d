-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Random programs over the operations of MKHE, for a profile of weights.  *)
(* Run with -simulate; every behaviour prints one program, with the secret *)
(* keys an observer needs to look at each result.                          *)
(* CFGS: file with one configuration per line; PROF: the profile.          *)
(***************************************************************************)
EXTENDS MKHE, Json, IOUtils

Cfgs == ndJsonDeserialize(IOEnv.CFGS)
Prof == ndJsonDeserialize(IOEnv.PROF)[1]

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

VARIABLES s, prog, np, nops, fin, cand,
          base,      \* concurrent programs: the state and program the threads start from
          thr        \* concurrent programs: the programs of the threads, so far
vars == <<s, prog, np, nops, fin, cand, base, thr>>
InThread == base.on

R(S) == RandomElement(S)
Pct(n) == R(1..100) <= n
RSeq(q) == q[R(1..Len(q))]

RECURSIVE SumW(_, _)
SumW(w, i) == IF i = 0 THEN 0 ELSE w[i][2] + SumW(w, i - 1)
RECURSIVE PickW(_, _, _)
PickW(w, i, x) == IF x <= w[i][2] THEN w[i][1] ELSE PickW(w, i + 1, x - w[i][2])
Pick(w) == PickW(w, 1, R(1..SumW(w, Len(w))))

(* ---------------------------------------------------------- messages *)
CSlot(mg, cx) == <<R(-mg..mg), IF cx THEN R(-mg..mg) ELSE 0>>
GenVal(c) ==
  LET L == Len_(c)
      sty == R(1..10)
      cx == Pct(70)
      ms == Prof.mscale
      hot == R(1..L)
      m == IF c.scheme = "ckks" THEN c.mag ELSE IF c.t = 0 THEN c.mag ELSE 0
  IN IF c.scheme = "ckks"
     THEN IF sty = 1 THEN TLCEval([i \in 1..L |-> <<0, 0>>])
          ELSE IF sty = 2 THEN TLCEval([i \in 1..L |-> IF i = hot THEN <<ms * m, -ms * m>> ELSE <<0, 0>>])
          ELSE IF sty = 3 THEN TLCEval([i \in 1..L |-> <<ms * m, ms * m>>])
          ELSE TLCEval([i \in 1..L |-> LET z == CSlot(m, cx) IN <<ms * z[1], ms * z[2]>>])
     ELSE IF c.t = 0 THEN
          IF sty = 1 THEN TLCEval([i \in 1..L |-> IF i = hot THEN -m ELSE 0])
          ELSE TLCEval([i \in 1..L |-> R(-m..m)])
     ELSE IF sty = 1 THEN TLCEval([i \in 1..L |-> 0])
          ELSE IF sty = 2 THEN TLCEval([i \in 1..L |-> IF i = hot THEN c.t - 1 ELSE 0])
          ELSE IF sty = 3 THEN TLCEval([i \in 1..L |-> RSeq(<<c.t - 1, c.t \div 2, c.t \div 2 + 1, 0, 1>>)])
          ELSE TLCEval([i \in 1..L |-> R(0..(c.t - 1))])
\* a short message: only the first len entries are given
Cut(c, v, len) == TLCEval([i \in 1..Len_(c) |-> IF i <= len THEN v[i] ELSE SZero(c)])
GenMsg(c) ==
  LET v == GenVal(c)
      short == c.rep = "full" /\ Pct(25)
      len == IF short THEN R(1..Len_(c)) ELSE Len_(c)
  IN [val |-> IF short THEN Cut(c, v, len) ELSE v, len |-> len, cent |-> Pct(40)]

(* ---------------------------------------------------------- choices *)
None == [op |-> "none"]
SomePt == IF Pct(50) THEN Len(s.pt) ELSE R(DOMAIN s.pt)
NCt == Len(s.ct)
AnyCt == IF Pct(50) THEN R(Max(1, NCt - 3)..NCt) ELSE R(1..NCt)
OkCts == {i \in 1..NCt : s.ct[i].ok}
\* ciphertexts of as many parties as there are
Wide == LET m == CHOOSE m \in 0..50 : (\E i \in OkCts : Cardinality(s.ct[i].ids) = m) /\ \A i \in OkCts : Cardinality(s.ct[i].ids) <= m
        IN {i \in OkCts : Cardinality(s.ct[i].ids) = m}
GoodCt == IF OkCts = {} \/ Pct(4) THEN AnyCt ELSE
          IF Pct(Prof.wide) THEN R(Wide) ELSE
          LET recent == {i \in OkCts : i > NCt - 5} IN IF recent # {} /\ Pct(50) THEN R(recent) ELSE R(OkCts)
KeysOf(k) == {u \in DOMAIN s.keys : s.keys[u].k = k}
GenSks == {u \in KeysOf("sk") : s.keys[u].crs = 0}
Ids == {s.keys[u].id : u \in KeysOf("sk")}
Names == Range(Prof.names)
FreshNames == Names \ Ids
\* (0 * nops: keeps TLC from evaluating these once and for all)
Dist == RSeq(IF nops < 0 THEN <<>> ELSE <<"uni", "uni", "uni", "sparse", "gauss", "dist">>)
JDist == RSeq(IF nops < 0 THEN <<>> ELSE <<"uni", "uni", "uni", "sparse", "gauss", "dist", "pair", "pair", "pairsp">>)
GCtx == R(1..(Prof.gctx + 0 * nops))
XCtx == R(1..(Prof.nx + 0 * nops))
RegNo == R(1..(Prof.regs + 0 * nops))
RotAmt ==
  LET h == s.c.half  z == R(1..12)  ks == s.c.rotk IN
  IF ks # <<>> /\ Pct(50) THEN RSeq(ks)
  ELSE IF z <= 5 THEN R((-h)..(2 * h)) ELSE IF z = 6 THEN 0 ELSE IF z = 7 THEN h ELSE IF z = 8 THEN -h
  ELSE IF z = 9 THEN R(1..1000000) ELSE IF z = 10 THEN -R(1..1000000) ELSE IF z = 11 THEN R(0..(h-1)) ELSE R(DOMAIN s.crs)
\* an amount further away: by 2^far, or -2^(-far), which is a multiple of the period (the specification does not look at it)
Far == IF Pct(90) THEN 0 ELSE R({24, 32, 40, 53, 61, 62}) * R({1, -1})
BlkFix(k) == IF s.c.rep = "blk" THEN k * (s.c.slots \div s.c.n) ELSE k
OtherKind == RSeq(IF nops < 0 THEN <<>> ELSE <<"sk", "pk", "rlk", "rot", "cjk">>)

Consts == << <<2, 0, 1>>, <<-1, 0, 1>>, <<0, 0, 1>>, <<3, 0, 1>>, <<-7, 0, 1>>, <<1000, 0, 1>>, <<1, 0, 2>>, <<-3, 0, 2>>, <<1, 0, 4>>, <<5, 0, 4>>,
             <<0, 1, 1>>, <<1, 1, 1>>, <<-2, 3, 1>>, <<0, -1, 1>>, <<1, 1, 2>>, <<0, 1, 2>>, <<3, -1, 4>>, <<2, 1, 2>>, <<65535, 0, 1>>, <<1, -5, 1>>, <<0, -1, 2>> >>
BigConsts == << <<65535, 0, 2>>, <<-131071, 0, 4>>, <<1048577, 0, 2>>, <<524289, -524287, 2>>, <<3000001, 0, 4>>, <<-2000003, 7, 1>>, <<0, 1000001, 2>>,
                <<1000000, 0, 1>>, <<-16777215, 0, 4>> >>
\* constants no floating point number holds
OddConsts == << <<1, 0, 3>>, <<2, 0, 3>>, <<-1, 0, 5>>, <<7, 0, 5>>, <<1, 2, 5>>, <<4, -2, 3>>, <<0, 7, 5>>, <<22, 0, 15>>, <<-100001, 0, 3>>, <<1, 0, 15>> >>
ConstTy(k) == IF k[3] = 1 /\ k[2] = 0
              THEN IF k[1] >= 0 THEN RSeq(<<"int", "int64", "uint64", "float64", "complex128">>)
                   ELSE RSeq(<<"int", "int64", "float64", "complex128">>)
              ELSE IF k[2] = 0 THEN RSeq(<<"float64", "complex128">>) ELSE "complex128"
CMul(name, a) == LET k == RSeq(IF Pct(Prof.oddc) THEN OddConsts ELSE IF Pct(Prof.bigc) THEN BigConsts ELSE Consts) IN
  [op |-> name, a |-> a, re |-> k[1], im |-> k[2], den |-> k[3], ty |-> ConstTy(k)]

Target == \* rescaling targets around the possible scales
  LET z == R(1..10)  sb == s.c.sb IN
  IF z = 1 THEN <<0, 0>> ELSE IF z = 2 THEN <<-1, 3>> ELSE IF z <= 5 THEN <<1, sb>>
  ELSE <<RSeq(<<1, 3, 5>>), R(Max(1, sb - 45)..(sb + 45))>>

\* twice the scale after one division: the boundary
TargetOf(x) == IF x.lev > 0 /\ x.m > 0 /\ (x.cq = x.lev + 1 \/ Pct(10)) /\ Pct(60) THEN <<x.m, x.b - s.c.qb[x.lev + 1] + RSeq(<<1, 1, 1, 2>>)>> ELSE Target
\* preferably one whose scale holds the prime of its level
RescCt == LET q == {i \in OkCts : s.ct[i].cq = s.ct[i].lev + 1} IN IF q # {} /\ Pct(50) THEN R(q) ELSE GoodCt
HstOf(a) == {h \in DOMAIN s.hst : HstFor(s, h, a)}
SomeHst(a) == IF HstOf(a) # {} /\ Pct(94) THEN R(HstOf(a))
              ELSE IF Len(s.hst) > 0 /\ Pct(60) THEN R(DOMAIN s.hst) ELSE 0

GenDec(a) ==
  LET w == Wit(s, s.ct[a])
      ids == s.ct[a].ids
      z == R(1..10)
      extra == {u \in KeysOf("sk") : s.keys[u].id \notin ids}
      i == R(w)
      others == {u \in KeysOf("sk") : u # i /\ s.keys[u].id = s.keys[i].id}
      set == IF z <= 3 THEN w
             ELSE IF z <= 5 THEN w \cup extra
             ELSE IF z <= 6 THEN (IF w = {} THEN extra ELSE w \ {i})
             ELSE IF z <= 8 THEN (IF w = {} THEN extra ELSE (w \ {i}) \cup extra)    \* keys of others do not make up for it
             ELSE IF w # {} /\ others # {} THEN (w \ {i}) \cup {R(others)}
             ELSE w \cup extra
      \* at most one key per party
      Newest(u) == \A v \in set : (s.keys[v].id = s.keys[u].id) => v <= u
  IN [op |-> "dec", x |-> XCtx, a |-> a, sks |-> SetToSeq({u \in set : u \in w \/ Newest(u)})]

GenOp(kind) ==
  CASE kind = "join"   -> IF FreshNames = {} THEN None
                          ELSE [op |-> "join", g |-> GCtx, id |-> R(FreshNames), dist |-> JDist]
    [] kind = "renew"  -> IF Ids = {} THEN None ELSE [op |-> "join", g |-> GCtx, id |-> R(Ids), dist |-> JDist]
    [] kind = "gensk"  -> [op |-> "gensk", g |-> GCtx, id |-> IF Pct(70) \/ Ids = {} THEN R(Names) ELSE R(Ids), dist |-> Dist]
    [] kind = "alias"  -> IF GenSks = {} THEN None ELSE
                          LET u == R(GenSks)  t == {i \in Ids : i # s.keys[u].id}
                          IN IF t = {} THEN None ELSE [op |-> "alias", sk |-> u, id |-> R(t)]
    [] kind \in {"genpk", "genrlk", "gencjk"} -> IF GenSks = {} THEN None ELSE [op |-> kind, g |-> GCtx, sk |-> R(GenSks)]
    [] kind = "genrot" -> IF GenSks = {} THEN None ELSE
                          [op |-> "genrot", g |-> GCtx, sk |-> R(GenSks),
                           idx |-> LET z == R(1..10) IN IF z <= 6 THEN R(DOMAIN s.crs) ELSE IF z <= 8 THEN R(1..(s.c.half - 1)) ELSE -R(1..(s.c.half - 1)),
                           far |-> IF Pct(85) THEN 0 ELSE -R({24, 40, 61, 62})]
    [] kind = "gendef" -> IF GenSks = {} THEN None ELSE [op |-> "gendef", g |-> GCtx, sk |-> R(GenSks), r |-> RegNo]
    [] kind = "regrot" -> \* register a key made for a dedicated reference
                          LET q == {u \in KeysOf("rot") : s.keys[u].crs = s.crs[s.keys[u].idx]} IN
                          IF q = {} THEN None ELSE [op |-> "reg", r |-> RegNo, key |-> R(q)]
    [] kind = "reg"    -> LET kd == OtherKind  q == KeysOf(kd) IN
                          IF q = {} THEN None ELSE [op |-> "reg", r |-> RegNo, key |-> R(q)]
    [] kind = "regnew" -> \* register a not yet registered key
                          LET q == {u \in DOMAIN s.keys : \A e \in s.reg : e.key # u} IN
                          IF q = {} THEN None ELSE [op |-> "reg", r |-> RegNo, key |-> R(q)]
    [] kind = "keycopy" -> LET q == GenSks \cup KeysOf("pk") IN IF q = {} THEN None ELSE [op |-> "keycopy", key |-> R(q)]
    [] kind \in {"del", "get"} ->
                          IF s.reg # {} /\ Pct(70) THEN LET e == R(s.reg) IN
                               [op |-> kind, k |-> e.k, r |-> e.r, id |-> e.id, idx |-> e.idx]
                          ELSE LET kd == OtherKind IN
                               [op |-> kind, k |-> kd, r |-> RegNo, id |-> R(Names), idx |-> IF kd = "rot" THEN R(DOMAIN s.crs) ELSE 0]
    [] kind = "addcrs" -> [op |-> "addcrs", idx |-> IF Pct(Prof.recrs) THEN R(1..(s.c.half - 1))
                                                   ELSE LET q == (1..(s.c.half - 1)) \ DOMAIN s.crs IN IF q = {} THEN R(1..(s.c.half-1)) ELSE R(q)]
    [] kind = "enc"    -> IF KeysOf("pk") = {} THEN None ELSE
                          LET m == GenMsg(s.c) IN [op |-> "enc", x |-> XCtx, pk |-> R(KeysOf("pk")), val |-> m.val, len |-> m.len, cent |-> m.cent]
    [] kind = "encode" -> LET m == GenMsg(s.c)
                              full == Ckks(s) /\ Pct(40)
                          IN [op |-> "encode", x |-> XCtx, val |-> m.val, len |-> m.len, cent |-> m.cent,
                              lev |-> IF Ckks(s) /\ ~full THEN R(0..s.c.maxlev) ELSE s.c.maxlev,
                              m |-> IF full \/ ~Ckks(s) THEN 1 ELSE RSeq(<<1, 1, 1, 2, 3, 5>>),
                              b |-> IF full \/ ~Ckks(s) \/ Pct(40) THEN s.c.sb ELSE R(Max(5, s.c.sb - 10)..(s.c.sb + 6))]
    [] kind = "reenc"  -> IF s.pt = <<>> THEN None ELSE
                          LET m == GenMsg(s.c)
                          IN [op |-> "reenc", x |-> XCtx, pt |-> SomePt, val |-> m.val, len |-> m.len, cent |-> m.cent,
                              m |-> IF ~Ckks(s) THEN 1 ELSE RSeq(<<1, 1, 1, 3>>),
                              b |-> IF ~Ckks(s) \/ Pct(60) THEN s.c.sb ELSE R(Max(5, s.c.sb - 10)..(s.c.sb + 6))]
    [] kind = "encpt"  -> IF s.pt = <<>> \/ KeysOf("pk") = {} THEN None ELSE
                          [op |-> "encpt", x |-> XCtx, pk |-> R(KeysOf("pk")), pt |-> R(DOMAIN s.pt), lev |-> IF Ckks(s) THEN R(0..s.c.maxlev) ELSE s.c.maxlev]
    [] kind = "zero"   -> [op |-> "zero", ids |-> SetToSeq(IF Pct(60) \/ Ids = {} THEN {} ELSE {R(Ids)}), lev |-> IF Ckks(s) THEN R(0..s.c.maxlev) ELSE s.c.maxlev]
    [] kind \in {"snew"} -> [op |-> "snew"]
    [] kind = "sadd"   -> IF s.sets = <<>> THEN None ELSE [op |-> "sadd", i |-> R(DOMAIN s.sets), id |-> IF Pct(12) THEN "0" ELSE R(Names)]
    [] kind = "srem"   -> IF s.sets = <<>> THEN None ELSE [op |-> "srem", i |-> R(DOMAIN s.sets), id |-> R(Names)]
    [] kind = "scopy"  -> IF s.sets = <<>> THEN None ELSE [op |-> "scopy", i |-> R(DOMAIN s.sets)]
    [] kind \in {"sunion", "sinter"} -> IF s.sets = <<>> THEN None ELSE [op |-> kind, i |-> R(DOMAIN s.sets), j |-> R(DOMAIN s.sets)]
    [] NCt = 0 -> None
    [] kind = "sof"    -> [op |-> "sof", a |-> AnyCt]
    [] kind = "encinto" -> IF KeysOf("pk") = {} THEN None ELSE
                          LET m == GenMsg(s.c)  a == AnyCt
                              q == {u \in KeysOf("pk") : s.ct[a].ids = {s.keys[u].id}}
                          IN IF q = {} THEN None ELSE
                             [op |-> "encinto", x |-> XCtx, a |-> a, pk |-> R(q), val |-> m.val, len |-> m.len, cent |-> m.cent]
    [] kind = "grow"   -> \* towards a ciphertext of all parties
                          LET a == IF OkCts = {} THEN 0 ELSE R(Wide)
                              q == IF a = 0 THEN {} ELSE {i \in OkCts : ~(s.ct[i].ids \subseteq s.ct[a].ids)}
                          IN IF q = {} THEN None ELSE [op |-> "add", x |-> XCtx, a |-> a, b |-> R(q)]
    [] kind \in {"add", "sub"} -> LET a == GoodCt IN [op |-> kind, x |-> XCtx, a |-> a, b |-> IF Pct(8) THEN a ELSE GoodCt]
    [] kind = "mul"    -> LET a == GoodCt IN [op |-> "mul", x |-> XCtx, r |-> RegNo, a |-> a, b |-> IF Pct(12) THEN a ELSE GoodCt]
    [] kind = "mulks"  -> LET a == GoodCt IN [op |-> "mulks", x |-> XCtx, r |-> RegNo, a |-> a, b |-> IF Pct(12) THEN a ELSE GoodCt,
                                              ha |-> R(0..1), hb |-> R(0..1)]
    [] kind = "mulh" /\ ~Ckks(s) -> None
    [] kind = "mulh"   -> LET a == GoodCt  b == IF Pct(15) THEN a ELSE GoodCt IN
                          [op |-> "mulh", x |-> XCtx, r |-> RegNo, a |-> a, b |-> b, ha |-> SomeHst(a), hb |-> SomeHst(b)]
    [] kind = "hoist"  -> [op |-> "hoist", x |-> XCtx, a |-> GoodCt]
    [] kind = "roth"   -> IF s.hst = <<>> THEN None ELSE
                          LET a == IF Pct(80) THEN s.hst[R(DOMAIN s.hst)].of ELSE GoodCt
                              h == SomeHst(a)
                          IN IF h = 0 THEN None ELSE
                             [op |-> "roth", x |-> XCtx, r |-> RegNo, a |-> a, h |-> h,
                              k |-> IF Pct(85) THEN R(DOMAIN s.crs) + s.c.half * R(-1..1) ELSE BlkFix(RotAmt), far |-> Far]
    [] kind = "rot"    -> [op |-> "rot", x |-> XCtx, r |-> RegNo, a |-> GoodCt, k |-> BlkFix(RotAmt), far |-> Far]
    [] kind = "conj"   -> [op |-> "conj", x |-> XCtx, r |-> RegNo, a |-> GoodCt]
    [] kind \in {"drop", "dropin"} -> LET a == GoodCt IN [op |-> kind, x |-> XCtx, a |-> a, k |-> R(0..s.ct[a].lev)]
    [] kind \in {"resc", "rescin", "rescto"} ->
         CHOOSE o \in {[op |-> kind, x |-> XCtx, a |-> p[1], m |-> p[2][1], b |-> p[2][2]] : p \in {<<a, TargetOf(s.ct[a])>> : a \in {RescCt}}} : TRUE
    [] kind = "setscale" -> [op |-> "setscale", a |-> AnyCt, m |-> 0]
    [] kind \in {"cmul", "cmulin"} -> CMul(kind, GoodCt) @@ [x |-> XCtx]
    [] kind = "pmul"   -> IF s.pt = <<>> THEN None ELSE [op |-> "pmul", x |-> XCtx, a |-> GoodCt, pt |-> SomePt]
    [] kind = "copy"   -> [op |-> "copy", a |-> AnyCt, v |-> R(0..1)]
    [] kind = "scribble" -> [op |-> "scribble", a |-> AnyCt]
    [] kind = "pad"    -> [op |-> "pad", a |-> AnyCt, ids |-> SetToSeq(R(SUBSET (IF Cardinality(Ids) > 5 THEN {R(Ids), R(Ids)} ELSE Ids)))]
    [] kind = "dec"    -> GenDec(GoodCt)
    [] kind = "pdec"   -> LET a == GoodCt  w == Wit(s, s.ct[a]) IN
                          IF w # {} /\ Pct(85) THEN [op |-> "pdec", x |-> XCtx, a |-> a, sk |-> R(w)]
                          ELSE IF KeysOf("sk") = {} THEN None
                          ELSE [op |-> "pdec", x |-> XCtx, a |-> a, sk |-> R(KeysOf("sk"))]
    [] kind = "pdecall" -> LET q == {i \in OkCts : s.ct[i].ids # {}} IN   \* continue a distributed decryption
                          IF q = {} THEN None ELSE
                          LET a == R(q) IN [op |-> "pdec", x |-> XCtx, a |-> a, sk |-> R(Wit(s, s.ct[a]))]
    [] OTHER -> None

InPlace == {"scribble", "pdec", "setscale", "encinto", "dropin", "rescin", "cmulin", "pad"}
\* a thread leaves alone what it shares with the others
Private(o) ==
  \/ ~InThread
  \/ /\ o.op \notin {"join", "reg", "del", "gendef", "addcrs"}
     /\ o.op \in InPlace => o.a > Len(base.s.ct)
     /\ o.op = "reenc" => o.pt > Len(base.s.pt)
     /\ o.op \in {"sadd", "srem"} => o.i > Len(base.s.sets)
Accept(o, d) ==
  /\ d.res # "any"
  /\ Private(o)
  /\ d.res = "refused" => Pct(Prof.pref)
  /\ (d.res = "ok" /\ d.t > 0 /\ o.op \notin {"scribble", "setscale"}) =>
       (d.s.ct[d.t].ok \/ Pct(IF o.op = "pdec" THEN 10 ELSE Prof.pbad))
  /\ (o.op \in InPlace /\ d.res = "ok") => TRUE

RECURSIVE Try(_, _)
Try(kinds, n) ==
  IF n = 0 THEN None
  ELSE LET o == TLCEval(GenOp(IF kinds = <<>> THEN Pick(IF InThread THEN Prof.wt ELSE Prof.w) ELSE RSeq(kinds))) IN
       IF o.op = "none" THEN Try(kinds, n - 1)
       ELSE IF Accept(o, Do(s, o)) THEN o ELSE Try(kinds, n - 1)

Setup == IF Cardinality(Ids) < np THEN <<"join">>
         ELSE IF Len(s.ct) < Prof.c0 THEN (IF KeysOf("pk") # {} THEN Prof.enc0 ELSE <<"genpk">>)
         ELSE IF Prof.wide > 0 /\ OkCts # {} /\ \A i \in Wide : s.ct[i].ids # UNION {s.ct[j].ids : j \in OkCts} THEN <<"grow">>
         ELSE <<>>

WitOf(d) == IF d.t = 0 \/ d.res # "ok" THEN <<>> ELSE SetToSeq(Wit(d.s, d.s.ct[d.t]))

Init == /\ s \in {Init0(Cfgs[i]) : i \in DOMAIN Cfgs}
        /\ np \in Range(Prof.p0)
        /\ prog = <<>> /\ nops = 0 /\ fin = FALSE /\ cand = None
        /\ base = [on |-> FALSE, s |-> s, prog |-> <<>>] /\ thr = <<>>

\* choosing an operation and performing it are separate steps, so that the
\* random choice is made exactly once
Choose == /\ ~fin /\ nops < Prof.len /\ cand.op = "none"
          /\ cand' = Try(IF InThread THEN <<>> ELSE Setup, 12)
          /\ nops' = nops + 1
          /\ UNCHANGED <<s, prog, np, fin, base, thr>>
Perform == /\ cand.op # "none"
           /\ LET d == Do(s, cand) IN
              IF d.res = "any" THEN UNCHANGED <<s, prog>>
              ELSE /\ s' = d.s
                   /\ prog' = Append(prog, cand @@ [wit |-> WitOf(d), want |-> d.res])
           /\ cand' = None
           /\ UNCHANGED <<np, nops, fin, base, thr>>
Full == ~fin /\ nops >= Prof.len /\ cand.op = "none"
Emit == /\ Full /\ Prof.thr = 0 /\ fin' = TRUE
        /\ PrintT("PROG " \o ToJson([cfg |-> s.c.name, ops |-> prog]))
        /\ UNCHANGED <<s, prog, np, nops, cand, base, thr>>
\* concurrent programs: every thread starts again from the state the common prefix led to
Fork == /\ Full /\ Prof.thr > 0 /\ (IF InThread THEN Len(thr) + 1 < Prof.thr ELSE TRUE)
        /\ base' = IF InThread THEN base ELSE [on |-> TRUE, s |-> s, prog |-> prog]
        /\ thr' = IF InThread THEN Append(thr, prog) ELSE thr
        /\ s' = base'.s /\ prog' = <<>>
        /\ nops' = Prof.len - Prof.tlen
        /\ UNCHANGED <<np, fin, cand>>
EmitPar == /\ Full /\ InThread /\ Len(thr) + 1 = Prof.thr /\ fin' = TRUE
           /\ PrintT("PROG " \o ToJson([cfg |-> s.c.name, ops |-> base.prog, thr |-> Append(thr, prog)]))
           /\ UNCHANGED <<s, prog, np, nops, cand, base, thr>>
Next == Choose \/ Perform \/ Emit \/ Fork \/ EmitPar
Spec == Init /\ [][Next]_vars
=============================================================================
