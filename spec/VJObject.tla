----------------------------- MODULE VJObject ------------------------------
(***************************************************************************)
(* The life of generated values.  Two objects of one tagged type go        *)
(* through New, UnmarshalJSON, FillFromJSON, assignment, MarshalJSON,      *)
(* IsZero, Reset and reuse of the input buffer; the invariants below are   *)
(* the listed properties stated on the model.  Which operations follow     *)
(* which, and which pool the documents and values are drawn from, is a     *)
(* script; each property has its own scripts (Scripts), and TLC explores   *)
(* every resolution of every script for every root type.  Every complete   *)
(* behaviour is printed and replayed on the generated code.                *)
(***************************************************************************)
EXTENDS VJDocs

Prop   == IOEnv.VJ_PROP
Shard  == atoi(IOEnv.VJ_SHARD)
Shards == atoi(IOEnv.VJ_SHARDS)

Op(op, o, pool) == [op |-> op, o |-> o, pool |-> pool]
Do(op, o) == Op(op, o, "")

Scripts ==
  CASE Prop = "C01" -> << << Op("set",1,"vals"), Do("enc",1) >>, << Op("dec",1,"good"), Do("enc",1), Do("reset",1), Do("enc",1) >> >>
    [] Prop = "C02" -> << << Op("set",1,"vals"), Do("enc",1) >>, << Op("dec",1,"good"), Do("enc",1) >> >>
    [] Prop = "C03" -> << << Op("set",1,"vals"), Op("back",1,"") >>, << Op("dec",1,"good"), Op("back",1,"") >> >>
    [] Prop = "C04" -> << << Op("dec",1,"good") >>, << Op("dec",1,"noise") >>, << Op("fill",1,"good") >>,
                          << Op("dec",1,"first"), Op("dec",1,"partial") >> >>
    [] Prop = "C05" -> << << Op("dec",1,"noise") >>, << Op("dec",1,"unknown") >>, << Op("dec",1,"good") >>,
                          << Op("dec",1,"first"), Op("fill",1,"unknown") >> >>
    [] Prop = "C06" -> << << Op("dec",1,"dup") >>, << Op("dec",1,"noise") >>, << Op("dec",1,"good") >> >>
    [] Prop = "C07" -> << << Op("dec",1,"partial") >>, << Op("dec",1,"first"), Op("dec",1,"partial") >>,
                          << Op("dec",1,"missing") >>, << Op("dec",1,"good") >> >>
    [] Prop = "C08" -> << << Op("dec",1,"kind") >>, << Op("dec",1,"good1") >> >>
    [] Prop = "C09" -> << << Op("dec",1,"range") >>, << Op("dec",1,"good") >> >>
    [] Prop = "C10" -> << << Op("dec",1,"bad") >> >>
    [] Prop = "C11" -> << << Op("dec",1,"null") >>, << Op("dec",1,"partial") >>, << Op("dec",1,"first"), Op("dec",1,"partial") >>, << Op("dec",1,"good") >> >>
    [] Prop = "C12" -> << << Op("dec",1,"first"), Op("dec",1,"refused"), Do("enc",1), Op("dec",1,"second"), Op("dec",2,"first") >>,
                          << Op("dec",1,"first"), Op("raw",1,"raw"), Do("enc",1), Op("dec",2,"first"), Do("enc",2) >>,
                          << Op("dec",1,"badfew"), Op("dec",2,"first"), Do("enc",2), Do("reset",1), Op("dec",1,"second") >> >>
    [] Prop = "C13" -> << << Op("set",1,"vals"), Do("reset",1), Do("enc",1), Op("dec",1,"one") >>,
                          << Op("dec",1,"few"), Do("reset",1), Op("dec",1,"few") >>,
                          << Op("dec",2,"first"), Op("dec",1,"badfew"), Do("reset",1), Op("dec",1,"second") >>,
                          << Op("dec",1,"few"), Op("dec",1,"few"), Do("reset",1), Op("dec",1,"partialfew") >>,
                          << Op("dec",1,"few"), Do("bulk",1), Do("enc",1), Op("dec",1,"one") >> >>
    [] Prop = "C14" -> << << Do("zero",1), Op("set",1,"vals"), Do("zero",1), Do("zero",2) >>,
                          << Op("dec",1,"good"), Do("zero",1), Do("reset",1), Do("zero",1) >> >>
    [] Prop = "C15" -> << << Op("dec",1,"good"), Do("keep",1), Op("dec",1,"few") >>,
                          << Op("dec",1,"some"), Do("keep",1), Op("dec",1,"few"), Op("dec",1,"partialfew") >>,
                          << Op("set",1,"vals"), Do("keep",1), Op("dec",1,"one") >> >>
    [] Prop = "C16" -> << << Op("dec",1,"good"), Do("scrib",0), Op("dec",2,"few"), Do("enc",1), Do("enc",2), Do("reset",2), Do("enc",1) >>,
                          << Op("fill",1,"good"), Do("enc",1), Op("fill",2,"few"), Do("scrib",0), Do("enc",2), Op("set",1,"second") >> >>
    [] Prop = "C17" -> << << Op("dec",1,"good"), Do("enc",1), Op("dec",2,"second"), Do("enc",2), Do("zero",1), Do("reset",1) >>,
                          << Op("set",1,"vals"), Do("share",1), Op("back",1,"") >>,
                          << Op("fill",1,"few"), Do("encto",1), Do("share",1), Op("dec",2,"few") >>,
                          << Op("dec",1,"badfew"), Op("dec",2,"second"), Do("enc",2) >> >>
    [] Prop = "C18" -> << << Op("set",1,"vals"), Do("enc",1), Do("enc",1), Do("zero",1), Do("encto",1) >>,
                          << Do("nilenc",1) >>, << Op("dec",1,"good"), Do("enc",1), Do("encto",1) >>,
                          << Op("fill",1,"good") >>, << Op("fill",1,"badfew") >>, << Op("dec",1,"badfew") >> >>
    [] OTHER -> << << Op("set",1,"vals"), Do("enc",1), Op("back",1,""), Do("zero",1), Do("reset",1), Do("zero",1), Do("enc",1) >>,
                   << Op("dec",1,"good"), Do("enc",1), Op("back",1,"") >>, << Op("dec",1,"noise") >>, << Op("fill",1,"good") >>,
                   << Op("dec",1,"first"), Op("dec",1,"partial"), Do("enc",1) >>, << Op("dec",1,"bad") >>,
                   << Op("dec",1,"few"), Op("dec",1,"few") >> >>

---------------------------------------------------------------------------
Fuel == IF Deep THEN 3 ELSE 2

Sel(bad, cs) == LET b == TLCEval(SelectSeq(bad, LAMBDA x : x.c \in cs)) IN [i \in 1..Len(b) |-> b[i].d]
(* at most n elements of s, spread over it, which ones depends on the seed *)
Spread(s, n) == IF Len(s) <= n THEN s
                ELSE [i \in 1..n |-> s[(((i - 1) * Len(s)) \div n) + 1 + (Seed % (Len(s) \div n))]]

Plain(t) == SelectSeq(GoodJ(t, "", Fuel), LAMBDA d : d.k # "null")
(* unknown members inside a nested object follow the rule of that object *)
NoiseIn(f, m, i) ==
  LET u == Under(f.t)
      e == IF u.k \in {"ptr","slice","map","array"} THEN u.e ELSE f.t
      wrap(d) == CASE u.k = "slice" -> JA(<< d >>) [] u.k = "map" -> JO(<< M("k1", d) >>)
                   [] u.k = "array" -> JA([j \in 1..u.n |-> d]) [] OTHER -> d
  IN IF Under(e).k # "struct" THEN <<>>
     ELSE LET g == Plain(e)[1].m IN
          MapS(LAMBDA d : JO([m EXCEPT ![i].v = wrap(d)]),
               (IF Strict(e) THEN <<>> ELSE Noise(Under(e), g)) \o << JO(Rev(g)) >>)

Docs(n, pool) ==
  LET t == Ref(n)
      u == Under(t)
      good == TLCEval(Plain(t))
      bad(cs) == Sel(BadJ(t, "", Fuel), cs)
      struct == u.k = "struct"
      ms == TLCEval(Members(u))
      nested == IF ~struct THEN <<>> ELSE Concat([i \in 1..Len(ms) |->
                   NoiseIn(ms[i], good[1].m, i)])
  IN CASE pool = "good"   -> good
       [] pool = "good1"  -> << good[1] >>
       [] pool = "first"  -> << good[1] >>
       [] pool = "second" -> << Cyc(good, 2) >>
       [] pool = "few"    -> IF Deep THEN Spread(good, 5) ELSE Spread(good, 3)
       [] pool = "one"    -> IF Deep THEN Spread(good, 3) ELSE << Cyc(good, 2 + (Seed % 3)) >>
       [] pool = "some"   -> IF Deep THEN good ELSE Spread(good, 3)
       [] pool = "noise"  -> IF struct THEN (IF Strict(t) THEN <<>> ELSE Noise(u, good[1].m)) \o << JO(Rev(good[1].m)) >> \o nested ELSE << good[1] >>
       [] pool = "partial" -> IF struct THEN Partial(ms, good[1].m) \o << good[Len(good)] >> ELSE << good[1] >>
       [] pool = "partialfew" -> IF struct THEN Spread(Partial(ms, good[1].m), 4) \o << good[Len(good)] >> ELSE << good[1] >>
       [] pool = "bad"    -> bad({"kind","range","null","len","b64","time","uuid","dup","unknown","missing"})
       [] pool = "badfew" -> LET b == bad({"kind","len","b64","time","uuid","missing"}) IN Spread(b, IF Deep THEN 12 ELSE 5)
       [] pool = "refused" -> LET b == BadJ(t, "", 0) IN Sel(b, {"dup","unknown"}) \o KindsBut({"obj","arr","str","num","bool"} \cap {IF u.k \in {"struct","map"} THEN "obj" ELSE IF u.k \in {"slice","array"} THEN "arr" ELSE "none"})
       [] pool = "raw"    -> << "", "{", "[1,", "{\"a\":1", "{\"a\" 1}", "nul", "{\"a\":1}x", "[1 2]", "{\"a\":1,,}", "\"abc", "{\"x\":\"\\ud800\\\"}", "}" >>
       [] pool = "kind"   -> bad({"kind","len","b64","time","uuid"})
       [] OTHER -> bad({pool})


ValPool(n, pool) ==
  LET v == TLCEval(Vals(Ref(n), "", Fuel))
  IN CASE pool = "second" -> << Cyc(v, 2) >>
       [] Deep -> v
       [] OTHER -> Spread(v, 40)

---------------------------------------------------------------------------
(* what is handed to the driver: texts only, it works out the facts itself *)
RECURSIVE BareD(_)
BareD(d) == CASE d.k \in {"num","str"} -> [k |-> d.k, s |-> d.s]
              [] d.k = "arr" -> [k |-> "arr", e |-> [i \in 1..Len(d.e) |-> BareD(d.e[i])]]
              [] d.k = "obj" -> [k |-> "obj", m |-> [i \in 1..Len(d.m) |-> [n |-> d.m[i].n, v |-> BareD(d.m[i].v)]]]
              [] OTHER -> d
RECURSIVE BareV(_)
BareV(v) == CASE v.k = "t" -> [k |-> "t", v |-> v.v]
              [] v.k = "p" -> Pv(BareV(v.e))
              [] v.k = "l" -> Lv([i \in 1..Len(v.e) |-> BareV(v.e[i])])
              [] v.k = "o" -> Ov([i \in 1..Len(v.f) |-> BareV(v.f[i])])
              [] v.k = "m" -> Mv([i \in 1..Len(v.e) |-> [n |-> v.e[i].n, v |-> BareV(v.e[i].v)]])
              [] OTHER -> v

(* the facts about a document made by Enc, from the table *)
RECURSIVE Known(_)
Known(d) == CASE d.k = "num" -> d.i \in DOMAIN Lex.num
              [] d.k = "str" -> d.s \in DOMAIN Lex.str
              [] d.k = "arr" -> \A i \in 1..Len(d.e) : Known(d.e[i])
              [] d.k = "obj" -> \A i \in 1..Len(d.m) : Known(d.m[i].v)
              [] OTHER -> TRUE
RECURSIVE Facts(_)
Facts(d) == CASE d.k = "num" -> JN(d.i)
              [] d.k = "str" -> JS(d.s)
              [] d.k = "arr" -> JA([i \in 1..Len(d.e) |-> Facts(d.e[i])])
              [] d.k = "obj" -> JO([i \in 1..Len(d.m) |-> [n |-> d.m[i].n, v |-> Facts(d.m[i].v)]])
              [] OTHER -> d

(* the facts about a document handed out by BareD *)
RECURSIVE Facts2(_)
Facts2(d) == CASE d.k = "num" -> JN(d.s)
              [] d.k = "str" -> JS(d.s)
              [] d.k = "arr" -> JA([i \in 1..Len(d.e) |-> Facts2(d.e[i])])
              [] d.k = "obj" -> JO([i \in 1..Len(d.m) |-> [n |-> d.m[i].n, v |-> Facts2(d.m[i].v)]])
              [] OTHER -> d

---------------------------------------------------------------------------
VARIABLES ty, scr, pc, objs, hist, bad
vars == << ty, scr, pc, objs, hist, bad >>

Script == Scripts[scr]
Mine == { Roots[i] : i \in { j \in 1..Len(Roots) : j % Shards = Shard } }

RECURSIVE HasMap(_)
HasMap(t) == LET u == Under(t) IN
             CASE u.k = "map" -> t.k # "ref"
               [] u.k = "struct" -> \E i \in 1..Len(u.f) : u.f[i].t.k # "ptr" /\ HasMap(u.f[i].t)
               [] OTHER -> FALSE
Asks(s, op) == \E i \in 1..Len(s) : s[i].op = op

Init == /\ ty \in Mine
        /\ scr \in { i \in 1..Len(Scripts) : Asks(Scripts[i], "bulk") => HasMap(Ref(ty)) }
        /\ pc = 1
        /\ objs = << Zero(Ref(ty)), Zero(Ref(ty)) >>
        /\ hist = <<>>
        /\ bad = {}

T0 == Ref(ty)
Step(rec) == /\ hist' = Append(hist, rec)
             /\ pc' = pc + 1
             /\ UNCHANGED << ty, scr >>
             /\ (pc = Len(Script) => PrintT("@H " \o ToJson([t |-> ty, s |-> hist'])))
Cur == Script[pc]
On(op) == pc <= Len(Script) /\ Cur.op = op

(* decode: everything or nothing as far as validation is concerned; after a *)
(* fault deep inside the model keeps the old value (the code may keep part) *)
Decode == /\ pc <= Len(Script) /\ Cur.op \in {"dec","fill"}
          /\ LET ds == TLCEval(Docs(ty, Cur.pool)) IN
             \E i \in 1..Len(ds) :
               LET r == Dec(Cx({}, "top"), T0, "", ds[i], objs[Cur.o]) IN
               /\ bad' = r.e
               /\ objs' = [objs EXCEPT ![Cur.o] = IF r.e = {} THEN r.v ELSE @]
               /\ Step([op |-> Cur.op, o |-> Cur.o, d |-> BareD(ds[i])])
Raw == /\ On("raw")
       /\ LET ds == Docs(ty, "raw") IN
          \E i \in 1..Len(ds) : Step([op |-> "raw", o |-> Cur.o, text |-> ds[i]])
       /\ bad' = {[p |-> <<>>, c |-> "syntax"]}
       /\ UNCHANGED objs
Assign == /\ On("set")
          /\ LET vs == TLCEval(ValPool(ty, Cur.pool)) IN
             \E i \in 1..Len(vs) :
               /\ objs' = [objs EXCEPT ![Cur.o] = vs[i]]
               /\ Step([op |-> "set", o |-> Cur.o, v |-> BareV(vs[i])])
          /\ bad' = {}
(* bulk: the maps of the object grow large, then it is reset *)
Reset == /\ On("reset") \/ On("bulk")
         /\ objs' = [objs EXCEPT ![Cur.o] = Zero(T0)]
         /\ Step([op |-> Cur.op, o |-> Cur.o])
         /\ bad' = {}
(* encode and read back into the second, new object *)
Roundtrip == /\ On("back")
             /\ objs' = [objs EXCEPT ![2] = Back({}, T0, "", objs[Cur.o])]
             /\ Step([op |-> "back", o |-> Cur.o])
             /\ bad' = {}
Observe == /\ pc <= Len(Script) /\ Cur.op \in {"enc","encto","share","nilenc","zero","scrib","keep"}
           /\ Step([op |-> Cur.op, o |-> Cur.o])
           /\ UNCHANGED objs
           /\ bad' = {}

Next == Decode \/ Raw \/ Assign \/ Reset \/ Roundtrip \/ Observe
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The properties, on the model                                            *)
LastDoc == hist[Len(hist)]
RECURSIVE Fits(_,_)
Fits(t, v) ==
  LET u == Under(t) IN
  CASE u.k = "ptr" -> v.k = "nil" \/ (v.k = "p" /\ Fits(u.e, v.e))
    [] u.k = "slice" -> v.k = "nil" \/ (v.k = "l" /\ \A i \in 1..Len(v.e) : Fits(u.e, v.e[i]))
    [] u.k = "array" -> v.k = "l" /\ Len(v.e) = u.n /\ \A i \in 1..Len(v.e) : Fits(u.e, v.e[i])
    [] u.k = "map"   -> v.k = "nil" \/ (v.k = "m" /\ \A x \in 1..Len(v.e) : Fits(u.e, v.e[x].v)
                                         /\ \A i, j \in 1..Len(v.e) : v.e[i].n = v.e[j].n => i = j)
    [] u.k = "struct" -> v.k = "o" /\ Len(v.f) = Len(u.f) /\ \A i \in 1..Len(u.f) : Fits(u.f[i].t, v.f[i])
    [] u.k = "time" -> v.k = "t" [] u.k = "uuid" -> v.k = "u" [] u.k = "bytesN" -> v.k = "y"
    [] u.k = "bytes" -> v.k \in {"nil","y"} [] u.k = "bool" -> v.k = "b" [] u.k = "string" -> v.k = "s"
    [] u.k \in FloatKinds -> v.k = "f"
    [] OTHER -> v.k = "i" /\ v.v \in DOMAIN Lex.num /\ InRange(u.k, Lex.num[v.v])

(* the object the last operation changed, if it did *)
Changed == { i \in 1..2 : hist # <<>> /\ bad = {} /\ \/ LastDoc.op \in {"dec","fill","set"} /\ i = LastDoc.o
                                                     \/ LastDoc.op = "back" /\ i = 2 }
TypeOK == \A i \in Changed : Fits(T0, objs[i])                               \* C09, C24
(* C01/C02: an object names every member once and only declared members *)
RECURSIVE NamesOnce(_,_)
NamesOnce(t, d) ==
  LET u == Under(t) IN
  CASE u.k = "ptr" -> NamesOnce(u.e, d)
    [] d.k = "obj" /\ u.k = "struct" ->
         /\ \A i, j \in 1..Len(d.m) : d.m[i].n = d.m[j].n => i = j
         /\ \A i \in 1..Len(d.m) : d.m[i].n \in NamesOf(u) /\ NamesOnce(FieldT(u, d.m[i].n), d.m[i].v)
    [] d.k = "obj" -> \A i \in 1..Len(d.m) : NamesOnce(u.e, d.m[i].v)
    [] d.k = "arr" -> \A i \in 1..Len(d.e) : NamesOnce(u.e, d.e[i])
    [] OTHER -> TRUE
EncodeOK == \A i \in Changed : NamesOnce(T0, Enc({}, T0, "", objs[i]))              \* C01, C02
(* C03: reading back what was written *)
RoundTripOK ==
  \A i \in Changed :
    LET d == TLCEval(Enc({}, T0, "", objs[i]))
    IN Known(d) =>
         LET r == Dec(Cx({}, "top"), T0, "", Facts(d), Zero(T0)) IN
         \/ r.e = {} /\ Same(r.v, Back({}, T0, "", objs[i]))
         \/ r.e # {} /\ \A e \in r.e : e.c \in {"required","time"}           \* a required member that is nil cannot be written
ZeroOK == hist = <<>> => IsZero({}, T0, Zero(T0))                                                \* C13, C14
(* C05/C06: what was accepted names no unknown and no repeated member *)
AcceptOK ==
  (hist # <<>> /\ LastDoc.op \in {"dec","fill"} /\ bad = {} /\ Under(T0).k = "struct") =>
     /\ \A n \in NamesOf(Under(T0)) : ~Twice(LastDoc.d.m, n)
     /\ Strict(T0) => \A i \in 1..Len(LastDoc.d.m) : LastDoc.d.m[i].n \in NamesOf(Under(T0))
(* C12: a refused document leaves the object as it was *)
RefusedOK == [][(bad' # {}) => objs' = objs]_vars
(* C15: decoding the same document again changes nothing *)
AgainOK ==
  (hist # <<>> /\ LastDoc.op \in {"dec","fill"} /\ bad = {}) =>
     LET d == Facts2(LastDoc.d)
         r == Dec(Cx({}, "top"), T0, "", d, objs[LastDoc.o]) IN r.e = {} /\ Same(r.v, objs[LastDoc.o])
=============================================================================
