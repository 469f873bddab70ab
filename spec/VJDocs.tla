------------------------------- MODULE VJDocs ------------------------------
(***************************************************************************)
(* The documents and values every type of the catalogue is exercised with: *)
(* documents it must accept, documents with exactly one fault (and the     *)
(* class of that fault), and Go values covering the states of emptiness of *)
(* every member.                                                           *)
(***************************************************************************)
EXTENDS VJSem

Deep == IOEnv.VJ_TIER = "thorough"
Seed == atoi(IOEnv.VJ_SEED)

NumDocs == [s \in DOMAIN Lex.num |-> [k |-> "num", s |-> s] @@ Lex.num[s]]
StrDocs == [s \in DOMAIN Lex.str |-> [k |-> "str", s |-> s] @@ Lex.str[s]]
JN(s)  == NumDocs[s]
JS(s)  == StrDocs[s]
JB(b)  == [k |-> "bool", v |-> b]
JA(e)  == [k |-> "arr", e |-> e]
JO(m)  == [k |-> "obj", m |-> m]
M(n, v) == [n |-> n, v |-> v]

Cyc(s, i) == s[((i - 1) % Len(s)) + 1]
Min2(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
MapS(Op(_), s) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])

---------------------------------------------------------------------------
(* the members of an object of struct type u, in declared order, the       *)
(* inlined ones included                                                   *)
RECURSIVE Members(_)
Members(u) ==
  Concat([i \in 1..Len(u.f) |->
    IF Ignored(u.f[i]) THEN <<>>
    ELSE IF Flat(u.f[i]) THEN Members(Under(u.f[i].t))
    ELSE << u.f[i] >>])

GoodInts(k) ==
  CASE k = "int8"  -> <<"7","0","-128","127","-1">>
    [] k = "int16" -> <<"7","0","-32768","32767","300">>
    [] k = "int32" -> <<"7","0","-2147483648","2147483647","70000">>
    [] k \in {"int","int64"} -> <<"7","0","-9223372036854775808","9223372036854775807","-5000000000">>
    [] k = "uint8"  -> <<"7","0","255","42">>
    [] k = "uint16" -> <<"7","0","65535","300">>
    [] k = "uint32" -> <<"7","0","4294967295","70000">>
    [] k \in {"uint","uint64"} -> <<"7","0","18446744073709551615","5000000000">>
BadInts(k) ==
  CASE k = "int8"  -> <<"128","-129","300","256","-200","384","100000000000000000000">>
    [] k = "int16" -> <<"32768","-32769","70000","65536","-40000">>
    [] k = "int32" -> <<"2147483648","-2147483649","5000000000","4294967296","-3000000000">>
    [] k \in {"int","int64"} -> <<"9223372036854775808","-9223372036854775809","18446744073709551616","-100000000000000000000">>
    [] k = "uint8"  -> <<"256","-1","300","384","-200">>
    [] k = "uint16" -> <<"65536","-1","70000","65537">>
    [] k = "uint32" -> <<"4294967296","-1","5000000000","4294967297">>
    [] k \in {"uint","uint64"} -> <<"18446744073709551616","-1","99999999999999999999999999">>

GoodTimes(l) ==
  CASE l = "" -> <<"2021-02-03T04:05:06.123456789+03:00","2021-02-03T04:05:06Z","2020-02-29 12:30:00+05:30","29.02.2020 12:30:00Z","0001-01-01T00:00:00Z","1999-12-31T23:59:59-08:00">>
    [] l = "2006-01-02" -> <<"2021-02-03","1970-01-01">>
    [] l = "Mon, 02 Jan 2006 15:04:05 MST" -> <<"Mon, 02 Jan 2006 15:04:05 UTC","Tue, 10 Nov 2009 23:00:00 UTC">>
    [] l = "2006-01-02T15:04:05Z07:00" -> <<"2021-02-03T04:05:06Z","1999-12-31T23:59:59-08:00">>
    [] l = "02.01.2006 15:04" -> <<"10.11.2009 23:00">>
    [] l = "15:04:05.000" -> <<"13:14:15.678","00:00:00.000">>
    [] l = "2006-01-02T15:04:05.999999999Z07:00" -> <<"2021-02-03T04:05:06.789Z","1999-12-31T23:59:59-08:00">>
    [] l = "Jan _2 2006" -> <<"Feb  3 2021","Dec 31 1999">>
    [] l = "time.RFC1123Z" -> <<"Tue, 10 Nov 2009 23:00:00 +0300","Mon, 01 Mar 2021 00:00:00 +0000">>
    [] l = "time.Kitchen" -> <<"1:14PM","12:00AM">>
    [] l = "time.RFC3339Nano" -> <<"2021-02-03T04:05:06.789Z","1999-12-31T23:59:59-08:00">>
(* only texts the layout cannot read *)
TimeTexts == <<"not a time","","2021-02-03","2021-02-03T04:05:06Z","2021-13-01","31.12.1999","10.11.2009 23:00","2021-02-30T00:00:00Z","2021-02-03T04:05:06","13:14:15.678","1:14PM","time.Kitchen">>
BadTimes(l) == SelectSeq(TimeTexts, LAMBDA s : l \notin DOMAIN Lex.str[s].t)

GoodB64(u) ==
  IF u.k = "bytes" THEN <<"AQID","","3q2+7w==","//79/A==","/+8=">>
  ELSE CASE u.n = 0 -> <<"">> [] u.n = 1 -> <<"AQ==","AA==">> [] u.n = 3 -> <<"AQID">> [] u.n = 4 -> <<"3q2+7w==","AQIDBA==","//79/A==">>
         [] u.n = 16 -> <<"AAECAwQFBgcICQoLDA0ODw==">>
BadB64(u) ==
  <<"!!!!","AQ=","AQI","_-8=">>
BadLen(u) == SelectSeq(<<"AQID","","AQIDBA==","AQIDBAU=","AAECAwQFBgcICQoLDA0ODw==">>, LAMBDA s : Lex.str[s].yn # u.n)

GoodStrs == <<"a","","@uni","@esc","null","@ctl","@html","@long">>
GoodUUIDs == <<"6ba7b810-9dad-11d1-80b4-00c04fd430c8","00000000-0000-0000-0000-000000000000","6BA7B810-9DAD-11D1-80B4-00C04FD430C9","urn:uuid:6ba7b811-9dad-11d1-80b4-00c04fd430c8","6ba7b8109dad11d180b400c04fd430ca">>
BadUUIDs == <<"not a uuid","","6ba7b810-9dad-11d1-80b4-00c04fd430c","6ba7b810-9dad-11d1-80b4-00c04fd430cg">>
GoodFloats(k) == IF k = "float64" THEN <<"1.5","0","-2.25","123456.789","1e-7","1e22","0.1","-7">>
                 ELSE <<"1.5","0","-2.25","16777216","0.1","3.4e38","1e3">>
BadFloats(k)  == IF k = "float64" THEN <<"1e309","-1e309","1e400">> ELSE <<"1e39","-1e39","3.5e38","1e308">>

Keys == <<"k1","@uni","","a.b","k5","k6","k7","k8","k9">>
AsMap(ds) == JO([i \in 1..Len(ds) |-> M(Keys[i], ds[i])])

(* computed once *)
AtomKinds == ScalarKinds \cup {"uuid"}
GoodAtom == [k \in AtomKinds |->
  CASE k = "bool" -> << JB("true"), JB("false") >>
    [] k \in IntegerKinds -> MapS(JN, GoodInts(k))
    [] k \in FloatKinds -> MapS(JN, GoodFloats(k))
    [] k = "string" -> MapS(JS, GoodStrs)
    [] k = "uuid" -> MapS(JS, GoodUUIDs)]
Faulty(c, ds) == [i \in 1..Len(ds) |-> [d |-> ds[i], c |-> c]]
KindsBut(ks) == SelectSeq(<< JN("1"), JN("0"), JS("a"), JS(""), JS("1"), JB("true"), JB("false"), JA(<<>>), JO(<<>>), JA(<< JN("1") >>), JO(<< M("a", JN("1")) >>) >>,
                    LAMBDA d : d.k \notin ks)
NullBad == << [d |-> JNull, c |-> "null"] >>
BadAtom == [k \in AtomKinds |->
  CASE k = "bool" -> Faulty("kind", KindsBut({"bool"})) \o NullBad
    [] k \in IntegerKinds ->
         Faulty("kind", KindsBut({"num"}) \o << JN("1.5"), JN("-0.25"), JN("1e3") >>) \o NullBad
         \o Faulty("range", MapS(JN, BadInts(k)))
    [] k \in FloatKinds -> Faulty("kind", KindsBut({"num"})) \o NullBad
         \o Faulty("range", MapS(JN, BadFloats(k)))
    [] k = "string" -> Faulty("kind", KindsBut({"str"})) \o NullBad
    [] k = "uuid" -> Faulty("kind", KindsBut({"str"})) \o NullBad \o Faulty("uuid", MapS(JS, BadUUIDs))]
Layouts == UNION { DOMAIN Lex.time[x].x : x \in DOMAIN Lex.time }
GoodTimeDocs == [l \in Layouts |-> MapS(JS, GoodTimes(l))]
BadTimeDocs  == [l \in Layouts |-> Faulty("kind", KindsBut({"str"})) \o NullBad \o Faulty("time", MapS(JS, BadTimes(l)))]

(* a required member cannot be null *)
Needed(f) == IsReq(f) /\ f.d = ""
Allowed(g, f) == IF Needed(f) /\ Nullable(f.t)
                 THEN SelectSeq(g, LAMBDA d : d.k # "null") ELSE g
(* as an element, null is defined for pointers only *)
AsElem(g, t) == IF Under(t).k = "ptr" THEN g ELSE SelectSeq(g, LAMBDA d : d.k # "null")

(* Fuel bounds the depth of recursive types *)
RECURSIVE GoodJ(_,_,_)
GoodJ(t, l, fuel) ==
  LET u == Under(t) IN
  CASE u.k \in AtomKinds -> GoodAtom[u.k]
    [] u.k = "time" -> GoodTimeDocs[l]
    [] u.k \in {"bytes","bytesN"} -> Append(MapS(JS, GoodB64(u)), JNull)
    [] u.k = "ptr" -> IF fuel = 0 THEN << JNull >> ELSE Append(GoodJ(u.e, l, fuel), JNull)
    [] u.k = "slice" ->
         IF fuel = 0 THEN << JNull, JA(<<>>) >>
         ELSE LET g == TLCEval(Take(AsElem(GoodJ(u.e, "", fuel), u.e), 8)) IN
              << JA(g), JA(<<>>), JA(<< g[1] >>), JNull, JA(Rev(g)), JA(<< Cyc(g,2), Cyc(g,2), g[1] >>) >>
    [] u.k = "array" ->
         LET g == TLCEval(AsElem(GoodJ(u.e, "", fuel), u.e)) IN
         << JA([i \in 1..u.n |-> Cyc(g, i)]), JA([i \in 1..u.n |-> Cyc(g, i+1)]), JNull,
            JA([i \in 1..u.n |-> Cyc(g, i + u.n)]) >>
    [] u.k = "map" ->
         IF fuel = 0 THEN << JNull, JO(<<>>) >>
         ELSE LET g == TLCEval(Take(AsElem(GoodJ(u.e, "", fuel), u.e), 8)) IN
              << AsMap(g), JO(<<>>), JO(<< M("k1", g[1]) >>), JNull, AsMap(Take(Rev(g), 4)), JO(<< M("k2", Cyc(g,2)), M("@uni", Cyc(g,3)) >>) >>
    [] u.k = "struct" ->
         LET ms == TLCEval(Members(u))
             g  == TLCEval([i \in 1..Len(ms) |-> Allowed(GoodJ(ms[i].t, ms[i].l, IF fuel > 0 THEN fuel - 1 ELSE IF Needed(ms[i]) THEN 1 ELSE 0), ms[i])])
             n  == Min2(8, MaxOf({1} \cup { Len(g[i]) : i \in 1..Len(ms) }))
             full(j) == JO([i \in 1..Len(ms) |-> M(ms[i].n, Cyc(g[i], j + ((i - 1) \div 3)))])
             req  == SelectSeq([i \in 1..Len(ms) |-> i], LAMBDA i : IsReq(ms[i]) /\ ms[i].d = "")
             minimal == JO([i \in 1..Len(req) |-> M(ms[req[i]].n, g[req[i]][1])])
         IN [j \in 1..n |-> full(j)] \o << minimal >>

---------------------------------------------------------------------------
(* Documents with one fault: [d, c]                                        *)
(* a declared member twice: side by side, far apart, with null, three times *)
(* of an object with many members only some are varied *)
Some(n) == IF n <= 12 THEN [i \in 1..n |-> i] ELSE << 1, 2, (n \div 2), n - 1, n >>
DupDocs(ms, m) ==
  IF Len(m) > 12
  THEN [i \in 1..Len(m) |-> JO(SubSeq(m, 1, i) \o << m[1 + ((i * 7) % Len(m))] >> \o SubSeq(m, i+1, Len(m)))]
  ELSE
  Concat([i \in 1..Len(m) |->
    << JO(SubSeq(m, 1, i) \o << m[i] >> \o SubSeq(m, i+1, Len(m))),
       JO(Append(m, M(m[i].n, JNull))),
       JO(<< m[i] >> \o << M("zzz", JN("1")) >> \o m) >>])
(* names that are none of a struct's members but look related: those of    *)
(* the Go fields and embedded types, of the fields left out, and "-"       *)
RECURSIVE GoNames(_)
GoNames(u) == Concat([i \in 1..Len(u.f) |-> << IF u.f[i].em = "y" THEN GoName(u.f[i].t.n) ELSE u.f[i].g >>
                       \o (IF Flat(u.f[i]) THEN GoNames(Under(u.f[i].t)) ELSE <<>>)])
Aliens(u) == LET g == TLCEval(<< "-" >> \o GoNames(u))
                 own == NamesOf(u)
             IN TLCEval(SelectSeq([i \in 1..Len(g) |-> IF g[i] \in own \/ \E j \in 1..(i - 1) : g[j] = g[i] THEN "" ELSE g[i]], LAMBDA x : x # ""))
UnknownDocs(u, ms, m) ==
  LET a == Aliens(u) IN
  (IF a = <<>> THEN <<>> ELSE [i \in 1..Min2(4, Len(a)) |-> JO(Append(m, M(a[IF i = 1 THEN 1 ELSE ((i + Seed) % Len(a)) + 1], IF m = <<>> THEN JN("1") ELSE m[1].v)))]) \o
  << JO(Append(m, M("nope", JN("1")))), JO(<< M("nope", JNull) >> \o m), JO(Append(m, M("", JN("1")))),
     JO(Append(m, M("@uni", JO(<<>>)))) >>
  \o (IF Len(m) = 0 THEN <<>>
      ELSE << JO(Append(m, M(m[1].n \o "x", JN("1")))), JO(Append(SubSeq(m, 1, Len(m)-1), M("_" \o m[Len(m)].n, JN("1")))) >>)
Drop(m, i) == SubSeq(m, 1, i-1) \o SubSeq(m, i+1, Len(m))
MissingDocs(ms, m) ==
  Concat([i \in 1..Len(ms) |->
    IF IsReq(ms[i]) /\ ms[i].d = ""
    THEN << JO(Drop(m, i)) >> \o (IF Nullable(ms[i].t) THEN << JO([m EXCEPT ![i].v = JNull]) >> ELSE <<>>)
    ELSE <<>>])


(* at most k faults of every class; which ones depends on the seed *)
Thin(b, k, salt) ==
  IF k > 90 THEN b
  ELSE LET cs == { b[i].c : i \in 1..Len(b) }
           pos(c) == TLCEval(SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : b[i].c = c))
           pick == UNION { LET p == pos(c) IN { Cyc(p, Seed + salt + j * 3) : j \in 1..k } : c \in cs }
       IN TLCEval(LET is == TLCEval(SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : i \in pick)) IN [i \in 1..Len(is) |-> b[is[i]]])

RECURSIVE BadJ(_,_,_)
BadMember(f, m, i, fuel, k) ==      \* member i of document m is replaced
  LET b == Thin(TLCEval(BadJ(f.t, f.l, fuel)), k, i)
      ok == TLCEval( IF Nullable(f.t) THEN SelectSeq(b, LAMBDA x : x.d.k # "null") ELSE b)
  IN [j \in 1..Len(ok) |-> [d |-> JO([m EXCEPT ![i].v = ok[j].d]), c |-> ok[j].c]]

BadJ(t, l, fuel) ==
  LET u == Under(t) IN
  CASE u.k \in AtomKinds -> BadAtom[u.k]
    [] u.k = "time" -> BadTimeDocs[l]
    [] u.k = "bytes" -> Faulty("kind", KindsBut({"str"})) \o Faulty("b64", MapS(JS, BadB64(u)))
    [] u.k = "bytesN" -> Faulty("kind", KindsBut({"str"})) \o Faulty("b64", MapS(JS, BadB64(u)))
         \o Faulty("len", MapS(JS, BadLen(u)))
    [] u.k = "ptr" -> SelectSeq(BadJ(u.e, l, fuel), LAMBDA x : x.d.k # "null")
    [] u.k \in {"slice","array"} ->
         LET g == TLCEval(AsElem(GoodJ(u.e, "", fuel), u.e))
             b == TLCEval(IF fuel = 0 THEN <<>> ELSE
                  IF Under(u.e).k \in {"ptr","slice","array","map","bytes","bytesN"} THEN SelectSeq(BadJ(u.e, "", fuel - 1), LAMBDA x : x.d.k # "null")
                  ELSE BadJ(u.e, "", fuel - 1))
             at(x, i, n) == JA([j \in 1..n |-> IF j = i THEN x ELSE Cyc(g, j)])
             n == IF u.k = "array" THEN u.n ELSE 3
         IN Faulty("kind", KindsBut({"arr"}))
            \o (IF u.k = "array" THEN Faulty("len", (IF u.n = 0 THEN <<>> ELSE << JA(<<>>), JA([i \in 1..(u.n-1) |-> Cyc(g,i)]) >>) \o << JA([i \in 1..(u.n+1) |-> Cyc(g,i)]) >>) ELSE <<>>)
            \o IF n = 0 THEN <<>> ELSE [i \in 1..Len(b) |-> [d |-> at(b[i].d, IF i % 3 = 0 THEN 1 ELSE IF i % 3 = 1 THEN n ELSE Min2(2, n), n), c |-> b[i].c]]
    [] u.k = "map" ->
         LET g == TLCEval(AsElem(GoodJ(u.e, "", fuel), u.e))
             b == TLCEval(IF fuel = 0 THEN <<>> ELSE
                  IF Under(u.e).k \in {"ptr","slice","array","map","bytes","bytesN"} THEN SelectSeq(BadJ(u.e, "", fuel - 1), LAMBDA x : x.d.k # "null")
                  ELSE BadJ(u.e, "", fuel - 1))
             at(x, i) == JO([j \in 1..3 |-> M(Keys[j], IF j = i THEN x ELSE Cyc(g, j))])
         IN Faulty("kind", KindsBut({"obj"}))
            \o [i \in 1..Len(b) |-> [d |-> at(b[i].d, (i % 3) + 1), c |-> b[i].c]]
    [] u.k = "struct" ->
         LET ms  == TLCEval(Members(u))
             all == TLCEval(GoodJ(t, "", fuel))
             m   == all[1].m
             sub == IF fuel = 0 THEN <<>>
                    ELSE LET sm == Some(Len(ms)) IN Concat([i \in 1..Len(sm) |-> BadMember(ms[sm[i]], m, sm[i], fuel - 1,
                              IF Deep \/ (t.k = "ref" /\ Env[t.n].fam = "single" /\ ms[sm[i]].n = "f") THEN 99 ELSE 2)])
         IN Faulty("kind", KindsBut({"obj"})) \o NullBad \o sub
            \o Faulty("dup", DupDocs(ms, m)) \o (IF Strict(t) THEN Faulty("unknown", UnknownDocs(u, ms, m)) ELSE <<>>)
            \o Faulty("missing", MissingDocs(ms, m))

---------------------------------------------------------------------------
(* Variants of a document a lenient type reads the same                    *)
Noise(u, m) ==
  LET a == Aliens(u)
      v(i) == Cyc(<< JN("1"), JS("b"), JB("true"), JNull >>, i + Seed) IN
  << JO(m \o [i \in 1..Len(a) |-> M(a[i], v(i))]), JO([i \in 1..Len(a) |-> M(a[i], v(i + 1))] \o m) >> \o
  << JO(<< M("zzz", JN("1")) >> \o m \o << M("nope", JO(<< M("a", JS("b")) >>)), M("zzz", JNull) >>),
     JO(Rev(m)) >>
  \o (IF Len(m) = 0 THEN <<>> ELSE << JO(Append(m, M(m[1].n \o "x", JS("1")))), JO(<< M("x" \o m[1].n, JA(<<>>)) >> \o m) >>)
(* the document with one member left out, or null when it may be           *)
Partial(ms, m) ==
  Concat([i \in 1..Len(ms) |->
    IF IsReq(ms[i]) /\ ms[i].d = "" THEN <<>>
    ELSE << JO(Drop(m, i)) >> \o (IF Nullable(ms[i].t) THEN << JO([m EXCEPT ![i].v = JNull]) >> ELSE <<>>)])

---------------------------------------------------------------------------
(* Go values: every member empty, zero, and not, in several combinations   *)
RECURSIVE Vals(_,_,_)
Vals(t, l, fuel) ==
  LET u == Under(t)
      dec(ds) == TLCEval(MapS(LAMBDA d : Dec(Cx({}, "field"), t, l, d, Zero(t)).v, ds))
  IN
  CASE u.k \in AtomKinds \/ u.k = "time" -> dec(GoodJ(t, l, fuel))
    [] u.k = "bytes"  -> << Nil >> \o dec(MapS(JS, GoodB64(u)))
    [] u.k = "bytesN" -> << Zero(t) >> \o dec(MapS(JS, GoodB64(u)))
    [] u.k = "ptr" -> IF fuel = 0 THEN << Nil >>
                      ELSE << Nil >> \o MapS(LAMBDA v : Pv(v), Vals(u.e, l, fuel))
    [] u.k = "slice" ->
         IF fuel = 0 THEN << Nil >>
         ELSE LET g == TLCEval(Take(Vals(u.e, "", fuel), 6)) IN
              << Nil, Lv(<<>>), Lv(<< g[1] >>), Lv(g), Lv(<< Cyc(g,2), g[1], Cyc(g,2) >>) >>
    [] u.k = "array" ->
         LET g == TLCEval(Vals(u.e, "", fuel)) IN
         << Zero(t), Lv([i \in 1..u.n |-> Cyc(g, i)]), Lv([i \in 1..u.n |-> IF i = u.n THEN Cyc(g, 2) ELSE Zero(u.e)]),
            Lv([i \in 1..u.n |-> Cyc(g, i+2)]) >>
    [] u.k = "map" ->
         IF fuel = 0 THEN << Nil >>
         ELSE LET g == TLCEval(Take(Vals(u.e, "", fuel), 6))
                  asM(s) == Mv([i \in 1..Len(s) |-> M(Keys[i], s[i])])
              IN << Nil, Mv(<<>>), asM(<< g[1] >>), asM(g), asM(<< Cyc(g, 2), Cyc(g, 3) >>) >>
    [] u.k = "struct" ->
         LET n  == Len(u.f)
             g  == TLCEval([i \in 1..n |-> Vals(u.f[i].t, u.f[i].l, IF fuel = 0 THEN 0 ELSE fuel - 1)])
             most == Min2(8, MaxOf({1} \cup { Len(g[i]) : i \in 1..n }))
             one(i, v) == Ov([j \in 1..n |-> IF j = i THEN v ELSE Zero(u.f[j].t)])
         IN << Zero(t) >>
            \o [j \in 1..most |-> Ov([i \in 1..n |-> Cyc(g[i], j + i - 1)])]
            \o [j \in 1..most |-> Ov([i \in 1..n |-> Cyc(g[i], j)])]
            \o (IF n > 12 THEN <<>> ELSE Concat([i \in 1..n |-> MapS(LAMBDA v : one(i, v), Take(g[i], 4))]))
=============================================================================
