------------------------------- MODULE VJSem -------------------------------
(***************************************************************************)
(* What decoding, encoding, IsZero and Reset mean.                         *)
(*                                                                         *)
(* JSON documents                                                          *)
(*   [k |-> "null"] [k |-> "bool", v] [k |-> "arr", e] [k |-> "obj", m]    *)
(*   [k |-> "num", s, int, neg, g, f, h]   s text; int "y" when integer    *)
(*        syntax; g its decimal digits; f / h the float64 / float32 it     *)
(*        denotes ("inf" when too large)                                   *)
(*   [k |-> "str", s, u, y, t]  s text; u / y canonical UUID / base64 or   *)
(*        "!"; t layout -> canonical instant (layouts that can read s)     *)
(*   members of an object: m |-> << [n |-> key, v |-> doc], ... >>         *)
(* Go values                                                               *)
(*   [k |-> "b"|"i"|"f"|"s"|"u"|"y", v |-> text]                           *)
(*   [k |-> "t", v |-> canonical instant, z |-> "y"/"n" zero,              *)
(*               x |-> layout -> text, r |-> layout -> instant read back]  *)
(*   [k |-> "nil"] [k |-> "p", e] [k |-> "l", e] [k |-> "o", f]            *)
(*   [k |-> "m", e |-> << [n |-> key, v |-> value], ... >>]                *)
(***************************************************************************)
EXTENDS VJEnv

Nil == [k |-> "nil"]
Bv(x) == [k |-> "b", v |-> x]
Iv(x) == [k |-> "i", v |-> x]
Fv(x) == [k |-> "f", v |-> x]
Sv(x) == [k |-> "s", v |-> x]
Uv(x) == [k |-> "u", v |-> x]
Yv(x) == [k |-> "y", v |-> x]
Pv(x) == [k |-> "p", e |-> x]
Lv(x) == [k |-> "l", e |-> x]
Mv(x) == [k |-> "m", e |-> x]
Ov(x) == [k |-> "o", f |-> x]

NilUUID  == "00000000-0000-0000-0000-000000000000"
ZeroTime == "0001-01-01T00:00:00Z"
(* a time value known only by its instant *)
Tv(x) == IF x \in DOMAIN Lex.time
         THEN [k |-> "t", v |-> x, z |-> Lex.time[x].z, x |-> Lex.time[x].x, r |-> Lex.time[x].r]
         ELSE [k |-> "t", v |-> x, z |-> "n"]

ZeroBytes(n) == Lex.zerobytes[ToString(n)]

RECURSIVE Zero(_)
Zero(t) ==
  LET u == Under(t) IN
  CASE u.k = "bool"   -> Bv("false")
    [] u.k \in IntegerKinds -> Iv("0")
    [] u.k \in FloatKinds -> Fv("0")
    [] u.k = "string" -> Sv("")
    [] u.k = "time"   -> Tv(ZeroTime)
    [] u.k = "uuid"   -> Uv(NilUUID)
    [] u.k = "bytesN" -> Yv(ZeroBytes(u.n))
    [] u.k = "array"  -> Lv([i \in 1..u.n |-> Zero(u.e)])
    [] u.k = "struct" -> Ov([i \in 1..Len(u.f) |-> Zero(u.f[i].t)])
    [] OTHER          -> Nil          \* ptr, slice, map, bytes

---------------------------------------------------------------------------
(* Numbers: decimal digit sequences, no bounded integers involved          *)
RECURSIVE LexLeq(_,_,_)
LexLeq(a,b,i) == IF i > Len(a) THEN TRUE
                 ELSE IF a[i] = b[i] THEN LexLeq(a,b,i+1) ELSE a[i] < b[i]
LeqD(a,b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLeq(a,b,1)

MaxMag == [ int8   |-> <<1,2,7>>,  uint8  |-> <<2,5,5>>,
            int16  |-> <<3,2,7,6,7>>, uint16 |-> <<6,5,5,3,5>>,
            int32  |-> <<2,1,4,7,4,8,3,6,4,7>>,
            uint32 |-> <<4,2,9,4,9,6,7,2,9,5>>,
            int64  |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>,
            uint64 |-> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>,
            int    |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>,
            uint   |-> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>> ]
MinMag == [ int8   |-> <<1,2,8>>, int16 |-> <<3,2,7,6,8>>,
            int32  |-> <<2,1,4,7,4,8,3,6,4,8>>,
            int64  |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>,
            int    |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>> ]
IsZeroD(g) == g = <<0>>

InRange(k, d) ==
  IF d.neg = "y" /\ ~IsZeroD(d.g)
  THEN k \in IntKinds /\ LeqD(d.g, MinMag[k])
  ELSE LeqD(d.g, MaxMag[k])

---------------------------------------------------------------------------
(* Members of an object                                                    *)
Idx(m, n)   == { i \in 1..Len(m) : m[i].n = n }
Has(m, n)   == \E i \in 1..Len(m) : m[i].n = n
Get(m, n)   == m[CHOOSE i \in 1..Len(m) : m[i].n = n].v
Twice(m, n) == Cardinality(Idx(m, n)) > 1

(* last occurrence of every key, in order of first appearance *)
RECURSIVE LastWins(_,_)
LastWins(m, acc) ==
  IF m = <<>> THEN acc
  ELSE LET h == Head(m) IN
       LastWins(Tail(m),
         IF Has(acc, h.n)
         THEN [i \in 1..Len(acc) |-> IF acc[i].n = h.n THEN h ELSE acc[i]]
         ELSE Append(acc, h))

---------------------------------------------------------------------------
(* Decoding.  Dec returns [e |-> set of [p |-> path, c |-> class, x], v].  *)
(*                                                                         *)
(* cx says where the value stands (at: "top", "field", "elem" of a list,   *)
(* "val" of a map) and which known deviations are in force (dv).  With     *)
(* dv = {} this is what decoding should do; the deviations are the         *)
(* findings of known_findings.json, each stated exactly, so that a         *)
(* behaviour of the code is either right, or one of these and no other:    *)
(*   range-elem   small integers and float32 in lists, maps, transit and   *)
(*                pointer types are not checked against the range but wrap *)
(*   range-low    members of small signed integer kinds are checked        *)
(*                against the upper limit only                             *)
(*   float-inf    numbers beyond float64 are accepted as infinity          *)
(*   elem-parse   ill-formed times and UUIDs in lists are accepted, the    *)
(*                list is cut short                                        *)
(*   empty-step   the path of an error inside a struct embedded without a   *)
(*                name has an empty step for that struct                   *)
(*   lost-path    errors in lists of strings, lists of lists and           *)
(*                lists of times lose the names of the enclosing members   *)
(*   bytes-bare   errors of binary members carry no path and no cause      *)
(*   bytes-long   over-long base64 text for a byte array panics            *)
(*   named-null   null for a member of a named list, map, array, pointer   *)
(*                or bytes type is not treated as absence                  *)
(*   list-reuse   elements of a list are decoded over what the list's      *)
(*                memory held before                                       *)
(*   root-path    behind the path of an error inside a scalar type of       *)
(*                another package stands "(root)"                          *)
(*   top-replace  a tagged map or derived struct is replaced, not merged   *)
Cx(dv, at) == [dv |-> dv, at |-> at]
Go(cx, at) == [cx EXCEPT !.at = at]
Ok(v)      == [e |-> {}, v |-> v]
Er(c)      == [e |-> {[p |-> <<>>, c |-> c, x |-> ""]}, v |-> Nil]
Lost(c)    == [e |-> {[p |-> <<>>, c |-> c, x |-> "lost"]}, v |-> Nil]
At(x, s)   == { IF r.x = "lost" THEN r ELSE [r EXCEPT !.p = <<x>> \o r.p] : r \in s }
(* a method boundary: whoever called it adds its own part of the path again *)
Found(r)   == [r EXCEPT !.e = { [y EXCEPT !.x = IF y.x = "lost" THEN "" ELSE y.x] : y \in r.e }]
Lose(r)    == [r EXCEPT !.e = { [y EXCEPT !.x = "lost"] : y \in r.e }]
Whatever        == [k |-> "any"]            \* a value nothing is said about
Validation == {"dup","unknown"}        \* refused before anything is stored

(* a type defined from a tagged list or array *)
DerivedList(t) == t.k = "ref" /\ Env[t.n].t.k = "ref" /\ Under(t).k \in {"slice","array"}

DefaultOf(f) ==
  LET u == Under(f.t)
      b(k) == CASE k \in IntegerKinds -> Iv(f.d)
                [] k = "float32" -> Fv(Lex.num[f.d].h)
                [] k = "float64" -> Fv(Lex.num[f.d].f)
                [] k = "bool" -> Bv(f.d)
                [] OTHER -> Sv(f.d)
  IN IF u.k = "ptr" THEN Pv(b(Under(u.e).k)) ELSE b(u.k)

Small(k) == k \in {"int8","int16","int32","uint8","uint16","uint32","float32"}
(* a range error, unless a deviation lets the number through *)
Wraps(cx, k, d) ==
  LET w == d.w[k] IN
  /\ Small(k) /\ w # "!"
  /\ \/ "range-elem" \in cx.dv /\ cx.at # "field"
     \/ "range-low" \in cx.dv /\ cx.at = "field" /\ d.neg = "y" /\ k \notin UintKinds
Num(cx, k, d) == IF Wraps(cx, k, d) THEN Ok(IF k \in FloatKinds THEN Fv(d.w[k]) ELSE Iv(d.w[k])) ELSE Er("range")

(* the elements a list's memory holds, used again when there is room *)
Backing(pre) == IF pre.k # "l" THEN <<>> ELSE IF "b" \in DOMAIN pre THEN pre.e \o pre.b ELSE pre.e
RECURSIVE Reuses(_)
Reuses(t) == Under(t).k \in {"struct","map"} \/ (Under(t).k = "slice" /\ Reuses(Under(t).e))

StringElem(t) == LET u == Under(t) IN ~Foreign(t) /\ (u.k = "string" \/ (u.k = "ptr" /\ ~Foreign(u.e) /\ Under(u.e).k = "string"))
RECURSIVE Dec(_,_,_,_,_)
RECURSIVE DecFields(_,_,_,_)
RECURSIVE DecIn(_,_,_,_,_)
Dec(cx, t, l, d, pre) ==
  IF Foreign(t) /\ "root-path" \in cx.dv /\ Under(t).k \in ScalarKinds
  THEN LET r == DecIn(cx, t, l, d, pre) IN [r EXCEPT !.e = At("(root)", r.e)]
  ELSE DecIn(cx, t, l, d, pre)
DecIn(cx, t, l, d, pre) ==
  LET u == Under(t)
      dv == cx.dv
      inlist == cx.at = "elem"
      lost(c) == IF "lost-path" \in dv /\ inlist THEN Lost(c) ELSE Er(c)
      bare(c) == IF "bytes-bare" \in dv /\ cx.at # "top" THEN Lost(c) ELSE Er(c)
  IN
  CASE u.k = "bool" ->
         IF d.k = "bool" THEN Ok(Bv(d.v)) ELSE Er("kind")
    [] u.k \in IntegerKinds ->
         IF d.k # "num" \/ d.int # "y" THEN Er("kind")
         ELSE IF InRange(u.k, d) THEN Ok(Iv(d.i)) ELSE Num(cx, u.k, d)
    [] u.k = "float64" ->
         IF d.k # "num" THEN Er("kind")
         ELSE IF d.f # "inf" THEN Ok(Fv(d.f))
         ELSE IF "float-inf" \in dv THEN Ok(Fv("inf")) ELSE Er("range")
    [] u.k = "float32" ->
         IF d.k # "num" THEN Er("kind")
         ELSE IF d.h = "inf" THEN Num(cx, u.k, d) ELSE Ok(Fv(d.h))
    [] u.k = "string" -> IF d.k = "str" THEN Ok(Sv(d.s)) ELSE Er("kind")
    [] u.k = "time" ->
         IF d.k # "str" THEN lost("kind")
         ELSE IF l \notin DOMAIN d.t THEN (IF "elem-parse" \in dv /\ inlist THEN Ok(Whatever) ELSE Er("time")) ELSE Ok(Tv(d.t[l]))
    [] u.k = "uuid" ->
         IF d.k # "str" THEN lost("kind")
         ELSE IF d.u = "!" THEN (IF "elem-parse" \in dv /\ inlist THEN Ok(Whatever) ELSE Er("uuid")) ELSE Ok(Uv(d.u))
    [] u.k = "bytes" ->
         IF d.k = "null" THEN Ok(pre)
         ELSE IF d.k # "str" THEN bare("kind")
         ELSE IF d.y = "!" THEN bare("b64") ELSE Ok(Yv(d.y))
    [] u.k = "bytesN" ->
         IF d.k = "null" THEN Ok(pre)
         ELSE IF d.k # "str" THEN bare("kind")
         ELSE IF d.y = "!" THEN bare("b64")
         ELSE IF d.yn # u.n THEN bare("len") ELSE Ok(Yv(d.y))
    [] u.k = "ptr" ->
         IF d.k = "null" THEN Ok(Nil)
         ELSE LET r == Dec(IF t.k = "ref" THEN Go(cx, "elem") ELSE IF u.e.k = "ptr" \/ Foreign(u.e) THEN Go(cx, "deep") ELSE cx, u.e, l, d, Zero(u.e)) IN [e |-> r.e, v |-> IF r.v.k = "any" THEN Whatever ELSE Pv(r.v)]
    [] u.k \in {"slice","array"} ->
         IF d.k = "null" THEN (IF "named-null" \in dv /\ cx.at = "top" /\ DerivedList(t) THEN lost("kind") ELSE IF u.k = "slice" THEN Ok(Nil) ELSE Ok(pre))
         ELSE IF d.k # "arr" THEN lost("kind")
         ELSE IF u.k = "array" /\ Len(d.e) # u.n THEN lost("len")
         ELSE LET old == IF "list-reuse" \in dv /\ u.k = "slice" /\ Reuses(u.e) THEN Backing(pre) ELSE <<>>
                  from(i) == IF Len(d.e) <= Len(old) THEN old[i] ELSE Zero(u.e)
                  in == Go(cx, "elem")
                  one(i) == LET r == Dec(in, u.e, "", d.e[i], from(i)) IN
                            IF "lost-path" \in dv /\ cx.at # "top" /\ StringElem(u.e) THEN Lose([r EXCEPT !.e = At(ToString(i-1), r.e)])
                            ELSE [r EXCEPT !.e = At(ToString(i-1), r.e)]
                  r == TLCEval([i \in 1..Len(d.e) |-> one(i)])
              IN [e |-> UNION { r[i].e : i \in 1..Len(d.e) },
                  v |-> IF \E i \in 1..Len(d.e) : r[i].v.k = "any" THEN Whatever ELSE Lv([i \in 1..Len(d.e) |-> r[i].v])]
    [] u.k = "map" ->
         IF d.k = "null" THEN Ok(pre)
         ELSE IF d.k # "obj" THEN lost("kind")
         ELSE LET m == d.m
                  in == Go(cx, "val")
                  r == TLCEval([i \in 1..Len(m) |-> Dec(in, u.e, "", m[i].v, Zero(u.e))])
                  old == IF pre.k = "m" /\ ~("top-replace" \in dv /\ cx.at = "top") THEN pre.e ELSE <<>>
                  new == [i \in 1..Len(m) |-> [n |-> m[i].n, v |-> r[i].v]]
              IN [e |-> UNION { At(m[i].n, r[i].e) : i \in 1..Len(m) },
                  v |-> Mv(LastWins(old \o new, <<>>))]
    [] u.k = "struct" ->
         IF d.k # "obj" THEN Er("kind")
         ELSE LET names == OwnNames(u)
                  dups  == { n \in names : Twice(d.m, n) }
                  unk   == IF Strict(t) THEN { d.m[i].n : i \in 1..Len(d.m) } \ names
                           ELSE {}
                  bad   == { [p |-> <<n>>, c |-> "dup", x |-> ""] : n \in dups }
                           \cup { [p |-> <<n>>, c |-> "unknown", x |-> ""] : n \in unk }
                  old   == IF "top-replace" \in dv /\ ((cx.at = "top" /\ t.k = "ref" /\ Env[t.n].t.k = "ref") \/ Passes(t)) THEN Zero(t) ELSE pre
              IN IF bad # {} THEN [e |-> bad, v |-> Nil]
                 ELSE Found(DecFields(cx, u, d.m, old))

DecFields(cx, u, m, pre) ==
  LET in == Go(cx, "field")
      named(f) == "named-null" \in cx.dv /\ f.t.k = "ref"
      (* null for a member of a named type, under the deviation *)
      onNull(f) == LET k == Under(f.t).k IN
                   IF k = "bytes" THEN Ok(Nil) ELSE IF k = "bytesN" THEN Ok(Zero(f.t)) ELSE Er("kind")
      one(i) ==
        LET f == u.f[i]
            p == pre.f[i]
        IN IF Ignored(f) THEN Ok(p)
           ELSE IF IsDelegate(f) THEN LET r == Dec(in, f.t, "", [k |-> "obj", m |-> m], p)
                                       IN IF "empty-step" \in cx.dv THEN [r EXCEPT !.e = At("", r.e)] ELSE r
           ELSE IF Flat(f) THEN DecFields(cx, Under(f.t), m, p)
           ELSE IF ~Has(m, f.n) \/ (Get(m, f.n).k = "null" /\ Nullable(f.t) /\ ~named(f)) THEN
             (IF f.d # "" THEN Ok(IF Has(m, f.n) THEN p ELSE DefaultOf(f))
              ELSE IF IsReq(f) THEN [e |-> {[p |-> <<f.n>>, c |-> "required", x |-> ""]}, v |-> Nil]
              ELSE Ok(p))
           ELSE LET r == IF Get(m, f.n).k = "null" /\ Nullable(f.t) THEN onNull(f)
                         ELSE Dec(in, f.t, f.l, Get(m, f.n), p)
                IN [e |-> At(f.n, r.e), v |-> r.v]
      r == TLCEval([i \in 1..Len(u.f) |-> one(i)])
  IN [e |-> UNION { r[i].e : i \in 1..Len(u.f) },
      v |-> Ov([i \in 1..Len(u.f) |-> r[i].v])]

---------------------------------------------------------------------------
(* Emptiness.  A list or map is empty when it is nil                        *)
(* Deviations:                                                             *)
(*   array-zero   a struct with an array among its members is never zero,  *)
(*                an array of structs, times or tagged types of another    *)
(*                package only when no element is                          *)
Direct(t) == t.k \in {"array","bytesN"}
RECURSIVE IsZero(_,_,_)
IsZero(dv, t, v) ==
  LET u == Under(t) IN
  CASE u.k \in {"ptr"} -> v.k = "nil"
    [] u.k \in {"slice","map","bytes"} -> v.k = "nil"
    [] u.k = "time"   -> v.z = "y"
    [] u.k = "array"  -> IF "array-zero" \in dv /\ (Under(u.e).k \in {"struct","time"} \/ Foreign(u.e))
                         THEN \A i \in 1..Len(v.e) : ~IsZero(dv, u.e, v.e[i])
                         ELSE \A i \in 1..Len(v.e) : IsZero(dv, u.e, v.e[i])
    [] u.k = "struct" -> /\ ~("array-zero" \in dv /\ \E i \in 1..Len(u.f) : Direct(u.f[i].t))
                         /\ \A i \in 1..Len(u.f) : IsZero(dv, u.f[i].t, v.f[i])
    [] OTHER          -> v.v = Zero(t).v
---------------------------------------------------------------------------
(* Encoding.  A field marked omitempty is left out when it is empty;       *)
(* allocated lists and maps, UUIDs and fixed arrays are always written     *)
OmitsEmpty(dv, t, v) ==
  LET u == Under(t) IN
  CASE u.k \in {"slice","map","bytes"} -> v.k = "nil"
    [] u.k = "ptr" -> v.k = "nil" \/ v.e.k = "nil"
    [] u.k \in {"uuid","array"} -> FALSE
    [] OTHER -> IsZero(dv, t, v)
Omitted(dv, f, v) == IsOmit(f) /\ OmitsEmpty(dv, f.t, v)

JNum(x) == [k |-> "num", i |-> x, f |-> x, h |-> x]
JStr(x) == [k |-> "str", s |-> x, u |-> x, y |-> x]
JNull   == [k |-> "null"]

(* Deviations:                                                             *)
(*   nil-time     a nil pointer to a time is written as the zero time      *)
NilTime(dv, t, v) == "nil-time" \in dv /\ Under(t).k = "ptr" /\
  LET e == Under(Under(t).e) IN
  \/ v.k = "nil" /\ e.k = "time"
  \/ v.k = "p" /\ v.e.k = "nil" /\ e.k = "ptr" /\ Under(e.e).k = "time"
RECURSIVE Enc(_,_,_,_)
RECURSIVE EncFields(_,_,_)
Enc(dv, t, l, v) ==
  LET u == Under(t) IN
  CASE v.k = "nil" -> JNull
    [] v.k = "b"   -> [k |-> "bool", v |-> v.v]
    [] v.k \in {"i","f"} -> JNum(v.v)
    [] v.k \in {"s","u","y"} -> JStr(v.v)
    [] v.k = "t"   -> JStr(v.x[l])
    [] v.k = "p"   -> Enc(dv, u.e, l, v.e)
    [] v.k = "l"   -> [k |-> "arr", e |-> [i \in 1..Len(v.e) |-> Enc(dv, u.e, "", v.e[i])]]
    [] v.k = "m"   -> [k |-> "obj", m |-> [i \in 1..Len(v.e) |->
                          [n |-> v.e[i].n, v |-> Enc(dv, u.e, "", v.e[i].v)]]]
    [] v.k = "o"   -> IF Passes(t) THEN Enc(dv, u.f[1].t, l, v.f[1]) ELSE [k |-> "obj", m |-> EncFields(dv, u, v)]

EncFields(dv, u, v) ==
  Concat([i \in 1..Len(u.f) |->
    LET f == u.f[i] IN
    IF Ignored(f) THEN <<>>
    ELSE IF IsDelegate(f) /\ IsZero(dv, f.t, v.f[i]) THEN <<>>
    ELSE IF Flat(f) THEN EncFields(dv, Under(f.t), v.f[i])
    ELSE IF Omitted(dv, f, v.f[i]) THEN <<>>
    ELSE << [n |-> f.n, v |-> IF NilTime(dv, f.t, v.f[i]) THEN JStr(Tv(ZeroTime).x[f.l])
                              ELSE IF Under(f.t).k = "bytesN" /\ IsZero({}, f.t, v.f[i]) THEN JNull   \* nothing but zeros
                              ELSE Enc(dv, f.t, f.l, v.f[i])] >>])

(* Deviations seen in the text rather than in the document:                *)
(*   null-comma   a nil pointer written as null as the first member is not *)
(*                followed by a comma                                      *)
(*   nil-panic    a nil pointer to a UUID, to an array or to a pointer to  *)
(*                a time or UUID makes encoding panic                      *)
RECURSIVE Marks(_,_,_)      \* what is written for each member: "null" when no comma follows it
Marks(dv, u, v) ==
  Concat([i \in 1..Len(u.f) |->
    LET f == u.f[i] IN
    IF Ignored(f) THEN <<>>
    ELSE IF IsDelegate(f) /\ IsZero(dv, f.t, v.f[i]) THEN <<>>
    ELSE IF Flat(f) THEN Marks(dv, Under(f.t), v.f[i])
    ELSE IF Omitted(dv, f, v.f[i]) THEN <<>>
    ELSE << IF Under(f.t).k = "ptr" /\ Enc({}, f.t, f.l, v.f[i]).k = "null" /\ ~NilTime({"nil-time"}, f.t, v.f[i]) THEN "null" ELSE "set" >>])
PtrPanics(t, v) ==
  LET u == Under(t) IN
  /\ u.k = "ptr"
  /\ LET e == Under(u.e) IN
     \/ v.k = "nil" /\ e.k \in {"uuid","array"}
     \/ e.k = "ptr" /\ v.k = "nil" /\ Under(e.e).k \in {"time","uuid"}
     \/ e.k = "ptr" /\ v.k = "p" /\ v.e.k = "nil" /\ Under(e.e).k = "uuid"
RECURSIVE Spoiled(_,_,_)    \* the ways encoding v goes wrong
Spoiled(dv, t, v) ==
  LET u == Under(t) IN
  CASE v.k = "p" -> Spoiled(dv, u.e, v.e)
    [] v.k = "l" -> UNION { Spoiled(dv, u.e, v.e[i]) : i \in 1..Len(v.e) }
    [] v.k = "m" -> UNION { Spoiled(dv, u.e, v.e[i].v) : i \in 1..Len(v.e) }
    [] v.k = "o" /\ Passes(t) -> Spoiled(dv, u.f[1].t, v.f[1])
    [] v.k = "o" -> LET m == Marks(dv, u, v) IN
                    (IF Len(m) > 1 /\ m[1] = "null" THEN {"null-comma"} ELSE {})
                    \cup (IF \E i \in 1..Len(u.f) : PtrPanics(u.f[i].t, v.f[i]) THEN {"nil-panic"} ELSE {})
                    \cup UNION { Spoiled(dv, u.f[i].t, v.f[i]) : i \in 1..Len(u.f) }
    [] OTHER -> {}

(* Does document d say what the abstract document a (made by Enc) says,    *)
(* read at type t?  Numbers by value, objects regardless of member order   *)
RECURSIVE Says(_,_,_)
RECURSIVE FieldT(_,_)
(* the type of the member named n of struct u *)
FieldT(u, n) ==
  LET i == CHOOSE i \in 1..Len(u.f) : ~Ignored(u.f[i]) /\
             (u.f[i].n = n \/ (Flat(u.f[i]) /\ n \in NamesOf(Under(u.f[i].t))))
  IN IF Flat(u.f[i]) THEN FieldT(Under(u.f[i].t), n) ELSE u.f[i].t

Says(t, a, d) ==
  LET u == Under(t) IN
  IF a.k # d.k /\ ~(u.k \in {"ptr"}) THEN FALSE
  ELSE CASE u.k = "ptr" -> (a.k = "null" /\ d.k = "null")
                           \/ (a.k # "null" /\ d.k # "null" /\ Says(u.e, a, d))
    [] a.k = "null" -> TRUE
    [] a.k = "bool" -> a.v = d.v
    [] u.k \in IntegerKinds -> d.int = "y" /\ d.i = a.i
    [] u.k = "float64" -> d.f = a.f
    [] u.k = "float32" -> d.h = a.h
    [] u.k = "bytes" \/ u.k = "bytesN" -> d.y = a.y
    [] u.k = "uuid" -> d.u = a.u
    [] a.k = "str" -> a.s = d.s
    [] a.k = "arr" -> Len(a.e) = Len(d.e) /\ \A i \in 1..Len(a.e) :
                          \/ Says(u.e, a.e[i], d.e[i])
                          \/ Under(u.e).k = "slice" /\ a.e[i].k = "null" /\ d.e[i].k = "arr" /\ d.e[i].e = <<>>
    [] u.k = "map" -> Len(a.m) = Len(d.m)
                      /\ \A i \in 1..Len(a.m) : Has(d.m, a.m[i].n)
                                  /\ Says(u.e, a.m[i].v, Get(d.m, a.m[i].n))
    [] u.k = "struct" -> Len(a.m) = Len(d.m)
                      /\ \A i \in 1..Len(a.m) : Has(d.m, a.m[i].n)
                            /\ Says(FieldT(u, a.m[i].n), a.m[i].v, Get(d.m, a.m[i].n))
    [] OTHER -> FALSE

---------------------------------------------------------------------------
(* Equality of values: maps regardless of order, times by instant+offset   *)
NoElems(x) == x.k = "nil" \/ (x.k = "l" /\ x.e = <<>>)   \* a list inside a list may be nil or empty
RECURSIVE Same(_,_)
Same(a, b) ==
  IF a.k = "any" THEN TRUE
  ELSE IF a.k # b.k THEN FALSE
  ELSE CASE a.k = "nil" -> TRUE
    [] a.k = "p" -> Same(a.e, b.e)
    [] a.k = "l" -> Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : Same(a.e[i], b.e[i]) \/ (NoElems(a.e[i]) /\ NoElems(b.e[i]))
    [] a.k = "o" -> \A i \in 1..Len(a.f) : Same(a.f[i], b.f[i])
    [] a.k = "m" -> Len(a.e) = Len(b.e)
                    /\ \A i \in 1..Len(a.e) : Has(b.e, a.e[i].n) /\ Same(a.e[i].v, Get(b.e, a.e[i].n))
    [] OTHER -> a.v = b.v

(* as Same, not telling an absent list or map from an empty one *)
RECURSIVE Alike(_,_)
Alike(a, b) ==
  LET empty(x) == x.k = "nil" \/ (x.k \in {"l","m"} /\ Len(x.e) = 0) \/ (x.k = "y" /\ x.v = "")
  IN IF a.k # b.k THEN empty(a) /\ empty(b)
  ELSE CASE a.k = "nil" -> TRUE
    [] a.k = "p" -> Alike(a.e, b.e)
    [] a.k = "l" -> Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : Alike(a.e[i], b.e[i])
    [] a.k = "o" -> \A i \in 1..Len(a.f) : Alike(a.f[i], b.f[i])
    [] a.k = "m" -> Len(a.e) = Len(b.e)
                    /\ \A i \in 1..Len(a.e) : Has(b.e, a.e[i].n) /\ Alike(a.e[i].v, Get(b.e, a.e[i].n))
    [] OTHER -> a.v = b.v

---------------------------------------------------------------------------
(* What a value becomes when it is encoded and read back into a fresh one  *)
RECURSIVE Back(_,_,_,_)
RECURSIVE BackFields(_,_,_)
Back(dv, t, l, v) ==
  LET u == Under(t) IN
  CASE v.k = "t" -> Tv(v.r[l])
    [] v.k = "p" -> IF v.e.k = "nil" THEN Nil ELSE Pv(Back(dv, u.e, l, v.e))
    [] v.k = "l" -> Lv([i \in 1..Len(v.e) |-> Back(dv, u.e, "", v.e[i])])
    [] v.k = "m" -> Mv([i \in 1..Len(v.e) |-> [n |-> v.e[i].n, v |-> Back(dv, u.e, "", v.e[i].v)]])
    [] v.k = "o" -> BackFields(dv, u, v)
    [] OTHER -> v
BackFields(dv, u, v) ==
  Ov([i \in 1..Len(u.f) |->
       LET f == u.f[i] IN
       IF Ignored(f) THEN Zero(f.t)
       ELSE IF Flat(f) THEN BackFields(dv, Under(f.t), v.f[i])
       ELSE IF Omitted(dv, f, v.f[i]) THEN (IF f.d # "" THEN DefaultOf(f) ELSE Zero(f.t))
       ELSE IF NilTime(dv, f.t, v.f[i]) THEN Whatever
       ELSE IF v.f[i].k = "nil" /\ Nullable(f.t) THEN Zero(f.t)
       ELSE Back(dv, f.t, f.l, v.f[i])])
=============================================================================
