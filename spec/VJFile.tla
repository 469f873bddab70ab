------------------------------- MODULE VJFile ------------------------------
(***************************************************************************)
(* Source files and the methods the generator promises for their types.    *)
(*                                                                         *)
(* A file is a sequence of declaration groups                              *)
(*   [p |-> parenthesised, d |-> doc of the group, s |-> specs,            *)
(*    t |-> text behind a single spec, o |-> other declaration]            *)
(* of specs [n |-> name, k |-> kind, e |-> element, d |-> doc], where a    *)
(* doc is [l |-> comment lines, g |-> the tags they stand for].            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

(* Kinds: the text of a type around its element                            *)
K(pre, post, imp) == [pre |-> pre, post |-> post, imp |-> imp, list |-> FALSE]
Fld(t, imp) == K("struct {\n\tA " \o t \o " `json:\"a\"`\n\tB string `json:\"b\"`\n}", "", imp)
FldE(pre, o) == K("struct {\n\tB string `json:\"b\"`\n\tA " \o pre, " `json:\"a" \o o \o "\"`\n}", {})
Time == {"time"}
Uuid == {"github.com/google/uuid"}
Kinds ==
  [ struct |-> Fld("int", {}), void |-> K("struct{}", "", {}),
    emb    |-> K("struct {\n\tX1 `json:\",inline\"`\n\tA int `json:\"a\"`\n}", "", {}),
    map    |-> K("map[string]string", "", {}), mapi |-> K("map[string]int64", "", {}),
    strs   |-> K("[]string", "", {}), ints |-> K("[]int32", "", {}), times |-> K("[]time.Time", "", Time), flts |-> K("[3]float64", "", {}),
    bools |-> K("[2]bool", "", {}),
    bytes  |-> K("[]byte", "", {}), bytes4 |-> K("[4]byte", "", {}),
    int    |-> K("int", "", {}), i16 |-> K("int16", "", {}), u64 |-> K("uint64", "", {}), flt |-> K("float64", "", {}), str |-> K("string", "", {}), bool |-> K("bool", "", {}),
    time   |-> K("time.Time", "", Time), uuid |-> K("uuid.UUID", "", Uuid),
    fstr   |-> Fld("string", {}), fflt |-> Fld("float64", {}), fu8 |-> Fld("uint8", {}), fu64 |-> Fld("*uint64", {}), fbool |-> Fld("bool", {}), fpstr |-> Fld("*string", {}),
    ftime  |-> Fld("time.Time", Time), fptime |-> Fld("*time.Time", Time), ftimes |-> Fld("[]time.Time", Time), fuuid |-> Fld("uuid.UUID", Uuid),
    fints  |-> Fld("[]int", {}), fmap |-> Fld("map[string]bool", {}), fbytes |-> Fld("[]byte", {}), fbytesn |-> Fld("[16]byte", {}),
    ofE    |-> [K("[]", "", {}) EXCEPT !.list = TRUE], arrE |-> [K("[2]", "", {}) EXCEPT !.list = TRUE],
    fldE   |-> FldE("", ""), ptrE |-> FldE("*", ",omitempty"), reqE |-> FldE("", ",required"), listE |-> FldE("[]", ""), fmapE |-> FldE("map[string]", ""),
    mapE   |-> K("map[string]", "", {}), defE |-> K("", "", {}), inlE |-> K("struct {\n\t", " `json:\",inline\"`\n\tZ string `json:\"z\"`\n}", {}) ]
WithE == {"ofE","arrE","fldE","ptrE","reqE","listE","fmapE","mapE","defE","inlE"}

(* Which elements the generator supports where                             *)
Scalars == {"int","i16","u64","flt","str","bool"}
RECURSIVE Class(_,_)
Class(ss, n) == LET x == ss[CHOOSE i \in 1..Len(ss) : ss[i].n = n] IN
  CASE x.k = "defE" -> Class(ss, x.e) [] x.k \in Scalars -> "scalar" [] x.k \in {"time","uuid"} -> x.k [] x.k \in {"strs","ints","times","ofE"} -> "list"
    [] x.k \in {"flts","bools"} -> "array" [] x.k = "arrE" -> "arrayof" [] x.k \in {"map","mapi","mapE"} -> "map" [] x.k \in {"bytes","bytes4"} -> "bytes" [] OTHER -> "object"
Supports(k) ==
  CASE k \in {"ofE","arrE","mapE","fmapE"} -> {"object","scalar"} [] k = "listE" -> {"object","scalar","list"} [] k = "inlE" -> {"object"}
    [] k = "defE" -> {"object","scalar","list","array","bytes","time","uuid"} [] k \in {"fldE","reqE"} -> {"object","scalar","list","array","map","bytes"}
    [] k = "ptrE" -> {"object","scalar","array"}
Supported(ss) == \A i \in 1..Len(ss) : ss[i].k \in WithE => Class(ss, ss[i].e) \in Supports(ss[i].k)

(* Docs                                                                    *)
Upper(w) == CASE w = "json" -> "JSON" [] w = "strict" -> "Strict" [] w = "decode" -> "DECODE" [] w = "encode" -> "Encode" [] w = "custom" -> "CusTom" [] OTHER -> w
Join(ws, sep) == LET RECURSIVE J(_) J(i) == IF i > Len(ws) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o ws[i] \o J(i + 1) IN J(1)
Doc(lines, tags) == [l |-> lines, g |-> tags, t |-> ""]
Bare == Doc(<<>>, {})
Spellings(ws) ==
  LET T == ToSet(ws)  a == Join(ws, ",") IN
  << Doc(<<"//json:" \o a>>, T), Doc(<<"// json:" \o a>>, T), Doc(<<"//\tjson:" \o a>>, T), Doc(<<"//   json:" \o a>>, T),
     Doc(<<"// json: " \o Join(ws, " , ")>>, T), Doc(<<"//json:" \o Join(ws, ",\t") \o "  ">>, T), Doc(<<"//json:," \o Join(ws, ",,") \o ",">>, T), Doc(<<"/// json:" \o a>>, T),
     Doc(<<"//json:" \o Join([i \in 1..Len(ws) |-> Upper(ws[i])], ",")>>, T),
     Doc([i \in 1..Len(ws) |-> "//json:" \o ws[i]], T),
     Doc(<<"// says what it is for", "//json:" \o a>>, T), Doc(<<"//json:" \o a, "// says what it is for">>, T),
     Doc(<<"// says what", "//", "// json:" \o a, "//", "// it is for">>, T), Doc(<<"//go:generate true", "//json:" \o a, "//nolint:all">>, T),
     Doc(<<"//json:" \o ws[1], "// in between", "//json:" \o a>>, T) >>
NotTags ==
  << Bare, Doc(<<"// json">>, {}), Doc(<<"// see json:strict">>, {}), Doc(<<"//jsonx:strict">>, {}), Doc(<<"//xjson:strict">>, {}), Doc(<<"//yaml:json:strict">>, {}),
     Doc(<<"//json:strict", "">>, {}), Doc(<<"//json:strict", "", "// says what it is for">>, {}), [Bare EXCEPT !.t = " //json:strict"],
     Doc(<<"// says what", "// it is for">>, {}) >>
Tag(ws) == Spellings(ws)[1]
J == Tag(<<"json">>)  Dec == Tag(<<"decode">>)  Enc == Tag(<<"encode">>)  Cus == Tag(<<"custom">>)  Str == Tag(<<"strict">>)
Words == << <<"json">>, <<"strict">>, <<"decode">>, <<"encode">>, <<"custom">>, <<"strict","decode">>, <<"strict","encode">>, <<"custom","decode">>, <<"encode","custom">>, <<"decode","encode">>, <<"optional">>, <<"whatever">> >>

Spec1(n, k, e, d) == [n |-> n, k |-> k, e |-> e, d |-> d]
One(s)        == [p |-> FALSE, d |-> s.d, s |-> << [s EXCEPT !.d = Bare] >>, t |-> s.d.t, o |-> ""]
Paren(d, ss)  == [p |-> TRUE, d |-> d, s |-> ss, t |-> "", o |-> ""]
Other(d, txt) == [p |-> FALSE, d |-> d, s |-> <<>>, t |-> "", o |-> txt]
Lines(d) == Doc(<<"// some types">>, {})

(* Specs in order, with their own tags: those of the group and of the spec *)
Own(g, s) == g.d.g \cup s.d.g
Specs(file) == FlattenSeq([i \in 1..Len(file) |-> [j \in 1..Len(file[i].s) |-> [n |-> file[i].s[j].n, k |-> file[i].s[j].k, e |-> file[i].s[j].e, g |-> Own(file[i], file[i].s[j])]]])

(* The promise: a tagged type gets the methods its tags leave, an untagged  *)
(* one those that the lists of it need                                     *)
Gives(tags) == IF "custom" \in tags THEN {}
               ELSE (IF "encode" \in tags THEN {} ELSE {"decode"}) \cup (IF "decode" \in tags THEN {} ELSE {"encode"})
IsList(k) == k \in {"ofE","arrE"}
Promise(ss) ==
  LET At(n) == ss[CHOOSE i \in 1..Len(ss) : ss[i].n = n]
      Lists(n) == { ss[i] : i \in { j \in 1..Len(ss) : IsList(ss[j].k) /\ ss[j].e = n } }
      RECURSIVE P(_)
      P(n) == IF At(n).g # {} THEN Gives(At(n).g) ELSE UNION { P(l.n) : l \in Lists(n) }
  IN [ n \in { ss[i].n : i \in 1..Len(ss) } |-> P(n) ]
Decoding == {"UnmarshalJSON","FillFromJSON"}
Encoding == {"MarshalJSON","MarshalTo","IsZero","Reset"}
Methods(gives) == (IF "decode" \in gives THEN Decoding ELSE {}) \cup (IF "encode" \in gives THEN Encoding ELSE {})
=============================================================================
