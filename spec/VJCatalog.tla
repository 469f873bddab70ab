----------------------------- MODULE VJCatalog -----------------------------
(***************************************************************************)
(* The catalogue of Go declarations the checks are run on: the space of    *)
(* types the generator accepts, enumerated family by family.  TLC          *)
(* evaluates Catalog and writes it to the file VJ_OUT; the Go sources are  *)
(* printed from it, and the semantic modules read it back as Env.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

T(k)      == [k |-> k]
Ref(n)    == [k |-> "ref", n |-> n]
Ptr(e)    == [k |-> "ptr", e |-> e]
Slice(e)  == [k |-> "slice", e |-> e]
Arr(n, e) == [k |-> "array", n |-> n, e |-> e]
Map(e)    == [k |-> "map", key |-> T("string"), e |-> e]
MapK(e)   == [k |-> "map", key |-> Ref("NString"), e |-> e]
BytesN(n) == [k |-> "bytesN", n |-> n]
Struct(f) == [k |-> "struct", f |-> f]
\* field: Go name, type, JSON name, option, default, layout
FieldX(g, t, n, o, d, l) == [g |-> g, t |-> t, n |-> n, o |-> o, d |-> d, l |-> l, em |-> "n"]
F(g, t, n)       == FieldX(g, t, n, "", "", "")
Fo(g, t, n, o)   == FieldX(g, t, n, o, "", "")
Emb(t, n, o)     == [g |-> "", t |-> t, n |-> n, o |-> o, d |-> "", l |-> "", em |-> "y"]
Decl(n, tag, t, fam) == [n |-> n, tag |-> tag, t |-> t, fam |-> fam]

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

Scalars == << "bool","int","int8","int16","int32","int64","uint","uint8","uint16",
              "uint32","uint64","float32","float64","string" >>
Cap(k) == CASE k = "bool" -> "Bool" [] k = "int" -> "Int" [] k = "int8" -> "Int8"
            [] k = "int16" -> "Int16" [] k = "int32" -> "Int32" [] k = "int64" -> "Int64"
            [] k = "uint" -> "Uint" [] k = "uint8" -> "Uint8" [] k = "uint16" -> "Uint16"
            [] k = "uint32" -> "Uint32" [] k = "uint64" -> "Uint64"
            [] k = "float32" -> "Float32" [] k = "float64" -> "Float64"
            [] k = "string" -> "String" [] k = "time" -> "Time" [] k = "uuid" -> "UUID"

---------------------------------------------------------------------------
(* Helper declarations, present in every package of the corpus             *)
Helpers ==
  [i \in 1..Len(Scalars) |-> Decl("N" \o Cap(Scalars[i]), "", T(Scalars[i]), "helper")]
  \o [i \in 1..Len(Scalars) |-> Decl("T" \o Cap(Scalars[i]), "json", T(Scalars[i]), "transit")]
  \o << Decl("PI32", "", Ptr(T("int32")), "helper"),
        Decl("NNInt16", "", Ref("NInt16"), "helper"),
        Decl("UL", "", Slice(T("int")), "helper"), Decl("ULS", "", Slice(T("string")), "helper"), Decl("UM", "", Map(T("int")), "helper"), Decl("UB", "", T("bytes"), "helper"),
        Decl("TTime", "json", T("time"), "transit"),
        Decl("TUUID", "json", T("uuid"), "transit"),
        Decl("TS", "json", Struct(<< F("X", T("int"), "x"), Fo("Y", T("string"), "y", "omitempty") >>), "struct"),
        Decl("SS", "strict", Struct(<< F("X", T("int"), "x"), Fo("Y", T("string"), "y", "omitempty") >>), "struct"),
        Decl("TTS", "json", Ref("TS"), "transit"),
        Decl("TSS", "json", Ref("SS"), "transit"),
        Decl("TM", "json", Map(T("int")), "named"),
        Decl("TMS", "json", Map(Ref("TS")), "named"),
        Decl("TA", "json", Slice(T("int")), "named"),
        Decl("TAS", "json", Slice(Ref("TS")), "named"),
        Decl("TA3", "json", Arr(3, T("int")), "named"),
        Decl("TB", "json", T("bytes"), "named"),
        Decl("TB4", "json", BytesN(4), "named") >>

Plain == [i \in 1..Len(Scalars) |-> T(Scalars[i])]
NamedScalars == [i \in 1..Len(Scalars) |-> Ref("N" \o Cap(Scalars[i]))]
TransitScalars == << Ref("TInt"), Ref("TString"), Ref("TBool"), Ref("TUint16"), Ref("TFloat32") >>

(* the contexts a type can be used in as (part of) a field *)
Ctx(c, t) == CASE c = "v"   -> t
               [] c = "p"   -> Ptr(t)
               [] c = "sl"  -> Slice(t)
               [] c = "slp" -> Slice(Ptr(t))
               [] c = "ar"  -> Arr(2, t)
               [] c = "m"   -> Map(t)
               [] c = "mk"  -> MapK(t)
               [] c = "mp"  -> Map(Ptr(t))
               [] c = "ss"  -> Slice(Slice(t))
               [] c = "pp"  -> Ptr(Ptr(t))

AllCtx   == <<"v","p","sl","slp","ar","m","mk","mp","ss">>

(* which type is supported in which contexts *)
Matrix ==
  [i \in 1..Len(Plain) |-> [t |-> Plain[i], c |-> Append(AllCtx, "pp")]]
  \o [i \in 1..Len(NamedScalars) |-> [t |-> NamedScalars[i], c |-> AllCtx]]
  \o [i \in 1..Len(TransitScalars) |-> [t |-> TransitScalars[i], c |-> AllCtx]]
  \o << [t |-> T("time"),  c |-> <<"v","p","sl","ar","ss","pp">>],
        [t |-> T("uuid"),  c |-> <<"v","p","pp">>],
        [t |-> T("bytes"), c |-> <<"v">>],
        [t |-> BytesN(4),  c |-> <<"v">>],
        [t |-> BytesN(3),  c |-> <<"v">>],
        [t |-> Ref("PI32"), c |-> <<"v","p">>],
        [t |-> Ref("UL"),  c |-> <<"v","sl","ar">>], [t |-> Ref("ULS"), c |-> <<"v","sl">>], [t |-> Ref("UM"), c |-> <<"v">>], [t |-> Ref("UB"), c |-> <<"v">>],
        [t |-> Ref("NNInt16"), c |-> <<"v","p","sl","slp","ar","m","mk","mp","ss">>],
        [t |-> Ref("TS"),  c |-> <<"v","p","sl","slp","m","mk","mp","ss">>],
        [t |-> Ref("SS"),  c |-> <<"v","p","sl","slp","m","mk","mp","ss">>],
        [t |-> Ref("TTS"), c |-> <<"v","p","sl","slp","m","mk","mp","ss">>],
        [t |-> Ref("TM"),  c |-> <<"v","ss">>],
        [t |-> Ref("TMS"), c |-> <<"v","ss">>],
        [t |-> Ref("TA"),  c |-> <<"v","sl","ar","ss">>],
        [t |-> Ref("TAS"), c |-> <<"v","sl","ar","ss">>],
        [t |-> Ref("TA3"), c |-> <<"v","p","sl","slp","ar","ss">>],
        [t |-> Ref("TB"),  c |-> <<"v","slp","ss">>],
        [t |-> Ref("TB4"), c |-> <<"v","slp","ss">>],
        [t |-> Ref("TTime"), c |-> <<"slp","ss">>],
        [t |-> Ref("TUUID"), c |-> <<"sl","slp","ar","ss">>] >>

FieldTypes == Cat([i \in 1..Len(Matrix) |->
                [j \in 1..Len(Matrix[i].c) |-> Ctx(Matrix[i].c[j], Matrix[i].t)]])

Num(p, i) == p \o ToString(i)

(* every field type, plain and with omitempty, between two neighbours *)
Single ==
  [i \in 1..Len(FieldTypes) |->
    Decl(Num("Fa", i), "json",
      Struct(<< F("A", T("int"), "a"), F("F", FieldTypes[i], "f"),
                Fo("G", FieldTypes[i], "g", "omitempty"), F("Z", T("string"), "z") >>), "single")]

(* required members *)
ReqTypes == Plain \o << T("time"), T("uuid"), T("bytes"), BytesN(4), Ptr(T("int")), Ptr(T("string")), Ptr(T("time")),
   Ptr(Ref("TS")), Slice(T("int")), Slice(T("string")), Slice(Ref("TS")), Arr(2, T("int")), Map(T("string")), Map(Ref("TS")),
   Ref("TS"), Ref("SS"), Ref("NInt"), Ref("NString"), Ref("TInt"), Ref("TA"), Ref("TM"), Ref("TA3"), Ref("TB"), Ptr(Ref("NInt8")) >>
Required ==
  [i \in 1..Len(ReqTypes) |->
    Decl(Num("Rq", i), IF i % 2 = 0 THEN "strict" ELSE "json",
      Struct(<< F("A", T("int"), "a"), Fo("R", ReqTypes[i], "r", "required"),
                Fo("Q", T("bool"), "q", "required") >>), "required")]

(* defaults *)
DefLits(k) == CASE k = "bool" -> <<"true", "false">>
   [] k \in {"int8","int16","int32","int64","int"} -> <<"42", "-5", "0">>
   [] k \in {"uint8","uint16","uint32","uint64","uint"} -> <<"42", "0">>
   [] k \in {"float32","float64"} -> <<"1.5", "-0.25", "0">>
   [] k = "string" -> <<"dflt", "two words", "@dq", "@uni">>
DefaultsOf(t, k) == [i \in 1..Len(DefLits(k)) |-> [t |-> t, d |-> DefLits(k)[i]]]
DefCases == Cat([i \in 1..Len(Scalars) |->
    DefaultsOf(T(Scalars[i]), Scalars[i]) \o DefaultsOf(Ptr(T(Scalars[i])), Scalars[i])
    \o DefaultsOf(Ref("N" \o Cap(Scalars[i])), Scalars[i])])
Defaults ==
  [i \in 1..Len(DefCases) |->
    Decl(Num("Df", i), "json",
      Struct(<< F("A", T("int"), "a"), FieldX("D", DefCases[i].t, "d", "", DefCases[i].d, ""),
                FieldX("E", DefCases[i].t, "e", "omitempty", DefCases[i].d, ""),
                F("Z", T("string"), "z") >>), "default")]

(* time layouts *)
Layouts == << "2006-01-02", "Mon, 02 Jan 2006 15:04:05 MST", "2006-01-02T15:04:05Z07:00",
              "02.01.2006 15:04", "15:04:05.000", "2006-01-02T15:04:05.999999999Z07:00", "Jan _2 2006",
              "time.RFC1123Z", "time.Kitchen", "time.RFC3339Nano" >>   \* the last three are constants of package time
Times ==
  Cat([i \in 1..Len(Layouts) |->
    << Decl(Num("Ti", i), "json",
        Struct(<< FieldX("T", T("time"), "t", "", "", Layouts[i]),
                  FieldX("P", Ptr(T("time")), "p", "omitempty", "", Layouts[i]),
                  FieldX("O", T("time"), "o", "omitempty", "", Layouts[i]) >>), "time") >>])
  \o << Decl("TiReq", "json", Struct(<< FieldX("T", T("time"), "t", "required", "", "2006-01-02"),
                                        Fo("U", T("time"), "u", "required") >>), "time"),
        Decl("TiList", "json", Struct(<< F("L", Slice(T("time")), "l"), F("A", Arr(2, T("time")), "a"),
                                         F("D", T("time"), "d"), F("P", Ptr(T("time")), "p") >>), "time") >>

(* tagged lists, maps, byte strings and transit types as documents of their own *)
NamedElems == Plain \o << T("time"), Ref("NInt"), Ref("NString"), Ref("NFloat32"), Ref("TS"), Ref("SS") >>
NamedTop ==
  Cat([i \in 1..Len(NamedElems) |->
    << Decl(Num("Nl", i), "json", Slice(NamedElems[i]), "named") >>
    \o (IF NamedElems[i].k = "time" THEN <<>> ELSE
       << Decl(Num("Nm", i), "json", Map(NamedElems[i]), "named") >>)
    \o << Decl(Num("Na", i), "json", Arr(2, NamedElems[i]), "named") >>])
  \o << Decl("Nmk1", "json", MapK(T("int")), "named"), Decl("Nmk2", "json", MapK(Ref("TS")), "named"),
        Decl("Nmp1", "json", Map(Ptr(T("int"))), "named"), Decl("Nmp2", "json", Map(Ptr(Ref("TS"))), "named"),
        Decl("Nb0", "json", BytesN(0), "named"), Decl("Nb16", "json", BytesN(16), "named") >>

(* nested objects, strict and not, at several depths *)
Nest ==
  << Decl("Ne1", "json",   Struct(<< F("A", Ref("SS"), "a"), F("B", Ptr(Ref("SS")), "b"), F("C", Slice(Ref("SS")), "c"), F("D", Map(Ref("SS")), "d") >>), "nest"),
     Decl("Ne2", "strict", Struct(<< F("A", Ref("TS"), "a"), F("B", Ptr(Ref("TS")), "b"), F("C", Slice(Ref("TS")), "c"), F("D", Map(Ref("TS")), "d") >>), "nest"),
     Decl("Ne3", "json",   Struct(<< F("N", Ref("Ne1"), "n"), F("M", Ref("Ne2"), "m") >>), "nest"),
     Decl("Ne4", "strict", Struct(<< F("N", Ptr(Ref("Ne3")), "n"), F("L", Slice(Ptr(Ref("Ne2"))), "l") >>), "nest"),
     Decl("Ne5", "json",   Struct(<< F("X", Ref("TS"), "x"), F("Y", Ref("TS"), "y") >>), "nest"),
     Decl("NeSame", "strict", Struct(<< F("X", Ref("Ne5"), "x"), F("Y", Ref("SS"), "y") >>), "nest") >>

(* inlined and embedded structs *)
Inline ==
  << Decl("In0", "", Struct(<< F("P", T("int"), "p"), Fo("Q", T("string"), "q", "omitempty") >>), "inl"),
     Decl("In00", "", Struct(<< Emb(Ref("In0"), "", "inline"), F("S", Slice(T("int")), "s") >>), "inl"),
     Decl("In1", "json", Struct(<< F("A", T("int"), "a"), Emb(Ref("In0"), "", "inline"), F("Z", T("string"), "z") >>), "inline"),
     Decl("In2", "strict", Struct(<< Emb(Ref("In0"), "", "inline"), F("Z", T("string"), "z") >>), "inline"),
     Decl("In3", "strict", Struct(<< F("A", T("int"), "a"), Emb(Ref("In00"), "", "inline") >>), "inline"),
     Decl("In4", "json", Struct(<< Emb(Ref("In00"), "", "inline"), Emb(Ref("TS"), "", "inline") >>), "inline"),
     Decl("In5", "json", Struct(<< F("A", T("int"), "a"), Emb(Ref("TS"), "ts", ""), F("Z", T("string"), "z") >>), "inline"),
     Decl("In6", "strict", Struct(<< Emb(Ref("SS"), "ss", ""), Emb(Ref("In0"), "", "inline") >>), "inline"),
     Decl("In7", "json", Struct(<< F("A", T("int"), "a"), Emb(Ref("TS"), "ts", "omitempty") >>), "inline"),
     Decl("In8", "json", Struct(<< Emb(Ref("SS"), "", "inline"), F("Z", T("string"), "z") >>), "inline"),
     Decl("In9", "json", Struct(<< F("L", Slice(Ref("In1")), "l"), F("P", Ptr(Ref("In2")), "p"), F("M", Map(Ref("In3")), "m") >>), "inline") >>

(* recursive types *)
Recursive ==
  << Decl("Rc1", "json", Struct(<< F("V", T("int"), "v"), Fo("L", Slice(Ref("Rc1")), "l", "omitempty"),
                                   Fo("P", Ptr(Ref("Rc1")), "p", "omitempty") >>), "rec"),
     Decl("Rc2", "strict", Struct(<< F("V", T("string"), "v"), Fo("M", Map(Ptr(Ref("Rc2"))), "m", "omitempty"),
                                   Fo("K", Slice(Ptr(Ref("Rc2"))), "k", "omitempty") >>), "rec") >>

(* every ordered pair of field classes next to each other *)
Classes == <<
  [t |-> T("int"), o |-> ""], [t |-> T("int"), o |-> "omitempty"],
  [t |-> T("string"), o |-> "omitempty"], [t |-> T("bool"), o |-> "omitempty"],
  [t |-> Ptr(T("int")), o |-> "omitempty"], [t |-> Ptr(Ref("TS")), o |-> "omitempty"],
  [t |-> Slice(T("int")), o |-> ""], [t |-> Slice(T("int")), o |-> "omitempty"],
  [t |-> Map(T("int")), o |-> ""], [t |-> Map(T("int")), o |-> "omitempty"],
  [t |-> Ref("TS"), o |-> ""], [t |-> Ref("TS"), o |-> "omitempty"],
  [t |-> Arr(2, T("int")), o |-> ""], [t |-> T("bytes"), o |-> "omitempty"],
  [t |-> T("time"), o |-> "omitempty"], [t |-> T("uuid"), o |-> ""],
  [t |-> Slice(Ref("TS")), o |-> "omitempty"] >>
NC == Len(Classes)       \* a prime: for every step s the chain i, i+s, i+2s ... meets all classes
ASSUME NC = 17
FieldNames == <<"A","B","C","D","E","F">>
JsonNames  == <<"a","b","c","d","e","f">>
(* fields a, a+1, ..., b of the chain with step s *)
CommaDecl(s, a, b) ==
  LET c(j) == Classes[(((a + j - 2) * s) % NC) + 1] IN
  Decl("Co" \o ToString(s) \o "x" \o ToString(a), "json",
    Struct([j \in 1..(b - a + 1) |-> Fo(FieldNames[j], c(j).t, JsonNames[j], c(j).o)]), "comma")
(* the same class twice in a row *)
TwinDecl(a) ==
  LET c(j) == Classes[((a + ((j + 1) \div 2) - 2) % NC) + 1] IN
  Decl("Ct" \o ToString(a), "json",
    Struct([j \in 1..6 |-> Fo(FieldNames[j], c(j).t, JsonNames[j], c(j).o)]), "comma")
Comma == Cat([s \in 1..(NC-1) |-> << CommaDecl(s,1,6), CommaDecl(s,6,11), CommaDecl(s,11,16), CommaDecl(s,16,18) >>])
         \o [i \in 1..6 |-> TwinDecl(3*i - 2)]

(* unusual but legal shapes and names *)
Shapes ==
  << Decl("Sh1", "json", Struct(<<>>), "shape"),
     Decl("Sh2", "strict", Struct(<<>>), "shape"),
     Decl("Sh3", "json", Struct([i \in 1..66 |-> F(Num("F", i), T("int"), Num("f", i))]), "shape"),
     Decl("Sh4", "strict", Struct([i \in 1..18 |-> Fo(Num("F", i), T("string"), Num("f", i), "omitempty")]), "shape"),
     Decl("Sh5", "json", Struct(<< F("Err", T("int"), "err"), F("V", T("string"), "v"), F("S", Slice(T("int")), "s"),
                                   F("Key", Map(T("int")), "key"), F("Value", Ptr(T("int")), "value"),
                                   F("Result", T("bool"), "result"), F("O", Ref("TS"), "o"), F("B", T("time"), "b"),
                                   F("N", T("bytes"), "n"), F("L", Slice(T("string")), "l"), F("ListA", Arr(2, T("int")), "listA") >>), "shape"),
     Decl("Sh6", "json", Struct(<< F("A", T("int"), "with space"), F("B", T("string"), "@uni"), F("C", T("bool"), "a.b"),
                                   F("D", T("float64"), "$id"), F("E", Slice(T("int")), "a-b_c/d"), F("G", Map(T("int")), "UPPER") >>), "shape"),
     Decl("Sh7", "json", Struct(<< F("A", T("int"), "x"), F("B", T("int"), "X"), F("C", T("int"), "xx") >>), "shape"),
     Decl("Sh8", "json", Struct(<< F("VeryLongFieldNameThatGoesOnAndOnAndOnUntilItIsQuiteLongIndeed", T("int"), "veryLongFieldNameThatGoesOnAndOnAndOnUntilItIsQuiteLongIndeed"),
                                   F("S", Ref("TS"), "veryLongFieldNameThatGoesOnAndOnAndOnUntilItIsQuiteLongIndeedTwice") >>), "shape"),
     Decl("Sh9", "json", Struct(<< F("A", T("int"), "a"), F("I", T("int"), "-"), F("Z", T("string"), "z") >>), "ignored") >>

(* the ways a tag can be written: options together, names that look like   *)
(* options, no name (the field's own), a quoted string for a tag           *)
Tn(f, text) == f @@ [tn |-> text]      \* the name as it stands in the tag
Quoted(f) == f @@ [tq |-> "y"]
OptTypes == << T("int"), T("string"), Ptr(T("int")), Slice(T("int")), Ref("TS"), T("time"), Map(T("string")), Ref("NInt16"), T("bytes"), Ptr(Ref("TS")), Ref("TA"), T("uuid") >>
Both(o) == Struct([i \in 1..Len(OptTypes) |-> Fo(Num("F", i), OptTypes[i], Num("f", i), o)])
TagForms ==
  << Decl("Tg1", "json", Struct(<< F("A", Ptr(T("int")), "omitempty"), F("B", Ptr(T("string")), "required"), F("C", T("bool"), "inline"), F("S", Ptr(Ref("TS")), "omitempty3"), F("D", Ref("TS"), "default"),
                                   F("E", Slice(T("int")), "omitempty2"), F("P", Ptr(T("int")), "null") >>), "tag"),
     Decl("Tg2", "json", Both("required,omitempty"), "tag"),
     Decl("Tg3", "strict", Both("omitempty,required"), "tag"),
     Decl("Tg4", "json", Struct(<< Tn(Fo("A", T("int"), "A", "omitempty"), ""), Tn(F("B", T("string"), "B"), ""), Tn(Fo("Cc", Ref("TS"), "Cc", "required"), ""),
                                   Tn(Fo("D", Slice(T("int")), "D", "omitempty"), ""), Tn(F("E", Map(T("int")), "E"), ""), F("Z", T("int"), "z") >>), "tag"),
     Decl("Tg5", "strict", Struct(<< Quoted(F("A", T("int"), "a")), Quoted(Fo("B", T("string"), "b", "omitempty")), Quoted(FieldX("C", T("int"), "c", "", "42", "")),
                                     Quoted(FieldX("T", T("time"), "t", "", "", "2006-01-02")) >>), "tag") >>

(* required members of every type *)
RequiredAll ==
  [i \in 1..Len(FieldTypes) |->
    Decl(Num("Ra", i), IF i % 2 = 0 THEN "strict" ELSE "json",
      Struct(<< F("A", T("int"), "a"), Fo("R", FieldTypes[i], "r", "required") >>), "reqall")]

(* defaults at the ends of the range, and of types defined from scalars *)
Ends(k) == CASE k = "int8" -> <<"127","-128">> [] k = "int16" -> <<"32767","-32768">> [] k = "int32" -> <<"2147483647","-2147483648">>
   [] k \in {"int64","int"} -> <<"9223372036854775807","-9223372036854775808">>
   [] k = "uint8" -> <<"255">> [] k = "uint16" -> <<"65535">> [] k = "uint32" -> <<"4294967295">> [] k \in {"uint64","uint"} -> <<"18446744073709551615">>
   [] k = "float32" -> <<"16777216","3.4e38">> [] k = "float64" -> <<"1e308","0.1">> [] k = "bool" -> <<>> [] k = "string" -> <<"null","12","@esc","@html">>
Named2 == << [t |-> Ref("TInt"), k |-> "int"], [t |-> Ref("TString"), k |-> "string"], [t |-> Ref("TBool"), k |-> "bool"], [t |-> Ref("TUint16"), k |-> "uint16"],
             [t |-> Ref("TFloat32"), k |-> "float32"], [t |-> Ref("TInt8"), k |-> "int8"], [t |-> Ref("NNInt16"), k |-> "int16"], [t |-> Ptr(Ref("NInt16")), k |-> "int16"],
             [t |-> Ptr(Ref("TInt")), k |-> "int"], [t |-> Ptr(Ref("TString")), k |-> "string"], [t |-> Ptr(Ref("NUint64")), k |-> "uint64"] >>
EndCases ==
  Cat([i \in 1..Len(Scalars) |-> LET k == Scalars[i] IN [j \in 1..Len(Ends(k)) |-> [t |-> T(k), d |-> Ends(k)[j]]]
                                   \o [j \in 1..Len(Ends(k)) |-> [t |-> Ptr(T(k)), d |-> Ends(k)[j]]]])
  \o Cat([i \in 1..Len(Named2) |-> [j \in 1..Len(Ends(Named2[i].k)) |-> [t |-> Named2[i].t, d |-> Ends(Named2[i].k)[j]]]])
DefaultEnds ==
  [i \in 1..Len(EndCases) |->
    Decl(Num("De", i), "json", Struct(<< FieldX("D", EndCases[i].t, "d", "", EndCases[i].d, ""), FieldX("E", EndCases[i].t, "e", "omitempty", EndCases[i].d, ""), F("Z", T("string"), "z") >>), "default")]

(* member names that need care somewhere on the way *)
OddNames == << "<a>&", "a;b", "{x}", "[0]", "#", "a:b", "(root)", "json", "x=y", "~!@", "a*b?", "null", "0", "-1", "true" >>
OddToks == << "@pct", "@fmt", "@html", "@uni", "@long" >>
OddKinds == << T("int8"), Ptr(T("string")), Ref("TS"), Slice(T("int")), Map(T("bool")) >>
Odd ==
  [i \in 1..Len(OddNames) |->
    Decl(Num("Od", i), IF i % 2 = 0 THEN "strict" ELSE "json",
      Struct(<< F("A", T("int8"), OddNames[i]), Fo("B", Ptr(T("string")), OddNames[i] \o "2", "omitempty"), F("S", Ref("TS"), OddNames[i] \o "3"),
                F("L", Slice(T("int")), OddNames[i] \o "4"), F("M", Map(T("bool")), OddNames[i] \o "5"), F("T", T("time"), OddNames[i] \o "6"),
                Fo("R", T("uint8"), OddNames[i] \o "7", "required"), FieldX("D", T("int"), OddNames[i] \o "8", "", "42", ""), F("U", T("uuid"), OddNames[i] \o "9") >>), "odd")]
  \o [i \in 1..5 |-> Decl(Num("Ot", i), IF i % 2 = 0 THEN "strict" ELSE "json",
       Struct([j \in 1..5 |-> Fo(Num("F", j), OddKinds[((i + j) % 5) + 1], OddToks[j], IF i = j THEN "required" ELSE IF i = j + 1 THEN "omitempty" ELSE "")]), "odd")]

(* lengths *)
Sizes ==
  << Decl("Sz1", "json", Struct(<< F("A", BytesN(0), "a"), F("B", BytesN(1), "b"), F("C", BytesN(16), "c"), F("Z", T("int"), "z") >>), "bytes"),
     Decl("Sz2", "json", Struct(<< F("A", Arr(0, T("int")), "a"), F("B", Arr(1, T("string")), "b"), F("C", Arr(3, T("uint8")), "c"), F("Z", T("int"), "z") >>), "bytes"),
     Decl("Sz3", "strict", Struct(<< Fo("A", BytesN(1), "a", "omitempty"), Fo("B", Arr(1, T("bool")), "b", "omitempty"), Fo("C", Arr(3, T("time")), "c", "omitempty"), Fo("D", T("bytes"), "d", "required") >>), "bytes"),
     Decl("Sz4", "json", Arr(1, T("string")), "bytes"), Decl("Sz5", "json", Arr(0, T("int")), "bytes"), Decl("Sz6", "json", Arr(3, T("time")), "bytes"), Decl("Sz7", "json", BytesN(1), "bytes") >>

(* names of types that mean something elsewhere *)
LocalNames == << "Time", "UUID", "Value", "String", "Writer", "Parser", "Int", "Number", "Array", "Object" >>
LocalKinds == << Struct(<< F("X", T("int"), "x"), Fo("Y", T("string"), "y", "omitempty") >>), T("string"), T("int16"), Slice(T("int")), Slice(Ref("TS")) >>
Local ==
  Cat([k \in 1..Len(LocalKinds) |-> Cat([i \in 1..Len(LocalNames) |->
    LET n == "Ln" \o ToString(k) \o LocalNames[i] IN
    << Decl(n, "json", LocalKinds[k], "local" \o ToString(k)) @@ [gn |-> LocalNames[i]],
       Decl(n \o "u", "json", Struct(<< F("A", Ref(n), "a"), F("L", Slice(Ref(n)), "l"), Fo("O", Ref(n), "o", "omitempty") >>), "local" \o ToString(k)) >>
    \o (IF k <= 3 THEN << Decl(n \o "p", "json", Struct(<< F("A", Ptr(Ref(n)), "a"), F("M", Map(Ref(n)), "m"), Fo("O", Slice(Ptr(Ref(n))), "o", "omitempty") >>), "local" \o ToString(k)) >> ELSE <<>>)])])

(* an untagged struct takes the rules of the list it is an element of      *)
HeirStruct == Struct(<< F("X", T("int"), "x"), Fo("Y", T("string"), "y", "omitempty"), Fo("R", T("bool"), "r", "required") >>)
Heirs ==
  Cat([i \in 1..4 |->
    LET tag == IF i % 2 = 0 THEN "json" ELSE "strict"
        n == Num("He", i) IN
    << Decl(n \o "e", "", IF i = 4 THEN Struct(<< F("V", Slice(Ref("TS")), "v"), F("W", Ptr(T("int")), "w") >>) ELSE HeirStruct, "helper") @@ [heir |-> tag],
       Decl(n, tag, IF i = 3 THEN Arr(2, Ref(n \o "e")) ELSE Slice(Ref(n \o "e")), "heir"),
       Decl(n \o "u", "json", Struct(<< F("E", Ref(n \o "e"), "e"), F("L", Slice(Ref(n \o "e")), "l"), F("P", Ptr(Ref(n \o "e")), "p") >>), "heir") >>])

(* members the documents do not show, of several types, several to a      *)
(* declaration: Joined fields stand together with the next one            *)
Joined(f) == f @@ [jn |-> "y"]
Ign(g, t) == F(g, t, "-")
Ignoreds ==
  << Decl("Ig1", "json", Struct(<< F("A", T("int"), "a"), Joined(Ign("W", T("int"))), Joined(Ign("H", T("int"))), Ign("D", T("int")), F("Z", T("string"), "z") >>), "ignored"),
     Decl("Ig2", "strict", Struct(<< Joined(Ign("S", T("string"))), Ign("T", T("string")), Joined(Ign("P", Ptr(T("int")))), Ign("Q", Ptr(T("int"))), Fo("A", T("bool"), "a", "omitempty") >>), "ignored"),
     Decl("Ig3", "json", Struct(<< Joined(Ign("L", Slice(T("int")))), Ign("M", Slice(T("int"))), Joined(Ign("O", Ref("TS"))), Ign("P", Ref("TS")), F("A", Map(T("int")), "a"), Ign("N", Map(T("int"))) >>), "ignored"),
     Decl("Ig4", "json", Struct(<< Ign("T", T("time")), Joined(Ign("F", T("float64"))), Ign("G", T("float64")), Joined(Ign("X", Ref("NInt16"))), Ign("Y", Ref("NInt16")), F("A", Slice(Ref("TS")), "a"), Ign("B", Ptr(Ref("TS"))) >>), "ignored"),
     Decl("Ig5", "json", Struct(<< Joined(Ign("W", T("uint8"))), Ign("H", T("uint8")) >>), "ignored"),
     Decl("Ig6", "json", Struct(<< F("S", Ref("Ig1"), "s"), Fo("O", Ref("Ig1"), "o", "omitempty"), F("L", Slice(Ref("Ig2")), "l"), F("M", Map(Ptr(Ref("Ig5"))), "m") >>), "ignored") >>

(* structs embedded without a name: their members are the embedding        *)
(* object's, but a struct that is empty shows none                         *)
Whole(t) == Emb(t, "", "")
(* structs tagged transit pass everything on to the one they embed         *)
Pass(n, r) == Decl(n, "transit", Struct(<< Whole(Ref(r)) >>), "pass")
Passed ==
  << Pass("Ps1", "TS"), Pass("Ps2", "SS"),
     Decl("Ps0", "json", Struct(<< Fo("A", T("int"), "a", "required"), F("L", Slice(Ref("SS")), "l"), Fo("M", Map(T("int")), "m", "omitempty"), F("P", Ptr(T("string")), "p") >>), "pass"),
     Pass("Ps3", "Ps0"),
     Decl("Ps4", "strict", Struct(<< F("A", Ref("Ps1"), "a"), Fo("B", Ref("Ps2"), "b", "omitempty"), F("P", Ptr(Ref("Ps3")), "p"), F("L", Slice(Ref("Ps2")), "l"), F("M", Map(Ref("Ps1")), "m"), F("Z", T("int"), "z") >>), "pass"),
     Decl("Ps5", "json", Slice(Ref("Ps1")), "pass"), Decl("Ps6", "json", Map(Ref("Ps2")), "pass"), Decl("Ps7", "json", Ref("Ps1"), "pass") >>
Deleg ==
  << Decl("Dg0", "json", Struct(<< F("P", T("int"), "p"), Fo("Q", T("string"), "q", "omitempty"), F("L", Slice(T("int")), "l"), Fo("K", Ptr(T("bool")), "k", "omitempty") >>), "deleg"),
     Decl("Dg1", "json", Struct(<< Whole(Ref("TS")) >>), "deleg"),
     Decl("Dg2", "json", Struct(<< F("A", T("int"), "a"), Whole(Ref("TS")), F("Z", T("string"), "z") >>), "deleg"),
     Decl("Dg3", "json", Struct(<< Fo("A", T("int"), "a", "omitempty"), Whole(Ref("TS")), Whole(Ref("Dg0")), Fo("Z", T("string"), "z", "omitempty") >>), "deleg"),
     Decl("Dg4", "json", Struct(<< Whole(Ref("Dg0")), Emb(Ref("TS"), "ts", "") >>), "deleg"),
     Decl("Dg5", "json", Struct(<< Whole(Ref("Dg2")), F("V", T("time"), "v") >>), "deleg"),
     Decl("DgN", "json", Struct(<< Fo("DgN", T("int"), "dgn", "omitempty"), F("B", T("string"), "b") >>), "deleg"),
     Decl("Dg6", "json", Struct(<< Emb(Ref("DgN"), "", "inline"), F("C", T("int"), "c") >>), "deleg"),
     Decl("Dg7", "json", Struct(<< Emb(Ref("DgN"), "", "inline") >>), "deleg"),
     Decl("Dg8", "json", Struct(<< F("S", Ref("Dg2"), "s"), F("L", Slice(Ref("Dg3")), "l"), F("M", Map(Ref("Dg1")), "m"), Fo("P", Ptr(Ref("Dg5")), "p", "omitempty") >>), "deleg") >>

(* types defined from types defined from types *)
Chains ==
  << Decl("TTA", "json", Ref("TA"), "transit"), Decl("TTA3", "json", Ref("TA3"), "transit"), Decl("TTB", "json", Ref("TB"), "transit"), Decl("TTB4", "json", Ref("TB4"), "transit"),
     Decl("TTAS", "json", Ref("TAS"), "transit"), Decl("TTInt", "json", Ref("TInt"), "transit"), Decl("TTStr", "json", Ref("TString"), "transit"),
     Decl("TTTS", "json", Ref("TTS"), "transit"), Decl("TTSS", "json", Ref("TSS"), "transit"), 
     Decl("TTTime", "json", Ref("TTime"), "transit"), Decl("TTUUID", "json", Ref("TUUID"), "transit") >>

(* more tagged lists and maps *)
MoreElems == << Ref("TInt"), Ref("TString"), Ref("TBool"), Ref("TUint16"), Ref("TFloat32"), Ref("TTS"), Ref("NBool"), Ref("NUint8"), Ref("NInt64"), Ref("TUUID") >>
MoreTop ==
  Cat([i \in 1..Len(MoreElems) |->
    << Decl(Num("Ml", i), "json", Slice(MoreElems[i]), "named") >> \o
    (IF MoreElems[i] = Ref("TUUID") THEN <<>> ELSE << Decl(Num("Ma", i), "json", Arr(2, MoreElems[i]), "named"), Decl(Num("Mm", i), "json", Map(MoreElems[i]), "named") >>)])
  \o [i \in 1..Len(Plain) |-> Decl(Num("Mq", i), "json", Slice(Arr(2, Plain[i])), "named")]
  \o << Decl("Mp1", "json", Map(Ptr(T("bool"))), "named"), Decl("Mp2", "json", Map(Ptr(T("float64"))), "named"), Decl("Mp3", "json", Map(Ptr(Ref("TTS"))), "named"),
         Decl("Mq20", "json", Slice(Arr(2, Ref("TInt"))), "named"), Decl("Mq21", "json", Slice(Arr(2, Ref("TA"))), "named"), Decl("Mq22", "json", Slice(Arr(3, Ref("NString"))), "named") >>

(* many members, some of them required *)
Wide ==
  << Decl("Wi1", "strict", Struct([i \in 1..70 |-> Fo(Num("F", i), T("int"), Num("f", i), IF i \in {1,31,32,33,63,64,65,70} THEN "required" ELSE "")]), "shape"),
     Decl("Wi2", "json", Struct([i \in 1..40 |-> Fo(Num("F", i), FieldTypes[((i * 7) % Len(FieldTypes)) + 1], Num("f", i), IF i % 3 = 0 THEN "omitempty" ELSE "")]), "shape") >>

(* structs drawn at random: the seed decides which *)
Seed == IF "VJ_SEED" \in DOMAIN IOEnv /\ IOEnv.VJ_SEED # "" THEN atoi(IOEnv.VJ_SEED) ELSE 1
Mixed == IF "VJ_TIER" \in DOMAIN IOEnv /\ IOEnv.VJ_TIER = "thorough" THEN 60 ELSE 24
RECURSIVE Draw(_,_)
Draw(n, ds) == IF n = 0 THEN ds ELSE Draw(n - 1, Append(ds, (ds[Len(ds)] * 46021 + 8191) % 46337))
Draws == Draw(20 * Mixed, << ((Seed * 7919) + 17) % 46337 >>)
MixField(j, a, b) ==
  LET t == FieldTypes[(a % Len(FieldTypes)) + 1]
      o == b % 8
      g == Num("F", j)
      n == Num("f", j)
  IN IF o = 0 THEN LET c == DefCases[(a % Len(DefCases)) + 1] IN FieldX(g, c.t, n, "", c.d, "")
     ELSE IF t.k = "time" /\ o < 4 THEN FieldX(g, t, n, "omitempty", "", Layouts[(a % Len(Layouts)) + 1])
     ELSE Fo(g, t, n, IF o \in {1,2,3} THEN "omitempty" ELSE IF o = 4 THEN "required" ELSE "")
Mix ==
  LET ds == TLCEval(Draws) IN
  [i \in 1..Mixed |->
    LET d(k) == ds[20 * (i - 1) + k] IN
    Decl(Num("Mx", i), IF d(1) % 3 = 0 THEN "strict" ELSE "json",
      Struct([j \in 1..(2 + (d(2) % 7)) |-> MixField(j, d(2 * j + 1), d(2 * j + 2))]), "mix")]
---------------------------------------------------------------------------
(* Types of other packages.  The packages of Universe are all present in   *)
(* the module; several have the same name and declare types of the same    *)
(* names that mean different things.  A source file imports some of them,  *)
(* under their own name or an alias; a qualified name in it means the type *)
(* of that name in the package imported under the qualifier (Resolve).     *)
Pk(path, name, id) == [path |-> path, name |-> name, id |-> id]
Universe == << Pk("ext1/foo", "foo", "X1"), Pk("ext2/foo", "foo", "X2"), Pk("internal/ext3/bar", "bar", "X3"),
               Pk("foo", "foo", "X4"), Pk("deep/ext1/foo", "foo", "X5"), Pk("ext4.v2/cmd/go-baz", "baz", "X6"),
               Pk(".", "rootp", "X7") >>              \* the module's own directory
(* what Kind, Num, Inl and St are in each of them *)
KindIn(i) == <<T("string"), T("int32"), T("bool"), T("uint8"), T("string"), T("float64"), T("uint16")>>[i]
NumIn(i)  == <<T("int16"), T("float32"), T("uint64"), T("int"), T("uint16"), T("int8"), T("int64")>>[i]
InlIn(i)  == << Struct(<< F("P", T("int"), "p"), Fo("Q", T("string"), "q", "omitempty") >>),
                Struct(<< F("P", T("bool"), "p"), F("R", Slice(T("int")), "r") >>),
                Struct(<< F("W", T("string"), "w") >>),
                Struct(<< F("Q", T("string"), "q"), F("P", T("string"), "p") >>),
                Struct(<< F("P", T("uint8"), "p2") >>),
                Struct(<< Fo("P", T("float64"), "p", "omitempty"), F("K", Ptr(T("int")), "k") >>),
                Struct(<< F("U", Ptr(T("string")), "u") >>) >>[i]
StIn(i)   == << Struct(<< F("X", T("int"), "x"), Fo("Y", T("string"), "y", "omitempty") >>),
                Struct(<< F("X", T("string"), "x") >>),
                Struct(<< F("X", T("bool"), "x"), F("Y", T("int"), "y") >>),
                Struct(<< F("V", Slice(T("string")), "v") >>),
                Struct(<< Fo("X", T("int"), "x", "required") >>),
                Struct(<< F("X", T("float32"), "x"), F("Z", Ptr(T("int")), "z") >>),
                Struct(<< F("M", Map(T("int")), "m") >>) >>[i]
Ext(i, gn, tag, t) == Decl(Universe[i].id \o gn, tag, t, "ext") @@ [gn |-> gn, pkg |-> Universe[i].path, pn |-> Universe[i].name]
Foreign == Cat([i \in 1..Len(Universe) |->
   << Ext(i, "Kind", "", KindIn(i)), Ext(i, "Num", "", NumIn(i)), Ext(i, "Inl", "", InlIn(i)),
      Ext(i, "TKind", "json", KindIn(i)), Ext(i, "TNum", "json", NumIn(i)),
      Ext(i, "St", IF i % 2 = 0 THEN "strict" ELSE "json", StIn(i)),
      Ext(i, "Li", "json", Slice(NumIn(i))), Ext(i, "Ma", "json", Map(Ref(Universe[i].id \o "TNum"))),
      Ext(i, "Hid", "", Struct(<< F("Deep", Ref(Universe[i].id \o "Kind"), "deep"), F("More", Slice(Ref(Universe[i].id \o "St")), "more"), F("P", Ptr(Ref(Universe[i].id \o "TNum")), "ptr") >>)),
      Ext(i, "Only" \o Universe[i].id, "", T("int")) >>])

(* imports: which package under which name ("" is the package's own) *)
Im(i, alias) == [p |-> Universe[i].path, a |-> alias, i |-> i]
Imports == << << Im(1,"") >>, << Im(2,"") >>, << Im(4,"") >>, << Im(5,"") >>, << Im(3,"") >>, << Im(6,"") >>,
              << Im(1,"other") >>, << Im(2,"bar") >>, << Im(3,"foo") >>,
              << Im(1,"a1"), Im(2,"a2") >>, << Im(2,""), Im(1,"foo2") >>, << Im(1,""), Im(3,"") >>,
              << Im(1,"bar"), Im(3,"foo") >>, << Im(4,"root"), Im(5,"") >>, << Im(7,"") >>,
              << Im(7,"foo") >> >>
NameOf(im) == IF im.a = "" THEN Universe[im.i].name ELSE im.a
(* what q.n means in a file with the imports ims *)
Resolve(ims, q, n) == LET im == CHOOSE x \in {ims[j] : j \in 1..Len(ims)} : NameOf(x) = q IN Ref(Universe[im.i].id \o n)
Loc == Decl("Kind", "", T("int64"), "helper")       \* a local type of the same name
(* local types that are named like those of the packages and differ        *)
Near(gn, tag, t) == Decl("Near" \o gn, tag, t, "near") @@ [gn |-> gn]
Nears == << Near("Num", "", T("string")), Near("TKind", "json", T("int16")), Near("TNum", "json", T("string")),
            Near("St", "json", Struct(<< F("N", T("int"), "near"), Fo("X", Slice(T("bool")), "x", "omitempty") >>)),
            Near("Inl", "", Struct(<< F("N", T("int"), "near"), F("P", Map(T("int")), "p") >>)),
            Near("Hid", "", Struct(<< F("Deep", Slice(T("int")), "deep"), F("More", T("int"), "more") >>)),
            Near("Li", "json", Map(T("string"))), Near("Ma", "json", Slice(T("bool"))) >>
NearNames == [j \in 1..Len(Nears) |-> Nears[j].n]
ForeignUse(c) ==
  LET ims == Imports[c]
      q == NameOf(ims[1])
      q2 == NameOf(ims[Len(ims)])
      R(n) == Resolve(ims, q, n)
      R2(n) == Resolve(ims, q2, n)
      D(x, tag, t) == Decl("Fg" \o ToString(c) \o x, tag, t, "foreign") @@ [imp |-> [j \in 1..Len(ims) |-> [p |-> ims[j].p, a |-> ims[j].a]], near |-> IF c % 2 = 1 THEN NearNames ELSE <<>>]
      one(t) == Struct(<< F("A", T("int"), "a"), F("F", t, "f"), Fo("G", t, "g", "omitempty"), F("Z", R2("Kind"), "zz") >>)
  IN << D("k", "json", one(R("Kind"))), D("kp", "json", one(Ptr(R("TKind")))), D("ks", "json", one(Slice(R("TKind")))),
        D("kt", "json", one(R("TKind"))), D("nt", "strict", one(R("TNum"))), D("km", "json", one(Map(R("TKind")))), D("ksp", "json", one(Slice(Ptr(R("TNum"))))),
        D("n", "strict", one(R("Num"))), D("np", "json", one(Ptr(R("TNum")))),
        D("s", "json", one(R("St"))), D("sp", "strict", one(Ptr(R("St")))), D("ss", "json", one(Slice(R("St")))), D("sm", "json", one(Map(R("St")))),
        D("smp", "json", one(Map(Ptr(R("St"))))), D("ssp", "json", one(Slice(Ptr(R("St"))))),
        D("l", "json", Struct(<< F("L", R("Li"), "l"), F("Z", R2("Kind"), "zz") >>)),
        D("i", "json", Struct(<< Emb(R("Inl"), "", "inline"), F("Z", T("string"), "zz") >>)),
        D("ist", "strict", Struct(<< F("A", T("int"), "aa"), Emb(R("Inl"), "", "inline") >>)),
        D("ih", "json", Struct(<< Emb(R("Hid"), "", "inline"), F("Z", R2("Kind"), "zz") >>)),
        D("e", "json", Struct(<< F("A", T("int"), "a"), Emb(R("St"), "st", "") >>)),
        D("w", "json", Struct(IF ims[1].i % 2 = 0 THEN << Whole(R("St")) >> ELSE << F("A", T("int"), "aa"), Whole(R("St")), F("Z", R2("Kind"), "zz") >>)),
        D("tk", "json", R("TKind")), D("tn", "json", R("TNum")), D("ts", "json", R("St")),
        D("tl", "json", Slice(R("TKind"))), D("tls", "json", Slice(R("St"))), D("tm", "json", Map(R("TNum"))), D("tms", "json", Map(R("St"))), D("ta", "json", Arr(2, R("TNum"))),
        D("both", "json", Struct(<< F("A", R("Kind"), "a"), F("B", R2("Kind"), "b"), F("C", Slice(R2("TNum")), "c"), F("D", R2("St"), "d"), F("L", Ref("Kind"), "l") >>)) >>
(* names of imports that meet the names the generated code uses itself.    *)
(* Generated code does not compile when an import has one of Shadowed      *)
Shadowed == <<"s","v","err","fastjson","fmt","bytes","jwriter","i","key","l","math","o","result","strconv","value">>
Harmless == <<"list","buf","k","b","data","parser","obj","elem","val","x","uuid","errors","base64","sort">>
NameUse(c, q, dv) ==
  LET R(n) == Ref("X1" \o n)
      a == [imp |-> << [p |-> Universe[1].path, a |-> q] >>]
      D(x, tag, t) == Decl("Fn" \o ToString(c) \o x, tag, t, "names") @@ (IF dv = "" THEN a ELSE a @@ [dev |-> dv])
  IN << D("m", "strict", Struct(<< F("A", R("Kind"), "a"), Fo("P", Ptr(R("St")), "p", "omitempty"), F("L", Slice(R("St")), "l"), F("M", Map(R("St")), "m"), F("K", Map(R("TKind")), "k"), F("N", R("TNum"), "n") >>)),
        D("t", "json", R("TKind")), D("l", "json", Slice(R("St"))) >>
Names == Cat([c \in 1..Len(Harmless) |-> NameUse(c, Harmless[c], "")])
         \o Cat([c \in 1..Len(Shadowed) |-> NameUse(Len(Harmless) + c, Shadowed[c], "shadow")])
(* the time and uuid packages under other names *)
StdAliases == << [time |-> "tm", uuid |-> ""], [time |-> "", uuid |-> "uid"], [time |-> "stdtime", uuid |-> "guid"] >>
StdUse(c) ==
  LET D(x, tag, t) == Decl("Fs" \o ToString(c) \o x, tag, t, "names") @@ [std |-> StdAliases[c]] IN
  << D("m", "json", Struct(<< F("A", T("time"), "a"), Fo("B", Ptr(T("time")), "b", "omitempty"), FieldX("C", T("time"), "c", "omitempty", "", "2006-01-02"),
                              F("L", Slice(T("time")), "l"), F("U", T("uuid"), "u"), Fo("V", Ptr(T("uuid")), "v", "omitempty"), F("Z", T("int"), "z") >>)),
     D("u", "strict", Struct(<< F("U", T("uuid"), "u") >>)), D("t", "json", Struct(<< Fo("T", T("time"), "t", "required") >>)),
     D("tt", "json", T("time")), D("tu", "json", T("uuid")), D("tl", "json", Slice(T("time"))) >>
(* types of other packages that are named like those of time and uuid *)
Alike == << Ext(3, "Time", "json", Struct(<< F("H", T("int"), "h") >>)), Ext(3, "UUID", "json", T("string")) >>
AlikeUse ==
  LET D(x, t) == Decl("Fa" \o x, "json", t, "alike") @@ [imp |-> << [p |-> Universe[3].path, a |-> ""] >>, dev |-> "foreign-time"] IN
  << D("lkT", Struct(<< F("T", Ref("X3Time"), "t"), F("Z", T("int"), "z") >>)), D("lkTP", Struct(<< F("T", Ptr(Ref("X3Time")), "t") >>)),
     D("lkTL", Struct(<< F("T", Slice(Ref("X3Time")), "t") >>)), D("lkTM", Struct(<< F("T", Map(Ref("X3Time")), "t") >>)),
     D("lkU", Struct(<< F("U", Ref("X3UUID"), "u") >>)), D("lkUL", Struct(<< F("U", Slice(Ref("X3UUID")), "u") >>)), D("lkTT", Ref("X3Time")), D("lkTU", Ref("X3UUID")) >>
(* other files in the module's directories; all are to be ignored *)
Litter == << [p |-> "ext1/foo/aaa.go", x |-> "//go:build ignore\n\npackage main\n\ntype Kind struct{}\ntype Num string\ntype TKind []int\ntype TNum struct{}\ntype St int\ntype Li string\ntype Inl struct {\n\tP bool `json:\"nope\"`\n}\n"],
             [p |-> "ext1/foo/zzz_test.go", x |-> "package foo_test\n\ntype Kind struct{}\ntype Num string\ntype TKind []int\ntype St int\ntype Inl struct {\n\tP bool `json:\"nope\"`\n}\n"],
             [p |-> "ext2/foo/broken.go", x |-> ""],
             [p |-> "junk/bad.go", x |-> "packag junk\n"], [p |-> "junk/foo/notgo.txt", x |-> "package foo\n"],
             [p |-> "junk/foo/other.go", x |-> "package foo\n\ntype Unrelated int\n"],
             [p |-> "a/foo/foo.go", x |-> "package foo\n\ntype Kind bool\ntype St []int\ntype Inl struct {\n\tP bool `json:\"nope\"`\n}\n"] >>
(* Packages that inline and use the types of other packages themselves,     *)
(* under names of their own: what a qualifier means there is settled by    *)
(* the imports of the file that declares the struct, not by those of the   *)
(* file it is inlined into.                                                *)
Carry(id, path, gn, tag, t, ims) == Decl(id \o gn, tag, t, "ext") @@ [gn |-> gn, pkg |-> path, pn |-> "carry"] @@ (IF ims = <<>> THEN <<>> ELSE [imp |-> ims])
CarryIm(id) == IF id = "Y1" THEN << [p |-> "ext1/foo", a |-> ""], [p |-> "internal/ext3/bar", a |-> "foo2"] >>
               ELSE IF id = "Y2" THEN << [p |-> "ext2/foo", a |-> "bar"], [p |-> "ext4.v2/cmd/go-baz", a |-> ""], [p |-> "mid1/carry", a |-> "foo"] >>
               ELSE << [p |-> "ext2/foo", a |-> ""], [p |-> "mid2/carry", a |-> "math"], [p |-> "internal/ext3/bar", a |-> "errors"] >>
CarryIn(id, path, A, B, mid) ==
  LET C(gn, tag, t) == Carry(id, path, gn, tag, t, <<>>)
      R(x, n) == Ref(x \o n) IN
  << C("Kind", "", T("int16")), C("TKind", "json", T("string")),
     Carry(id, path, "Flat", "", Struct(<< F("K", R(A, "Kind"), "k"), F("O", R(id, "Kind"), "o"), Fo("B", R(B, "Num"), "b", "omitempty") >>), CarryIm(id)),
     C("Deep", "", Struct(<< F("S", R(A, "St"), "s"), F("L", Slice(R(B, "St")), "l"), Fo("M", Map(R(A, "TKind")), "m", "omitempty"), F("DP", Ptr(R(B, "TNum")), "ptr"),
                             F("LP", Slice(Ptr(R(A, "St"))), "lp"), F("T", T("time"), "t"), F("OL", Slice(R(id, "TKind")), "ol"),
                             F("AI", Arr(2, T("int")), "ai"), Fo("AB", BytesN(4), "ab", "omitempty"), F("AA", Arr(3, T("string")), "aa"), F("BN", T("bytes"), "bn") >>)),
     C("Mid", "", Struct(<< Emb(R(A, "Inl"), "", "inline"), F("Y", R(B, "Kind"), "y"), F("OK", Ptr(R(id, "TKind")), "ok") >>)),
     C("Emb", "", Struct(<< Emb(R(B, "St"), "st", ""), F("YY", R(A, "TNum"), "yy") >>)) >>
  \o (IF mid = "" THEN <<>> ELSE << C("Far", "", Struct(<< Emb(R(mid, "Mid"), "", "inline"), F("YF", R(A, "Num"), "yf") >>)), C("Flw", "", Struct(<< F("M", R(mid, "TKind"), "mt"), Emb(R(mid, "Flat"), "", "inline") >>)) >>)
Carries == CarryIn("Y1", "mid1/carry", "X1", "X3", "") \o CarryIn("Y2", "mid2/carry", "X2", "X6", "Y1") \o CarryIn("Y3", "mid3/carry", "X2", "X3", "Y2")
CarryUse(c) ==
  LET y == << "Y1", "Y1", "Y1", "Y2", "Y2", "Y2", "Y3", "Y3" >>[c]
      path == IF y = "Y1" THEN "mid1/carry" ELSE IF y = "Y2" THEN "mid2/carry" ELSE "mid3/carry"
      ims == << [p |-> path, a |-> << "", "foo", "c1", "", "foo2", "bar", "", "time2" >>[c]] >>
             \o << <<>>, << [p |-> "ext2/foo", a |-> "foo3"] >>, << [p |-> "ext2/foo", a |-> "foo2"], [p |-> "ext1/foo", a |-> "own"] >>, <<>>,
                   << [p |-> "ext1/foo", a |-> ""], [p |-> "internal/ext3/bar", a |-> ""] >>, << [p |-> "ext4.v2/cmd/go-baz", a |-> "foo"] >>, <<>>, << [p |-> "mid1/carry", a |-> "carry"] >> >>[c]
      e == << "", "X2", "X2", "", "X1", "X6", "", "Y1" >>[c]
      R(n) == Ref(y \o n)
      D(x, tag, fs) == Decl("Fc" \o ToString(c) \o x, tag, Struct(fs \o (IF e = "" THEN << F("ZZ", R("Kind"), "zz") >> ELSE << F("ZZ", Ref(e \o "Kind"), "zz") >>)), "carry") @@ [imp |-> ims]
  IN << D("f", "json", << Emb(R("Flat"), "", "inline") >>), D("d", "json", << Emb(R("Deep"), "", "inline") >>), D("m", "strict", << F("A", T("int"), "a"), Emb(R("Mid"), "", "inline") >>),
        D("e", "json", << Emb(R("Emb"), "", "inline") >>), D("fm", "json", << Emb(R("Flat"), "", "inline"), Emb(R("Mid"), "", "inline") >>) >>
     \o (IF y = "Y1" THEN <<>> ELSE << D("r", "json", << Emb(R("Far"), "", "inline") >>), D("w", "json", << Emb(R("Flw"), "", "inline") >>), D("rd", "strict", << Emb(R("Far"), "", "inline"), Emb(R("Deep"), "", "inline") >>) >>)
CarryUses == Cat([c \in 1..8 |-> CarryUse(c)])
Foreigns == << Loc >> \o Nears \o Cat([c \in 1..Len(Imports) |-> ForeignUse(c)]) \o Names \o Cat([c \in 1..Len(StdAliases) |-> StdUse(c)]) \o Alike \o AlikeUse

Catalog == Helpers \o Foreign \o Foreigns \o Carries \o CarryUses \o Single \o Required \o Defaults \o Times \o NamedTop \o Nest \o Inline
           \o Recursive \o Comma \o Shapes \o Ignoreds \o Deleg \o Passed \o Heirs \o TagForms \o RequiredAll \o DefaultEnds \o Odd \o Sizes \o Local \o Chains
           \o MoreTop \o Wide \o Mix

ASSUME IOEnv.VJ_OUT = "" \/ (JsonSerialize(IOEnv.VJ_OUT, Catalog) /\ JsonSerialize(IOEnv.VJ_OUT \o ".litter", Litter))
=============================================================================
