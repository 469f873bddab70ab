------------------------------ MODULE VJTrace ------------------------------
(***************************************************************************)
(* Trace validation.  The driver replays behaviours of VJObject on the     *)
(* generated code and logs, after every call, its outcome and the abstract *)
(* value of both objects.  Here every logged step must be a step the       *)
(* specification allows from the state the log itself had reached; a step  *)
(* that is not is printed with the facet that fails, and validation goes   *)
(* on from the logged state.                                               *)
(*                                                                         *)
(* Facets  panic   the call panicked                                       *)
(*   refuse  a document that should be accepted was refused                *)
(*   accept  a document that should be refused was accepted                *)
(*   value   accepted, but the object does not hold what it should         *)
(*   path    refused, but the error does not say where                     *)
(*   cause   refused, but the original cause cannot be unwrapped           *)
(*   touch   refused by validation, but the object changed                 *)
(*   other   another object changed                                        *)
(*   pure    an operation that only observes changed the object            *)
(*   form    the encoded text is not one JSON document                     *)
(*   says    the encoded document does not say what the object holds       *)
(*   fail    encoding failed                                               *)
(*   bytes   encoding the same value again gave another text               *)
(*   prefix  MarshalTo damaged what the writer held                        *)
(*   back    the encoded value does not read back                          *)
(*   zero    IsZero is wrong                                               *)
(*   reset   Reset left something behind                                   *)
(*   kept    a value handed out through a pointer was modified             *)
(*   own     an encoded text handed out earlier was modified               *)
(***************************************************************************)
EXTENDS VJSem

Trace == ndJsonDeserialize(IOEnv.VJ_TRACE)

---------------------------------------------------------------------------
(* members of a refused document: nothing may have been stored             *)
Refused(t, r) ==
  \/ \E e \in r.e : e.p = <<>> /\ e.c = "kind" /\ e.x = ""
  \/ \E e \in r.e : Len(e.p) = 1 /\ e.c \in Validation /\ (Under(t).k = "struct" => e.p[1] \notin NamesOf(Under(t)) \ OwnNames(Under(t)))
  \/ \E e \in r.e : e.p = <<>> /\ e.c = "null"

(* a required member that was left out cannot be read back, one that is nil (or zero bytes) *)
(* is written as null and cannot either;                                 *)
(* neither can a time whose layout cannot express it; deviations:          *)
(*   named-null   nor a nil list, map or pointer of a named type           *)
RECURSIVE Readable(_,_,_,_)
Readable(dv, t, l, v) ==
  LET u == Under(t)
      in(e, x) == Readable(dv, e, "", x) /\ ~("named-null" \in dv /\ x.k = "nil" /\ e.k = "ref")
  IN
  CASE v.k = "t" -> v.r[l] # "!"
    [] v.k = "nil" -> ~("named-null" \in dv /\ DerivedList(t))
    [] v.k = "p" -> Readable(dv, u.e, l, v.e)
    [] v.k = "l" -> \A i \in 1..Len(v.e) : in(u.e, v.e[i])
    [] v.k = "m" -> \A i \in 1..Len(v.e) : in(u.e, v.e[i].v)
    [] v.k = "o" -> \A i \in 1..Len(u.f) :
                      LET f == u.f[i] IN
                      \/ Ignored(f)
                      \/ IsDelegate(f) /\ IsZero(dv, f.t, v.f[i]) /\ \A j \in 1..Len(Under(f.t).f) : ~IsReq(Under(f.t).f[j])
                      \/ IsDelegate(f) /\ ~IsZero(dv, f.t, v.f[i]) /\ Readable(dv, f.t, "", v.f[i])
                      \/ ~IsDelegate(f) /\ Omitted(dv, f, v.f[i]) /\ ~(IsReq(f) /\ f.d = "")
                      \/ /\ ~IsDelegate(f) /\ ~Omitted(dv, f, v.f[i])
                         /\ ~(IsReq(f) /\ f.d = "" /\ (v.f[i].k = "nil" \/ (Under(f.t).k = "bytesN" /\ IsZero(dv, f.t, v.f[i]))))
                         /\ ~("named-null" \in dv /\ v.f[i].k = "nil" /\ f.t.k = "ref")
                         /\ Readable(dv, f.t, f.l, v.f[i])
    [] OTHER -> TRUE

(* maps of more than one entry are written in any order *)
RECURSIVE Ordered(_)
Ordered(v) ==
  CASE v.k = "p" -> Ordered(v.e)
    [] v.k = "l" -> \A i \in 1..Len(v.e) : Ordered(v.e[i])
    [] v.k = "o" -> \A i \in 1..Len(v.f) : Ordered(v.f[i])
    [] v.k = "m" -> Len(v.e) < 2 /\ \A i \in 1..Len(v.e) : Ordered(v.e[i].v)
    [] OTHER -> TRUE

(* the error text names the place; an unknown member may be named apart from its object *)
Located(e, q) == \/ e.p = <<>>
                 \/ JoinP(e.p) \in Range(q)
                 \/ e.c = "unknown" /\ e.p[Len(e.p)] \in Range(q) /\ (Len(e.p) = 1 \/ JoinP(SubSeq(e.p, 1, Len(e.p)-1)) \in Range(q))

No(facet, cs) == { [f |-> facet, c |-> c] : c \in cs }
One(facet) == { [f |-> facet, c |-> ""] }
None == {}
If(b, s) == IF b THEN s ELSE None

(* map-reset: Reset of a tagged map empties the entries, not the map *)
KeysKept(a, b) == a.k = "m" /\ b.k = "m" /\ { a.e[i].n : i \in 1..Len(a.e) } = { b.e[i].n : i \in 1..Len(b.e) }

(* the facets of step ev that fail, the objects holding st before it, *)
(* when the deviations dv are in force                                 *)
Judge(dv, name, st, ev, kept) ==
  LET t == Ref(name)
      o == ev.o
      others == If(\E i \in 1..2 : i # o /\ ~(ev.op = "back" /\ i = 2) /\ ~Same(st[i], ev.st[i]), One("other"))
                \cup If(ev.own # "y", One("own"))
                \cup If("kept" \in DOMAIN ev /\ kept # <<>> /\ ev.op # "keep"
                        /\ \E i \in 1..Len(kept) : ~Same(kept[i], ev.kept[i]), One("kept"))
      same == If(~Same(st[o], ev.st[o]), One("pure"))
      spoiled == Spoiled(dv, t, st[o]) \cap dv
      written(d, x) == IF x.wf # "y" THEN If("null-comma" \notin spoiled, One("form"))
                       ELSE If(~Says(t, d, x.out), One("says"))
      zeroed(z) == If(IF z = "y" THEN ~IsZero(dv, t, st[o]) /\ ~Alike(st[o], Zero(t)) ELSE IsZero(dv, t, st[o]), One("zero"))
      dec == Dec(Cx(dv, "top"), t, "", ev.d, st[o])
  IN others \cup
     IF ev.ok = "p" THEN
       If(~(\/ ev.op \in {"enc","encto","back","share"} /\ "nil-panic" \in spoiled
            \/ ev.op \in {"dec","fill"} /\ "bytes-long" \in dv /\ \E e \in dec.e : e.c = "len"), One("panic"))
     ELSE CASE ev.op \in {"dec","fill"} ->
                 LET r == TLCEval(dec) IN
                 IF r.e = {} THEN
                   (IF ev.ok # "y" THEN One("refuse")
                    ELSE If(~Same(r.v, ev.st[o]), One("value")))
                 ELSE IF ev.ok = "y" THEN No("accept", { e.c : e \in r.e })
                 ELSE If(\A e \in r.e : ~Located(e, ev.q), No("path", { e.c : e \in r.e }))
                      \cup If(ev.dep < 2 /\ \A e \in r.e : e.p # <<>> /\ e.c \notin {"unknown","required"}, No("cause", { e.c : e \in r.e }))
                      \cup If(~Same(st[o], ev.st[o]) /\ Refused(t, Dec(Cx({}, "top"), t, "", ev.d, st[o])), No("touch", { e.c : e \in r.e }))
            [] ev.op = "raw" -> IF ev.ok = "y" THEN One("accept") ELSE If(~Same(st[o], ev.st[o]), One("touch"))
            [] ev.op = "set" -> If(~Same(ev.v, ev.st[o]), One("driver"))
            [] ev.op \in {"enc","encto"} ->
                 same \cup
                 (IF ev.ok # "y" THEN One("fail")
                  ELSE written(Enc(dv, t, "", st[o]), ev)
                       \cup If("same" \in DOMAIN ev /\ ev.same # "y" /\ Ordered(st[o]), One("bytes"))
                       \cup If("pre" \in DOMAIN ev /\ ev.pre # "y", One("prefix")))
            [] ev.op = "share" ->                 \* several callers at once, each as if alone
                 same \cup
                 (IF ev.ok # "y" THEN One("fail")
                  ELSE UNION { written(Enc(dv, t, "", st[o]), ev.outs[i]) : i \in 1..Len(ev.outs) }
                       \cup If(ev.same # "y" /\ Ordered(st[o]), One("bytes"))
                       \cup UNION { zeroed(ev.zs[i]) : i \in 1..Len(ev.zs) })
            [] ev.op = "nilenc" -> IF ev.ok # "y" THEN One("fail") ELSE written(JNull, ev)
            [] ev.op = "back" ->
                 same \cup
                 (IF ev.ok = "n" THEN One("fail")
                  ELSE IF ~Readable(dv, t, "", st[o]) \/ spoiled # {} THEN None
                  ELSE If(ev.ok = "b" \/ ~Same(Back(dv, t, "", st[o]), ev.st[2]), One("back")))
            [] ev.op = "zero" -> same \cup zeroed(ev.z)
            [] ev.op \in {"reset","bulk"} -> If(~Alike(ev.st[o], Zero(t)) /\ ~("map-reset" \in dv /\ KeysKept(st[o], ev.st[o])), One("reset"))
            [] OTHER -> If(o > 0 /\ ~Same(st[o], ev.st[o]), One("pure"))

---------------------------------------------------------------------------
(* Known is the set of deviations recorded as findings.  A step that is    *)
(* wrong, but exactly as the known deviations have it, is reported with    *)
(* the deviations responsible (@K); any other wrong step as such (@F).     *)
Known == Range(JsonDeserialize(IOEnv.VJ_KNOWN))

VARIABLES n, i, st, kept
vars == << n, i, st, kept >>
View == << n, i >>

Init == /\ n \in 1..Len(Trace)
        /\ i = 0
        /\ st = << Zero(Ref(Trace[n].t)), Zero(Ref(Trace[n].t)) >>
        /\ kept = <<>>

Report(ev, bad) ==
  LET j(dv) == Judge(dv, Trace[n].t, st, ev, kept)
      rest == IF Known = {} THEN bad ELSE j(Known)
      alone == { k \in Known : j({k}) = {} }
      part  == { k \in Known : j(Known \ {k}) # {} }
      rec(b) == [h |-> Trace[n].h, n |-> n, i |-> i', t |-> Trace[n].t, bad |-> b]
  IN IF rest = {} THEN PrintT("@K " \o ToJson(rec(bad) @@ [dev |-> IF alone # {} THEN alone ELSE part]))
     ELSE PrintT("@F " \o ToJson(rec(rest)))

Next == /\ i < Len(Trace[n].s)
        /\ i' = i + 1
        /\ n' = n
        /\ LET ev == Trace[n].s[i'] 
               bad == TLCEval(Judge({}, Trace[n].t, st, ev, kept)) IN
           /\ st' = ev.st
           /\ kept' = IF "kept" \in DOMAIN ev THEN ev.kept ELSE <<>>
           /\ (bad # {} => Report(ev, bad))
Spec == Init /\ [][Next]_vars
=============================================================================
