------------------------------- MODULE VJGen -------------------------------
(***************************************************************************)
(* The generator's visit of a source file (VJFile).                        *)
(*                                                                         *)
(* The specs are visited in order.  A tagged one is given the methods its  *)
(* tags leave and hands its tags down to an untagged element of a list,    *)
(* and so on.  Property C19 on this model: when the visit is over, what    *)
(* the types were given is Promise (Kept), and a list's methods find those *)
(* of its elements, unless these are the user's own (Served).  OneTag is   *)
(* the generator that lets the first list decide (it must violate Kept).   *)
(*                                                                         *)
(* The finished files are printed; driver/files runs the real generator on *)
(* them, VJGenTrace compares the generated code with Promise.              *)
(***************************************************************************)
EXTENDS VJFile

CONSTANT OneTag

(* the ways a sequence of specs can be laid out in a file                  *)
Layouts(ss) ==
  { [i \in 1..Len(ss) |-> One(ss[i])], << Paren(Bare, ss) >>, [i \in 1..Len(ss) |-> Paren(Lines(0), <<ss[i]>>)] }
  \cup (IF Len(ss) > 1 THEN { << One(ss[1]), Paren(Bare, Tail(ss)) >> } ELSE {})
(* specs of one doc may have it on their group                             *)
GroupDoc(d, ss) == << Paren(d, [i \in 1..Len(ss) |-> [ss[i] EXCEPT !.d = Bare]]) >>

El   == Spec1("E1", "struct", "", Bare)
Base == Spec1("X1", "struct", "", Bare)
Aft(s) == IF s.k = "emb" THEN <<s, Base>> ELSE <<s>>
Perms(ss) == { [i \in 1..Len(ss) |-> ss[p[i]]] : p \in { q \in [1..Len(ss) -> 1..Len(ss)] : \A i, j \in 1..Len(ss) : i # j => q[i] # q[j] } }

Spell == UNION { UNION { Layouts(<<Spec1("T1", "struct", "", d)>>) \cup {GroupDoc(d, <<Spec1("T1", "struct", "", d), Spec1("T2", "strs", "", d)>>)}
                         \cup Layouts(<<Spec1("T1", "ofE", "E1", d), El>>) \cup {<< Other(d, "var V1 = 1"), One(Spec1("T1", "int", "", J)), Other(d, "func F1() {}"), One(El) >>}
                         : d \in ToSet(Spellings(ws)) \cup (IF ws = <<"json">> THEN ToSet(NotTags) ELSE {}) }
                 : ws \in { <<"json">>, <<"strict","decode">>, <<"encode">>, <<"custom">> } }
AllKinds == UNION { Layouts(Aft(Spec1("T1", k, "", Tag(ws)))) : k \in DOMAIN Kinds \ WithE, ws \in ToSet(Words) }
Pairs == { << One(Spec1("T1", k, "", d1)), One(Spec1("T2", l, "", d2)) >> : k, l \in {"struct","times","bytes4","fuuid","fbool","flt","mapi","ftime"}, d1, d2 \in {Dec, Enc} }
ListsOf == UNION { UNION { Layouts(p) : p \in Perms(<<Spec1("E1", ek, "", ed), Spec1("T1", k, "E1", d)>>) }
                 : ek \in {"struct","int","strs","map"}, ed \in {Bare, J, Dec, Enc, Cus}, k \in WithE \ {"inlE"}, d \in {Bare, J, Dec, Enc, Cus} }
Inl   == UNION { UNION { Layouts(p) : p \in Perms(<<Spec1("E1", "struct", "", ed), Spec1("T1", "inlE", "E1", d)>>) } : ed \in {Bare, J, Enc, Cus}, d \in {J, Dec, Enc} }
Two   == UNION { Layouts(p) : p \in UNION { Perms(<<Spec1("E1", ek, "", ed), Spec1("T1", "ofE", "E1", d1), Spec1("T2", k, "E1", d2)>>)
                 : ek \in {"struct","i16"}, ed \in {Bare, Dec, Cus}, d1, d2 \in {J, Dec, Enc, Cus, Str}, k \in {"ofE","arrE"} } }
Chain == UNION { Layouts(p) : p \in UNION { Perms(<<Spec1("E1", "struct", "", Bare), Spec1("T1", "ofE", "E1", d1), Spec1("T2", "ofE", "T1", d2)>>)
                 : d1 \in {Bare, J, Dec, Enc}, d2 \in {Bare, J, Dec, Enc, Cus} } }

Matrix == { << One(Spec1("E1", ek, "", ed)), One(Spec1("T1", k, "E1", J)) >> : ek \in DOMAIN Kinds \ (WithE \cup {"emb"}), ed \in {Bare, J}, k \in WithE }

(* random files: the draws depend on the seed only                         *)
Seed  == atoi(IOEnv.VJ_SEED)
RECURSIVE Draw(_,_)
Draw(n, ds) == IF n = 0 THEN ds ELSE Draw(n - 1, Append(ds, (ds[Len(ds)] * 46021 + 8191) % 46337))
Names == <<"Ta","Tb","Tc","Td","Te","Tf","Tg","Th">>
Of(S, d) == S[(d % Len(S)) + 1]
AnyDoc == TLCEval(FlattenSeq([i \in 1..Len(Words) |-> SubSeq(Spellings(Words[i]), 1, 15)]) \o NotTags \o NotTags \o NotTags)
Alone == TLCEval(SetToSeq(DOMAIN Kinds \ (WithE \cup {"emb"})))
Using == TLCEval(SetToSeq(WithE \ {"inlE"}))
RandomFile(i) ==
  LET ds == TLCEval(Draw(60, << ((Seed * 7919) + (i * 613) + 17) % 46337 >>))
      n  == 3 + (ds[10] % 6)
      ss == TLCEval([j \in 1..n |-> LET d == ds[10 + (6 * j)]  u == j > 1 /\ ds[11 + (6 * j)] % 2 = 0
                     IN Spec1(Names[j], IF u THEN Of(Using, d) ELSE Of(Alone, d), IF u THEN Names[(ds[12 + (6 * j)] % (j - 1)) + 1] ELSE "", Of(AnyDoc, ds[13 + (6 * j)]))])
      rot == ds[11] % n
      os == TLCEval(LET r == SubSeq(ss, rot + 1, n) \o SubSeq(ss, 1, rot) IN IF ds[12] % 2 = 0 THEN r ELSE Reverse(r))
      cut == ds[13] % (n + 1)
  IN [j \in 1..cut |-> One(os[j])] \o
     (IF cut < n THEN << Paren(IF ds[14] % 2 = 0 THEN Bare ELSE Lines(0), SubSeq(os, cut + 1, n)) >> ELSE <<>>)

Mode == IOEnv.VJ_GEN
Files == CASE Mode = "spell" -> Spell [] Mode = "kinds" -> AllKinds [] Mode = "pairs" -> Pairs [] Mode = "lists" -> ListsOf
           [] Mode = "inl" -> Inl [] Mode = "two" -> Two [] Mode = "chain" -> Chain [] Mode = "matrix" -> Matrix
           [] OTHER -> { RandomFile(i) : i \in 1..atoi(IOEnv.VJ_COUNT) }

VARIABLES file, pos, out
vars == << file, pos, out >>
SS == Specs(file)

Init == /\ file \in { f \in Files : Supported(Specs(f)) }
        /\ pos = 0
        /\ out = [n \in {} |-> {}]
Given(n, tags, o) == IF n \notin DOMAIN o THEN o @@ (n :> Gives(tags)) ELSE IF OneTag THEN o ELSE [o EXCEPT ![n] = @ \cup Gives(tags)]
RECURSIVE Hand(_,_,_)
(* the spec s is processed with the tags tags *)
Hand(s, tags, o) ==
  LET els == IF IsList(s.k) THEN { i \in 1..Len(SS) : SS[i].n = s.e /\ SS[i].g = {} } ELSE {}
      o1 == IF els = {} THEN o ELSE Hand(SS[CHOOSE i \in els : TRUE], tags, o)
  IN Given(s.n, tags, o1)
Visit == /\ pos < Len(SS)
         /\ pos' = pos + 1
         /\ out' = IF SS[pos'].g = {} THEN out ELSE Hand(SS[pos'], SS[pos'].g, out)
         /\ UNCHANGED file
         /\ (pos' = Len(SS) => PrintT("@H " \o ToJson([file |-> file, p |-> Promise(SS)])))
Next == Visit
Spec == Init /\ [][Next]_vars

Done == pos = Len(SS)
Has(n) == IF n \in DOMAIN out THEN out[n] ELSE {}
Kept == Done => \A n \in DOMAIN Promise(SS) : Has(n) = Promise(SS)[n]
Served == Done => \A i, j \in 1..Len(SS) : IsList(SS[i].k) /\ SS[j].n = SS[i].e /\ SS[j].g = {} => Has(SS[i].n) \subseteq Has(SS[j].n)
=============================================================================
