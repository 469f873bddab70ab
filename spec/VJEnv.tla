------------------------------- MODULE VJEnv -------------------------------
(***************************************************************************)
(* The type environment.  A schema is a set of named Go declarations:      *)
(*   Env[n] = [tag |-> json-comment tag ("" when untagged), t |-> type]    *)
(* It is loaded from the file named by the environment variable VJ_ENV,    *)
(* which holds the catalogue emitted by VJCatalog plus the seeded random   *)
(* schemas.  Lex holds the lexical facts about the literals the catalogue  *)
(* uses (what number, time, UUID or bytes a text denotes).                 *)
(*                                                                         *)
(* Types   [k |-> "bool"|"int8"|...|"float64"|"string"|"time"|"uuid"|"bytes"]
           [k |-> "bytesN", n]    [k |-> "ref", n]     [k |-> "ptr", e]
           [k |-> "slice", e]     [k |-> "array", n, e]
           [k |-> "map", key, e]  [k |-> "struct", f |-> <<fields>>]
   Field   [g |-> Go name, n |-> JSON name, o |-> option, t |-> type,
            d |-> default text, l |-> layout, em |-> "y" when embedded]    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

EnvFile == JsonDeserialize(IOEnv.VJ_ENV)
Env     == EnvFile.types       \* name -> declaration
Roots   == EnvFile.roots       \* sequence of names of tagged types under test
Lex     == JsonDeserialize(IOEnv.VJ_LEX)

---------------------------------------------------------------------------
IntKinds   == {"int","int8","int16","int32","int64"}
UintKinds  == {"uint","uint8","uint16","uint32","uint64"}
FloatKinds == {"float32","float64"}
IntegerKinds == IntKinds \cup UintKinds
NumKinds   == IntKinds \cup UintKinds \cup FloatKinds
ScalarKinds == NumKinds \cup {"bool","string"}

RECURSIVE Under(_)
(* the structure a type denotes, whatever names stand in between *)
Under(t) == IF t.k = "ref" THEN Under(Env[t.n].t) ELSE t

RECURSIVE DeclOf(_)
(* the name of the declaration that introduces the structure (or "") *)
DeclOf(t) == IF t.k # "ref" THEN ""
             ELSE IF Env[t.n].t.k = "ref" THEN DeclOf(Env[t.n].t) ELSE t.n

Ref(n) == [k |-> "ref", n |-> n]

(* does the declaration that introduces the structure ask for strict rules? *)
Strict(t) == t.k = "ref" /\ LET d == Env[DeclOf(t)] IN d.tag = "strict" \/ ("heir" \in DOMAIN d /\ d.heir = "strict")

(* a struct tagged transit leaves everything to the type it embeds *)
Passes(t) == t.k = "ref" /\ Env[DeclOf(t)].tag = "transit"

(* members of this kind treat null like absence *)
NullableKind(k) == k \in {"ptr","slice","map","array","bytes","bytesN"}
Nullable(t) == NullableKind(Under(t).k)

(* an option, alone or with another *)
IsReq(f)      == f.o \in {"required", "required,omitempty", "omitempty,required"}
IsOmit(f)     == f.o \in {"omitempty", "required,omitempty", "omitempty,required"}
IsInline(f)   == f.o = "inline"
(* embedded without a JSON name, or inlined though it has a member named   *)
(* like itself: the whole document is handed to it                         *)
GoName(n) == IF "gn" \in DOMAIN Env[n] THEN Env[n].gn ELSE n
IsDelegate(f) == /\ f.em = "y" /\ f.n = ""
                 /\ IsInline(f) => \E i \in 1..Len(Under(f.t).f) : Under(f.t).f[i].g = GoName(f.t.n)
Flat(f)       == IsInline(f) \/ IsDelegate(f)
Ignored(f)    == f.n = "-"

RECURSIVE NamesOf(_)
(* JSON names a struct declares, the inlined ones included *)
NamesOf(s) ==
  UNION { IF Ignored(s.f[i]) THEN {}
          ELSE IF Flat(s.f[i]) THEN NamesOf(Under(s.f[i].t))
          ELSE {s.f[i].n} : i \in 1..Len(s.f) }

(* the names a struct checks itself: those of a part that is handed the    *)
(* document are that part's affair                                         *)
RECURSIVE OwnNames(_)
OwnNames(s) ==
  UNION { IF Ignored(s.f[i]) \/ IsDelegate(s.f[i]) THEN {}
          ELSE IF Flat(s.f[i]) THEN OwnNames(Under(s.f[i].t))
          ELSE {s.f[i].n} : i \in 1..Len(s.f) }

RECURSIVE JoinP(_)
JoinP(p) == IF Len(p) = 0 THEN ""
            ELSE IF Len(p) = 1 THEN p[1]
            ELSE p[1] \o "." \o JoinP(Tail(p))

RECURSIVE ConcatN(_,_,_)
ConcatN(ss, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN ss[a]
                     ELSE ConcatN(ss, a, (a + b) \div 2) \o ConcatN(ss, (a + b) \div 2 + 1, b)
Concat(ss) == LET s == TLCEval(ss) IN ConcatN(s, 1, Len(s))

(* a type of another package that is decoded by a method of its own *)
Foreign(t) == t.k = "ref" /\ "pkg" \in DOMAIN Env[t.n] /\ Env[t.n].tag # ""

Range(s) == { s[i] : i \in 1..Len(s) }
=============================================================================
