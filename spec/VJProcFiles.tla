---------------------------- MODULE VJProcFiles ----------------------------
(* The files of spec/procs.json: sources on which the generator runs or on *)
(* which it depends, each in two versions.                                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils

Table == JsonDeserialize(IOEnv.VJ_FILES)
Ids   == [i \in 1..Len(Table) |-> Table[i].id]
Files == { Ids[i] : i \in 1..Len(Table) }
Rec   == [f \in Files |-> Table[CHOOSE i \in 1..Len(Table) : Ids[i] = f]]
Gens  == { f \in Files : Rec[f].g }
Deps(f) == { Rec[f].deps[i] : i \in 1..Len(Rec[f].deps) }
Importing == { f \in Gens : Deps(f) # {} }
First == CHOOSE f \in Gens : \A i \in 1..Len(Table) : Ids[i] \in Gens => \E j \in 1..i : Ids[j] = f
Index(f) == CHOOSE i \in 1..Len(Table) : Ids[i] = f
Nth(S, k) == CHOOSE f \in S : Cardinality({ g \in S : Index(g) < Index(f) }) = k - 1

(* the versions an output depends on *)
Vers(f, ver) == [g \in Deps(f) \cup {f} |-> ver[g]]
Of(f, ver)   == [f |-> f, v |-> Vers(f, ver)]
None         == [f |-> "", how |-> "absent"]
=============================================================================
