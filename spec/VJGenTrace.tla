----------------------------- MODULE VJGenTrace -----------------------------
(***************************************************************************)
(* Judges the generated code: [file, gen, comp, m] says whether the        *)
(* generator succeeds on the file, whether the package compiles, and which *)
(* methods the output declares.                                            *)
(***************************************************************************)
EXTENDS VJFile

Traces == ndJsonDeserialize(IOEnv.VJ_TRACE)
VARIABLES n, seen
vars == << n, seen >>

(* sets come back as sequences                                            *)
Read(d) == [d EXCEPT !.g = ToSet(@)]
FileOf(ev) == [i \in 1..Len(ev.file) |-> [ev.file[i] EXCEPT !.d = Read(@), !.s = [j \in 1..Len(@) |-> [@[j] EXCEPT !.d = Read(@)]]]]
(* a package of the catalogue comes with its specs                         *)
Rows(ev) == IF "ss" \in DOMAIN ev THEN [i \in 1..Len(ev.ss) |-> [ev.ss[i] EXCEPT !.g = ToSet(@)]] ELSE Specs(FileOf(ev))
Judge(ev) ==
  LET ss == TLCEval(Rows(ev))
      want == Promise(ss)
      names == DOMAIN want
      Has(x) == UNION { ToSet(ev.m[j].ms) : j \in { q \in 1..Len(ev.m) : ev.m[q].n = x } } \cap (Decoding \cup Encoding)
      bad(w, on) == IF on = {} THEN {} ELSE { [what |-> w, on |-> on] }
  IN IF ~ev.gen THEN bad("generator", {"fails"})
     ELSE bad("lacks", { x \o "." \o y : x \in { z \in names : Methods(want[z]) \ Has(z) # {} }, y \in {"*"} })
          \cup bad("extra", { x \o "." \o y : x \in { z \in names : Has(z) \ Methods(want[z]) # {} }, y \in {"*"} })
          \cup (IF ev.comp THEN {} ELSE bad("compile", {"fails"}))

Init == /\ n \in 1..Len(Traces)
        /\ seen = FALSE
Next == /\ ~seen
        /\ seen' = TRUE
        /\ n' = n
        /\ LET b == Judge(Traces[n]) IN b # {} => PrintT("@F " \o ToJson([h |-> Traces[n].h, bad |-> b]))
Spec == Init /\ [][Next]_vars
=============================================================================
