---------------------------- MODULE VJProcTrace ----------------------------
(***************************************************************************)
(* Judges what the generator did to the files.  The trace file holds, for  *)
(* every step of a history, the files that changed (path and digest).      *)
(* Out maps a file and the versions it depends on to the files which a run *)
(* writes; it is taken from the histories of mode "ref": one run in a new  *)
(* process on a disk without outputs, from the root of the module.         *)
(***************************************************************************)
EXTENDS VJProcFiles, TLC

Traces == ndJsonDeserialize(IOEnv.VJ_TRACE)
Refs   == ndJsonDeserialize(IOEnv.VJ_REFS)     \* [f, v (versions by dependency order), w (path -> digest)]

VARIABLES n, i, ver, disk
vars == << n, i, ver, disk >>
View == << n, i >>

Where(f, p) == "m" \o ToString(Rec[f].mod) \o "/" \o p
Key(f, vs) == << f, [k \in 1..(Len(Rec[f].deps) + 1) |-> IF k = 1 THEN vs[f] ELSE vs[Rec[f].deps[k - 1]]] >>
RefAt == [ k \in { << Refs[j].f, Refs[j].v >> : j \in 1..Len(Refs) } |->
             Refs[CHOOSE j \in 1..Len(Refs) : << Refs[j].f, Refs[j].v >> = k].w ]
Sources == { Where(f, Rec[f].path) : f \in Files }
Outs(f) == { Where(g, Rec[g].out) : g \in Gens \ {f} }

Init == /\ n \in 1..Len(Traces)
        /\ i = 0
        /\ ver = [f \in Files |-> 1]
        /\ disk = [p \in {} |-> ""]            \* what was written since the beginning

Changes(ev) == { << ev.ch[k].p, ev.ch[k].c >> : k \in 1..Len(ev.ch) }
At(d, p) == IF p \in DOMAIN d THEN d[p] ELSE "gone"
Apply(d, ev) == LET ps == { c[1] : c \in Changes(ev) }
                IN [p \in DOMAIN d \cup ps |-> IF p \in ps THEN (CHOOSE c \in Changes(ev) : c[1] = p)[2] ELSE d[p]]

(* what is wrong with a run on f *)
Judge(ev, d) ==
  LET f == ev.f
      ch == Changes(ev)
      touched == { c[1] : c \in ch }
      want == RefAt[Key(f, ver)]
      bad(w, p) == IF p = {} THEN {} ELSE { [what |-> w, on |-> p] }
  IN bad("source", touched \cap Sources)
     \cup IF Rec[f].bad THEN bad("foreign", touched \cap Outs(f))
     ELSE bad("fails", IF ev.ok THEN {} ELSE {ev.err})
          \cup bad("foreign", touched \ (DOMAIN want \cup Sources))
          \cup bad("output", IF ~ev.ok THEN {} ELSE { p \in DOMAIN want : (IF p \in touched THEN (CHOOSE c \in ch : c[1] = p)[2] ELSE At(d, p)) # want[p] })

Next == /\ i < Len(Traces[n].s)
        /\ i' = i + 1
        /\ n' = n
        /\ LET ev == Traces[n].s[i'] IN
           /\ ver' = IF ev.op = "edit" THEN [ver EXCEPT ![ev.f] = ev.v] ELSE ver
           /\ disk' = Apply(disk, ev)
           /\ IF ev.op = "gen"
              THEN LET b == Judge(ev, disk) IN b # {} => PrintT("@F " \o ToJson([n |-> n, i |-> i', f |-> ev.f, bad |-> b]))
              ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
