------------------------------ MODULE VJProc -------------------------------
(***************************************************************************)
(* Runs of the generator: processes, working directories, file names, and  *)
(* a disk on which sources are edited and outputs of earlier runs may be   *)
(* present, missing, outdated or cut short.                                *)
(*                                                                         *)
(* Property C20 on this model: after every run on f the output of f is     *)
(* Of(f, versions of f and of the sources f depends on), no other file has *)
(* changed, and no source ever changes except by an Edit.                  *)
(*                                                                         *)
(* TLC explores every resolution of every script (or, with VJ_PROC =       *)
(* "random", simulates runs of the unconstrained system) and prints the    *)
(* histories; driver/procs replays them with the real generator and        *)
(* VJProcTrace judges what happened to the files.  The constant Leaky adds *)
(* a memory that outlives a run; with it the invariants must fail.         *)
(***************************************************************************)
EXTENDS VJProcFiles, TLC

CONSTANT Leaky
Mode   == IOEnv.VJ_PROC          \* which scripts: "ref", "quick", "thorough", "random"
MaxLen == 12

Cwds   == {"mod","own","sub","other","out","slash"}
Styles == {"abs","rel","dot","unclean","updown","link"}
Hows   == {"absent","old","cut","junk","long","empty"}

Start             == [op |-> "start"]
Gen(f, cwd, st)   == [op |-> "gen", f |-> f, cwd |-> cwd, style |-> st]
Edit(f)           == [op |-> "edit", f |-> f]
Spoil(f, how)     == [op |-> "spoil", f |-> f, how |-> how]
Static(f, how)    == [op |-> "static", f |-> f, how |-> how]
At(f)             == Gen(f, "mod", "abs")

(* "X", "Y", "Z" stand for any file, "*" for any way                       *)
Ways == << <<"mod","abs">>, <<"own","rel">>, <<"out","unclean">> >>
Quick ==
     [ i \in 1..Len(Ways) |-> << Start, At("X"), Gen("Y", Ways[i][1], Ways[i][2]) >> ]
  \o << << Start, At("X"), At("X"), At("X"), At("X") >>,
        << Spoil("X","*"), Start, At("X") >>,
        << Start, Gen("X","*","*"), At("X") >>,
        << Spoil("X","old"), Start, Gen("X","*","*") >>,
        << Spoil("Y","cut"), Start, At("X") >>,
        << Spoil("Y","old"), Start, At("X") >>,
        << Static("Y","junk"), Start, At("X") >>,
        << Static("X","*"), Start, At("X") >>,
        << Start, At("X"), Edit("Y"), At("X") >>,
        << Start, At("X"), Edit("Y"), Start, Gen("X","own","dot"), At("Y") >> >>
Thorough ==
  Quick \o << << Start, At("X"), Gen("Y","own","rel"), Gen("Z","sub","updown") >>,
              << Spoil("Y","*"), Start, Gen("X","own","dot"), At("Y") >>,
              << Start, Gen("X","own","*"), Gen("Y","mod","*") >>,
              << Spoil("X","*"), Start, Gen("X","*","*") >>,
              << Start, At("X"), Edit("Y"), Gen("Z","other","link"), At("X") >>,
              << Static("Y","*"), Start, At("X"), At("Y") >>,
              << Start, At("Y"), Start, At("X"), Start, At("Y"), Spoil("Y","cut"), At("X") >> >>
Scripts == CASE Mode = "quick" -> Quick [] Mode = "thorough" -> Thorough
             [] Mode = "ref" -> << << Start, At("X") >> >>
             [] Mode = "catalogue" -> << << Start, At("X"), Gen("X","own","rel"), Start, Gen("X","out","unclean") >> >>
             [] OTHER -> << <<>> >>
Free == Mode = "random"

VARIABLES scr, bind, pc, ver, disk, reg, hist
vars == << scr, bind, pc, ver, disk, reg, hist >>
Script == Scripts[scr]
Uses(s, v) == \E i \in 1..Len(s) : "f" \in DOMAIN s[i] /\ s[i].f = v

(* what the output of a run on f is                                        *)
Product(f) == IF Leaky /\ f \in Importing THEN [f |-> f, v |-> Vers(f, ver), m |-> reg] ELSE Of(f, ver)
AnyOut == { f \in Gens : TRUE }

Init == /\ scr \in 1..Len(Scripts)
        /\ bind \in { b \in [{"X","Y","Z"} -> Gens] : \A v \in {"X","Y","Z"} : Uses(Script, v) \/ b[v] = First }
        /\ pc = 1
        /\ ver \in IF Mode = "ref" THEN { [f \in Files |-> IF f \in S THEN 2 ELSE 1] : S \in SUBSET { f \in Deps(bind["X"]) \cup {bind["X"]} : Rec[f].v1 # Rec[f].v2 } }
                   ELSE { [f \in Files |-> 1] }
        /\ disk = [f \in Gens |-> None]
        /\ reg = {}
        /\ hist = IF Mode = "ref" THEN LET es == { f \in Files : ver[f] = 2 }
                                       IN [ i \in 1..Cardinality(es) |-> [op |-> "edit", f |-> Nth(es, i), v |-> 2] ]
                  ELSE <<>>

Step(rec) == /\ hist' = Append(hist, rec)
             /\ pc' = pc + 1
             /\ UNCHANGED << scr, bind >>
             /\ (pc = (IF Free THEN MaxLen ELSE Len(Script)) => PrintT("@H " \o ToJson([s |-> hist'])))
Cur == IF pc <= Len(Script) THEN Script[pc] ELSE [op |-> "end"]
File(c) == IF c.f \in DOMAIN bind THEN bind[c.f] ELSE c.f
Pick(x, all) == IF x = "*" THEN all ELSE {x}

DoStart == /\ reg' = {}
           /\ UNCHANGED << ver, disk >>
           /\ Step([op |-> "start"])
DoGen(f, cwd, style) == /\ disk' = [disk EXCEPT ![f] = Product(f)]
                        /\ reg' = reg \cup {f}
                        /\ UNCHANGED ver
                        /\ Step([op |-> "gen", f |-> f, cwd |-> cwd, style |-> style])
DoEdit(f) == /\ ver' = [ver EXCEPT ![f] = 3 - @]
             /\ UNCHANGED << disk, reg >>
             /\ Step([op |-> "edit", f |-> f, v |-> ver'[f]])
DoSpoil(f, how) == /\ disk' = [disk EXCEPT ![f] = [f |-> f, how |-> how]]
                   /\ UNCHANGED << ver, reg >>
                   /\ Step([op |-> "spoil", f |-> f, how |-> how])
DoStatic(f, how) == /\ UNCHANGED << ver, disk, reg >>
                    /\ Step([op |-> "static", f |-> f, how |-> how])

Scripted == \/ Cur.op = "start" /\ DoStart
            \/ Cur.op = "gen" /\ \E c \in Pick(Cur.cwd, Cwds), s \in Pick(Cur.style, Styles) : DoGen(File(Cur), c, s)
            \/ Cur.op = "edit" /\ DoEdit(File(Cur))
            \/ Cur.op = "spoil" /\ \E h \in Pick(Cur.how, Hows) : DoSpoil(File(Cur), h)
            \/ Cur.op = "static" /\ \E h \in Pick(Cur.how, Hows \ {"old"}) : DoStatic(File(Cur), h)
(* the unconstrained system: one successor of each kind, drawn at random   *)
Unbound == /\ pc <= MaxLen
           /\ IF pc = 1 THEN DoStart
              ELSE LET k == RandomElement(1..10) IN
                   CASE k <= 5 -> DoGen(RandomElement(Gens), RandomElement(Cwds), RandomElement(Styles))
                     [] k = 6  -> DoStart
                     [] k = 7  -> DoEdit(RandomElement(Files))
                     [] k = 8  -> DoSpoil(RandomElement(Gens), RandomElement(Hows))
                     [] k = 9  -> DoStatic(RandomElement(Gens), RandomElement(Hows \ {"old"}))
                     [] OTHER  -> DoGen(RandomElement(Importing), RandomElement(Cwds), RandomElement(Styles))
Next == IF Free THEN Unbound ELSE Scripted
Spec == Init /\ [][Next]_vars

LastOp == hist[Len(hist)]
Deterministic == (pc > 1 /\ LastOp.op = "gen") => disk[LastOp.f] = Of(LastOp.f, ver)
OnlyOwn == [][\A f \in Gens : disk'[f] # disk[f] => hist'[Len(hist')].f = f]_vars
SourcesKept == [][ver' # ver => hist'[Len(hist')].op = "edit"]_vars
=============================================================================
