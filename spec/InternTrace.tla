----------------------------- MODULE InternTrace ------------------------------
(***************************************************************************)
(* Is what threads were seen to do at the same time something that Intern  *)
(* allows? A handle is held from when its making returns until its         *)
(* dropping starts; the recorded order is that of a counter that every     *)
(* thread incremented before it dropped and after it made a name.          *)
(***************************************************************************)
EXTENDS Intern, Json

CONSTANT File
ASSUME TLCSet(42, ndJsonDeserialize(File))
Trace == TLCGet(42)

VARIABLES c, l
Ev == Trace[c].log[l]

TInit == IInit /\ c \in 1 .. Len(Trace) /\ l = 1
TNext ==
  /\ l <= Len(Trace[c].log)
  /\ l' = l + 1 /\ c' = c
  /\ \/ Ev.op = "make" /\ Make(Ev.h, Ev.text, Ev.store)
     \/ Ev.op = "drop" /\ Drop(Ev.h)
     \/ Ev.op = "read" /\ Ev.h \in Held /\ live[Ev.h].text = Ev.text /\ UNCHANGED live

\* Those that are not printed are not allowed.
Emit == l = Len(Trace[c].log) + 1 => PrintT("@" \o ToJson([c |-> c]))
===============================================================================
