----------------------------- MODULE InternTable ------------------------------
(***************************************************************************)
(* How the library does it: one sorted table behind one lock. A thread     *)
(* takes the lock, looks its text up by bisection, inserts a new string if *)
(* it is not there, takes a reference to what is there, and lets go.       *)
(* With Locked = FALSE the lookup happens before the lock is taken, which  *)
(* is wrong, and which the invariants have to find.                        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Threads, Texts, Most, Locked

VARIABLES table,  \* sequence of [text, store], sorted
          lock,   \* the thread that holds it, or 0
          th,     \* thread -> [pc, text, pos, hit, made]
          live    \* what users hold

A == INSTANCE Intern
vars == <<table, lock, th, live>>

\* Where the text is, or where it belongs. The table is sorted downwards.
Hit(x) == \E i \in 1 .. Len(table) : table[i].text = x
Place(x) == 1 + Cardinality({i \in 1 .. Len(table) : table[i].text > x})
InsertAt(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))

Init ==
  /\ table = <<>> /\ lock = 0
  /\ th = [t \in Threads |-> [pc |-> "idle", text |-> 0, pos |-> 0, hit |-> FALSE, made |-> 0]]
  /\ live = [h \in {} |-> 0]

Go(t, r) == th' = [th EXCEPT ![t] = r]

Begin(t) ==
  /\ th[t].pc = "idle" /\ th[t].made < Most
  /\ \E x \in Texts : Go(t, [th[t] EXCEPT !.pc = IF Locked THEN "want" ELSE "look", !.text = x])
  /\ UNCHANGED <<table, lock, live>>

Acquire(t) ==
  /\ th[t].pc = "want" /\ lock = 0
  /\ lock' = t
  /\ Go(t, [th[t] EXCEPT !.pc = IF Locked THEN "look" ELSE "put"])
  /\ UNCHANGED <<table, live>>

Look(t) ==
  /\ th[t].pc = "look"
  /\ Go(t, [th[t] EXCEPT !.pc = IF Locked THEN "put" ELSE "want",
                         !.pos = Place(th[t].text), !.hit = Hit(th[t].text)])
  /\ UNCHANGED <<table, lock, live>>

Fresh == Cardinality({table[i].store : i \in 1 .. Len(table)}) + 1

Put(t) ==
  /\ th[t].pc = "put"
  /\ IF th[t].hit THEN UNCHANGED table
     ELSE table' = InsertAt(table, th[t].pos, [text |-> th[t].text, store |-> Fresh])
  /\ Go(t, [th[t] EXCEPT !.pc = "take"])
  /\ UNCHANGED <<lock, live>>

Take(t) ==
  /\ th[t].pc = "take"
  /\ live' = (<<t, th[t].made>> :> [text |-> th[t].text, store |-> table[th[t].pos].store]) @@ live
  /\ lock' = 0
  /\ Go(t, [th[t] EXCEPT !.pc = "idle", !.made = @ + 1, !.text = 0, !.pos = 0, !.hit = FALSE])
  /\ UNCHANGED table

Let(h) ==
  /\ A!Drop(h)
  /\ UNCHANGED <<table, lock, th>>

Next == (\E t \in Threads : Begin(t) \/ Acquire(t) \/ Look(t) \/ Put(t) \/ Take(t))
        \/ (\E h \in DOMAIN live : Let(h))

TypeOK == /\ lock \in Threads \cup {0}
          /\ \A t \in Threads : th[t].pc \in {"idle", "want", "look", "put", "take"}
Exclusive == Locked => \A t \in Threads : th[t].pc \in {"look", "put", "take"} => lock = t
Sorted == \A i, j \in 1 .. Len(table) : i < j => table[i].text > table[j].text
Distinct == \A i, j \in 1 .. Len(table) : i # j => table[i].store # table[j].store
Shared == A!Shared
Kept == A!Kept
\* Every step is one that users may see, or nothing that they see.
Refines == [][(\E h \in DOMAIN live' : A!Make(h, live'[h].text, live'[h].store))
              \/ (\E h \in DOMAIN live : A!Drop(h))]_live
\* Whoever wants a name gets it.
Fair == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Acquire(t)) /\ WF_vars(Look(t)) /\ WF_vars(Put(t)) /\ WF_vars(Take(t))
Served == \A t \in Threads : (th[t].pc = "want") ~> (th[t].pc = "idle")
===============================================================================
