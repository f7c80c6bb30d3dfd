-------------------------------- MODULE Intern --------------------------------
(***************************************************************************)
(* Interned names as users see them: handles that are made, cloned and     *)
(* dropped. A handle has a text, forever, and a storage. Handles share a   *)
(* storage exactly if they have the same text - among those that are alive *)
(* at the same time; what becomes of a text that nobody holds is open.     *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

VARIABLE live  \* handle -> [text, store]

Held == DOMAIN live
None == [h \in {} |-> 0]

IInit == live = None

Make(h, text, store) ==
  /\ h \notin Held
  /\ \A g \in Held : (live[g].text = text) <=> (live[g].store = store)
  /\ live' = (h :> [text |-> text, store |-> store]) @@ live

Clone(h, g) ==
  /\ h \notin Held /\ g \in Held
  /\ live' = (h :> live[g]) @@ live

Drop(h) ==
  /\ h \in Held
  /\ live' = [g \in Held \ {h} |-> live[g]]

Shared == \A g, h \in Held : (live[g].text = live[h].text) <=> (live[g].store = live[h].store)
Kept == [][\A h \in Held \cap DOMAIN live' : live'[h] = live[h]]_live
===============================================================================
