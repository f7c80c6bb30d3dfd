--------------------------------- MODULE Hack ----------------------------------
(***************************************************************************)
(* Texts of the language with a single character lost, added or replaced,  *)
(* or cut off anywhere. The library has to answer, whatever it says.       *)
(***************************************************************************)
EXTENDS Derive

VARIABLE hacked

Odd == << "(", ")", ";", " ", "?", "-", "{u}", "\n", "0", ".", "{nul}", "a", ":" >>

RECURSIVE Join(_, _)
Join(t, i) == IF i > Len(t) THEN ""
              ELSE (IF i > 1 /\ t[i - 1] # "(" /\ t[i] # ")" THEN " " ELSE "") \o t[i] \o Join(t, i + 1)
Whole == Join(Written, 1)

Hacked(s, i) ==
  LET a == SubSeq(s, 1, i - 1)
      b == SubSeq(s, i + 1, Len(s))
      c == Odd[((i * 7 + cfg.salt) % Len(Odd)) + 1]
      d == Odd[((i * 3 + Len(s)) % Len(Odd)) + 1]
  IN {a, a \o b, a \o c \o b, a \o d \o SubSeq(s, i, Len(s))}

HInit == Init /\ hacked = "?"
HNext == \/ Step /\ UNCHANGED hacked
         \/ /\ Done /\ hacked = "?"
            /\ \E i \in 1 .. Len(Whole) : \E h \in Hacked(Whole, i) : hacked' = h
            /\ UNCHANGED vars

EmitHacked == hacked # "?" => PrintT("@" \o ToJson([text |-> hacked]))
=============================================================================
