-------------------------------- MODULE Mutate --------------------------------
(***************************************************************************)
(* Texts near the language: the derivation machine followed by at most     *)
(* Damage mutations of the finished text. What such a text means is not    *)
(* known here; Validate decides it.                                        *)
(***************************************************************************)
EXTENDS Derive, Lexical

CONSTANTS Damage,  \* how many mutations
          Spread,  \* how many foreign words are tried at each position
          Kind     \* "any", or "words" for damage to the spelling of words only

VARIABLES txt,  \* the damaged text, once there is one
          hurt  \* how many mutations it has suffered

Foreign == <<
  "(", ")", "and", "n9", "forall", "5", "at", "?v9", "not", "-", "or", "end", "=", "when", "start",
  "(", ")", "preference", "over", "all", "<", "imply", "exists", "always", "sometime", "within", ">=",
  "+", "*", "/", "2.5", "undefined", "?duration", "#t", "either", ":effect", ":parameters", "assign",
  "(", ")", "increase", "total-time", "is-violated", "object", "minimize", ":strips", ":typing",
  "hold-during", "change", "scale-up", "sometime-after", ":condition", ":precondition", "h9",
  ":requirements", ":goal", ":init", "define", "number", ":action", "decrease", "at-most-once",
  "18446744073709551616", "340282356779733661637539395458142568448", "99999999999999999999999999999999999999999999" >>

NoText == <<"">>

Cut(s, i, j) == SubSeq(s, 1, i - 1) \o SubSeq(s, j + 1, Len(s))
Put(s, i, t) == SubSeq(s, 1, i - 1) \o t \o SubSeq(s, i, Len(s))

\* The end of the group that is opened at i (0 if it is not closed).
RECURSIVE CloseOf(_, _, _)
CloseOf(s, j, d) ==
  IF j > Len(s) THEN 0
  ELSE IF s[j] = "(" THEN CloseOf(s, j + 1, d + 1)
  ELSE IF s[j] = ")" THEN IF d = 1 THEN j ELSE CloseOf(s, j + 1, d - 1)
  ELSE CloseOf(s, j + 1, d)

Paren(w) == w \in {"(", ")"}

\* What the library reads as one word, if it reads it at all. (It reads "1x"
\* like "1 x" and "=x" like "= x"; nobody should rely on that.)
Wordly(w) ==
  \/ w \in {"(", ")", "+", "-", "*", "/", "<", ">", "<=", ">=", "="}
  \/ IsName(w) \/ IsNum(w)
  \/ w # "" /\ At(w, 1) \in {":", "#", "?"} /\ \A i \in 2 .. Len(w) : At(w, i) \in InName

\* Everything that can happen to the text s at position i.
HurtAny(s, i) ==
  LET w(x) == Foreign[((i * 5 + x * 17 + cfg.salt + Len(s) * 3) % Len(Foreign)) + 1]
      e    == IF s[i] = "(" THEN CloseOf(s, i, 0) ELSE 0
      e2   == IF e > 0 /\ e < Len(s) /\ s[e + 1] = "(" THEN CloseOf(s, e + 1, 0) ELSE 0
  IN {Cut(s, i, i), Put(s, i, <<s[i]>>), SubSeq(s, 1, i - 1)}
     \cup (IF i < Len(s) THEN {[s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]} ELSE {})
     \cup {[s EXCEPT ![i] = w(x)] : x \in 1 .. Spread}
     \cup {Put(s, i, <<w(x + 3)>>) : x \in 1 .. Spread}
     \* two words that become one, and one word that becomes two
     \cup (IF i < Len(s) /\ ~Paren(s[i]) /\ ~Paren(s[i + 1]) /\ Wordly(s[i] \o s[i + 1])
           THEN {Put(Cut(s, i, i + 1), i, <<s[i] \o s[i + 1]>>)} ELSE {})
     \cup (IF Len(s[i]) > 1
           THEN LET j == 1 + (i % (Len(s[i]) - 1))
                    a == SubSeq(s[i], 1, j)
                    b == SubSeq(s[i], j + 1, Len(s[i]))
                IN IF Wordly(a) /\ Wordly(b) THEN {Put(Cut(s, i, i), i, <<a, b>>)} ELSE {}
           ELSE {})
     \* a word that gets longer or shorter
     \cup (IF ~Paren(s[i])
           THEN {[s EXCEPT ![i] = v] : v \in {v \in {s[i] \o "s", SubSeq(s[i], 1, Len(s[i]) - 1)} :
                                             v # "" /\ Wordly(v)}}
           ELSE {})
     \* groups that get lost, doubled, exchanged, wrapped or unwrapped
     \cup (IF e > 0 THEN {Cut(s, i, e), Put(s, i, SubSeq(s, i, e)), Cut(Cut(s, e, e), i, i),
                          Put(Put(s, e + 1, <<")">>), i, <<"(">>),
                          Put(Put(s, e + 1, <<")">>), i, <<"(", w(1)>>)} ELSE {})
     \cup (IF e2 > 0 THEN {Put(Cut(s, i, e), i + e2 - e, SubSeq(s, i, e))} ELSE {})

\* What can happen to the spelling of word i.
Change_(w) == {w \o x : x \in {"s", "1", "-", "_x", "-or", "Z"}} \cup {"x" \o w, "not-" \o w}
              \cup {SubSeq(w, 1, j) : j \in 1 .. Len(w) - 1} \cup {SubSeq(w, 2, Len(w))}
HurtWord(s, i) ==
  IF Paren(s[i]) THEN {}
  ELSE {[s EXCEPT ![i] = v] : v \in {v \in Change_(s[i]) : Wordly(v)}}
       \cup (IF i < Len(s) /\ ~Paren(s[i + 1])
             THEN {Put(Cut(s, i, i + 1), i, <<v>>) :
                     v \in {v \in {s[i] \o s[i + 1], s[i] \o "-" \o s[i + 1]} : Wordly(v)}} ELSE {})
       \cup {Put(Cut(s, i, i), i, <<SubSeq(s[i], 1, j), SubSeq(s[i], j + 1, Len(s[i]))>>) :
               j \in {j \in 1 .. Len(s[i]) - 1 :
                        Wordly(SubSeq(s[i], 1, j)) /\ Wordly(SubSeq(s[i], j + 1, Len(s[i])))}}

Hurt(s, i) == IF Kind = "words" THEN HurtWord(s, i) ELSE HurtAny(s, i)

Mutation ==
  /\ Done /\ hurt < Damage
  /\ LET s == IF hurt = 0 THEN Written ELSE txt
     IN \E i \in 1 .. Len(s) : \E t \in Hurt(s, i) :
          /\ t # s
          /\ txt' = t
  /\ hurt' = hurt + 1
  /\ UNCHANGED vars

MInit == Init /\ txt = NoText /\ hurt = 0
MNext == (Step /\ UNCHANGED <<txt, hurt>>) \/ Mutation

\* Layouts of the same text, for Damage > 0 and Layouts that matter.
EmitMutant == hurt > 0 => PrintT("@" \o ToJson([root |-> cfg.root, toks |-> txt]))
EmitLaidOut == hurt > 0 => PrintT("@" \o ToJson(
  [root |-> cfg.root, toks |-> txt,
   layouts |-> <<Gaps(0, txt, FALSE), Gaps(1, txt, FALSE), Gaps(2 + (Len(txt) % 7), txt, FALSE),
                 Gaps(9 + (Len(txt) % 5), txt, FALSE)>>]))
=============================================================================
